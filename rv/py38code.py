"""types.CodeType as Python 3.6 to 3.8 have it, on the Python that runs here.

causalnex.inference builds its node functions by giving CodeType the sixteen arguments that it takes up to
Python 3.10, and it names only the arguments of the function as its local variables.  From 3.11 the arguments are
others, and a code object whose body uses local variables of its own must name them too.  legacy_code makes the
equivalent code object: same body, the given arguments, and private names for the variables of the body.
"""
import dis
import sys
import types

CodeType = types.CodeType


def original(code_bytes):
    """The code object that the caller is rewriting, to take what the old signature does not pass."""
    frame = sys._getframe(2)
    while frame is not None:
        for value in list(frame.f_locals.values()):
            code = getattr(value, "__code__", value)
            if isinstance(code, CodeType) and code.co_code == code_bytes:
                return code
        frame = frame.f_back
    return None


def legacy_code(argcount, posonly, kwonly, nlocals, stacksize, flags, code, consts, names, varnames, filename, name, firstlineno, lnotab, freevars=(), cellvars=()):
    source = original(code)
    body_args = source.co_argcount + source.co_kwonlyargcount if source is not None else 0
    own = 0
    extended = 0
    for k in range(0, len(code), 2):
        op = code[k]
        if op == dis.EXTENDED_ARG:
            extended = (extended | code[k + 1]) << 8
            continue
        if op in dis.haslocal:
            own = max(own, (extended | code[k + 1]) + 1)
        extended = 0
    if source is not None:
        own = len(source.co_varnames)
    if body_args:
        raise ValueError("the rewritten function has arguments of its own")
    shift = len(varnames)
    out = bytearray(code)
    for k in range(0, len(code), 2):
        op = code[k]
        if op in dis.haslocal or op in dis.hasfree:
            if code[k + 1] + shift > 255 or (k and code[k - 2] == dis.EXTENDED_ARG):
                raise ValueError("too many variables")
            out[k + 1] = code[k + 1] + shift
    hidden = tuple(".l%d" % k for k in range(own))
    table = getattr(source, "co_exceptiontable", b"")
    lines = getattr(source, "co_linetable", b"")
    return CodeType(argcount, posonly, kwonly, nlocals + own, stacksize, flags, bytes(out), consts, names, tuple(varnames) + hidden, filename, name, name,
                    firstlineno, lines, table, freevars, cellvars)


class Types:
    """The module types, except for CodeType."""

    def __getattr__(self, name):
        return getattr(types, name)

    @staticmethod
    def CodeType(*args, **kwargs):
        if len(args) in (15, 16) and not kwargs:
            if len(args) == 15:
                args = (args[0], 0) + args[1:]
            return legacy_code(*args)
        return CodeType(*args, **kwargs)


def install(module):
    module.types = Types()
    if hasattr(module, "CodeType"):
        module.CodeType = Types.CodeType

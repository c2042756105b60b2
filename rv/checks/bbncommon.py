"""Comparisons shared by the ebaybbn checks."""
from enum import Enum
from fractions import Fraction

from rv.core import close


def compare(ctx, net, got, want, evidence, what, normalise=None, rel=1e-9):
    """got must have exactly one entry per (variable, value) and the exact value of each."""
    expected_keys = set(want)
    keys = set(got)
    ctx.check(keys == expected_keys, lambda: "%s: entries missing %r, unexpected %r; evidence %r; network %r" % (
        what, sorted(map(repr, expected_keys - keys))[:4], sorted(map(repr, keys - expected_keys))[:4], evidence, net.describe()))
    for k, w in want.items():
        if normalise is not None:
            w = w / normalise if normalise else Fraction(0)
        g = got[k]
        ok = close(g, w, rel, 0.0) if w else g == 0
        ctx.count("marginals_compared")
        ctx.check(ok, lambda: "%s: P(%r) = %r, should be %r; evidence %r; network %r" % (
            what, k, g, float(w), evidence, net.describe()))


def equal_copy(rng, x):
    """A value that equals x but, where the type allows, is another object (as one computed at run time would be)."""
    if rng.random() < 0.5 or isinstance(x, (bool, Enum)) or x is None:
        return x
    if isinstance(x, int):
        return int(str(x))
    if isinstance(x, float):
        return float(repr(x))
    if isinstance(x, str):
        return "".join(list(x + "-"))[:-1]
    if isinstance(x, bytes):
        return bytes(bytearray(x + b"-"))[:-1]
    if isinstance(x, tuple):
        return tuple(list(x))
    if isinstance(x, frozenset):
        return frozenset(set(x))
    return x


def possible_evidence(rng, net, k=None):
    """Evidence of positive probability."""
    a = net.sample(rng)
    names = sorted(net.order)
    k = rng.randint(0, len(names)) if k is None else k
    return {v: equal_copy(rng, a[v]) for v in rng.sample(names, min(k, len(names)))}


def any_evidence(rng, net):
    names = sorted(net.order)
    return {v: equal_copy(rng, rng.choice(net.domains[v])) for v in rng.sample(names, rng.randint(1, len(names)))}

"""A stand-in for the part of torch 1.7 that causalnex uses; see _tensor.py."""
import contextlib
import functools

import numpy as np

from rv.core import ShimGap

from . import _tensor as _t
from ._tensor import (DTYPES, ELEMENTWISE, FUNCTIONS, Size, Tensor, cat, device, div, dtype, einsum, maximum, minimum, mul, power as pow, stack, where)  # noqa: F401

__version__ = "1.7.1"
_D = {d.name: d for d in DTYPES.values()}
float32 = float = _D["float32"]
float64 = double = _D["float64"]
float16 = half = _D["float16"]
int64 = long = _D["int64"]
int32 = int = _D["int32"]
int16, int8, uint8 = _D["int16"], _D["int8"], _D["uint8"]
bool = _D["bool"]
strided = "strided"
pi, inf, nan = np.pi, np.inf, np.nan
FloatTensor = Tensor


def LongTensor(*args):
    return tensor(args[0], dtype=int64) if args and isinstance(args[0], (list, tuple, np.ndarray)) else Tensor._of(np.full(_t._ints(args), 99, dtype=np.int64))


def BoolTensor(*args):
    return tensor(args[0], dtype=bool)


def DoubleTensor(*args):
    return tensor(args[0], dtype=float64) if args and isinstance(args[0], (list, tuple, np.ndarray)) else Tensor._of(np.full(_t._ints(args), np.nan))



for _name, _op in list(ELEMENTWISE.items()) + list(FUNCTIONS.items()):
    if _name not in ("softplus", "logsigmoid"):
        globals()[_name] = _op
add, sub, subtract, multiply, true_divide, divide = Tensor.add, Tensor.sub, Tensor.sub, mul, div, div
for _name in ("eq", "ne", "lt", "le", "gt", "ge", "squeeze", "unsqueeze", "transpose", "t", "flatten", "reshape", "diag", "diagonal", "trace", "clone", "all", "any", "nonzero",
              "narrow", "select", "unbind", "numel", "is_floating_point"):
    globals()[_name] = getattr(Tensor, _name)
from . import _more  # noqa: E402

globals().update(_more.FUNCTIONS_MORE)
greater, greater_equal, less, less_equal, not_equal = Tensor.gt, Tensor.ge, Tensor.lt, Tensor.le, Tensor.ne
ravel, detach = _more.Tensor.ravel, Tensor.detach


def is_tensor(x):
    return isinstance(x, Tensor)


def get_default_dtype():
    return DTYPES[_t.DEFAULT]


def set_default_dtype(d):
    if d is not float32:
        raise ShimGap("another default type")


def _dtype_of(data, d):
    if d is not None:
        return d.np
    kind = np.asarray(data).dtype
    if isinstance(data, np.ndarray) or isinstance(data, np.generic):
        return kind
    return _t.DEFAULT if kind.kind == "f" else np.dtype("int64") if kind.kind in "iu" else kind


def tensor(data, dtype=None, device=None, requires_grad=False, pin_memory=False):
    if isinstance(data, Tensor):
        data = data._a
    if isinstance(data, (list, tuple)):
        data = [x.tolist() if isinstance(x, Tensor) else x for x in data]
    out = Tensor._of(np.array(data, dtype=_dtype_of(data, dtype)))
    return out.requires_grad_() if requires_grad else out


def from_numpy(a):
    if not isinstance(a, np.ndarray):
        raise TypeError("expected np.ndarray (got %s)" % type(a).__name__)
    if a.dtype not in DTYPES:
        raise TypeError("can't convert np.ndarray of type %s." % a.dtype)
    return Tensor._of(a)


def as_tensor(data, dtype=None, device=None):
    if isinstance(data, Tensor):
        return data if dtype is None else data.type(dtype)
    if isinstance(data, np.ndarray):
        return from_numpy(data) if dtype is None else from_numpy(data).type(dtype)
    return tensor(data, dtype)


def _make(f):
    def op(*shape, dtype=None, device=None, requires_grad=False, out=None, layout=None):
        a = Tensor._of(f(_t._ints(shape)).astype(_t.DEFAULT if dtype is None else dtype.np))
        return a.requires_grad_() if requires_grad else a
    return op


zeros, ones = _make(np.zeros), _make(np.ones)
empty = _make(lambda s: np.full(s, np.nan))
rand, randn = _make(lambda s: _t.RANDOM.uniform(size=s)), _make(lambda s: _t.RANDOM.standard_normal(size=s))


def full(size, fill_value, dtype=None, device=None, requires_grad=False):
    return Tensor._of(np.full(_t._ints((size,)), fill_value, dtype=_dtype_of(fill_value, dtype)))


def zeros_like(x, dtype=None, device=None):
    return Tensor._of(np.zeros(x._a.shape, dtype=x._a.dtype if dtype is None else dtype.np))


def ones_like(x, dtype=None, device=None):
    return Tensor._of(np.ones(x._a.shape, dtype=x._a.dtype if dtype is None else dtype.np))


def empty_like(x, dtype=None, device=None):
    t = x._a.dtype if dtype is None else dtype.np
    return Tensor._of(np.full(x._a.shape, np.nan if t.kind == "f" else 99, dtype=t))


def rand_like(x):
    return rand(*x._a.shape)


def randn_like(x):
    return randn(*x._a.shape)


def randint(low, high=None, size=None, dtype=None, generator=None):
    if size is None:
        low, high, size = 0, low, high
    return Tensor._of(_t.RANDOM.randint(low, high, size=tuple(size)))


def randperm(n, generator=None):
    return Tensor._of(_t.RANDOM.permutation(n))


def tril_indices(row, col, offset=0):
    return Tensor._of(np.stack(np.tril_indices(row, offset, col)))


def triu_indices(row, col, offset=0):
    return Tensor._of(np.stack(np.triu_indices(row, offset, col)))


def full_like(x, value, dtype=None, device=None):
    return Tensor._of(np.full(x._a.shape, value, dtype=x._a.dtype if dtype is None else dtype.np))


def eye(n, m=None, dtype=None, device=None, requires_grad=False):
    return Tensor._of(np.eye(n, m, dtype=_t.DEFAULT if dtype is None else dtype.np))


def arange(*args, dtype=None, device=None):
    a = np.arange(*args)
    return Tensor._of(a.astype(_dtype_of(a.tolist() or [0], dtype)))


def linspace(start, end, steps, dtype=None, device=None):
    return Tensor._of(np.linspace(start, end, steps).astype(_t.DEFAULT))


def manual_seed(seed):
    _t.RANDOM.seed(seed % 2 ** 32)


def addmm(x, a, b, beta=1, alpha=1):
    return x * beta + FUNCTIONS["matmul"](a, b) * alpha


def allclose(x, y, rtol=1e-05, atol=1e-08, equal_nan=False):
    return np.allclose(x._a, y._a, rtol, atol, equal_nan)


def equal(x, y):
    return x._a.shape == y._a.shape and np.array_equal(x._a, y._a)


def numel(x):
    return x.numel()


class _GradMode:
    def __init__(self, on):
        self.on = on

    def __enter__(self):
        self.before = _t._grad_enabled[0]
        _t._grad_enabled[0] = self.on

    def __exit__(self, *args):
        _t._grad_enabled[0] = self.before
        return False

    def __call__(self, fn):
        on = self.on

        @functools.wraps(fn)
        def inner(*args, **kwargs):
            with _GradMode(on):
                return fn(*args, **kwargs)
        return inner


class no_grad(_GradMode):
    def __init__(self):
        super().__init__(False)


class enable_grad(_GradMode):
    def __init__(self):
        super().__init__(True)


class set_grad_enabled(_GradMode):
    def __init__(self, on):
        self.before, _t._grad_enabled[0] = _t._grad_enabled[0], on
        self.on = on

    def __enter__(self):
        pass


def is_grad_enabled():
    return _t._grad_enabled[0]


class _Cuda:
    @staticmethod
    def is_available():
        return False


cuda = _Cuda()

class finfo:
    def __init__(self, d=None):
        f = np.finfo(_t.DEFAULT if d is None else d.np)
        self.eps, self.max, self.min, self.tiny = (x.item() for x in (f.eps, f.max, f.min, f.tiny))


def set_num_threads(n):
    pass


def is_inference_mode_enabled():
    return False


from . import autograd, linalg, nn, optim, special  # noqa: E402,F401


def __getattr__(name):
    if name.startswith("__"):
        raise AttributeError(name)
    raise ShimGap("torch.%s" % name)

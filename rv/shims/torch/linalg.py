from rv.core import ShimGap

from ._more import det, inverse as inv, matrix_exp, slogdet  # noqa: F401
from ._tensor import matrix_power, norm as _norm


def norm(x, ord=None, dim=None, keepdim=False):
    if dim is None and ord not in (None, "fro") and x.ndim > 1:
        raise ShimGap("an operator norm")
    return _norm(x, 2 if ord in (None, "fro") else ord, dim, keepdim)


vector_norm = lambda x, ord=2, dim=None, keepdim=False: _norm(x, ord, dim, keepdim)  # noqa: E731


def __getattr__(name):
    if name.startswith("__"):
        raise AttributeError(name)
    raise ShimGap("torch.linalg.%s" % name)

"""More of torch, for code that reaches the same result by other calls than causalnex makes today."""
import numpy as np

from rv.core import ShimGap

from . import _tensor as _t
from ._tensor import DTYPES, ELEMENTWISE, FUNCTIONS, Node, Tensor, _elementwise, _from_view, _many, _Pair, _unary, _wrap  # noqa: F401


def _rearranged(x, f):
    """The elements of x at the places f picks."""
    index = np.asarray(f(np.arange(x._a.size).reshape(x._a.shape)))
    return _unary(x, x._a.reshape(-1)[index], _from_view(x._a.shape, index, True))


def _constant(a):
    return Tensor._of(np.asarray(a))


def tril(x, diagonal=0):
    m = np.tril(np.ones(x._a.shape, dtype=bool), diagonal)
    return _unary(x, np.where(m, x._a, x._a.dtype.type(0)), lambda g: np.where(m, g, 0))


def triu(x, diagonal=0):
    m = np.triu(np.ones(x._a.shape, dtype=bool), diagonal)
    return _unary(x, np.where(m, x._a, x._a.dtype.type(0)), lambda g: np.where(m, g, 0))


def diag_embed(x, offset=0, dim1=-2, dim2=-1):
    if (offset, dim1, dim2) != (0, -2, -1):
        raise ShimGap("diag_embed of other dimensions")
    n = x._a.shape[-1]
    return x.unsqueeze(-1) * Tensor._of(np.eye(n, dtype=x._a.dtype))


def outer(x, y, out=None):
    return x.unsqueeze(1) * y.unsqueeze(0)


def diff(x, n=1, dim=-1, prepend=None, append=None):
    parts = [p for p in (prepend, x, append) if p is not None]
    x = _t.cat(parts, dim) if len(parts) > 1 else x
    for _ in range(n):
        size = x._a.shape[dim]
        x = x.narrow(dim, 1, size - 1) - x.narrow(dim, 0, size - 1)
    return x


def _amount(name):
    pick = getattr(np, name)

    def op(x, dim=None, keepdim=False):
        axes = _t._axes(dim if dim != () else None, x._a.ndim)
        a = pick(x._a, axis=axes, keepdims=True)
        hit = x._a == a
        share = hit / hit.sum(axis=axes, keepdims=True)
        o = a if keepdim else a.squeeze() if axes is None else a.squeeze(axes)
        return _unary(x, o, lambda g: (share * np.asarray(g).reshape(a.shape)).astype(x._a.dtype))
    return op


def clamp_min(x, min):
    return FUNCTIONS["clamp"](x, min=min)


def clamp_max(x, max):
    return FUNCTIONS["clamp"](x, max=max)


def cumprod(x, dim, dtype=None):
    parts, out = x.unbind(dim), []
    for p in parts:
        out.append(p if not out else out[-1] * p)
    return _t.stack(out, dim)


def logit(x, eps=None):
    if eps is not None:
        x = FUNCTIONS["clamp"](x, min=eps, max=1 - eps)
    return (x / (1 - x)).log()


def _ordered(x, dim, descending):
    a = -x._a if descending and x._a.dtype.kind == "f" else x._a
    i = np.argsort(a, axis=dim, kind="stable")
    return np.flip(i, dim) if descending and x._a.dtype.kind != "f" else i


def argsort(x, dim=-1, descending=False):
    return _constant(_ordered(x, dim, descending).copy())


def sort(x, dim=-1, descending=False):
    i = _ordered(x, dim, descending)
    return _Pair((_rearranged(x, lambda p: np.take_along_axis(p, i, dim)), _constant(i.copy())))


def topk(x, k, dim=-1, largest=True, sorted=True):
    values, index = sort(x, dim, largest)
    return _Pair((values.narrow(dim % x._a.ndim, 0, k), index.narrow(dim % x._a.ndim, 0, k)))


def unique(x, sorted=True, return_inverse=False, return_counts=False, dim=None):
    out = np.unique(x._a, return_inverse=True, return_counts=True, axis=dim)
    result = [Tensor._of(out[0])]
    if return_inverse:
        result.append(_constant(out[1].reshape(x._a.shape) if dim is None else out[1].reshape(-1)))
    if return_counts:
        result.append(_constant(out[2]))
    return result[0] if len(result) == 1 else tuple(result)


def flip(x, *dims):
    dims = _t._ints(dims)
    return _rearranged(x, lambda p: np.flip(p, dims))


def roll(x, shifts, dims=None):
    return _rearranged(x, lambda p: np.roll(p, shifts, dims))


def movedim(x, source, destination):
    return x._as_view(lambda a: np.moveaxis(a, source, destination))


def split(x, size, dim=0):
    n = x._a.shape[dim]
    sizes = [min(size, n - k) for k in range(0, n, size)] if isinstance(size, (int, np.integer)) else list(size)
    if sum(sizes) != n:
        raise RuntimeError("split_with_sizes expects split_sizes to sum exactly to %d" % n)
    starts = np.cumsum([0] + sizes)
    return tuple(x.narrow(dim, int(s), int(m)) for s, m in zip(starts, sizes))


def chunk(x, chunks, dim=0):
    return split(x, max(-(-x._a.shape[dim] // chunks), 1), dim)


def hstack(tensors):
    tensors = [t.reshape(1) if t._a.ndim == 0 else t for t in tensors]
    return _t.cat(tensors, 0 if tensors[0]._a.ndim == 1 else 1)


def vstack(tensors):
    return _t.cat([t.reshape(1, -1) if t._a.ndim < 2 else t for t in tensors], 0)


def tensordot(x, y, dims=2):
    if isinstance(dims, int):
        dims = (list(range(x._a.ndim - dims, x._a.ndim)), list(range(dims)))
    left, right = [[d % t._a.ndim for d in ([ds] if isinstance(ds, int) else ds)] for t, ds in ((x, dims[0]), (y, dims[1]))]
    keep_x = [d for d in range(x._a.ndim) if d not in left]
    keep_y = [d for d in range(y._a.ndim) if d not in right]
    shape = [x._a.shape[d] for d in keep_x] + [y._a.shape[d] for d in keep_y]
    inner = int(np.prod([x._a.shape[d] for d in left])) if left else 1
    a = x.permute(*(keep_x + left)).reshape(-1, inner)
    b = y.permute(*(right + keep_y)).reshape(inner, -1)
    return FUNCTIONS["matmul"](a, b).reshape(*shape)


def kron(x, y):
    if x._a.ndim != 2 or y._a.ndim != 2:
        raise ShimGap("kron of other than matrices")
    (a, b), (c, d) = x._a.shape, y._a.shape
    return (x.reshape(a, 1, b, 1) * y.reshape(1, c, 1, d)).reshape(a * c, b * d)


def block_diag(*tensors):
    rows, width, at = [], sum(t._a.shape[1] for t in tensors), 0
    for t in tensors:
        n, m = t._a.shape
        rows.append(_t.cat([Tensor._of(np.zeros((n, at), dtype=t._a.dtype)), t, Tensor._of(np.zeros((n, width - at - m), dtype=t._a.dtype))], 1))
        at += m
    return _t.cat(rows, 0)


def masked_select(x, mask):
    m = np.broadcast_to(mask._a, x._a.shape)
    return _rearranged(x, lambda p: p[m])


def take(x, index):
    return _rearranged(x, lambda p: p.reshape(-1)[index._a])


def repeat_interleave(x, repeats, dim=None):
    n = repeats._a if isinstance(repeats, Tensor) else repeats
    return _rearranged(x, lambda p: np.repeat(p, n, axis=dim))


def _placed(x, dim, index, src, add):
    places = np.arange(x._a.size).reshape(x._a.shape)
    key = tuple(index._a if d == dim % x._a.ndim else np.arange(index._a.shape[d]).reshape([-1 if e == d else 1 for e in range(x._a.ndim)]) for d in range(x._a.ndim))
    flat = np.broadcast_to(places[key], index._a.shape)
    if not isinstance(src, Tensor):
        src = Tensor._of(np.full(index._a.shape, src, dtype=x._a.dtype))
    cut = src[tuple(slice(0, n) for n in index._a.shape)] if src._a.shape != index._a.shape else src
    a = x._a.copy().reshape(-1)
    if add:
        np.add.at(a, flat.reshape(-1), cut._a.reshape(-1))
    else:
        a[flat.reshape(-1)] = cut._a.reshape(-1)

    def back_x(g):
        if add:
            return g
        out = np.array(g).reshape(-1)
        out[flat.reshape(-1)] = 0
        return out.reshape(g.shape)

    return _many([x, cut], a.reshape(x._a.shape), [back_x, lambda g: np.asarray(g).reshape(-1)[flat]])


def scatter(x, dim, index, src=None, value=None):
    return _placed(x, dim, index, value if src is None else src, False)


def scatter_add(x, dim, index, src):
    return _placed(x, dim, index, src, True)


def index_add(x, dim, index, source, alpha=1):
    shape = [1] * x._a.ndim
    shape[dim] = -1
    full = Tensor._of(np.broadcast_to(index._a.reshape(shape), source._a.shape).copy())
    return scatter_add(x, dim, full, source if alpha == 1 else source * alpha)


def index_copy(x, dim, index, source):
    shape = [1] * x._a.ndim
    shape[dim] = -1
    return scatter(x, dim, Tensor._of(np.broadcast_to(index._a.reshape(shape), source._a.shape).copy()), source)


def index_fill(x, dim, index, value):
    key = [slice(None)] * x._a.ndim
    key[dim] = index
    out = x.clone()
    out[tuple(key)] = value
    return out


def masked_scatter(x, mask, source):
    out = x.clone()
    m = np.broadcast_to(mask._a, x._a.shape)
    out[Tensor._of(m)] = source.reshape(-1)[:int(m.sum())]
    return out


def _test(f):
    return lambda x: _constant(f(x._a))


def _logical(name):
    f = getattr(np, name)
    return lambda x, y: _constant(f(x._a, _wrap(y)._a))


def count_nonzero(x, dim=None):
    return _constant(np.count_nonzero(x._a, axis=dim))


def nansum(x, dim=None, keepdim=False):
    return FUNCTIONS["sum"](nan_to_num(x, 0.0, None, None), dim, keepdim)


def nan_to_num(x, nan=0.0, posinf=None, neginf=None):
    ok = ~np.isnan(x._a)
    a = np.where(ok, x._a, x._a.dtype.type(nan))
    if posinf is not None:
        a = np.where(np.isposinf(a), x._a.dtype.type(posinf), a)
    if neginf is not None:
        a = np.where(np.isneginf(a), x._a.dtype.type(neginf), a)
    return _unary(x, a, lambda g: np.where(ok, g, 0))


def lerp(x, end, weight):
    return x + (end - x) * weight


def addcmul(x, a, b, value=1):
    return x + a * b * value


def addcdiv(x, a, b, value=1):
    return x + a / b * value


def addmv(x, a, b, beta=1, alpha=1):
    return x * beta + FUNCTIONS["matmul"](a, b) * alpha


def baddbmm(x, a, b, beta=1, alpha=1):
    return x * beta + FUNCTIONS["matmul"](a, b) * alpha


def chain_matmul(*matrices):
    out = matrices[0]
    for m in matrices[1:]:
        out = FUNCTIONS["matmul"](out, m)
    return out


def inverse(x):
    a = np.linalg.inv(x._a)
    at = np.swapaxes(a, -1, -2)
    return _unary(x, a, lambda g: -np.matmul(np.matmul(at, g), at))


def det(x):
    d = np.linalg.det(x._a)
    return _unary(x, d, lambda g: np.asarray(g * d)[..., None, None] * np.swapaxes(np.linalg.inv(x._a), -1, -2))


def slogdet(x):
    s, v = np.linalg.slogdet(x._a)
    return _Pair((_constant(s), _unary(x, v, lambda g: np.asarray(g)[..., None, None] * np.swapaxes(np.linalg.inv(x._a), -1, -2))))


def matrix_exp(x):
    """By scaling, a Taylor series and squaring."""
    size = float(np.abs(x._a).sum(axis=-1).max()) if x._a.size else 0.0
    if not np.isfinite(size):
        raise ShimGap("matrix_exp of numbers that are not finite")
    halvings = max(0, int(np.ceil(np.log2(size))) + 2) if size > 0 else 0
    y = x / 2.0 ** halvings
    term = out = Tensor._of(np.broadcast_to(np.eye(x._a.shape[-1], dtype=x._a.dtype), x._a.shape).copy())
    for k in range(1, 19):
        term = FUNCTIONS["matmul"](term, y) / k
        out = out + term
    for _ in range(halvings):
        out = FUNCTIONS["matmul"](out, out)
    return out


def dist(x, y, p=2):
    return FUNCTIONS["norm"](x - y, p)


def var_mean(x, dim=None, unbiased=True, keepdim=False):
    return _Pair((FUNCTIONS["var"](x, dim, unbiased, keepdim), FUNCTIONS["mean"](x, dim, keepdim)))


def std_mean(x, dim=None, unbiased=True, keepdim=False):
    return _Pair((FUNCTIONS["std"](x, dim, unbiased, keepdim), FUNCTIONS["mean"](x, dim, keepdim)))


def median(x, dim=None, keepdim=False):
    if dim is None:
        flat = x.reshape(-1)
        return sort(flat)[0][(flat._a.size - 1) // 2]
    values, index = sort(x, dim)
    k = (x._a.shape[dim] - 1) // 2
    out = values.select(dim, k), index.select(dim, k)
    return _Pair(tuple(o.unsqueeze(dim) for o in out) if keepdim else out)


def fmod(x, y):
    y = _wrap(y)
    return x - ELEMENTWISE["trunc"](x / y).detach() * y


def xlogy(x, y):
    zero = x._a == 0
    return _t.where(Tensor._of(zero), Tensor._of(np.zeros_like(x._a)), x * _t.where(Tensor._of(zero), Tensor._of(np.ones_like(y._a)), y).log())


def logaddexp(x, y):
    return x + ELEMENTWISE["softplus"](y - x)


def bincount(x, weights=None, minlength=0):
    return _constant(np.bincount(x._a, None if weights is None else weights._a, minlength))


def cdist(x, y, p=2.0):
    return FUNCTIONS["norm"](x.unsqueeze(-2) - y.unsqueeze(-3), p, -1)


def cross(x, y, dim=-1):
    raise ShimGap("torch.cross")


def broadcast_to(x, shape):
    return x.expand(*shape)


def broadcast_tensors(*tensors):
    shape = np.broadcast(*[t._a for t in tensors]).shape
    return tuple(t.expand(*shape) for t in tensors)


def meshgrid(*tensors, indexing="ij"):
    if len(tensors) == 1 and isinstance(tensors[0], (list, tuple)):
        tensors = tensors[0]
    if indexing != "ij":
        raise ShimGap("meshgrid xy")
    shape = [t._a.size for t in tensors]
    return tuple(t.reshape(*[-1 if k == j else 1 for j in range(len(shape))]).expand(*shape) for k, t in enumerate(tensors))


def bernoulli(x, generator=None):
    return Tensor._of((_t.RANDOM.uniform(size=x._a.shape) < x._a).astype(x._a.dtype))


def unfold(x, dimension, size, step):
    n = (x._a.shape[dimension] - size) // step + 1
    return _t.stack([movedim(x.narrow(dimension, k * step, size), dimension, -1) for k in range(n)], dimension)


def _erf(a):
    import math
    return np.vectorize(math.erf, otypes=[float])(a) if a.size else a


for _name, _op in (("erf", _elementwise(_erf, lambda g, a, o: g * 2 / np.sqrt(np.pi) * np.exp(-a * a))), ("tan", _elementwise(np.tan, lambda g, a, o: g * (1 + o * o))),
                   ("atan", _elementwise(np.arctan, lambda g, a, o: g / (1 + a * a))), ("sinh", _elementwise(np.sinh, lambda g, a, o: g * np.cosh(a))),
                   ("cosh", _elementwise(np.cosh, lambda g, a, o: g * np.sinh(a))), ("exp2", _elementwise(np.exp2, lambda g, a, o: g * o * np.log(2.0))),
                   ("trunc", _elementwise(np.trunc, lambda g, a, o: 0 * g, False)), ("frac", _elementwise(lambda a: a - np.trunc(a), lambda g, a, o: g, False))):
    ELEMENTWISE[_name] = _op
    setattr(Tensor, _name, _op)
    setattr(Tensor, _name + "_", lambda self, _op=_op: self._into(_op(self)))
ELEMENTWISE["fix"] = ELEMENTWISE["trunc"]

METHODS = {"tril": tril, "triu": triu, "diag_embed": diag_embed, "outer": outer, "ger": outer, "diff": diff, "amax": _amount("amax"), "amin": _amount("amin"), "clamp_min": clamp_min,
           "clamp_max": clamp_max, "cumprod": cumprod, "logit": logit, "argsort": argsort, "sort": sort, "topk": topk, "unique": unique, "flip": flip, "roll": roll, "movedim": movedim,
           "split": split, "chunk": chunk, "kron": kron, "masked_select": masked_select, "take": take, "repeat_interleave": repeat_interleave, "scatter": scatter,
           "scatter_add": scatter_add, "index_add": index_add, "index_copy": index_copy, "index_fill": index_fill, "masked_scatter": masked_scatter, "isnan": _test(np.isnan),
           "isinf": _test(np.isinf), "isfinite": _test(np.isfinite), "logical_not": _test(np.logical_not), "logical_and": _logical("logical_and"), "logical_or": _logical("logical_or"),
           "logical_xor": _logical("logical_xor"), "count_nonzero": count_nonzero, "nansum": nansum, "nan_to_num": nan_to_num, "lerp": lerp, "addcmul": addcmul, "addcdiv": addcdiv,
           "addmv": addmv, "inverse": inverse, "det": det, "slogdet": slogdet, "matrix_exp": matrix_exp, "dist": dist, "median": median, "fmod": fmod, "xlogy": xlogy,
           "logaddexp": logaddexp, "bincount": bincount, "floor_divide": _t.floor_divide, "remainder": _t.remainder, "broadcast_to": broadcast_to, "unfold": unfold,
           "swapaxes": Tensor.transpose, "swapdims": Tensor.transpose, "moveaxis": movedim, "fliplr": lambda x: flip(x, 1), "flipud": lambda x: flip(x, 0), "bernoulli": bernoulli}
for _name, _op in METHODS.items():
    setattr(Tensor, _name, _op)
for _name in ("scatter", "scatter_add", "index_add", "index_copy", "index_fill", "masked_fill", "masked_scatter", "clamp_min", "clamp_max", "tril", "triu", "lerp", "addcmul", "addcdiv",
              "addmv", "logit", "cumsum", "cumprod", "nan_to_num", "fmod", "bernoulli"):
    def _inplace(self, *args, _op=getattr(Tensor, _name), **kwargs):
        return self._into(_op(self, *args, **kwargs))

    setattr(Tensor, _name + "_", _inplace)


Tensor.where = lambda self, c, y: _t.where(c, self, y)
Tensor.allclose = lambda x, y, rtol=1e-05, atol=1e-08, equal_nan=False: np.allclose(x._a, y._a, rtol, atol, equal_nan)
Tensor.equal = lambda x, y: x._a.shape == y._a.shape and np.array_equal(x._a, y._a)
Tensor.addmm = lambda x, a, b, beta=1, alpha=1: x * beta + FUNCTIONS["matmul"](a, b) * alpha
Tensor.half = lambda s: s.type("float16")
Tensor.short = lambda s: s.type("int16")
Tensor.byte = lambda s: s.type("uint8")
Tensor.ravel = lambda s: s.reshape(-1)
Tensor.mT = property(lambda s: s.transpose(-2, -1))
Tensor.retain_grad = lambda s: None if s.is_leaf else (_ for _ in ()).throw(ShimGap("retain_grad"))
Tensor.__rand__ = Tensor.__and__
Tensor.__ror__ = Tensor.__or__
Tensor.__xor__ = lambda s, o: _constant(np.logical_xor(s._a, _wrap(o)._a))
Tensor.__contains__ = lambda s, v: bool((s._a == (v._a if isinstance(v, Tensor) else v)).any())

FUNCTIONS_MORE = dict(METHODS, hstack=hstack, vstack=vstack, row_stack=vstack, dstack=lambda ts: _t.cat([t.reshape(1, -1, 1) if t._a.ndim < 2 else t.unsqueeze(2) if t._a.ndim == 2 else t for t in ts], 2),
                      column_stack=lambda ts: _t.cat([t.unsqueeze(1) if t._a.ndim == 1 else t for t in ts], 1), concat=_t.cat, concatenate=_t.cat, tensordot=tensordot, block_diag=block_diag,
                      baddbmm=baddbmm, chain_matmul=chain_matmul, var_mean=var_mean, std_mean=std_mean, cdist=cdist, broadcast_tensors=broadcast_tensors, meshgrid=meshgrid,
                      cross=cross, permute=Tensor.permute, logdet=lambda x: slogdet(x)[1])
FUNCTIONS_MORE.update({n: ELEMENTWISE[n] for n in ("erf", "tan", "atan", "sinh", "cosh", "exp2", "trunc", "frac", "fix")})

"""Tensors with reverse-mode differentiation, in numpy: a stand-in for the part of torch 1.7 that causalnex uses.

Written from torch's documented behaviour: float32 by default, torch's type promotion, views that share memory (and
the graph) with their base, in-place assignment that the graph follows, gradients accumulated in leaves.
What is not here raises ShimGap.  Gradients are not themselves differentiable.
"""
import numpy as np

from rv.core import ShimGap


class dtype:
    def __init__(self, name, np_dtype):
        self.name, self.np = name, np.dtype(np_dtype)
        self.is_floating_point = self.np.kind == "f"

    def __repr__(self):
        return "torch." + self.name


DTYPES = {np.dtype(n): dtype(t, n) for n, t in (("float32", "float32"), ("float64", "float64"), ("float16", "float16"), ("int64", "int64"), ("int32", "int32"),
                                                ("int16", "int16"), ("int8", "int8"), ("uint8", "uint8"), ("bool", "bool"))}
DEFAULT = np.dtype("float32")
_grad_enabled = [True]


class Size(tuple):
    def numel(self):
        return int(np.prod(self)) if self else 1


class device:
    def __init__(self, kind="cpu", index=None):
        if isinstance(kind, device):
            kind = kind.type
        if str(kind).split(":")[0] != "cpu":
            raise RuntimeError("no device %s here" % kind)
        self.type, self.index = "cpu", index

    def __eq__(self, other):
        return isinstance(other, device)

    def __hash__(self):
        return 1

    def __repr__(self):
        return "device(type='cpu')"


class Node:
    """One step of the graph: grads of the inputs from the grad of the output."""
    __slots__ = ("inputs", "backward", "leaf", "shape")

    def __init__(self, inputs, backward, leaf=None, shape=()):
        self.inputs, self.backward, self.leaf, self.shape = inputs, backward, leaf, shape


def _np_dtype(t):
    return t.np if isinstance(t, dtype) else np.dtype(t)


def _ints(args):
    if len(args) == 1 and isinstance(args[0], (tuple, list)):
        args = args[0]
    return tuple(int(a) for a in args)


def _unbroadcast(g, shape):
    if g.shape == shape:
        return g
    while g.ndim > len(shape):
        g = g.sum(axis=0)
    for k, n in enumerate(shape):
        if n == 1 and g.shape[k] != 1:
            g = g.sum(axis=k, keepdims=True)
    return g.reshape(shape)


def _key(key):
    if isinstance(key, tuple):
        return tuple(_key(k) if isinstance(k, Tensor) else k for k in key)
    if isinstance(key, Tensor):
        return key._a if key._a.dtype == bool else key._a.astype(np.int64)
    return key


def _is_view_key(key):
    parts = key if isinstance(key, tuple) else (key,)
    return all(isinstance(k, (int, np.integer, slice, type(None), type(Ellipsis))) and not isinstance(k, bool) for k in parts)


def _negative_step(key):
    parts = key if isinstance(key, tuple) else (key,)
    return any(isinstance(k, slice) and k.step is not None and k.step < 0 for k in parts)


class Tensor:
    __array_priority__ = 1000

    def __new__(cls, *args, **kwargs):
        return object.__new__(cls)

    def __init__(self, *args, **kwargs):
        if len(args) == 1 and isinstance(args[0], Tensor):
            self._setup(args[0]._a.astype(DEFAULT))
        elif len(args) == 1 and isinstance(args[0], (list, np.ndarray, tuple)) and not isinstance(args[0], Size):
            self._setup(np.array(args[0], dtype=DEFAULT))
        else:
            # torch leaves the memory as it is: the stand-in makes that visible
            shape = _ints(args) if args else (0,)
            self._setup(np.full(shape, np.nan, dtype=DEFAULT))

    def _setup(self, a, requires_grad=False):
        self._a = a if isinstance(a, np.ndarray) else np.asarray(a)
        self._requires, self._fn, self._view, self._version, self._seen = requires_grad, None, None, 0, 0
        self.grad = None

    @classmethod
    def _of(cls, a, node=None):
        out = object.__new__(Tensor)
        out._setup(a)
        out._fn = node
        return out

    # ---- graph
    @property
    def _base(self):
        return self if self._view is None else self._view[0]

    def _node(self):
        """This tensor as the graph sees it now (None when nothing is to be differentiated)."""
        if self._view is not None:
            base, index = self._view
            if self._seen != base._version:
                node = base._node()
                self._fn = None if node is None else Node([node], _from_view(base._a.shape, index), shape=self._a.shape)
                self._seen = base._version
            if self._fn is None and base._fn is None and base._requires and _grad_enabled[0]:
                return Node([base._node()], _from_view(base._a.shape, index), shape=self._a.shape)
            return self._fn
        if self._fn is None and self._requires:
            self._fn = Node([], None, leaf=self, shape=self._a.shape)
        return self._fn

    @property
    def requires_grad(self):
        return self._requires or self._node() is not None

    @requires_grad.setter
    def requires_grad(self, value):
        self.requires_grad_(value)

    def requires_grad_(self, value=True):
        if self._fn is not None and self._fn.leaf is None:
            if not value:
                raise RuntimeError("you can only change requires_grad flags of leaf variables.")
            return self
        if value and self._a.dtype.kind != "f":
            raise RuntimeError("only Tensors of floating point dtype can require gradients")
        self._requires = bool(value)
        if not value:
            self._fn = None
        return self

    @property
    def is_leaf(self):
        return self._fn is None or self._fn.leaf is not None

    @property
    def grad_fn(self):
        node = self._node()
        return None if node is None or node.leaf is not None else node

    def backward(self, gradient=None, retain_graph=None, create_graph=False):
        node = self._node()
        if node is None:
            raise RuntimeError("element 0 of tensors does not require grad and does not have a grad_fn")
        if gradient is None and self._a.size != 1:
            raise RuntimeError("grad can be implicitly created only for scalar outputs")
        g = np.ones_like(self._a) if gradient is None else gradient._a
        for leaf, value in _differentiate(node, g).items():
            if leaf.leaf is not None:
                t = leaf.leaf
                value = value.astype(t._a.dtype)
                if t.grad is None:
                    t.grad = Tensor._of(value.copy())
                else:
                    t.grad._a = t.grad._a + value

    def _overwrite(self, new, make_node):
        """In-place change: new values, and make_node(old node) -> (inputs, backward) for the new graph."""
        base = self._base
        if self._view is None:
            if self._requires and (self._fn is None or self._fn.leaf is not None) and _grad_enabled[0]:
                raise RuntimeError("a leaf Variable that requires grad is being used in an in-place operation.")
            old = self._node()
            if _grad_enabled[0]:
                made = make_node(old)
                self._fn = made if made is not None else None
            self._a[...] = new
            self._version += 1
            return self
        if base._requires and (base._fn is None or base._fn.leaf is not None) and _grad_enabled[0]:
            raise RuntimeError("a view of a leaf Variable that requires grad is being used in an in-place operation.")
        index = self._view[1]
        old, old_base = self._node(), base._node()
        if _grad_enabled[0]:
            made = make_node(old)
            if made is not None or old_base is not None:
                shape = base._a.shape

                def split(g, made=made, old_base=old_base, index=index, shape=shape):
                    out = []
                    flat = g.reshape(-1)
                    if old_base is not None:
                        rest = flat.copy()
                        rest[index.reshape(-1)] = 0
                        out.append(rest.reshape(shape))
                    if made is not None:
                        out.append(flat[index.reshape(-1)].reshape(index.shape))
                    return out

                base._fn = Node([n for n in (old_base, made) if n is not None], split, shape=shape)
        self._a[...] = new
        base._version += 1
        return self

    # ---- what it holds
    @property
    def data(self):
        out = Tensor._of(self._a)
        return out

    @data.setter
    def data(self, other):
        if other._a.dtype != self._a.dtype:
            raise RuntimeError("Could not run 'aten::set_data': incompatible tensor type")
        self._a = other._a
        self._version += 1
        if self._fn is not None and self._fn.leaf is not None:
            self._fn = None

    @property
    def shape(self):
        return Size(self._a.shape)

    def size(self, dim=None):
        return self.shape if dim is None else self._a.shape[dim]

    @property
    def dtype(self):
        return DTYPES[self._a.dtype]

    @property
    def device(self):
        return device("cpu")

    is_sparse = is_cuda = is_quantized = False

    @property
    def ndim(self):
        return self._a.ndim

    def dim(self):
        return self._a.ndim

    ndimension = dim

    def numel(self):
        return int(self._a.size)

    nelement = numel

    def element_size(self):
        return self._a.itemsize

    def is_floating_point(self):
        return self._a.dtype.kind == "f"

    def is_contiguous(self):
        return self._a.flags.c_contiguous

    def __len__(self):
        if self._a.ndim == 0:
            raise TypeError("len() of a 0-d tensor")
        return len(self._a)

    def __iter__(self):
        if self._a.ndim == 0:
            raise TypeError("iteration over a 0-d tensor")
        return iter([self[k] for k in range(len(self._a))])

    def __bool__(self):
        if self._a.size != 1:
            raise RuntimeError("Boolean value of Tensor with more than one value is ambiguous")
        return bool(self._a.reshape(-1)[0])

    def item(self):
        if self._a.size != 1:
            raise ValueError("only one element tensors can be converted to Python scalars")
        return self._a.reshape(-1)[0].item()

    def __float__(self):
        return float(self.item())

    def __int__(self):
        return int(self.item())

    def __index__(self):
        if self._a.dtype.kind not in "iu":
            raise TypeError("only integer tensors of a single element can be converted to an index")
        return int(self.item())

    def tolist(self):
        return self._a.tolist()

    def numpy(self):
        if self.requires_grad:
            raise RuntimeError("Can't call numpy() on Variable that requires grad. Use var.detach().numpy() instead.")
        return self._a

    def __array__(self, dtype=None, copy=None):
        a = self.numpy()
        return a if dtype is None else a.astype(dtype)

    def __repr__(self):
        return "tensor(%s)" % np.array2string(self._a, separator=", ")

    def __deepcopy__(self, memo):
        if not self.is_leaf:
            raise RuntimeError("Only Tensors created explicitly by the user (graph leaves) support the deepcopy protocol at the moment")
        out = object.__new__(type(self))
        out._setup(self._a.copy(), self._requires)
        if self.grad is not None:
            out.grad = Tensor._of(self.grad._a.copy())
        memo[id(self)] = out
        return out

    def __hash__(self):
        return id(self)

    # ---- copies and casts
    def detach(self):
        return Tensor._of(self._a)

    def detach_(self):
        self._fn, self._requires = None, False
        return self

    def clone(self, memory_format=None):
        return _unary(self, self._a.copy(), lambda g: g)

    def contiguous(self, memory_format=None):
        return self if self.is_contiguous() else self.clone()

    def cpu(self):
        return self

    def to_dense(self):
        return self

    def to(self, *args, **kwargs):
        kwargs.pop("copy", None)
        kwargs.pop("non_blocking", None)
        for a in list(args) + list(kwargs.values()):
            if isinstance(a, Tensor):
                a = a.dtype
            if isinstance(a, dtype):
                return self.type(a)
            device(a)
        return self

    def type(self, t=None):
        if t is None:
            return "torch.%sTensor" % {"float32": "Float", "float64": "Double", "int64": "Long", "bool": "Bool"}.get(self._a.dtype.name, self._a.dtype.name)
        t = _np_dtype(t)
        if self._a.dtype == t:
            return self
        old = self._a.dtype
        with np.errstate(all="ignore"):
            a = self._a.astype(t)
        if t.kind != "f":
            return Tensor._of(a)
        return _unary(self, a, lambda g: g.astype(old))

    def type_as(self, other):
        return self.type(other.dtype)

    def float(self):
        return self.type("float32")

    def double(self):
        return self.type("float64")

    def long(self):
        return self.type("int64")

    def int(self):
        return self.type("int32")

    def bool(self):
        return self.type("bool")

    def new(self, *shape):
        return Tensor._of(np.full(_ints(shape), np.nan if self._a.dtype.kind == "f" else 99, dtype=self._a.dtype))

    def new_zeros(self, *shape, **kw):
        return Tensor._of(np.zeros(_ints(shape), dtype=self._a.dtype))

    def new_ones(self, *shape, **kw):
        return Tensor._of(np.ones(_ints(shape), dtype=self._a.dtype))

    def new_full(self, shape, value, **kw):
        return Tensor._of(np.full(_ints((shape,)), value, dtype=self._a.dtype))

    def new_tensor(self, data, **kw):
        return Tensor._of(np.array(data, dtype=self._a.dtype))

    # ---- views
    def _as_view(self, f):
        """A view of this tensor; f is the same indexing for values and for positions."""
        base = self._base
        values = f(self._a)
        if not np.shares_memory(values, self._a) and values.size:
            raise ShimGap("a view that numpy cannot make")
        index = self._view[1] if self._view is not None else np.arange(self._a.size).reshape(self._a.shape)
        out = object.__new__(Tensor)
        out._setup(values)
        place = f(index)
        if not isinstance(values, np.ndarray) or values.shape != np.shape(place):
            raise ShimGap("a view of unknown shape")
        out._view = (base, np.asarray(place))
        node = self._node() if _grad_enabled[0] else None
        if node is not None:
            mine, shape = np.arange(self._a.size).reshape(self._a.shape), self._a.shape
            out._fn = Node([node], _from_view(shape, f(mine)), shape=values.shape)
        out._seen = base._version
        return out

    def view(self, *shape):
        if len(shape) == 1 and isinstance(shape[0], dtype):
            raise ShimGap("view as another type")
        if not self._a.flags.c_contiguous:
            target = _resolve(_ints(shape), self._a.size)
            probe = self._a.reshape(target)
            if not np.shares_memory(probe, self._a):
                raise RuntimeError("view size is not compatible with input tensor's size and stride. Use .reshape(...) instead.")
        target = _resolve(_ints(shape), self._a.size)
        return self._as_view(lambda a: a.reshape(target))

    def view_as(self, other):
        return self.view(*other._a.shape)

    def reshape(self, *shape):
        target = _resolve(_ints(shape), self._a.size)
        if np.shares_memory(self._a.reshape(target), self._a) or not self._a.size:
            return self._as_view(lambda a: a.reshape(target))
        old = self._a.shape
        return _unary(self, self._a.reshape(target), lambda g: g.reshape(old))

    def reshape_as(self, other):
        return self.reshape(*other._a.shape)

    def flatten(self, start_dim=0, end_dim=-1):
        s = self._a.shape
        end = end_dim % len(s) if s else 0
        return self.reshape(*(s[:start_dim] + (int(np.prod(s[start_dim:end + 1])),) + s[end + 1:]))

    def t(self):
        if self._a.ndim > 2:
            raise RuntimeError("t() expects a tensor with <= 2 dimensions, but self is %dD" % self._a.ndim)
        return self._as_view(lambda a: a.T)

    @property
    def T(self):
        return self._as_view(lambda a: a.T)

    def transpose(self, d0, d1):
        return self._as_view(lambda a: np.swapaxes(a, d0, d1))

    def permute(self, *dims):
        dims = _ints(dims)
        return self._as_view(lambda a: np.transpose(a, dims))

    def squeeze(self, dim=None):
        if dim is None:
            return self._as_view(lambda a: a.reshape(tuple(n for n in a.shape if n != 1)))
        if self._a.shape[dim] != 1:
            return self._as_view(lambda a: a[...])
        return self._as_view(lambda a: np.squeeze(a, axis=dim))

    def unsqueeze(self, dim):
        return self._as_view(lambda a: np.expand_dims(a, dim))

    def expand(self, *shape):
        shape = _ints(shape)
        lead = len(shape) - self._a.ndim
        target = tuple(self._a.shape[k - lead] if n == -1 else n for k, n in enumerate(shape))
        old = self._a.shape
        return _unary(self, np.broadcast_to(self._a, target), lambda g: _unbroadcast(g, old))

    def expand_as(self, other):
        return self.expand(*other._a.shape)

    def repeat(self, *n):
        n = _ints(n)
        index = np.tile(np.arange(self._a.size).reshape(self._a.shape), n)
        return _unary(self, self._a.reshape(-1)[index], _from_view(self._a.shape, index, True))

    def narrow(self, dim, start, length):
        key = [slice(None)] * self._a.ndim
        key[dim] = slice(start, start + length)
        return self[tuple(key)]

    def select(self, dim, index):
        key = [slice(None)] * self._a.ndim
        key[dim] = index
        return self[tuple(key)]

    def diagonal(self, offset=0, dim1=0, dim2=1):
        index = np.diagonal(np.arange(self._a.size).reshape(self._a.shape), offset, dim1, dim2)
        return _unary(self, self._a.reshape(-1)[index], _from_view(self._a.shape, index, True))

    def diag(self, diagonal=0):
        if self._a.ndim == 2:
            return self.diagonal(diagonal)
        return _unary(self, np.diag(self._a, diagonal), lambda g: np.diagonal(g, diagonal))

    def trace(self):
        return self.diagonal().sum()

    def __getitem__(self, key):
        key = _key(key)
        if _is_view_key(key):
            if _negative_step(key):
                raise ValueError("step must be greater than zero")
            return self._as_view(lambda a: _slice(a, key))
        values = self._a[key]
        index = np.arange(self._a.size).reshape(self._a.shape)[key]
        return _unary(self, np.array(values), _from_view(self._a.shape, np.asarray(index), True))

    def __setitem__(self, key, value):
        key = _key(key)
        v = value if isinstance(value, Tensor) else Tensor._of(np.asarray(value))
        place = np.arange(self._a.size).reshape(self._a.shape)[key]
        target = np.shape(place)
        values = v._a
        while values.ndim > len(target) and values.shape[0] == 1:
            values = values[0]
        try:
            values = np.broadcast_to(values, target)
        except ValueError:
            raise RuntimeError("shape mismatch: value tensor of shape %r cannot be broadcast to indexing result of shape %r" % (v._a.shape, target))
        new = self._a.copy()
        new[key] = values.astype(self._a.dtype)
        node = v._node() if _grad_enabled[0] else None
        shape, kind = self._a.shape, v._a.shape

        def make(old):
            if node is None and old is None:
                return None

            def back(g):
                out = []
                if old is not None:
                    rest = g.copy()
                    rest[key] = 0
                    out.append(rest)
                if node is not None:
                    out.append(_unbroadcast(np.asarray(g[key]), kind).astype(v._a.dtype) if np.ndim(g[key]) >= len(kind) else np.asarray(g[key]).reshape(kind))
                return out

            return Node([n for n in (old, node) if n is not None], back, shape=shape)

        self._overwrite(new, make)

    # ---- in place
    def zero_(self):
        return self.fill_(0)

    def fill_(self, value):
        value = value.item() if isinstance(value, Tensor) else value
        return self._overwrite(np.full(self._a.shape, value, dtype=self._a.dtype), lambda old: None)

    def copy_(self, other, non_blocking=False):
        self[...] = other
        return self

    def uniform_(self, a=0.0, b=1.0, generator=None):
        return self._overwrite(RANDOM.uniform(a, b, size=self._a.shape).astype(self._a.dtype), lambda old: None)

    def normal_(self, mean=0.0, std=1.0, generator=None):
        return self._overwrite((RANDOM.standard_normal(self._a.shape) * std + mean).astype(self._a.dtype), lambda old: None)

    def _into(self, other):
        if other._a.shape != self._a.shape:
            raise RuntimeError("output with shape %r doesn't match the broadcast shape %r" % (self._a.shape, other._a.shape))
        if other._a.dtype.kind == "f" and self._a.dtype.kind != "f":
            raise RuntimeError("result type Float can't be cast to the desired output type Long")
        node, kind = other._node(), self._a.dtype

        def make(old):
            return node

        return self._overwrite(other._a.astype(kind).copy(), make)

    # ---- reductions and elementwise functions are added below


def _slice(a, key):
    out = a[key]
    if isinstance(out, np.ndarray):
        return out
    # a single element: keep it a view, of no dimensions
    parts = key if isinstance(key, tuple) else (key,)
    return a[tuple(slice(k, k + 1 or None) if isinstance(k, (int, np.integer)) else k for k in parts)].reshape(())


def _resolve(shape, size):
    if shape.count(-1) > 1:
        raise RuntimeError("only one dimension can be inferred")
    known = int(np.prod([n for n in shape if n != -1])) if shape else 1
    if -1 in shape:
        if known == 0 or size % known:
            raise RuntimeError("shape %r is invalid for input of size %d" % (list(shape), size))
        return tuple(size // known if n == -1 else n for n in shape)
    if known != size:
        raise RuntimeError("shape %r is invalid for input of size %d" % (list(shape), size))
    return shape


def _from_view(shape, index, plain=False):
    index = np.asarray(index)

    def back(g):
        out = np.zeros(int(np.prod(shape)) if shape else 1, dtype=g.dtype)
        np.add.at(out, index.reshape(-1), np.asarray(g).reshape(-1))
        out = out.reshape(shape)
        return out if plain else [out]

    if len(np.unique(index)) == index.size:
        def back(g):  # noqa: F811  every place is used once: no need to add up
            out = np.zeros(int(np.prod(shape)) if shape else 1, dtype=g.dtype)
            out[index.reshape(-1)] = np.asarray(g).reshape(-1)
            out = out.reshape(shape)
            return out if plain else [out]
    return back


def _differentiate(root, g):
    order, seen, stack = [], set(), [(root, False)]
    while stack:
        node, done = stack.pop()
        if done:
            order.append(node)
            continue
        if id(node) in seen:
            continue
        seen.add(id(node))
        stack.append((node, True))
        stack.extend((n, False) for n in node.inputs if id(n) not in seen)
    grads = {root: g}
    with np.errstate(all="ignore"):
        for node in reversed(order):
            value = grads.get(node)
            if value is None or node.backward is None:
                continue
            for n, part in zip(node.inputs, node.backward(value)):
                if part is None:
                    continue
                part = np.asarray(part)
                grads[n] = part if n not in grads else grads[n] + part
    return grads


def _unary(x, a, back):
    """A new tensor; back maps the grad of the result to that of x."""
    node = x._node() if _grad_enabled[0] else None
    a = np.asarray(a)
    if node is None:
        return Tensor._of(a)
    return Tensor._of(a, Node([node], lambda g: [back(g)], shape=a.shape))


def _many(tensors, a, backs):
    nodes = [t._node() if _grad_enabled[0] else None for t in tensors]
    live = [k for k, n in enumerate(nodes) if n is not None]
    a = np.asarray(a)
    if not live:
        return Tensor._of(a)
    return Tensor._of(a, Node([nodes[k] for k in live], lambda g: [backs[k](g) for k in live], shape=a.shape))


def _promote(x, y):
    """torch's type of an operation: the higher category wins, and within it tensors with dimensions win."""
    def level(t):
        return {"b": 0, "i": 1, "u": 1, "f": 2}[t._a.dtype.kind]

    def rank(t):
        return 0 if getattr(t, "_scalar", False) else 1 if t._a.ndim == 0 else 2

    if level(x) != level(y):
        top = x if level(x) > level(y) else y
        return DEFAULT if top._a.dtype.kind == "f" and rank(top) == 0 else top._a.dtype
    if rank(x) != rank(y):
        return (x if rank(x) > rank(y) else y)._a.dtype
    return np.promote_types(x._a.dtype, y._a.dtype)


def _wrap(x):
    if isinstance(x, Tensor):
        return x
    if isinstance(x, (bool, int, float, np.bool_, np.integer, np.floating)):
        out = Tensor._of(np.asarray(x))
        out._scalar = True
        return out
    if isinstance(x, np.ndarray):
        raise TypeError("unsupported operand type(s): 'Tensor' and 'numpy.ndarray'")
    return None


def _binary(f, back_x, back_y, keep_float=True, division=False):
    def op(x, y):
        x, y = _wrap(x), _wrap(y)
        if x is None or y is None:
            return NotImplemented
        t = _promote(x, y)
        if division and t.kind != "f":
            t = DEFAULT
        a, b = x._a.astype(t), y._a.astype(t)
        with np.errstate(all="ignore"):
            out = np.asarray(f(a, b))
        sx, sy, tx, ty = a.shape, b.shape, x._a.dtype, y._a.dtype
        return _many([x, y], out, [lambda g: _unbroadcast(np.asarray(back_x(g, a, b, out)), sx).astype(tx),
                                   lambda g: _unbroadcast(np.asarray(back_y(g, a, b, out)), sy).astype(ty)])
    return op


def _zero(g, a, b, o):
    return np.zeros_like(g)


add = _binary(np.add, lambda g, a, b, o: g, lambda g, a, b, o: g)
sub = _binary(np.subtract, lambda g, a, b, o: g, lambda g, a, b, o: -g)
mul = _binary(np.multiply, lambda g, a, b, o: g * b, lambda g, a, b, o: g * a)
div = _binary(np.true_divide, lambda g, a, b, o: g / b, lambda g, a, b, o: -g * a / (b * b), division=True)
power = _binary(np.power, lambda g, a, b, o: np.where(b == 0, 0, g * b * np.power(a, np.where(b == 0, 1, b - 1))), lambda g, a, b, o: g * o * np.log(a))
maximum = _binary(np.maximum, lambda g, a, b, o: g * ((a > b) + 0.5 * (a == b)), lambda g, a, b, o: g * ((b > a) + 0.5 * (a == b)))
minimum = _binary(np.minimum, lambda g, a, b, o: g * ((a < b) + 0.5 * (a == b)), lambda g, a, b, o: g * ((b < a) + 0.5 * (a == b)))
remainder = _binary(np.mod, lambda g, a, b, o: g, lambda g, a, b, o: -g * np.floor(a / b))
floor_divide = _binary(np.floor_divide, _zero, _zero)
_COMPARE = {n: _binary(getattr(np, n), _zero, _zero) for n in ("equal", "not_equal", "less", "less_equal", "greater", "greater_equal", "logical_and", "logical_or", "logical_xor")}


def _reflected(op):
    return lambda x, y: op(y, x)


def _compare(name):
    def op(x, y):
        out = _COMPARE[name](x, y)
        return out if out is NotImplemented else Tensor._of(out._a)
    return op


for _name, _op in (("add", add), ("sub", sub), ("mul", mul), ("truediv", div), ("pow", power), ("mod", remainder), ("floordiv", floor_divide)):
    setattr(Tensor, "__%s__" % _name, _op)
    setattr(Tensor, "__r%s__" % _name, _reflected(_op))

    def _inplace(self, other, _op=_op):
        out = _op(self, other)
        return out if out is NotImplemented else self._into(out)

    setattr(Tensor, "__i%s__" % _name, _inplace)
    short = {"truediv": "div", "mod": "remainder", "floordiv": "floor_divide"}.get(_name, _name)
    setattr(Tensor, short + "_", _inplace)
for _name, _np in (("eq", "equal"), ("ne", "not_equal"), ("lt", "less"), ("le", "less_equal"), ("gt", "greater"), ("ge", "greater_equal")):
    setattr(Tensor, "__%s__" % _name, _compare(_np))
    setattr(Tensor, _name, _compare(_np))
Tensor.__and__ = lambda s, o: _compare("logical_and")(s, o)
Tensor.__or__ = lambda s, o: _compare("logical_or")(s, o)
Tensor.__invert__ = lambda s: Tensor._of(~s._a)


def _scaled(op):
    def f(self, other, *, alpha=1):
        out = op(self, other if alpha == 1 else mul(other, alpha))
        if out is NotImplemented:
            raise TypeError("add(): argument 'other' must be Tensor or Number")
        return out
    return f


Tensor.add, Tensor.sub = _scaled(add), _scaled(sub)
for _name, _op in (("mul", mul), ("multiply", mul), ("div", div), ("true_divide", div), ("pow", power), ("maximum", maximum), ("minimum", minimum), ("remainder", remainder),
                   ("subtract", sub), ("divide", div)):
    setattr(Tensor, _name, _op)


def _float_of(x):
    return x if x._a.dtype.kind == "f" else x.type(DEFAULT)


def _elementwise(f, back, to_float=True):
    def op(x, *, out=None):
        x = _float_of(x) if to_float else x
        a = x._a
        with np.errstate(all="ignore"):
            o = np.asarray(f(a)).astype(a.dtype, copy=False)
        return _unary(x, o, lambda g: back(g, a, o))
    return op


def _stable_sigmoid(a):
    e = np.exp(-np.abs(a))
    return np.where(a >= 0, 1 / (1 + e), e / (1 + e))


def _softplus(a):
    return np.maximum(a, 0) + np.log1p(np.exp(-np.abs(a)))


ELEMENTWISE = {
    "exp": _elementwise(np.exp, lambda g, a, o: g * o), "log": _elementwise(np.log, lambda g, a, o: g / a), "log1p": _elementwise(np.log1p, lambda g, a, o: g / (1 + a)),
    "expm1": _elementwise(np.expm1, lambda g, a, o: g * (o + 1)), "sqrt": _elementwise(np.sqrt, lambda g, a, o: g / (2 * o)),
    "log2": _elementwise(np.log2, lambda g, a, o: g / (a * np.log(2.0))), "log10": _elementwise(np.log10, lambda g, a, o: g / (a * np.log(10.0))),
    "rsqrt": _elementwise(lambda a: 1 / np.sqrt(a), lambda g, a, o: -g * o / (2 * a)), "reciprocal": _elementwise(lambda a: 1 / a, lambda g, a, o: -g * o * o),
    "sigmoid": _elementwise(_stable_sigmoid, lambda g, a, o: g * o * (1 - o)), "tanh": _elementwise(np.tanh, lambda g, a, o: g * (1 - o * o)),
    "relu": _elementwise(lambda a: np.maximum(a, 0), lambda g, a, o: g * (a > 0), False), "softplus": _elementwise(_softplus, lambda g, a, o: g * _stable_sigmoid(a)),
    "sin": _elementwise(np.sin, lambda g, a, o: g * np.cos(a)), "cos": _elementwise(np.cos, lambda g, a, o: -g * np.sin(a)),
    "abs": _elementwise(np.abs, lambda g, a, o: g * np.sign(a), False), "neg": _elementwise(np.negative, lambda g, a, o: -g, False),
    "square": _elementwise(np.square, lambda g, a, o: 2 * g * a, False), "sign": _elementwise(np.sign, lambda g, a, o: 0 * g, False),
    "round": _elementwise(np.round, lambda g, a, o: 0 * g, False), "floor": _elementwise(np.floor, lambda g, a, o: 0 * g, False), "ceil": _elementwise(np.ceil, lambda g, a, o: 0 * g, False),
    "logsigmoid": _elementwise(lambda a: -_softplus(-a), lambda g, a, o: g * _stable_sigmoid(-a)),
}
ELEMENTWISE["absolute"], ELEMENTWISE["negative"] = ELEMENTWISE["abs"], ELEMENTWISE["neg"]
for _name, _op in ELEMENTWISE.items():
    if _name not in ("softplus", "logsigmoid"):
        setattr(Tensor, _name, _op)
        setattr(Tensor, _name + "_", lambda self, _op=_op: self._into(_op(self)))
Tensor.__neg__ = lambda s: ELEMENTWISE["neg"](s)
Tensor.__abs__ = lambda s: ELEMENTWISE["abs"](s)
Tensor.__pos__ = lambda s: s


def _axes(dim, ndim):
    if dim is None:
        return None
    return tuple(d % ndim for d in dim) if isinstance(dim, (tuple, list)) else (int(dim) % max(ndim, 1),)


def _spread(g, axes, shape, keepdim):
    if axes is None:
        return np.broadcast_to(np.asarray(g).reshape((1,) * len(shape)), shape)
    if not keepdim:
        for d in sorted(axes):
            g = np.expand_dims(g, d)
    return np.broadcast_to(g, shape)


def sum(x, dim=None, keepdim=False, dtype=None, axis=None):
    dim = axis if dim is None else dim
    if dtype is not None:
        x = x.type(dtype)
    if x._a.dtype.kind in "bi":
        x = x.type("int64")
    axes, shape = _axes(dim, x._a.ndim), x._a.shape
    if shape == () or axes == ():
        return _unary(x, x._a.sum(), lambda g: np.broadcast_to(g, shape))
    return _unary(x, x._a.sum(axis=axes, keepdims=keepdim and axes is not None), lambda g: _spread(g, axes, shape, keepdim))


def mean(x, dim=None, keepdim=False, dtype=None, axis=None):
    dim = axis if dim is None else dim
    if dtype is not None:
        x = x.type(dtype)
    if x._a.dtype.kind != "f":
        raise RuntimeError("Can only calculate the mean of floating types. Got Long instead.")
    axes, shape = _axes(dim, x._a.ndim), x._a.shape
    n = x._a.size if axes is None else int(np.prod([shape[d] for d in axes]))
    with np.errstate(all="ignore"):
        a = (x._a.sum(axis=axes, keepdims=keepdim and axes is not None) / np.asarray(n, dtype=x._a.dtype)).astype(x._a.dtype)
    return _unary(x, a, lambda g: _spread(g, axes, shape, keepdim) / x._a.dtype.type(n))


def var(x, dim=None, unbiased=True, keepdim=False):
    m = mean(x, dim, keepdim=True) if dim is not None else mean(x)
    n = x._a.size if dim is None else int(np.prod([x._a.shape[d] for d in _axes(dim, x._a.ndim)]))
    return div(sum((x - m) ** 2, dim, keepdim), n - 1 if unbiased else n)


def std(x, dim=None, unbiased=True, keepdim=False):
    return ELEMENTWISE["sqrt"](var(x, dim, unbiased, keepdim))


def prod(x, dim=None, keepdim=False):
    axes, shape = _axes(dim, x._a.ndim), x._a.shape
    a = x._a.prod(axis=axes, keepdims=keepdim and axes is not None)
    return _unary(x, a, lambda g: _spread(g * a, axes, shape, keepdim) / x._a)


class _Pair(tuple):
    values = property(lambda s: s[0])
    indices = property(lambda s: s[1])


def _extreme(name):
    pick, where = getattr(np, name), getattr(np, "arg" + name)

    def op(x, dim=None, keepdim=False):
        if isinstance(dim, Tensor):
            return (maximum if name == "max" else minimum)(x, dim)
        if dim is None:
            a = np.asarray(pick(x._a))
            hit = (x._a == a)
            return _unary(x, a, lambda g: g * hit / hit.sum())
        d = dim % x._a.ndim
        i = np.expand_dims(where(x._a, axis=d), d)
        a = np.take_along_axis(x._a, i, d)
        shape = x._a.shape

        def back(g):
            out = np.zeros(shape, dtype=x._a.dtype)
            np.put_along_axis(out, i, g if keepdim else np.expand_dims(g, d), d)
            return out

        return _Pair((_unary(x, a if keepdim else a.squeeze(d), back), Tensor._of(i if keepdim else i.squeeze(d))))
    return op


def argmax(x, dim=None, keepdim=False):
    a = np.asarray(x._a.argmax() if dim is None else x._a.argmax(axis=dim))
    return Tensor._of(np.expand_dims(a, dim) if keepdim and dim is not None else a)


def argmin(x, dim=None, keepdim=False):
    a = np.asarray(x._a.argmin() if dim is None else x._a.argmin(axis=dim))
    return Tensor._of(np.expand_dims(a, dim) if keepdim and dim is not None else a)


def cumsum(x, dim, dtype=None):
    return _unary(x, x._a.cumsum(axis=dim), lambda g: np.flip(np.flip(g, dim).cumsum(axis=dim), dim))


def norm(x, p=2, dim=None, keepdim=False):
    if p in (2, "fro", 2.0):
        return ELEMENTWISE["sqrt"](sum(x * x, dim, keepdim))
    if p == 1:
        return sum(ELEMENTWISE["abs"](x), dim, keepdim)
    raise ShimGap("norm of order %r" % p)


def log_softmax(x, dim=None, dtype=None):
    a = x._a
    m = a - a.max(axis=dim, keepdims=True)
    o = (m - np.log(np.exp(m).sum(axis=dim, keepdims=True))).astype(a.dtype)
    return _unary(x, o, lambda g: g - np.exp(o) * g.sum(axis=dim, keepdims=True))


def softmax(x, dim=None, dtype=None):
    a = x._a
    e = np.exp(a - a.max(axis=dim, keepdims=True))
    o = (e / e.sum(axis=dim, keepdims=True)).astype(a.dtype)
    return _unary(x, o, lambda g: o * (g - (g * o).sum(axis=dim, keepdims=True)))


def logsumexp(x, dim, keepdim=False):
    a = x._a
    m = a.max(axis=dim, keepdims=True)
    e = np.exp(a - m)
    s = e.sum(axis=dim, keepdims=True)
    o = np.log(s) + m
    return _unary(x, o if keepdim else np.squeeze(o, axis=dim), lambda g: (g if keepdim else np.expand_dims(g, dim)) * e / s)


def clamp(x, min=None, max=None):
    a = np.clip(x._a, min, max).astype(x._a.dtype)
    inside = np.ones(x._a.shape, dtype=bool)
    if min is not None:
        inside &= x._a >= min
    if max is not None:
        inside &= x._a <= max
    return _unary(x, a, lambda g: g * inside)


def gather(x, dim, index, sparse_grad=False):
    if index._a.dtype != np.int64:
        raise RuntimeError("gather(): Expected dtype int64 for index")
    if index._a.size and (index._a.min() < 0 or index._a.max() >= x._a.shape[dim]):
        raise RuntimeError("index out of bounds for dimension %d with size %d" % (dim, x._a.shape[dim]))
    places = np.arange(x._a.size).reshape(x._a.shape)
    trimmed = places[tuple(slice(None) if d == dim % x._a.ndim else slice(0, n) for d, n in enumerate(index._a.shape))]
    flat = np.take_along_axis(trimmed, index._a, dim)
    return _unary(x, x._a.reshape(-1)[flat], _from_view(x._a.shape, flat, True))


def index_select(x, dim, index):
    key = [slice(None)] * x._a.ndim
    key[dim] = index
    return x[tuple(key)]


def masked_fill(x, mask, value):
    m = np.broadcast_to(mask._a, x._a.shape)
    value = value.item() if isinstance(value, Tensor) else value
    return _unary(x, np.where(m, np.asarray(value, dtype=x._a.dtype), x._a), lambda g: np.where(m, 0, g).astype(g.dtype))


def matmul(x, y):
    if x._a.dtype != y._a.dtype:
        raise RuntimeError("expected scalar type %s but found %s" % (x._a.dtype, y._a.dtype))
    a, b = x._a, y._a
    if a.ndim == 0 or b.ndim == 0:
        raise RuntimeError("both arguments to matmul need to be at least 1D")
    try:
        out = np.matmul(a, b)
    except ValueError as e:
        raise RuntimeError("size mismatch: %s" % e)
    A = a[None, :] if a.ndim == 1 else a
    B = b[:, None] if b.ndim == 1 else b

    def full(g):
        g = np.asarray(g)
        if a.ndim == 1:
            g = np.expand_dims(g, -1 if b.ndim == 1 else -2)
        if b.ndim == 1:
            g = np.expand_dims(g, -1)
        return g

    return _many([x, y], out, [lambda g: _unbroadcast(np.matmul(full(g), np.swapaxes(B, -1, -2)), A.shape).reshape(a.shape),
                               lambda g: _unbroadcast(np.matmul(np.swapaxes(A, -1, -2), full(g)), B.shape).reshape(b.shape)])


Tensor.__matmul__ = matmul
Tensor.__rmatmul__ = _reflected(matmul)


def matrix_power(x, n):
    if n < 0:
        raise ShimGap("a negative power of a matrix")
    out = None
    for _ in range(n):
        out = x if out is None else matmul(out, x)
    return Tensor._of(np.broadcast_to(np.eye(x._a.shape[-1], dtype=x._a.dtype), x._a.shape).copy()) if out is None else out if n > 1 else out.clone()


def cat(tensors, dim=0, out=None):
    tensors = [t for t in tensors if t._a.shape != (0,)] or list(tensors)
    t = tensors[0]._a.dtype
    for x in tensors:
        t = np.promote_types(t, x._a.dtype)
    try:
        a = np.concatenate([x._a.astype(t) for x in tensors], axis=dim)
    except ValueError as e:
        raise RuntimeError("Sizes of tensors must match: %s" % e)
    edges = np.cumsum([x._a.shape[dim] for x in tensors])[:-1]
    return _many(tensors, a, [lambda g, k=k: np.split(g, edges, axis=dim)[k] for k in range(len(tensors))])


def stack(tensors, dim=0, out=None):
    return cat([t.unsqueeze(dim) for t in tensors], dim)


def where(c, x=None, y=None):
    if x is None:
        return tuple(Tensor._of(i) for i in np.nonzero(c._a))
    x, y = _wrap(x), _wrap(y)
    t = _promote(x, y)
    m = c._a
    return _many([x, y], np.where(m, x._a.astype(t), y._a.astype(t)), [lambda g: _unbroadcast(np.where(m, g, 0), x._a.shape), lambda g: _unbroadcast(np.where(m, 0, g), y._a.shape)])


def einsum(spec, *tensors):
    if len(tensors) == 1 and isinstance(tensors[0], (list, tuple)):
        tensors = tuple(tensors[0])
    spec = spec.replace(" ", "")
    if "." in spec or any(len(set(p)) != len(p) for p in spec.split("->")[0].split(",")):
        raise ShimGap("einsum %r" % spec)
    ins = spec.split("->")[0].split(",")
    out = spec.split("->")[1] if "->" in spec else "".join(sorted(c for c in set("".join(ins)) if "".join(ins).count(c) == 1))
    arrays = [t._a for t in tensors]
    sizes = {c: n for p, a in zip(ins, arrays) for c, n in zip(p, a.shape)}

    def back(k):
        def f(g):
            others = [p for j, p in enumerate(ins) if j != k]
            have = set("".join(others) + out)
            want = "".join(c for c in ins[k] if c in have)
            r = np.einsum(",".join([out] + others) + "->" + want, g, *[a for j, a in enumerate(arrays) if j != k])
            for d, c in enumerate(ins[k]):
                if c not in have:
                    r = np.expand_dims(r, d)
            return np.broadcast_to(r, tuple(sizes[c] for c in ins[k]))
        return f

    return _many(list(tensors), np.einsum(",".join(ins) + "->" + out, *arrays), [back(k) for k in range(len(ins))])


FUNCTIONS = {"sum": sum, "mean": mean, "var": var, "std": std, "prod": prod, "max": _extreme("max"), "min": _extreme("min"), "argmax": argmax, "argmin": argmin, "cumsum": cumsum,
             "norm": norm, "log_softmax": log_softmax, "softmax": softmax, "logsumexp": logsumexp, "clamp": clamp, "clip": clamp, "gather": gather, "index_select": index_select,
             "masked_fill": masked_fill, "matmul": matmul, "mm": matmul, "bmm": matmul, "mv": matmul, "dot": matmul, "matrix_power": matrix_power}
for _name, _op in FUNCTIONS.items():
    setattr(Tensor, _name, _op)
Tensor.clamp_ = lambda self, min=None, max=None: self._into(clamp(self, min, max))
Tensor.all = lambda s, dim=None: Tensor._of(np.asarray(s._a.all(axis=dim)))
Tensor.any = lambda s, dim=None: Tensor._of(np.asarray(s._a.any(axis=dim)))
Tensor.nonzero = lambda s: Tensor._of(np.argwhere(s._a))
Tensor.unbind = lambda s, dim=0: tuple(s.select(dim, k) for k in range(s._a.shape[dim]))

# the generator of torch: not numpy's, and seeded by torch.manual_seed
RANDOM = np.random.RandomState(67280421)

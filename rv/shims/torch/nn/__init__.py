import math
from collections import OrderedDict

import numpy as np

from rv.core import ShimGap

from .. import _tensor as _t
from .._tensor import Tensor


class Parameter(Tensor):
    def __init__(self, data=None, requires_grad=True):
        self._setup(np.zeros((0,), dtype=_t.DEFAULT) if data is None else data._a, requires_grad)

    def __deepcopy__(self, memo):
        if id(self) not in memo:
            memo[id(self)] = Parameter(Tensor._of(self._a.copy()), self._requires)
        return memo[id(self)]

    def __repr__(self):
        return "Parameter containing:\n" + Tensor.__repr__(self)


class Module:
    def __init__(self):
        d = self.__dict__
        d["training"], d["_parameters"], d["_modules"], d["_buffers"] = True, OrderedDict(), OrderedDict(), OrderedDict()

    def __setattr__(self, name, value):
        d = self.__dict__
        if isinstance(value, Parameter):
            if "_parameters" not in d:
                raise AttributeError("cannot assign parameters before Module.__init__() call")
            d.pop(name, None)
            d["_parameters"][name] = value
        elif isinstance(value, Module):
            if "_modules" not in d:
                raise AttributeError("cannot assign module before Module.__init__() call")
            d.pop(name, None)
            d["_modules"][name] = value
        elif name in d.get("_parameters", ()):
            if value is not None:
                raise TypeError("cannot assign '%s' as parameter '%s' (torch.nn.Parameter or None expected)" % (type(value).__name__, name))
            d["_parameters"][name] = None
        elif name in d.get("_modules", ()) and value is None:
            d["_modules"][name] = None
        elif name in d.get("_buffers", ()):
            d["_buffers"][name] = value
        else:
            object.__setattr__(self, name, value)

    def __getattr__(self, name):
        for place in ("_parameters", "_modules", "_buffers"):
            if name in self.__dict__.get(place, ()):
                return self.__dict__[place][name]
        raise AttributeError("'%s' object has no attribute '%s'" % (type(self).__name__, name))

    def __delattr__(self, name):
        for place in ("_parameters", "_modules", "_buffers"):
            if name in self.__dict__.get(place, ()):
                del self.__dict__[place][name]
                return
        object.__delattr__(self, name)

    def register_parameter(self, name, param):
        self.__dict__["_parameters"][name] = param

    def register_buffer(self, name, tensor, persistent=True):
        self.__dict__["_buffers"][name] = tensor

    def add_module(self, name, module):
        self.__dict__["_modules"][name] = module

    def named_parameters(self, prefix="", recurse=True):
        seen = set()
        for mname, m in (self.named_modules(prefix=prefix) if recurse else [(prefix, self)]):
            for n, p in m._parameters.items():
                if p is not None and id(p) not in seen:
                    seen.add(id(p))
                    yield (mname + "." if mname else "") + n, p

    def parameters(self, recurse=True):
        for _, p in self.named_parameters(recurse=recurse):
            yield p

    def named_modules(self, memo=None, prefix=""):
        memo = set() if memo is None else memo
        if id(self) not in memo:
            memo.add(id(self))
            yield prefix, self
            for n, m in self._modules.items():
                if m is not None:
                    yield from m.named_modules(memo, (prefix + "." if prefix else "") + n)

    def modules(self):
        for _, m in self.named_modules():
            yield m

    def named_children(self):
        return iter([(n, m) for n, m in self._modules.items() if m is not None])

    def buffers(self, recurse=True):
        return iter([b for m in (self.modules() if recurse else [self]) for b in m._buffers.values() if b is not None])

    def children(self):
        return iter([m for m in self._modules.values() if m is not None])

    def state_dict(self):
        return OrderedDict((n, p.data) for n, p in self.named_parameters())

    def load_state_dict(self, state, strict=True):
        for n, p in self.named_parameters():
            p.data = Tensor._of(state[n]._a.copy())

    def zero_grad(self, set_to_none=False):
        for p in self.parameters():
            if p.grad is not None:
                p.grad = None if set_to_none else p.grad.detach().zero_()

    def train(self, mode=True):
        self.training = mode
        for m in self.children():
            m.train(mode)
        return self

    def eval(self):
        return self.train(False)

    def to(self, *args, **kwargs):
        return self

    def cpu(self):
        return self

    def float(self):
        for p in self.parameters():
            if p._a.dtype.kind == "f" and p._a.dtype != np.float32:
                p._a = p._a.astype(np.float32)
        return self

    def double(self):
        raise ShimGap("a module in double precision")

    def apply(self, fn):
        for m in self.children():
            m.apply(fn)
        fn(self)
        return self

    def requires_grad_(self, value=True):
        for p in self.parameters():
            p.requires_grad_(value)
        return self

    def forward(self, *args, **kwargs):
        raise NotImplementedError

    def __call__(self, *args, **kwargs):
        return self.forward(*args, **kwargs)


class ModuleList(Module):
    def __init__(self, modules=None):
        super().__init__()
        for m in modules or ():
            self.append(m)

    def append(self, m):
        self.add_module(str(len(self._modules)), m)
        return self

    def extend(self, modules):
        for m in modules:
            self.append(m)
        return self

    def __len__(self):
        return len(self._modules)

    def __setitem__(self, k, m):
        self._modules[list(self._modules)[k]] = m

    def insert(self, k, m):
        values = list(self._modules.values())
        values.insert(k, m)
        self._modules.clear()
        self.extend(values)

    def __iter__(self):
        return iter(self._modules.values())

    def __getitem__(self, k):
        values = list(self._modules.values())
        return ModuleList(values[k]) if isinstance(k, slice) else values[k]


class Sequential(ModuleList):
    def __init__(self, *modules):
        super().__init__(modules)

    def forward(self, x):
        for m in self:
            x = m(x)
        return x


class ParameterList(Module):
    def __init__(self, parameters=None):
        super().__init__()
        for p in parameters or ():
            self.append(p)

    def append(self, p):
        self.register_parameter(str(len(self._parameters)), p)
        return self

    def __len__(self):
        return len(self._parameters)

    def __iter__(self):
        return iter(self._parameters.values())

    def __getitem__(self, k):
        return list(self._parameters.values())[k]


    def append_all(self, parameters):
        for p in parameters:
            self.append(p)
        return self

    extend = append_all

    def __setitem__(self, k, p):
        self.register_parameter(list(self._parameters)[k], p)


class Linear(Module):
    def __init__(self, in_features, out_features, bias=True):
        super().__init__()
        self.in_features, self.out_features = in_features, out_features
        self.weight = Parameter(Tensor(out_features, in_features))
        if bias:
            self.bias = Parameter(Tensor(out_features))
        else:
            self.register_parameter("bias", None)
        self.reset_parameters()

    def reset_parameters(self):
        bound = 1 / math.sqrt(max(self.in_features, 1))
        init.uniform_(self.weight, -bound, bound)
        if self.bias is not None:
            init.uniform_(self.bias, -bound, bound)

    def forward(self, x):
        return functional.linear(x, self.weight, self.bias)


class LayerNorm(Module):
    def __init__(self, normalized_shape, eps=1e-5, elementwise_affine=True):
        super().__init__()
        self.normalized_shape = (normalized_shape,) if isinstance(normalized_shape, int) else tuple(normalized_shape)
        self.eps = eps
        if elementwise_affine:
            self.weight = Parameter(Tensor._of(np.ones(self.normalized_shape, dtype=_t.DEFAULT)))
            self.bias = Parameter(Tensor._of(np.zeros(self.normalized_shape, dtype=_t.DEFAULT)))
        else:
            self.register_parameter("weight", None)
            self.register_parameter("bias", None)

    def forward(self, x):
        return functional.layer_norm(x, self.normalized_shape, self.weight, self.bias, self.eps)


def _layer(name, f):
    class Layer(Module):
        def __init__(self, *args, **kwargs):
            super().__init__()
            self._args, self._kwargs = args, kwargs

        def forward(self, *x):
            return f(*x, *self._args, **self._kwargs)

    Layer.__name__ = name
    return Layer


class Identity(Module):
    def __init__(self, *args, **kwargs):
        super().__init__()

    def forward(self, x):
        return x


from . import functional, init  # noqa: E402

Sigmoid, ReLU, Tanh = _layer("Sigmoid", functional.sigmoid), _layer("ReLU", functional.relu), _layer("Tanh", functional.tanh)
Softmax, LogSoftmax = _layer("Softmax", functional.softmax), _layer("LogSoftmax", functional.log_softmax)
BCEWithLogitsLoss = _layer("BCEWithLogitsLoss", functional.binary_cross_entropy_with_logits)
MSELoss, CrossEntropyLoss = _layer("MSELoss", functional.mse_loss), _layer("CrossEntropyLoss", functional.cross_entropy)
NLLLoss, BCELoss, L1Loss = _layer("NLLLoss", functional.nll_loss), _layer("BCELoss", functional.binary_cross_entropy), _layer("L1Loss", functional.l1_loss)
Softplus, LogSigmoid = _layer("Softplus", functional.softplus), _layer("LogSigmoid", functional.logsigmoid)


class Flatten(Module):
    def __init__(self, start_dim=1, end_dim=-1):
        super().__init__()
        self.start_dim, self.end_dim = start_dim, end_dim

    def forward(self, x):
        return x.flatten(self.start_dim, self.end_dim)


class ModuleDict(Module):
    def __init__(self, modules=None):
        super().__init__()
        for n, m in (modules or {}).items():
            self[n] = m

    def __setitem__(self, name, m):
        self.add_module(name, m)

    def __getitem__(self, name):
        return self._modules[name]

    def __len__(self):
        return len(self._modules)

    def __iter__(self):
        return iter(self._modules)

    def __contains__(self, name):
        return name in self._modules

    def keys(self):
        return self._modules.keys()

    def values(self):
        return self._modules.values()

    def items(self):
        return self._modules.items()


from . import utils  # noqa: E402

PoissonNLLLoss = _layer("PoissonNLLLoss", functional.poisson_nll_loss)


def __getattr__(name):
    if name.startswith("__"):
        raise AttributeError(name)
    raise ShimGap("torch.nn.%s" % name)

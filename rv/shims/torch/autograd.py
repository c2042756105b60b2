import numpy as np

from rv.core import ShimGap

from . import _tensor as _t
from ._tensor import Tensor


def grad(outputs, inputs, grad_outputs=None, retain_graph=None, create_graph=False, only_inputs=True, allow_unused=False):
    outputs = [outputs] if isinstance(outputs, Tensor) else list(outputs)
    inputs = [inputs] if isinstance(inputs, Tensor) else list(inputs)
    if grad_outputs is None:
        grad_outputs = [None] * len(outputs)
    elif isinstance(grad_outputs, Tensor):
        grad_outputs = [grad_outputs]
    totals = [None] * len(inputs)
    for out, g in zip(outputs, grad_outputs):
        node = out._node()
        if node is None:
            raise RuntimeError("element 0 of tensors does not require grad and does not have a grad_fn")
        if g is None and out._a.size != 1:
            raise RuntimeError("grad can be implicitly created only for scalar outputs")
        found = _t._differentiate(node, np.ones_like(out._a) if g is None else g._a)
        for k, x in enumerate(inputs):
            n = x._node()
            if n in found:
                part = np.asarray(found[n])
                totals[k] = part if totals[k] is None else totals[k] + part
    out = []
    for x, g in zip(inputs, totals):
        if g is None:
            if not allow_unused:
                raise RuntimeError("One of the differentiated Tensors appears to not have been used in the graph. Set allow_unused=True if this is the desired behavior.")
            out.append(None)
        else:
            out.append(Tensor._of(g.astype(x._a.dtype)))
    return tuple(out)


def Variable(x, requires_grad=False):
    return x.requires_grad_(requires_grad)


def backward(tensors, grad_tensors=None, retain_graph=None, create_graph=False):
    tensors = [tensors] if isinstance(tensors, Tensor) else list(tensors)
    grads = [None] * len(tensors) if grad_tensors is None else [grad_tensors] if isinstance(grad_tensors, Tensor) else grad_tensors
    for t, g in zip(tensors, grads):
        t.backward(g)


def __getattr__(name):
    if name.startswith("__"):
        raise AttributeError(name)
    if name in ("no_grad", "enable_grad", "set_grad_enabled"):
        import torch
        return getattr(torch, name)
    raise ShimGap("torch.autograd.%s" % name)

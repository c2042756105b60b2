import numpy as np

from rv.core import ShimGap

from .._more import xlogy
from .._tensor import ELEMENTWISE, FUNCTIONS, Tensor, _unary, cat, log_softmax, matmul, mean, softmax, sum, where as _where  # noqa: F401

sigmoid, relu, tanh, softplus, logsigmoid = (ELEMENTWISE[n] for n in ("sigmoid", "relu", "tanh", "softplus", "logsigmoid"))


def _reduce(x, reduction):
    if reduction == "mean":
        return mean(x)
    if reduction == "sum":
        return sum(x)
    if reduction == "none":
        return x
    raise ValueError("%s is not a valid value for reduction" % reduction)


def linear(x, weight, bias=None):
    out = matmul(x, weight.t())
    return out if bias is None else out + bias


def layer_norm(x, normalized_shape, weight=None, bias=None, eps=1e-5):
    k = len(normalized_shape)
    if tuple(x._a.shape[-k:]) != tuple(normalized_shape):
        raise RuntimeError("Given normalized_shape=%r, expected input with shape [*, %r], but got input of size%r" % (list(normalized_shape), list(normalized_shape), list(x._a.shape)))
    axes = tuple(range(-k, 0))
    m = mean(x, axes, keepdim=True)
    centred = x - m
    out = centred / (mean(centred * centred, axes, keepdim=True) + eps).sqrt()
    if weight is not None:
        out = out * weight
    if bias is not None:
        out = out + bias
    return out


def _same_size(input, target):
    if input._a.shape != target._a.shape:
        raise ValueError("Target size (%r) must be the same as input size (%r)" % (target._a.shape, input._a.shape))


def binary_cross_entropy_with_logits(input, target, weight=None, size_average=None, reduce=None, reduction="mean", pos_weight=None):
    if weight is not None or pos_weight is not None:
        raise ShimGap("weighted cross entropy")
    _same_size(input, target)
    return _reduce(input * (1 - target) - logsigmoid(input), reduction)


def binary_cross_entropy(input, target, weight=None, size_average=None, reduce=None, reduction="mean"):
    if weight is not None:
        raise ShimGap("weighted cross entropy")
    _same_size(input, target)
    if ((input._a < 0) | (input._a > 1)).any():
        raise RuntimeError("all elements of input should be between 0 and 1")
    return _reduce(-(target * input.log().clamp(min=-100) + (1 - target) * (1 - input).log().clamp(min=-100)), reduction)


def nll_loss(input, target, weight=None, size_average=None, ignore_index=-100, reduce=None, reduction="mean"):
    if weight is not None or input._a.ndim != 2:
        raise ShimGap("nll_loss")
    if target._a.dtype != np.int64:
        raise RuntimeError("Expected object of scalar type Long but got scalar type %s for argument 'target'" % target._a.dtype)
    if target._a.shape != input._a.shape[:1]:
        raise ValueError("Expected input batch_size (%d) to match target batch_size (%d)." % (input._a.shape[0], target._a.shape[0]))
    if target._a.size and (target._a.min() < 0 or target._a.max() >= input._a.shape[1]):
        raise IndexError("Target %d is out of bounds." % target._a.max())
    return _reduce(-input.gather(1, target.unsqueeze(1)).squeeze(1), reduction)


def cross_entropy(input, target, weight=None, size_average=None, ignore_index=-100, reduce=None, reduction="mean"):
    return nll_loss(log_softmax(input, 1), target, weight, reduction=reduction)


def poisson_nll_loss(input, target, log_input=True, full=False, size_average=None, eps=1e-8, reduce=None, reduction="mean"):
    if log_input:
        out = input.exp() - target * input
    else:
        out = input - target * (input + eps).log()
    if full:
        t = target._a
        with np.errstate(all="ignore"):
            stirling = np.where(t > 1, t * np.log(t) - t + 0.5 * np.log(2 * np.pi * t), 0).astype(t.dtype)
        out = out + Tensor._of(stirling)
    return _reduce(out, reduction)


def mse_loss(input, target, size_average=None, reduce=None, reduction="mean"):
    return _reduce((input - target) ** 2, reduction)


def l1_loss(input, target, size_average=None, reduce=None, reduction="mean"):
    return _reduce((input - target).abs(), reduction)


def one_hot(x, num_classes=-1):
    n = int(x._a.max()) + 1 if num_classes == -1 else num_classes
    return Tensor._of(np.eye(n, dtype=np.int64)[x._a])


def smooth_l1_loss(input, target, size_average=None, reduce=None, reduction="mean", beta=1.0):
    d = (input - target).abs()
    small = Tensor._of(d._a < beta)
    return _reduce(_where(small, 0.5 * d * d / beta, d - 0.5 * beta), reduction)


def gaussian_nll_loss(input, target, var, full=False, eps=1e-6, reduction="mean"):
    var = var.clamp(min=eps)
    out = 0.5 * (var.log() + (input - target) ** 2 / var)
    return _reduce(out + 0.5 * float(np.log(2 * np.pi)) if full else out, reduction)


def kl_div(input, target, size_average=None, reduce=None, reduction="mean", log_target=False):
    out = target.exp() * (target - input) if log_target else xlogy(target, target) - target * input
    return sum(out) / input._a.shape[0] if reduction == "batchmean" else _reduce(out, reduction)


def normalize(x, p=2, dim=1, eps=1e-12):
    return x / FUNCTIONS["norm"](x, p, dim, True).clamp(min=eps)


def dropout(x, p=0.5, training=True, inplace=False):
    if training and p:
        raise ShimGap("dropout")
    return x


def leaky_relu(x, negative_slope=0.01, inplace=False):
    return _where(Tensor._of(x._a > 0), x, x * negative_slope)


def elu(x, alpha=1.0, inplace=False):
    return _where(Tensor._of(x._a > 0), x, alpha * x.clamp(max=0).expm1())


def pad(x, pad, mode="constant", value=0):
    if mode != "constant" or any(n < 0 for n in pad):
        raise ShimGap("padding of another kind")
    for k in range(0, len(pad), 2):
        dim = x._a.ndim - 1 - k // 2
        parts = []
        for n in (pad[k], pad[k + 1]):
            shape = list(x._a.shape)
            shape[dim] = n
            parts.append(Tensor._of(np.full(shape, value, dtype=x._a.dtype)))
        x = cat([p for p in (parts[0], x, parts[1]) if p._a.size], dim)
    return x


def __getattr__(name):
    if name.startswith("__"):
        raise AttributeError(name)
    raise ShimGap("torch.nn.functional.%s" % name)

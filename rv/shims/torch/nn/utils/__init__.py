from rv.core import ShimGap

from ..._tensor import cat


def parameters_to_vector(parameters):
    return cat([p.view(-1) if p.is_contiguous() else p.reshape(-1) for p in parameters])


def vector_to_parameters(vec, parameters):
    at = 0
    for p in parameters:
        n = p.numel()
        p.data = vec[at:at + n].view_as(p).data
        at += n


def __getattr__(name):
    if name.startswith("__"):
        raise AttributeError(name)
    raise ShimGap("torch.nn.utils.%s" % name)

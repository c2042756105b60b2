import numpy as np

from rv.core import ShimGap

from .. import no_grad


@no_grad()
def zeros_(t):
    return t.fill_(0)


@no_grad()
def ones_(t):
    return t.fill_(1)


@no_grad()
def constant_(t, val):
    return t.fill_(val)


@no_grad()
def uniform_(t, a=0.0, b=1.0):
    return t.uniform_(a, b)


@no_grad()
def normal_(t, mean=0.0, std=1.0):
    return t.normal_(mean, std)


def _fans(t):
    n = t._a.size // max(t._a.shape[0] * t._a.shape[1], 1)
    return t._a.shape[1] * n, t._a.shape[0] * n


def calculate_gain(nonlinearity, param=None):
    return {"tanh": 5 / 3, "relu": 2 ** 0.5, "leaky_relu": (2 / (1 + (0.01 if param is None else param) ** 2)) ** 0.5}.get(nonlinearity, 1.0)


@no_grad()
def xavier_uniform_(t, gain=1.0):
    a = gain * (6.0 / sum(_fans(t))) ** 0.5
    return t.uniform_(-a, a)


@no_grad()
def xavier_normal_(t, gain=1.0):
    return t.normal_(0.0, gain * (2.0 / sum(_fans(t))) ** 0.5)


@no_grad()
def kaiming_uniform_(t, a=0, mode="fan_in", nonlinearity="leaky_relu"):
    b = calculate_gain(nonlinearity, a) * (3.0 / _fans(t)[mode == "fan_out"]) ** 0.5
    return t.uniform_(-b, b)


@no_grad()
def kaiming_normal_(t, a=0, mode="fan_in", nonlinearity="leaky_relu"):
    return t.normal_(0.0, calculate_gain(nonlinearity, a) / _fans(t)[mode == "fan_out"] ** 0.5)


@no_grad()
def eye_(t):
    t._overwrite(np.eye(*t._a.shape, dtype=t._a.dtype), lambda old: None)
    return t


def __getattr__(name):
    if name.startswith("__"):
        raise AttributeError(name)
    raise ShimGap("torch.nn.init.%s" % name)

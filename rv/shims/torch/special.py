from rv.core import ShimGap

from ._more import ELEMENTWISE as _E, logit, xlogy  # noqa: F401

expit, erf, expm1, log1p, exp2 = (_E[n] for n in ("sigmoid", "erf", "expm1", "log1p", "exp2"))


def __getattr__(name):
    if name.startswith("__"):
        raise AttributeError(name)
    raise ShimGap("torch.special.%s" % name)

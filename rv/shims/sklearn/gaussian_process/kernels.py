"""RBF, DotProduct and WhiteKernel as scikit-learn defines them, for calls k(X) and k(X, Y)."""
import numpy as np


class Kernel:
    def __add__(self, other):
        return Sum(self, _kernel(other))

    def __mul__(self, other):
        return Product(self, _kernel(other))

    def __radd__(self, other):
        return Sum(_kernel(other), self)

    def __rmul__(self, other):
        return Product(_kernel(other), self)


def _kernel(k):
    return k if isinstance(k, Kernel) else ConstantKernel(k)


class Sum(Kernel):
    def __init__(self, a, b):
        self.a, self.b = a, b

    def __call__(self, X, Y=None):
        return self.a(X, Y) + self.b(X, Y)


class Product(Kernel):
    def __init__(self, a, b):
        self.a, self.b = a, b

    def __call__(self, X, Y=None):
        return self.a(X, Y) * self.b(X, Y)


class RBF(Kernel):
    def __init__(self, length_scale=1.0, length_scale_bounds=(1e-5, 1e5)):
        self.length_scale = length_scale

    def __call__(self, X, Y=None, eval_gradient=False):
        X = np.atleast_2d(X)
        Y = X if Y is None else np.atleast_2d(Y)
        d = ((X[:, None, :] - Y[None, :, :]) / self.length_scale) ** 2
        return np.exp(-0.5 * d.sum(axis=2))


class DotProduct(Kernel):
    def __init__(self, sigma_0=1.0, sigma_0_bounds=(1e-5, 1e5)):
        self.sigma_0 = sigma_0

    def __call__(self, X, Y=None, eval_gradient=False):
        X = np.atleast_2d(X)
        return X @ (X if Y is None else np.atleast_2d(Y)).T + self.sigma_0 ** 2


class ConstantKernel(Kernel):
    def __init__(self, constant_value=1.0, constant_value_bounds=(1e-5, 1e5)):
        self.constant_value = constant_value

    def __call__(self, X, Y=None, eval_gradient=False):
        return np.full((len(X), len(X if Y is None else Y)), float(self.constant_value))

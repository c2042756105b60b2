import copy
import inspect

import numpy as np


class BaseEstimator:
    @classmethod
    def _get_param_names(cls):
        return sorted(k for k, p in inspect.signature(cls.__init__).parameters.items() if k != "self" and p.kind != p.VAR_KEYWORD)

    def get_params(self, deep=True):
        # scikit-learn before 0.24: a parameter without an attribute is None (and a FutureWarning)
        return {k: getattr(self, k, None) for k in self._get_param_names()}

    def set_params(self, **params):
        for k, v in params.items():
            if k not in self._get_param_names():
                raise ValueError("Invalid parameter %s" % k)
            setattr(self, k, v)
        return self


def clone(estimator, safe=True):
    if isinstance(estimator, (list, tuple, set, frozenset)):
        return type(estimator)([clone(e, safe=safe) for e in estimator])
    if not hasattr(estimator, "get_params") or isinstance(estimator, type):
        if not safe:
            return copy.deepcopy(estimator)
        raise TypeError("Cannot clone object %r" % (estimator,))
    new = type(estimator)(**{k: clone(v, safe=False) for k, v in estimator.get_params(deep=False).items()})
    return new


class TransformerMixin:
    def fit_transform(self, X, y=None, **fit_params):
        if y is None:
            return self.fit(X, **fit_params).transform(X)
        return self.fit(X, y, **fit_params).transform(X)


class ClassifierMixin:
    _estimator_type = "classifier"

    def score(self, X, y, sample_weight=None):
        return float(np.mean(np.asarray(self.predict(X)) == np.asarray(y)))


class RegressorMixin:
    _estimator_type = "regressor"

    def score(self, X, y, sample_weight=None):
        y = np.asarray(y, dtype=float)
        return 1 - float(((y - self.predict(X)) ** 2).sum()) / float(((y - y.mean()) ** 2).sum())

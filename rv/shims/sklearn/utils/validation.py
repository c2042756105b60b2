"""Stand-ins for the validators of scikit-learn 0.22, for numeric data."""
import numpy as np

from rv.core import ShimGap
from sklearn.exceptions import NotFittedError


def check_array(array, accept_sparse=False, *, dtype="numeric", force_all_finite=True, ensure_2d=True, ensure_min_samples=1, ensure_min_features=1, copy=False, **kwargs):
    if kwargs:
        raise ShimGap("check_array with %r" % sorted(kwargs))
    a = np.asarray(array)
    if a.dtype == object or (dtype is not None and dtype != "numeric"):
        a = a.astype(np.float64)
    if a.dtype.kind in "US":
        raise ShimGap("check_array of strings")
    if ensure_2d and a.ndim != 2:
        raise ValueError("Expected 2D array, got %dD array instead" % a.ndim)
    if force_all_finite and a.dtype.kind == "f" and not np.isfinite(a).all():
        raise ValueError("Input contains NaN, infinity or a value too large for %r." % a.dtype)
    if a.ndim and len(a) < ensure_min_samples:
        raise ValueError("Found array with %d sample(s) (shape=%r) while a minimum of %d is required." % (len(a), a.shape, ensure_min_samples))
    if a.ndim == 2 and a.shape[1] < ensure_min_features:
        raise ValueError("Found array with %d feature(s) (shape=%r) while a minimum of %d is required." % (a.shape[1], a.shape, ensure_min_features))
    return a.copy() if copy else a


def column_or_1d(y, warn=False):
    y = np.asarray(y)
    if y.ndim == 2 and y.shape[1] == 1:
        y = y[:, 0]
    if y.ndim != 1:
        raise ValueError("bad input shape %r" % (y.shape,))
    return y


def check_X_y(X, y, accept_sparse=False, *, y_numeric=False, **kwargs):
    if y is None:
        raise ValueError("y cannot be None")
    X = check_array(X, **kwargs)
    y = column_or_1d(y)
    if y_numeric and y.dtype == object:
        y = y.astype(np.float64)
    if y.dtype.kind == "f" and not np.isfinite(y).all():
        raise ValueError("Input contains NaN, infinity or a value too large for %r." % y.dtype)
    if len(X) != len(y):
        raise ValueError("Found input variables with inconsistent numbers of samples: %r" % [len(X), len(y)])
    return X, y


def check_is_fitted(estimator, attributes=None, *, msg=None, all_or_any=all):
    if not hasattr(estimator, "fit"):
        raise TypeError("%s is not an estimator instance." % estimator)
    if attributes is not None:
        attributes = [attributes] if isinstance(attributes, str) else attributes
        fitted = all_or_any([hasattr(estimator, a) for a in attributes])
    else:
        fitted = [v for v in vars(estimator) if v.endswith("_") and not v.startswith("__")]
    if not fitted:
        raise NotFittedError("This %s instance is not fitted yet. Call 'fit' with appropriate arguments before using this estimator." % type(estimator).__name__)


def check_consistent_length(*arrays):
    lengths = [len(a) for a in arrays if a is not None]
    if len(set(lengths)) > 1:
        raise ValueError("Found input variables with inconsistent numbers of samples: %r" % lengths)


def __getattr__(name):
    if name.startswith("__"):
        raise AttributeError(name)
    raise ShimGap("sklearn.utils.validation.%s" % name)

"""Stand-ins for the encoders and the scaler of sklearn.preprocessing, from their documentation."""
import numpy as np

from rv.core import ShimGap
from sklearn.base import BaseEstimator, TransformerMixin
from sklearn.exceptions import NotFittedError
from sklearn.utils import check_array


def _fitted(self, name):
    if not hasattr(self, name):
        raise NotFittedError("This %s instance is not fitted yet." % type(self).__name__)


class _Encoder(TransformerMixin, BaseEstimator):
    handle_unknown = "error"

    def fit(self, X, y=None):
        X = check_array(X)
        if isinstance(self.categories, str):
            self.categories_ = [np.unique(X[:, k]) for k in range(X.shape[1])]
            return self
        if len(self.categories) != X.shape[1]:
            raise ValueError("Shape mismatch: if categories is an array, it has to be of shape (n_features,).")
        self.categories_ = [np.array(c) for c in self.categories]
        for k, c in enumerate(self.categories_):
            if not np.isin(X[:, k], c).all() and self.handle_unknown == "error":
                raise ValueError("Found unknown categories in column %d during fit" % k)
        return self

    def _codes(self, X):
        _fitted(self, "categories_")
        X = check_array(X)
        if X.shape[1] != len(self.categories_):
            raise ValueError("The number of features in X is different to the number of features of the fitted data.")
        codes = np.zeros(X.shape, dtype=int)
        for k, c in enumerate(self.categories_):
            new = ~np.isin(X[:, k], c)
            if new.any() and self.handle_unknown == "error":
                raise ValueError("Found unknown categories %r in column %d during transform" % (np.unique(X[new, k]).tolist(), k))
            if len(c):
                order = np.argsort(c, kind="stable")
                codes[:, k] = order[np.minimum(np.searchsorted(c, X[:, k], sorter=order), len(c) - 1)]
            codes[new, k] = -1
        return codes


class OneHotEncoder(_Encoder):
    def __init__(self, categories="auto", drop=None, sparse=True, dtype=np.float64, handle_unknown="error"):
        if drop is not None:
            raise ShimGap("OneHotEncoder that drops")
        self.categories, self.drop, self.sparse, self.dtype, self.handle_unknown = categories, drop, sparse, dtype, handle_unknown

    def transform(self, X):
        codes = self._codes(X)
        out = np.hstack([(codes[:, [k]] == np.arange(len(c))).astype(self.dtype) for k, c in enumerate(self.categories_)])
        if self.sparse:
            import scipy.sparse

            return scipy.sparse.csr_matrix(out)
        return out

    def inverse_transform(self, X):
        _fitted(self, "categories_")
        X = X.toarray() if hasattr(X, "toarray") else np.asarray(X)
        parts = np.split(X, np.cumsum([len(c) for c in self.categories_])[:-1], axis=1)
        return np.column_stack([c[p.argmax(axis=1)] for c, p in zip(self.categories_, parts)])

    def get_feature_names(self, input_features=None):
        names = ["x%d" % k for k in range(len(self.categories_))] if input_features is None else input_features
        return np.array(["%s_%s" % (n, v) for n, c in zip(names, self.categories_) for v in c], dtype=object)


class OrdinalEncoder(_Encoder):
    def __init__(self, categories="auto", dtype=np.float64):
        self.categories, self.dtype = categories, dtype

    def transform(self, X):
        return self._codes(X).astype(self.dtype)

    def inverse_transform(self, X):
        _fitted(self, "categories_")
        X = np.asarray(X).astype(int)
        return np.column_stack([c[X[:, k]] for k, c in enumerate(self.categories_)])


class LabelEncoder(TransformerMixin, BaseEstimator):
    def __init__(self):
        pass

    @staticmethod
    def _column(y):
        y = np.asarray(y)
        if y.ndim == 2 and y.shape[1] == 1:
            y = y[:, 0]
        if y.ndim != 1:
            raise ValueError("bad input shape %r" % (y.shape,))
        return y

    def fit(self, y):
        y = self._column(y)
        self.classes_ = np.array(sorted(set(y.tolist())), dtype=object) if y.dtype == object else np.unique(y)
        return self

    def fit_transform(self, y):
        return self.fit(y).transform(y)

    def transform(self, y):
        _fitted(self, "classes_")
        y = self._column(y)
        codes = {c: k for k, c in enumerate(self.classes_.tolist())}
        unseen = [v for v in y.tolist() if v not in codes]
        if unseen:
            raise ValueError("y contains previously unseen labels: %r" % unseen)
        return np.array([codes[v] for v in y.tolist()], dtype=np.int64)

    def inverse_transform(self, y):
        _fitted(self, "classes_")
        return self.classes_[np.asarray(y)]


class StandardScaler(TransformerMixin, BaseEstimator):
    def __init__(self, copy=True, with_mean=True, with_std=True):
        if not copy:
            raise ShimGap("StandardScaler in place")
        self.copy, self.with_mean, self.with_std = copy, with_mean, with_std

    def fit(self, X, y=None):
        X = check_array(X, dtype=float)
        self.mean_ = X.mean(axis=0) if self.with_mean or self.with_std else None
        self.var_ = X.var(axis=0) if self.with_std else None
        self.scale_ = np.where(self.var_ == 0, 1.0, np.sqrt(self.var_)) if self.with_std else None
        self.n_samples_seen_, self._n = len(X), X.shape[1]
        return self

    def transform(self, X, copy=None):
        _fitted(self, "scale_")
        X = self._same(X)
        return (X - (self.mean_ if self.with_mean else 0)) / (self.scale_ if self.with_std else 1)

    def inverse_transform(self, X, copy=None):
        _fitted(self, "scale_")
        return self._same(X) * (self.scale_ if self.with_std else 1) + (self.mean_ if self.with_mean else 0)

    def _same(self, X):
        X = np.asarray(X, dtype=float)
        if X.ndim == 1:
            raise ValueError("Expected 2D array, got 1D array instead")
        if X.shape[1] != self._n:
            raise ValueError("operands could not be broadcast together with shapes")
        return X


def scale(X, axis=0, with_mean=True, with_std=True, copy=True):
    X = np.asarray(X, dtype=float)
    if axis != 0:
        raise ShimGap("scale along another axis")
    d = X.std(axis=0)
    return (X - (X.mean(axis=0) if with_mean else 0)) / (np.where(d == 0, 1.0, d) if with_std else 1)


def label_binarize(y, *, classes, neg_label=0, pos_label=1, sparse_output=False):
    if sparse_output:
        raise ShimGap("sparse label_binarize")
    y = LabelEncoder._column(y)
    out = np.array([[pos_label if v == c else neg_label for c in classes] for v in y.tolist()])
    return out[:, 1:] if len(classes) == 2 else out


class LabelBinarizer(TransformerMixin, BaseEstimator):
    def __init__(self, neg_label=0, pos_label=1, sparse_output=False):
        self.neg_label, self.pos_label, self.sparse_output = neg_label, pos_label, sparse_output

    def fit(self, y):
        self.classes_ = np.unique(LabelEncoder._column(y))
        return self

    def fit_transform(self, y):
        return self.fit(y).transform(y)

    def transform(self, y):
        _fitted(self, "classes_")
        return label_binarize(y, classes=self.classes_.tolist(), neg_label=self.neg_label, pos_label=self.pos_label, sparse_output=self.sparse_output)


class MinMaxScaler(TransformerMixin, BaseEstimator):
    def __init__(self, feature_range=(0, 1), copy=True):
        self.feature_range, self.copy = feature_range, copy

    def fit(self, X, y=None):
        X = check_array(X, dtype=float)
        self.data_min_, self.data_max_ = X.min(axis=0), X.max(axis=0)
        self.data_range_ = self.data_max_ - self.data_min_
        self.scale_ = (self.feature_range[1] - self.feature_range[0]) / np.where(self.data_range_ == 0, 1, self.data_range_)
        self.min_ = self.feature_range[0] - self.data_min_ * self.scale_
        return self

    def transform(self, X):
        _fitted(self, "scale_")
        return np.asarray(X, dtype=float) * self.scale_ + self.min_

    def inverse_transform(self, X):
        _fitted(self, "scale_")
        return (np.asarray(X, dtype=float) - self.min_) / self.scale_


def __getattr__(name):
    if name.startswith("__"):
        raise AttributeError(name)
    raise ShimGap("sklearn.preprocessing.%s" % name)

"""A small stand-in for pandas: the tabular operations causalnex uses, and their near neighbours.

Written from pandas' documented behaviour (1.x).  Anything of pandas that is not here raises ShimGap.
"""
import itertools
import numbers
import operator

import numpy as np

from rv.core import ShimGap

__version__ = "1.1.5"

# names of pandas which exist there and not here: asking for one is a gap, not an AttributeError
_FRAME = """add aggregate align asfreq asof at_time attrs axes backfill between_time bfill bool boxplot clip combine
combine_first compare convert_dtypes corr corrwith cov cummax cummin cumprod cumsum describe diff div divide dot droplevel
duplicated eval ewm expanding explode ffill fillna filter first first_valid_index floordiv ge get groupby gt hist
infer_objects info interpolate isin itertuples join keys kurt last le lookup lt mad mask melt memory_usage merge mod mode mul
multiply ndim ne nlargest nsmallest pad pct_change pipe pivot pivot_table plot pow prod product quantile query radd rank
reindex reindex_like reorder_levels replace resample rolling sample sem set_axis shift skew slice_shift squeeze stack style sub
subtract swapaxes swaplevel take to_clipboard to_csv to_excel to_feather to_hdf to_html to_json to_latex to_markdown
to_parquet to_period to_pickle to_records to_sql to_stata to_string to_timestamp to_xarray transform transpose truncate
tshift tz_convert unstack update value_counts var where xs str dt cat factorize searchsorted between argmax argmin argsort
array autocorr is_monotonic is_unique nbytes ravel view hasnans to_frame groupby levels codes get_loc get_indexer union
intersection difference is_monotonic_increasing is_monotonic_decreasing has_duplicates slice_indexer append insert delete
sortlevel set_names set_levels""".split()


class _Gaps:
    def __getattr__(self, name):
        if name in _FRAME:
            raise ShimGap("%s.%s" % (type(self).__name__, name))
        raise AttributeError(name)


def _objects(values):
    values = list(values)
    out = np.empty(len(values), dtype=object)
    for i, v in enumerate(values):
        out[i] = v
    return out


def _is_null(x):
    if x is None:
        return True
    try:
        return bool(x != x)
    except (TypeError, ValueError):
        return False


def _array(values, n=None):
    """The column which pandas would store for these values."""
    if isinstance(values, (Series, Index)):
        return values.values.copy()
    if isinstance(values, np.ndarray):
        if values.ndim != 1:
            raise ShimGap("a column from a %d-d array" % values.ndim)
        if values.dtype.kind in "US":
            return _objects(str(v) if values.dtype.kind == "U" else bytes(v) for v in values)
        if values.dtype == object:
            return _objects(values)
        return values.copy()
    if isinstance(values, (str, bytes)) or not hasattr(values, "__iter__"):
        values = [values] * n
    values = list(values)
    kinds = {bool if isinstance(v, (bool, np.bool_)) else int if isinstance(v, numbers.Integral) else float
             if isinstance(v, numbers.Real) else None if v is None else object for v in values}
    if not kinds or object in kinds or kinds == {None}:
        return _objects(values)
    if kinds == {bool}:
        return np.array([bool(v) for v in values], dtype=bool)
    if bool in kinds:
        return _objects(values)
    if kinds == {int}:
        try:
            return np.array([int(v) for v in values], dtype=np.int64)
        except OverflowError:
            return _objects(values)
    return np.array([np.nan if v is None else float(v) for v in values], dtype=float)


def _listlike(x):
    return isinstance(x, (list, np.ndarray, Index, Series)) or (hasattr(x, "__iter__") and not isinstance(
        x, (str, bytes, tuple, frozenset, dict)) and not hasattr(x, "__hash__"))


def _is_mask(key):
    if isinstance(key, Series):
        return key.values.dtype == bool
    if isinstance(key, np.ndarray):
        return key.dtype == bool
    return isinstance(key, list) and bool(key) and all(isinstance(k, (bool, np.bool_)) for k in key)


# --------------------------------------------------------------------------- Index
class Index(_Gaps):
    def __new__(cls, data=None, dtype=None, name=None, names=None, **kwargs):
        if cls is Index and data is not None and not isinstance(data, Index):
            data = list(data)
            if data and all(isinstance(d, tuple) for d in data) and kwargs.get("tupleize_cols", True):
                return MultiIndex.from_tuples(data, names=names)
        return object.__new__(cls)

    def __init__(self, data=None, dtype=None, name=None, names=None, tupleize_cols=True):
        if isinstance(self, MultiIndex):
            return
        if isinstance(data, Index):
            name = data.name if name is None else name
        self._values = _array([] if data is None else data)
        if dtype is not None:
            self._values = self._values.astype(dtype)
        self._name = name

    @property
    def name(self):
        return self._name

    @name.setter
    def name(self, value):
        self._name = value

    @property
    def names(self):
        return [self._name]

    @names.setter
    def names(self, value):
        self._name = list(value)[0]

    @property
    def nlevels(self):
        return 1

    @property
    def values(self):
        return self._values

    def to_numpy(self):
        return self._values.copy()

    def __array__(self, dtype=None, copy=None):
        return self._values if dtype is None else self._values.astype(dtype)

    @property
    def dtype(self):
        return self._values.dtype

    @property
    def size(self):
        return len(self._values)

    @property
    def shape(self):
        return (len(self._values),)

    @property
    def empty(self):
        return len(self) == 0

    def __len__(self):
        return len(self._values)

    def __iter__(self):
        return iter(self.tolist())

    def tolist(self):
        return self._values.tolist() if self._values.dtype != object else list(self._values)

    to_list = tolist

    def __getitem__(self, key):
        if isinstance(key, (slice, list, np.ndarray)):
            return self._make(self._values[key])
        return self._values[key]

    def _make(self, values):
        out = Index.__new__(Index, None)
        out._values, out._name = _array(values), self._name
        return out

    def __contains__(self, key):
        hash(key)
        return any(_same(key, v) for v in self._values)

    def copy(self, deep=False):
        return self._make(self._values)

    def rename(self, name, inplace=False):
        out = self.copy()
        out.name = name
        return out

    def _compare(self, other, op):
        o = other.values if isinstance(other, (Index, Series)) else other
        if isinstance(o, (list, np.ndarray)):
            if len(o) != len(self):
                raise ValueError("Lengths must match to compare")
            return np.array([bool(op(a, b)) for a, b in zip(self._values, o)], dtype=bool)
        return np.array([bool(op(a, o)) for a in self._values], dtype=bool)

    def __eq__(self, other):
        return self._compare(other, operator.eq)

    def __ne__(self, other):
        return self._compare(other, operator.ne)

    def __lt__(self, other):
        return self._compare(other, operator.lt)

    def __le__(self, other):
        return self._compare(other, operator.le)

    def __gt__(self, other):
        return self._compare(other, operator.gt)

    def __ge__(self, other):
        return self._compare(other, operator.ge)

    __hash__ = None

    def __sub__(self, other):
        return self._make(self._values - (other._values if isinstance(other, Index) else other))

    def __add__(self, other):
        return self._make(self._values + (other._values if isinstance(other, Index) else other))

    def equals(self, other):
        return isinstance(other, Index) and len(self) == len(other) and all(_same(a, b) for a, b in zip(self, other))

    def unique(self):
        return self._make(_unique(self._values))

    def sort_values(self, ascending=True):
        v = sorted(self.tolist(), reverse=not ascending)
        out = self._make(_array(v))
        if self._values.dtype != object:
            out._values = out._values.astype(self._values.dtype)
        return out

    def isin(self, values):
        values = list(values)
        return np.array([any(_same(v, w) for w in values) for v in self._values], dtype=bool)

    def isna(self):
        return np.array([_is_null(v) for v in self._values], dtype=bool)

    isnull = isna

    def max(self, axis=None, out=None, dtype=None):
        return self._values.max()

    def min(self, axis=None, out=None, dtype=None):
        return self._values.min()

    def any(self, axis=None, out=None, dtype=None):
        return bool(self._values.any())

    def all(self, axis=None, out=None, dtype=None):
        return bool(self._values.all())

    def map(self, f):
        f = f.__getitem__ if isinstance(f, dict) else f
        return Index([f(v) for v in self])

    def get_level_values(self, level):
        return self.copy()

    def difference(self, other, sort=None):
        return Index(sorted(v for v in _unique(self._values) if v not in list(other)))

    def get_loc(self, key):
        hits = [i for i, v in enumerate(self._values) if _same(key, v)]
        if not hits:
            raise KeyError(key)
        return hits[0] if len(hits) == 1 else np.array([_same(key, v) for v in self._values])

    @property
    def is_unique(self):
        return len(_unique(self._values)) == len(self)

    @property
    def is_monotonic_increasing(self):
        v = self.tolist()
        return all(a <= b for a, b in zip(v, v[1:]))

    def get_indexer(self, target):
        return np.array([self.get_loc(t) if t in self else -1 for t in target])

    def __repr__(self):
        return "Index(%r, name=%r)" % (self.tolist(), self._name)


class RangeIndex(Index):
    def __init__(self, start=0, stop=None, step=1, name=None):
        if stop is None:
            start, stop = 0, start
        self._values, self._name = np.arange(start, stop, step, dtype=np.int64), name


Int64Index = Index


class MultiIndex(Index):
    def __init__(self, *args, **kwargs):
        pass

    @classmethod
    def _new(cls, tuples, names):
        out = object.__new__(cls)
        out._values = _objects([tuple(t) for t in tuples])
        n = len(out._values[0]) if len(out._values) else (len(names) if names is not None else 1)
        out._names = [None] * n if names is None else list(names)
        if len(out._names) != n:
            raise ValueError("Length of names must match number of levels in MultiIndex.")
        out._name = None
        return out

    @classmethod
    def from_tuples(cls, tuples, sortorder=None, names=None):
        return cls._new(list(tuples), names)

    @classmethod
    def from_product(cls, iterables, sortorder=None, names=None):
        iterables = [list(i) for i in iterables]
        if names is None:
            names = [getattr(i, "name", None) for i in iterables]
        return cls._new(list(itertools.product(*iterables)), names)

    @classmethod
    def from_arrays(cls, arrays, sortorder=None, names=None):
        return cls._new(list(zip(*[list(a) for a in arrays])), names)

    @classmethod
    def from_frame(cls, df, sortorder=None, names=None):
        if not isinstance(df, DataFrame):
            raise TypeError("Input must be a DataFrame")
        return cls._new(list(zip(*[list(c) for c in df._data])), names or df._columns.tolist())

    @property
    def names(self):
        return self._names

    @names.setter
    def names(self, value):
        self._names = list(value)

    @property
    def nlevels(self):
        return len(self._names)

    @property
    def levels(self):
        return [Index(sorted(_unique(_objects(t[i] for t in self._values))), name=n) for i, n in enumerate(self._names)]

    def _make(self, values):
        return MultiIndex._new(list(values), self._names)

    def get_level_values(self, level):
        i = self._names.index(level) if level in self._names else level
        return Index([t[i] for t in self._values], name=self._names[i])

    def __repr__(self):
        return "MultiIndex(%r, names=%r)" % (self.tolist(), self._names)


def _same(a, b):
    if isinstance(a, tuple) or isinstance(b, tuple):
        return isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b) and all(map(_same, a, b))
    if a is b:
        return True
    try:
        return bool(a == b) and type(a == b) is not type(NotImplemented)
    except (ValueError, TypeError):
        return False


def _unique(values):
    seen, out = set(), []
    nan = False
    for v in values:
        if _is_null(v) and v is not None:
            if not nan:
                nan = True
                out.append(v)
        elif v not in seen:
            seen.add(v)
            out.append(v)
    if isinstance(values, np.ndarray) and values.dtype != object:
        return np.array(out, dtype=values.dtype)
    return _objects(out)


def _index(x, n):
    if x is None:
        return RangeIndex(n)
    if isinstance(x, Index):
        return x
    return Index(x.values if isinstance(x, Series) else x, name=getattr(x, "name", None))


# --------------------------------------------------------------------------- Series
class Series(_Gaps):
    __hash__ = None

    def __init__(self, data=None, index=None, dtype=None, name=None, copy=False):
        if isinstance(data, dict):
            if index is None:
                index = Index(list(data.keys()))
                data = list(data.values())
            else:
                data = [data.get(k, np.nan) for k in index]
        if isinstance(data, Series):
            index = data.index if index is None else index
            name = data.name if name is None else name
        if data is None and index is not None:
            data = np.full(len(index), np.nan)
        n = len(index) if index is not None else (len(data) if hasattr(data, "__len__") and not isinstance(data, str) else 1)
        if not copy and (isinstance(data, Series) or isinstance(data, np.ndarray) and data.ndim == 1 and data.dtype.kind in "iufb"):
            self._v = data._v if isinstance(data, Series) else data  # no copy, as in pandas
            if isinstance(data, Series) and index is not None and not _index(index, n).equals(data._index):
                self._v = data.reindex(_index(index, n))._v
        else:
            self._v = _array([] if data is None else data, n)
        if dtype is not None:
            self._v = self._v.astype(dtype)
        self._index = _index(index, len(self._v))
        if len(self._index) != len(self._v):
            raise ValueError("Length of passed values is %d, index implies %d" % (len(self._v), len(self._index)))
        self.name = name

    @classmethod
    def _of(cls, values, index, name=None):
        out = object.__new__(cls)
        out._v, out._index, out.name = values, index, name
        return out

    @property
    def values(self):
        return self._v

    def to_numpy(self, dtype=None, copy=False):
        return self._v.copy() if dtype is None else self._v.astype(dtype)

    def __array__(self, dtype=None, copy=None):
        return self._v if dtype is None else self._v.astype(dtype)

    def __array_ufunc__(self, ufunc, method, *inputs, **kwargs):
        if method != "__call__" or kwargs.get("out") is not None:
            raise ShimGap("Series in %s.%s" % (ufunc.__name__, method))
        args = [x._v if isinstance(x, Series) else x for x in inputs]
        return Series._of(ufunc(*args, **kwargs), self._index, self.name)

    @property
    def index(self):
        return self._index

    @index.setter
    def index(self, value):
        self._index = _index(value, len(self._v))

    @property
    def dtype(self):
        return self._v.dtype

    @property
    def shape(self):
        return self._v.shape

    @property
    def size(self):
        return len(self._v)

    @property
    def ndim(self):
        return 1

    @property
    def empty(self):
        return len(self._v) == 0

    def __len__(self):
        return len(self._v)

    def __iter__(self):
        return iter(self.tolist())

    def __contains__(self, key):
        return key in self._index

    def tolist(self):
        return list(self._v) if self._v.dtype == object else self._v.tolist()

    to_list = tolist

    def keys(self):
        return self._index

    def items(self):
        return iter(list(zip(self._index, self.tolist())))

    iteritems = items

    def to_dict(self):
        return dict(self.items())

    def copy(self, deep=True):
        return Series._of(self._v.copy(), self._index.copy(), self.name)

    def __deepcopy__(self, memo):
        return self.copy()

    def _pick(self, rows):
        return Series._of(self._v[rows], self._index._make(self._index._values[rows]), self.name)

    def _label(self, key):
        loc = self._index.get_loc(key)
        if isinstance(loc, np.ndarray):
            return self._pick(np.nonzero(loc)[0])
        return self._v[loc]

    def __getitem__(self, key):
        if _is_mask(key):
            return self._pick(np.nonzero(np.asarray(key))[0])
        if isinstance(key, slice):
            return self._pick(np.arange(len(self._v))[key])
        if _listlike(key):
            return self._pick([self._index.get_loc(k) for k in key])
        if isinstance(self._index, MultiIndex):
            return _partial(self, key)
        if key in self._index:
            return self._label(key)
        if isinstance(key, numbers.Integral) and self._index.dtype.kind not in "iub" and self._index.dtype != bool:
            if not any(isinstance(v, numbers.Number) for v in self._index):
                return self._v[key]
        raise KeyError(key)

    def __setitem__(self, key, value):
        if isinstance(key, slice) and key == slice(None):
            value = np.asarray(value)
            if value.ndim == 0:
                raise ShimGap("a scalar to a whole Series")
            if value.shape != self._v.shape:
                raise ValueError("cannot set using a slice indexer with a different length than the value")
            # an exact match takes the values and their type (1.x); the array of the caller may be changed with it
            if self._v.dtype == value.dtype:
                self._v[:] = value
            else:
                self._v = value.copy()
            return
        if not _is_mask(key) and not _listlike(key) and not isinstance(key, slice) and not isinstance(self._index, MultiIndex) and key not in self._index:
            if isinstance(key, numbers.Integral) and self._index.dtype == object:
                raise ShimGap("a position or a new label")
            # enlargement
            self._v = _array(list(self._v) + [value])
            self._index = Index(list(self._index) + [key], name=self._index.name)
            return
        self._v = self._v.astype(object) if self._v.dtype.kind in "ib" and not isinstance(value, (int, bool, np.integer, np.bool_)) else self._v
        self._v[np.asarray(key) if _is_mask(key) else self._index.get_loc(key)] = value

    def get(self, key, default=None):
        try:
            return self[key]
        except KeyError:
            return default

    @property
    def loc(self):
        return _SeriesLoc(self)

    @property
    def at(self):
        return _SeriesLoc(self)

    @property
    def iloc(self):
        return _SeriesILoc(self)

    iat = iloc

    def _binary(self, other, op):
        if isinstance(other, Series):
            if not self._index.equals(other._index):
                raise ShimGap("arithmetic on unaligned Series")
            other = other._v
        with np.errstate(all="ignore"):
            return Series._of(np.asarray(op(self._v, other)), self._index, self.name)

    def _cmp(self, other, op):
        o = other.values if isinstance(other, (Series, Index)) else other
        if isinstance(o, (list, np.ndarray)):
            if len(o) != len(self):
                raise ValueError("Lengths must match to compare")
            return Series._of(np.array([bool(op(a, b)) for a, b in zip(self._v, o)], dtype=bool), self._index, self.name)
        return Series._of(np.array([bool(op(a, o)) for a in self._v], dtype=bool), self._index, self.name)

    def abs(self):
        return Series._of(np.abs(self._v), self._index, self.name)

    def __neg__(self):
        return Series._of(-self._v, self._index, self.name)

    def __invert__(self):
        return Series._of(~self._v, self._index, self.name)

    def __and__(self, other):
        return self._binary(other, operator.and_)

    def __or__(self, other):
        return self._binary(other, operator.or_)

    def _clean(self):
        return self._v[~self.isna()._v]

    def _reduce(self, f, empty=np.nan):
        v = self._clean()
        return f(v) if len(v) else empty

    def max(self, axis=None, skipna=True, out=None, dtype=None):
        return self._reduce(lambda v: v.max() if v.dtype != object else max(v))

    def min(self, axis=None, skipna=True, out=None, dtype=None):
        return self._reduce(lambda v: v.min() if v.dtype != object else min(v))

    def sum(self, axis=None, out=None, dtype=None):
        return self._reduce(lambda v: v.sum(), 0)

    def mean(self, axis=None, out=None, dtype=None):
        return self._reduce(lambda v: v.mean())

    def std(self, axis=None, ddof=1, out=None, dtype=None):
        return self._reduce(lambda v: np.std(v, ddof=ddof))

    def var(self, axis=None, ddof=1, out=None, dtype=None):
        return self._reduce(lambda v: np.var(v, ddof=ddof))

    def median(self, axis=None, out=None, dtype=None):
        return self._reduce(np.median)

    def count(self):
        return len(self._clean())

    def any(self, axis=None, out=None, dtype=None):
        return bool(np.any(self._v.astype(bool)))

    def all(self, axis=None, out=None, dtype=None):
        return bool(np.all(self._v.astype(bool)))

    def idxmax(self, axis=0, skipna=True):
        return self._arg(operator.gt)

    def idxmin(self, axis=0, skipna=True):
        return self._arg(operator.lt)

    def _arg(self, better):
        best = None
        for i, v in enumerate(self._v):
            if not _is_null(v) and (best is None or better(v, self._v[best])):
                best = i
        if best is None:
            raise ValueError("attempt to get argmax of an empty sequence")
        return self._index[best]

    def argmax(self):
        return int(np.argmax(self._v))

    def isna(self):
        return Series._of(np.array([_is_null(v) for v in self._v], dtype=bool), self._index, self.name)

    isnull = isna

    def notna(self):
        return ~self.isna()

    notnull = notna

    def fillna(self, value):
        if isinstance(value, (Series, dict)) or value is None:
            raise ShimGap("fillna by label")
        gaps = self.isna()._v
        if not gaps.any():
            return self.copy()
        return Series._of(_array([value if g else x for x, g in zip(self.tolist(), gaps)]), self._index, self.name)

    def dropna(self):
        return self._pick(np.nonzero(~self.isna()._v)[0])

    def unique(self):
        return _unique(self._v)

    def nunique(self):
        return len(_unique(self._clean()))

    def value_counts(self, normalize=False, sort=True):
        counts = {}
        for v in self._clean():
            counts[v] = counts.get(v, 0) + 1
        items = sorted(counts.items(), key=lambda kv: -kv[1]) if sort else list(counts.items())
        total = sum(counts.values())
        return Series([c / total if normalize else c for _, c in items], index=Index([k for k, _ in items]), name=self.name)

    def isin(self, values):
        return Series._of(Index(self._v).isin(values), self._index, self.name)

    def map(self, arg, na_action=None):
        if isinstance(arg, dict):
            out = [arg[v] if v in arg else np.nan for v in self.tolist()]
        elif isinstance(arg, Series):
            out = [arg.get(v, np.nan) for v in self.tolist()]
        else:
            out = [arg(v) for v in self.tolist()]
        return Series._of(_array(out), self._index, self.name)

    def apply(self, func, args=(), **kwargs):
        return Series._of(_array([func(v, *args, **kwargs) for v in self.tolist()]), self._index, self.name)

    def replace(self, to_replace=None, value=None):
        if not isinstance(to_replace, dict):
            to_replace = {to_replace: value}
        return Series._of(_array([to_replace.get(v, v) for v in self.tolist()]), self._index, self.name)

    def astype(self, dtype, copy=True):
        if dtype in (str, "str"):
            return Series._of(_objects(str(v) for v in self.tolist()), self._index, self.name)
        return Series._of(self._v.astype(dtype), self._index, self.name)

    def rename(self, name):
        out = self.copy()
        out.name = name
        return out

    def reset_index(self, drop=False):
        if not drop:
            raise ShimGap("Series.reset_index(drop=False)")
        return Series._of(self._v.copy(), RangeIndex(len(self._v)), self.name)

    def sort_values(self, ascending=True):
        order = sorted(range(len(self._v)), key=lambda i: self._v[i], reverse=not ascending)
        return self._pick(order)

    def sort_index(self, ascending=True):
        order = sorted(range(len(self._v)), key=lambda i: self._index[i], reverse=not ascending)
        return self._pick(order)

    def reindex(self, index):
        return Series([self[i] if i in self._index else np.nan for i in index], index=Index(list(index)), name=self.name)

    def equals(self, other):
        return isinstance(other, Series) and self._index.equals(other._index) and all(
            _same(a, b) or (_is_null(a) and _is_null(b)) for a, b in zip(self._v, other._v))

    def head(self, n=5):
        return self._pick(np.arange(len(self._v))[:n])

    def tail(self, n=5):
        return self._pick(np.arange(len(self._v))[max(0, len(self._v) - n):])

    def to_frame(self, name=None):
        return DataFrame({name if name is not None else (0 if self.name is None else self.name): self._v}, index=self._index)

    def ravel(self):
        return self._v.ravel()

    def __repr__(self):
        return "Series(%r, index=%r, name=%r)" % (self.tolist(), self._index.tolist(), self.name)


def _add_operators():
    for name in ("add", "sub", "mul", "truediv", "floordiv", "mod", "pow"):
        op = getattr(operator, name)

        def forward(self, other, op=op):
            return self._binary(other, op)

        def backward(self, other, op=op):
            return self._binary(other, lambda a, b: op(b, a))

        for cls in (Series, DataFrame):
            setattr(cls, "__%s__" % name, forward)
            setattr(cls, "__r%s__" % name, backward)
    for name in ("eq", "ne", "lt", "le", "gt", "ge"):
        def compare(self, other, op=getattr(operator, name)):
            return self._cmp(other, op)

        for cls in (Series, DataFrame):
            setattr(cls, "__%s__" % name, compare)
    for cls in (Series, DataFrame):
        cls.__hash__ = None


def _partial(series, key):
    """Label lookup in a Series with a MultiIndex: a full key gives a value, a prefix gives a Series."""
    index = series._index
    k = key if isinstance(key, tuple) else (key,)
    hits = [i for i, t in enumerate(index._values) if _same(t[: len(k)], k)]
    if not hits:
        raise KeyError(key)
    if len(k) == index.nlevels and (isinstance(key, tuple) or index.nlevels == 1):
        return series._v[hits[0]] if len(hits) == 1 else series._pick(hits)
    rest = [t[len(k):] for t in (index._values[i] for i in hits)]
    new = (MultiIndex.from_tuples(rest, names=index.names[len(k):]) if len(rest[0]) > 1
           else Index([r[0] for r in rest], name=index.names[-1]))
    return Series._of(series._v[hits], new, series.name)


class _SeriesLoc:
    def __init__(self, s):
        self.s = s

    def __getitem__(self, key):
        s = self.s
        if _is_mask(key):
            return s[key]
        if isinstance(key, slice):
            return s._pick(_slice_labels(s._index, key))
        if _listlike(key):
            return s._pick([s._index.get_loc(k) for k in key])
        if isinstance(s._index, MultiIndex):
            return _partial(s, key)
        return s._label(key)

    def __setitem__(self, key, value):
        self.s[key] = value


class _SeriesILoc:
    def __init__(self, s):
        self.s = s

    def __getitem__(self, key):
        if isinstance(key, numbers.Integral):
            return self.s._v[key]
        return self.s._pick(np.arange(len(self.s._v))[key])

    def __setitem__(self, key, value):
        self.s._v[key] = value


def _slice_labels(index, key):
    values = list(index)
    if key.step is not None:
        raise ShimGap("loc with a stepped slice")
    if index.dtype.kind in "if" and all(a <= b for a, b in zip(values, values[1:])):
        return [i for i, v in enumerate(values) if (key.start is None or v >= key.start) and (key.stop is None or v <= key.stop)]
    start = 0 if key.start is None else index.get_loc(key.start)
    stop = len(values) - 1 if key.stop is None else index.get_loc(key.stop)
    return list(range(start, stop + 1))


# --------------------------------------------------------------------------- DataFrame
class DataFrame(_Gaps):
    def __init__(self, data=None, index=None, columns=None, dtype=None, copy=False):
        set_ = object.__setattr__
        if isinstance(data, DataFrame):
            if columns is not None:
                data = data[list(columns)]
            cols, arrays, index = data._columns, [a.copy() for a in data._data] if copy else list(data._data), data._index if index is None else index
        elif isinstance(data, dict):
            keys = list(data.keys()) if columns is None else list(columns)
            series = [v for v in data.values() if isinstance(v, Series)]
            if index is None and series:
                index = series[0]._index
            n = len(index) if index is not None else max(
                [len(v) for v in data.values() if hasattr(v, "__len__") and not isinstance(v, (str, bytes))] or [0])
            arrays = []
            for k in keys:
                v = data.get(k, np.nan)
                if isinstance(v, Series) and index is not None and not v._index.equals(_index(index, n)):
                    v = v.reindex(_index(index, n))
                if isinstance(v, dict):
                    raise ShimGap("DataFrame of dicts")
                arrays.append(_array(v, n))
            cols = Index(keys) if columns is None or not isinstance(columns, Index) else columns
        elif isinstance(data, Series):
            cols = _index(columns, 1) if columns is not None else Index([0 if data.name is None else data.name])
            arrays, index = [data._v.copy()], data._index if index is None else index
        elif isinstance(data, np.ndarray):
            if data.ndim == 1:
                data = data.reshape(-1, 1)
            if data.ndim != 2:
                raise ValueError("Must pass 2-d input")
            arrays = [data[:, j] if data.dtype.kind in "iufb" and not copy else _array(data[:, j]) for j in range(data.shape[1])]  # no copy, as in pandas
            cols = _index(columns, data.shape[1])
            if len(cols) != data.shape[1]:
                raise ValueError("Shape of passed values is %r, indices imply %r" % (data.shape, (len(data), len(cols))))
            index = _index(index, data.shape[0])
        elif data is None:
            cols = _index(columns, 0)
            n = 0 if index is None else len(index)
            arrays = [_array([np.nan] * n) for _ in cols]
        else:
            data = list(data)
            if data and isinstance(data[0], dict):
                keys = list(columns) if columns is not None else list(dict.fromkeys(k for d in data for k in d))
                arrays, cols = [_array([d.get(k, np.nan) for d in data]) for k in keys], Index(keys)
            elif data and isinstance(data[0], Series):
                keys = list(data[0]._index)
                arrays, cols = [_array([s[k] for s in data]) for k in keys], data[0]._index
                index = Index([s.name for s in data]) if index is None else index
            elif data and isinstance(data[0], (list, tuple, np.ndarray)):
                arrays = [_array([row[j] for row in data]) for j in range(len(data[0]))]
                cols = _index(columns, len(arrays))
            else:
                arrays, cols = [_array(data)], _index(columns, 1)
            index = _index(index, len(data))
        n = len(index) if index is not None else (len(arrays[0]) if arrays else 0)
        for a in arrays:
            if len(a) != n:
                raise ValueError("arrays must all be same length")
        if dtype is not None:
            arrays = [a.astype(dtype) for a in arrays]
        set_(self, "_data", arrays)
        set_(self, "_columns", cols)
        set_(self, "_index", _index(index, n))

    @classmethod
    def _of(cls, arrays, columns, index):
        out = object.__new__(cls)
        object.__setattr__(out, "_data", arrays)
        object.__setattr__(out, "_columns", columns)
        object.__setattr__(out, "_index", index)
        return out

    def _renamed(self, columns):
        object.__setattr__(self, "_columns", columns)
        return self

    @classmethod
    def from_dict(cls, data, orient="columns", columns=None):
        if orient == "columns":
            return cls(data)
        return cls(list(data.values()), index=list(data.keys()), columns=columns)

    def __getattr__(self, name):
        if not name.startswith("_") and name in self._columns:
            return self[name]
        return _Gaps.__getattr__(self, name)

    # -- axes
    @property
    def columns(self):
        return self._columns

    @columns.setter
    def columns(self, value):
        value = _index(value if isinstance(value, Index) else list(value), 0)
        if len(value) != len(self._data):
            raise ValueError("Length mismatch: Expected axis has %d elements, new values have %d elements" % (len(self._data), len(value)))
        object.__setattr__(self, "_columns", value)

    @property
    def index(self):
        return self._index

    @index.setter
    def index(self, value):
        value = _index(value if isinstance(value, Index) else list(value), 0)
        if len(value) != len(self._index):
            raise ValueError("Length mismatch")
        object.__setattr__(self, "_index", value)

    @property
    def shape(self):
        return (len(self._index), len(self._data))

    @property
    def ndim(self):
        return 2

    @property
    def size(self):
        return len(self._index) * len(self._data)

    @property
    def empty(self):
        return self.size == 0

    @property
    def dtypes(self):
        return Series._of(_objects(a.dtype for a in self._data), self._columns)

    @property
    def values(self):
        n = len(self._index)
        if not self._data:
            return np.empty((n, 0))
        kinds = {a.dtype for a in self._data}
        if len(kinds) == 1:
            dtype = kinds.pop()
        elif any(d == object or d == bool for d in kinds):
            dtype = np.dtype(object)
        else:
            dtype = np.result_type(*kinds)
        out = np.empty((n, len(self._data)), dtype=dtype)
        for j, a in enumerate(self._data):
            out[:, j] = a
        return out

    def to_numpy(self, dtype=None, copy=False):
        return self.values if dtype is None else self.values.astype(dtype)

    def __array__(self, dtype=None, copy=None):
        return self.values if dtype is None else self.values.astype(dtype)

    @property
    def T(self):
        v = self.values
        return DataFrame._of([_array(v[i]) for i in range(len(self._index))], self._index, self._columns)

    def __len__(self):
        return len(self._index)

    def __iter__(self):
        return iter(self._columns)

    def __contains__(self, key):
        return key in self._columns

    def keys(self):
        return self._columns

    def items(self):
        return iter([(c, self._series(j)) for j, c in enumerate(self._columns)])

    iteritems = items

    def iterrows(self):
        return iter([(i, self._row(k)) for k, i in enumerate(self._index)])

    def itertuples(self, index=True, name="Pandas"):
        import collections

        if name is None:
            return iter([((i,) if index else ()) + tuple(a[k] for a in self._data) for k, i in enumerate(self._index)])
        cls = collections.namedtuple(name, (["Index"] if index else []) + [str(c) for c in self._columns], rename=True)
        return iter([cls(*(([i] if index else []) + [a[k] for a in self._data])) for k, i in enumerate(self._index)])

    def _series(self, j):
        return Series._of(self._data[j], self._index, self._columns[j])

    def _row(self, k):
        values = [a[k] for a in self._data]
        kinds = {a.dtype for a in self._data}
        v = np.array(values, dtype=kinds.pop()) if len(kinds) == 1 else (
            _objects(values) if any(d == object or d == bool for d in kinds) else np.array(values))
        if v.ndim != 1:
            v = _objects(values)
        return Series._of(v, self._columns, self._index[k])

    def _positions(self, key):
        """Column positions for one label."""
        if isinstance(self._columns, MultiIndex):
            k = key if isinstance(key, tuple) else (key,)
            hits = [j for j, t in enumerate(self._columns._values) if _same(t[: len(k)], k)]
            full = len(k) == self._columns.nlevels
        else:
            hits = [j for j, c in enumerate(self._columns._values) if _same(key, c)]
            full = True
        if not hits:
            raise KeyError(key)
        return hits, full, key

    def _take(self, rows=None, cols=None):
        cols = range(len(self._data)) if cols is None else list(cols)
        rows_ = slice(None) if rows is None else rows
        arrays = [self._data[j][rows_].copy() for j in cols]
        index = self._index if rows is None else self._index._make(self._index._values[rows_])
        columns = self._columns._make([self._columns._values[j] for j in cols]) if len(list(cols)) else Index([], name=self._columns.name)
        return DataFrame._of(arrays, columns, index)

    def __getitem__(self, key):
        if isinstance(key, DataFrame):
            raise ShimGap("boolean DataFrame indexing")
        if _is_mask(key):
            key = np.asarray(key)
            if len(key) != len(self._index):
                raise ValueError("Item wrong length")
            return self._take(np.nonzero(key)[0])
        if isinstance(key, slice):
            return self._take(np.arange(len(self._index))[key])
        if _listlike(key) or (not hasattr(key, "__hash__") or key.__hash__ is None):
            return self._take(cols=[j for k in key for j in self._positions(k)[0]])
        hits, full, k = self._positions(key)
        if full and len(hits) == 1:
            return self._series(hits[0])
        if full:
            return self._take(cols=hits)
        sub = self._take(cols=hits)
        n = len(k) if isinstance(k, tuple) else 1
        rest = [t[n:] for t in sub._columns._values]
        names = self._columns.names[n:]
        object.__setattr__(sub, "_columns", MultiIndex.from_tuples(rest, names=names) if len(rest[0]) > 1
                           else Index([r[0] for r in rest], name=names[0]))
        return sub

    def __setitem__(self, key, value):
        if _is_mask(key):
            raise ShimGap("assignment through a row mask")
        if _listlike(key):
            v = value.values if isinstance(value, DataFrame) else np.asarray(value)
            for i, k in enumerate(key):
                self[k] = v[:, i] if v.ndim == 2 else value
            return
        n = len(self._index)
        if isinstance(value, Series):
            value = value if value._index.equals(self._index) else (value.reindex(self._index) if len(self._columns) else value)
        if isinstance(value, DataFrame):
            raise ShimGap("assigning a DataFrame to a column")
        if not self._data and n == 0 and hasattr(value, "__len__") and not isinstance(value, str):
            object.__setattr__(self, "_index", value._index if isinstance(value, Series) else RangeIndex(len(value)))
            n = len(value)
        array = _array(value, n)
        if len(array) != n:
            raise ValueError("Length of values (%d) does not match length of index (%d)" % (len(array), n))
        try:
            hits = self._positions(key)[0]
        except KeyError:
            if isinstance(self._columns, MultiIndex):
                raise ShimGap("a new column under MultiIndex columns")
            self._data.append(array)
            columns = self._columns._make(_array(self._columns.tolist() + [key]) if not isinstance(key, tuple)
                                          else _objects(self._columns.tolist() + [key]))
            object.__setattr__(self, "_columns", columns)
            return
        for j in hits:
            self._data[j] = array.copy()

    def __delitem__(self, key):
        hits = self._positions(key)[0]
        keep = [j for j in range(len(self._data)) if j not in hits]
        object.__setattr__(self, "_columns", self._columns._make([self._columns._values[j] for j in keep]))
        object.__setattr__(self, "_data", [self._data[j] for j in keep])

    def pop(self, key):
        out = self[key]
        del self[key]
        return out

    def insert(self, loc, column, value, allow_duplicates=False):
        self[column] = value
        order = list(range(len(self._data)))
        order.insert(loc, order.pop())
        object.__setattr__(self, "_columns", self._columns._make([self._columns._values[j] for j in order]))
        object.__setattr__(self, "_data", [self._data[j] for j in order])

    def assign(self, **kwargs):
        out = self.copy()
        for k, v in kwargs.items():
            out[k] = v(out) if callable(v) else v
        return out

    @property
    def loc(self):
        return _Loc(self)

    @property
    def at(self):
        return _Loc(self)

    @property
    def iloc(self):
        return _ILoc(self)

    @property
    def iat(self):
        return _ILoc(self)

    def copy(self, deep=True):
        return DataFrame._of([a.copy() for a in self._data], self._columns.copy(), self._index.copy())

    def __deepcopy__(self, memo):
        return self.copy()

    def __copy__(self):
        return self.copy()

    def get(self, key, default=None):
        return self[key] if key in self._columns else default

    # -- shape changes
    def _drop_labels(self, labels):
        return list(labels) if _listlike(labels) else [labels]

    def drop(self, labels=None, axis=0, index=None, columns=None, inplace=False, errors="raise"):
        if labels is not None:
            if axis in (1, "columns"):
                columns = labels
            else:
                index = labels
        cols = list(range(len(self._data)))
        if columns is not None:
            for c in self._drop_labels(columns):
                if c not in self._columns and errors == "raise":
                    raise KeyError("%r not found in axis" % [c])
                cols = [j for j in cols if not _same(self._columns[j], c)]
        rows = None
        if index is not None:
            gone = self._drop_labels(index)
            rows = [k for k, i in enumerate(self._index) if not any(_same(i, g) for g in gone)]
        return self._result(self._take(rows, cols), inplace)

    def _result(self, out, inplace):
        if not inplace:
            return out
        for name in ("_data", "_columns", "_index"):
            object.__setattr__(self, name, getattr(out, name))
        return None

    def rename(self, mapper=None, index=None, columns=None, axis=None, inplace=False, copy=True):
        if mapper is not None:
            if axis in (1, "columns"):
                columns = mapper
            else:
                index = mapper
        out = self.copy()

        def change(axis_index, f):
            g = (lambda x: f.get(x, x)) if isinstance(f, dict) else f
            return Index([g(x) for x in axis_index], name=axis_index.name)

        if columns is not None:
            object.__setattr__(out, "_columns", change(out._columns, columns))
        if index is not None:
            object.__setattr__(out, "_index", change(out._index, index))
        return self._result(out, inplace)

    def set_index(self, keys, drop=True, inplace=False):
        single = not isinstance(keys, list)
        keys = [keys] if single else keys
        if len(keys) == 1:
            index = Index(self[keys[0]].values, name=keys[0])
        else:
            index = MultiIndex.from_arrays([self[k].tolist() for k in keys], names=keys)
        out = self.drop(columns=keys) if drop else self.copy()
        object.__setattr__(out, "_index", index)
        return self._result(out, inplace)

    def reset_index(self, drop=False, inplace=False):
        out = self.copy()
        index = out._index
        object.__setattr__(out, "_index", RangeIndex(len(self)))
        if not drop:
            out.insert(0, index.name if index.name is not None else "index", index.values)
        return self._result(out, inplace)

    def reindex(self, labels=None, index=None, columns=None, axis=None):
        if axis in (1, "columns"):
            columns = labels
        elif labels is not None:
            index = labels
        out = self
        if columns is not None:
            out = DataFrame({c: (out[c].values if c in out._columns else np.nan) for c in columns}, index=out._index)
        if index is not None:
            out = DataFrame._of([Series._of(a, out._index).reindex(index)._v for a in out._data], out._columns, Index(list(index)))
        return out

    def select_dtypes(self, include=None, exclude=None):
        def match(dtype, spec):
            spec = spec if isinstance(spec, (list, tuple, set)) else [spec]
            for s in spec:
                if s in ("number", np.number):
                    if dtype.kind in "iufc":
                        return True
                elif s in ("object", "O", object):
                    if dtype == object:
                        return True
                elif s in ("bool", bool):
                    if dtype == bool:
                        return True
                elif dtype == np.dtype(s):
                    return True
            return False

        keep = [j for j, a in enumerate(self._data)
                if (include is None or match(a.dtype, include)) and (exclude is None or not match(a.dtype, exclude))]
        return self._take(cols=keep)

    def astype(self, dtype, copy=True):
        if isinstance(dtype, dict):
            return DataFrame._of([self._series(j).astype(dtype[c])._v if c in dtype else a.copy()
                                  for j, (c, a) in enumerate(zip(self._columns, self._data))], self._columns, self._index)
        return DataFrame._of([self._series(j).astype(dtype)._v for j in range(len(self._data))], self._columns, self._index)

    def head(self, n=5):
        return self._take(np.arange(len(self))[:n])

    def tail(self, n=5):
        return self._take(np.arange(len(self))[max(0, len(self) - n):])

    def sort_index(self, axis=0, ascending=True):
        if axis in (1, "columns"):
            return self._take(cols=sorted(range(len(self._data)), key=lambda j: self._columns[j], reverse=not ascending))
        return self._take(sorted(range(len(self)), key=lambda k: self._index[k], reverse=not ascending))

    def sort_values(self, by, ascending=True):
        by = by if isinstance(by, list) else [by]
        return self._take(sorted(range(len(self)), key=lambda k: [self[b]._v[k] for b in by], reverse=not ascending))

    def drop_duplicates(self, subset=None):
        seen, keep = set(), []
        cols = [self[c]._v for c in subset] if subset else self._data
        for k in range(len(self)):
            row = tuple(a[k] for a in cols)
            if row not in seen:
                seen.add(row)
                keep.append(k)
        return self._take(keep)

    def dropna(self, axis=0, how="any"):
        if axis not in (0, "index") or how != "any":
            raise ShimGap("DataFrame.dropna(axis=1 or how='all')")
        bad = np.zeros(len(self), dtype=bool)
        for j in range(len(self._data)):
            bad |= self._series(j).isna()._v
        return self._take(np.nonzero(~bad)[0])

    # -- computation
    def apply(self, func, axis=0, raw=False, result_type=None, args=(), **kwargs):
        if axis in (1, "columns"):
            out = [func(self._row(k), *args, **kwargs) for k in range(len(self))]
            labels = self._index
            if not out:
                return self.copy()
        else:
            out = [func(self._series(j), *args, **kwargs) for j in range(len(self._data))]
            labels = self._columns
        if out and isinstance(out[0], Series):
            if axis in (1, "columns"):
                return DataFrame._of([_array([s[k] for s in out]) for k in out[0]._index], out[0]._index, labels)
            return DataFrame._of([s._v for s in out], labels, out[0]._index)
        return Series._of(_array(out), labels)

    def applymap(self, func):
        return DataFrame._of([_array([func(v) for v in a.tolist()]) for a in self._data], self._columns, self._index)

    def _map(self, f):
        return DataFrame._of([f(self._series(j))._v for j in range(len(self._data))], self._columns, self._index)

    def abs(self):
        return self._map(lambda s: s.abs())

    def isna(self):
        return self._map(lambda s: s.isna())

    isnull = isna

    def notna(self):
        return self._map(lambda s: s.notna())

    notnull = notna

    def __neg__(self):
        return self._map(lambda s: -s)

    def __invert__(self):
        return self._map(lambda s: ~s)

    def _binary(self, other, op):
        if isinstance(other, DataFrame):
            if not (self._columns.equals(other._columns) and self._index.equals(other._index)):
                raise ShimGap("arithmetic on unaligned DataFrames")
            return DataFrame._of([op(a, b) for a, b in zip(self._data, other._data)], self._columns, self._index)
        if isinstance(other, Series):
            return DataFrame._of([op(a, other[c]) for c, a in zip(self._columns, self._data)], self._columns, self._index)
        if isinstance(other, np.ndarray) and other.ndim == 2:
            return DataFrame._of([op(a, other[:, j]) for j, a in enumerate(self._data)], self._columns, self._index)
        return DataFrame._of([op(a, other) for a in self._data], self._columns, self._index)

    def _cmp(self, other, op):
        if isinstance(other, DataFrame):
            return DataFrame._of([Series._of(a, self._index)._cmp(Series._of(b, self._index), op)._v
                                  for a, b in zip(self._data, other._data)], self._columns, self._index)
        return self._map(lambda s: s._cmp(other, op))

    def _reduce(self, method, axis):
        if axis in (1, "columns"):
            return Series._of(_array([getattr(self._row(k), method)() for k in range(len(self))]), self._index)
        return Series._of(_array([getattr(self._series(j), method)() for j in range(len(self._data))]), self._columns)

    def max(self, axis=0, skipna=True, out=None, dtype=None):
        return self._reduce("max", axis)

    def min(self, axis=0, skipna=True, out=None, dtype=None):
        return self._reduce("min", axis)

    def sum(self, axis=0, out=None, dtype=None):
        return self._reduce("sum", axis)

    def mean(self, axis=0, out=None, dtype=None):
        return self._reduce("mean", axis)

    def std(self, axis=0, ddof=1, out=None, dtype=None):
        return self._reduce("std", axis)

    def var(self, axis=0, ddof=1, out=None, dtype=None):
        return self._reduce("var", axis)

    def count(self, axis=0):
        return self._reduce("count", axis)

    def nunique(self, axis=0):
        return self._reduce("nunique", axis)

    def idxmax(self, axis=0):
        return self._reduce("idxmax", axis)

    def idxmin(self, axis=0):
        return self._reduce("idxmin", axis)

    def any(self, axis=0, out=None, dtype=None):
        if axis is None:
            return any(bool(np.any(a.astype(bool))) for a in self._data)
        return self._reduce("any", axis)

    def all(self, axis=0, out=None, dtype=None):
        if axis is None:
            return all(bool(np.all(a.astype(bool))) for a in self._data)
        return self._reduce("all", axis)

    def dot(self, other):
        return DataFrame(self.values.dot(other.values if isinstance(other, DataFrame) else other), index=self._index,
                         columns=other._columns if isinstance(other, DataFrame) else None)

    def equals(self, other):
        return (isinstance(other, DataFrame) and self._columns.equals(other._columns) and self._index.equals(other._index)
                and all(self._series(j).equals(other._series(j)) for j in range(len(self._data))))

    def to_dict(self, orient="dict"):
        if orient == "dict":
            return {c: dict(zip(self._index, s.tolist())) for c, s in self.items()}
        if orient == "list":
            return {c: s.tolist() for c, s in self.items()}
        if orient == "records":
            return [dict(zip(self._columns, (s.tolist()[k] for _, s in self.items()))) for k in range(len(self))]
        if orient == "index":
            return {i: dict(zip(self._columns, (s.tolist()[k] for _, s in self.items()))) for k, i in enumerate(self._index)}
        if orient == "series":
            return dict(self.items())
        raise ShimGap("to_dict(%r)" % orient)

    def __repr__(self):
        return "DataFrame(%r, index=%r)" % ({c: s.tolist() for c, s in self.items()}, self._index.tolist())

    def __bool__(self):
        raise ValueError("The truth value of a DataFrame is ambiguous.")


def _rows(df, key):
    """(positions, is a single label)"""
    index = df._index
    if isinstance(key, slice):
        return (list(range(len(index))) if key == slice(None) else _slice_labels(index, key)), False
    if _is_mask(key):
        if len(key) != len(index):
            raise IndexError("Boolean index has wrong length")
        return [int(k) for k in np.nonzero(np.asarray(key))[0]], False
    if _listlike(key):
        return [r for k in key for r in np.atleast_1d(_hits(index, k))], False
    hits = _hits(index, key)
    return hits, len(hits) == 1


def _hits(index, key):
    hits = [i for i, v in enumerate(index._values) if _same(key, v)]
    if not hits:
        raise KeyError(key)
    return hits


def _cols(df, key):
    if isinstance(key, slice):
        return (list(range(len(df._data))) if key == slice(None) else _slice_labels(df._columns, key)), False
    if _is_mask(key):
        return [int(k) for k in np.nonzero(np.asarray(key))[0]], False
    if _listlike(key):
        return [j for k in key for j in df._positions(k)[0]], False
    hits, full, _ = df._positions(key)
    return hits, full and len(hits) == 1


class _Loc:
    def __init__(self, df):
        self.df = df

    def _split(self, key):
        if isinstance(key, tuple) and len(key) == 2 and not isinstance(self.df._index, MultiIndex):
            return key
        if isinstance(key, tuple) and isinstance(self.df._index, MultiIndex) and len(key) == 2 and isinstance(key[0], tuple):
            return key
        return key, slice(None)

    def __getitem__(self, key):
        df = self.df
        r, c = self._split(key)
        rows, one_row = _rows(df, r)
        cols, one_col = _cols(df, c)
        if one_row and one_col:
            return df._data[cols[0]][rows[0]]
        if one_row:
            return df._take(cols=cols)._row(rows[0])
        if one_col:
            return df._series(cols[0])._pick(rows)
        return df._take(rows, cols)

    def __setitem__(self, key, value):
        df = self.df
        r, c = self._split(key)
        try:
            rows, _ = _rows(df, r)
        except KeyError:
            if _listlike(r) or isinstance(df._index, MultiIndex):
                raise
            for j, a in enumerate(df._data):
                df._data[j] = _array(a.tolist() + [np.nan])
            object.__setattr__(df, "_index", Index(df._index.tolist() + [r], name=df._index.name))
            rows = [len(df._index) - 1]
        try:
            cols, _ = _cols(df, c)
        except KeyError:
            df[c] = np.nan
            cols, _ = _cols(df, c)
        v = value.values if isinstance(value, (Series, DataFrame)) else value
        for n, j in enumerate(cols):
            for m, k in enumerate(rows):
                x = v
                if isinstance(v, (np.ndarray, list)):
                    w = np.asarray(v)
                    x = w[m, n] if w.ndim == 2 else (w[n] if len(rows) == 1 and len(w) == len(cols) else w[m])
                a = df._data[j]
                if a.dtype != object and not _fits(a.dtype, x):
                    a = _array([y for y in a.tolist()[:k]] + [x] + a.tolist()[k + 1:])
                else:
                    a = a.copy()
                    a[k] = x
                df._data[j] = a
            if df._data[j].dtype == object:
                values = list(df._data[j])
                if all(isinstance(x, (int, float, np.number)) and not isinstance(x, (bool, np.bool_)) for x in values):
                    df._data[j] = _array(values)


def _fits(dtype, x):
    if dtype.kind == "f":
        return isinstance(x, numbers.Real) and not isinstance(x, (bool, np.bool_))
    if dtype.kind in "iu":
        return isinstance(x, numbers.Integral) and not isinstance(x, (bool, np.bool_))
    return dtype == bool and isinstance(x, (bool, np.bool_))


class _ILoc:
    def __init__(self, df):
        self.df = df

    def _split(self, key):
        return key if isinstance(key, tuple) else (key, slice(None))

    def __getitem__(self, key):
        df = self.df
        r, c = self._split(key)
        one_row, one_col = isinstance(r, numbers.Integral), isinstance(c, numbers.Integral)
        rows = np.atleast_1d(np.arange(len(df))[np.asarray(r) if _listlike(r) else r])
        cols = np.atleast_1d(np.arange(len(df._data))[np.asarray(c) if _listlike(c) else c])
        if one_row and one_col:
            return df._data[cols[0]][rows[0]]
        if one_row:
            return df._take(cols=cols)._row(rows[0])
        if one_col:
            return df._series(cols[0])._pick(rows)
        return df._take(rows, cols)

    def __setitem__(self, key, value):
        df = self.df
        r, c = self._split(key)
        rows = np.atleast_1d(np.arange(len(df))[r])
        cols = np.atleast_1d(np.arange(len(df._data))[c])
        v = np.asarray(value)
        for n, j in enumerate(cols):
            if isinstance(r, slice) and r == slice(None) and v.ndim:
                part = v[:, n] if v.ndim == 2 else v
                if part.shape != df._data[j].shape:
                    raise ValueError("could not broadcast input array")
                if part.dtype == df._data[j].dtype:
                    df._data[j][...] = part  # whole columns of the same type are set in place
                else:
                    df._data[j] = _array(part)
                continue
            column = df._data[j].copy()
            for m, k in enumerate(rows):
                x = v.item() if v.ndim == 0 else (v[m, n] if v.ndim == 2 else v[n] if len(rows) == 1 else v[m])
                if column.dtype != object and not _fits(column.dtype, x):
                    column = column.astype(float) if isinstance(x, numbers.Real) and column.dtype.kind in "iu" else column.astype(object)
                column[k] = x
            df._data[j] = column


_add_operators()


# --------------------------------------------------------------------------- functions
def isnull(x):
    if isinstance(x, (Series, DataFrame, Index)):
        return x.isna()
    if isinstance(x, (list, np.ndarray)):
        return np.array([_is_null(v) for v in x], dtype=bool)
    return _is_null(x)


isna = isnull


def notnull(x):
    r = isnull(x)
    return (not r) if isinstance(r, bool) else ~r


notna = notnull


def unique(values):
    return _unique(np.asarray(values) if not isinstance(values, Series) else values._v)


class _Column:
    def __init__(self, values, index):
        self.at = dict(zip(index, values.tolist()))

    def spread(self, index):
        return [self.at.get(k, np.nan) for k in index]


def concat(objs, axis=0, ignore_index=False, join="outer", keys=None, sort=False, names=None):
    objs = list(objs.values()) if isinstance(objs, dict) else list(objs)
    if not objs:
        raise ValueError("No objects to concatenate")
    if keys is not None:
        raise ShimGap("concat(keys=...)")
    if axis in (1, "columns"):
        frames = [o.to_frame() if isinstance(o, Series) else o for o in objs]
        index = frames[0]._index
        if not all(f._index.equals(index) for f in frames):
            if join != "outer":
                raise ShimGap("concat of unaligned frames")
            labels = list(dict.fromkeys(x for f in frames for x in f._index))
            if any(len(set(f._index)) < len(f._index) for f in frames):
                raise ValueError("cannot reindex from a duplicate axis")
            try:
                labels = sorted(labels)
            except TypeError:
                pass
            index = Index(labels)
            frames = [DataFrame({k: _Column(f._data[k], f._index).spread(index) for k in range(len(f._data))}, index=index)._renamed(f._columns) for f in frames]
        columns = Index([c for f in frames for c in f._columns])
        return DataFrame._of([a.copy() for f in frames for a in f._data], RangeIndex(len(columns)) if ignore_index else columns, index)
    labels = [i for o in objs for i in o._index]
    index = RangeIndex(len(labels)) if ignore_index else Index(labels)
    if all(isinstance(o, Series) for o in objs):
        return Series._of(_array([v for o in objs for v in o.tolist()]), index, objs[0].name)
    columns = list(dict.fromkeys(c for o in objs for c in o._columns))
    return DataFrame({c: [v for o in objs for v in (o[c].tolist() if c in o._columns else [np.nan] * len(o))] for c in columns}, index=index)


def get_dummies(data, prefix=None, prefix_sep="_", dummy_na=False, columns=None, sparse=False, drop_first=False, dtype=None):
    if not isinstance(data, (Series, list, np.ndarray)) or prefix is not None or dummy_na or drop_first:
        raise ShimGap("get_dummies beyond a plain Series")
    s = data if isinstance(data, Series) else Series(data)
    values = [v for v in _unique(s._v).tolist() if not _is_null(v)]
    try:
        values = sorted(values)
    except TypeError:
        pass
    return DataFrame._of([np.array([1 if _same(v, x) else 0 for x in s.tolist()], dtype=dtype or np.uint8) for v in values],
                         Index(values), s._index)


def _extend():
    import sys

    from pandas import _more

    _more.extend(sys.modules[__name__])


_extend()


def __getattr__(name):
    if name.startswith("__"):
        raise AttributeError(name)
    raise ShimGap("pandas.%s" % name)

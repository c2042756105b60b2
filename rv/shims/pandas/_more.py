"""Further operations of the pandas stand-in: near neighbours of those causalnex uses, which an equivalent rewrite may use."""
import operator
import re

import numpy as np

from rv.core import ShimGap


def extend(pd):  # pylint: disable=too-many-statements, too-many-locals
    Index, MultiIndex, RangeIndex, Series, DataFrame = pd.Index, pd.MultiIndex, pd.RangeIndex, pd.Series, pd.DataFrame
    _array, _objects, _same, _unique, _is_null, _listlike = pd._array, pd._objects, pd._same, pd._unique, pd._is_null, pd._listlike

    def method(*classes, names=()):
        def put(f):
            for cls in classes:
                for name in (f.__name__,) + tuple(names):
                    setattr(cls, name, f)
            return f
        return put

    def prop(*classes):
        def put(f):
            for cls in classes:
                setattr(cls, f.__name__, property(f))
            return f
        return put

    def ordered(values):
        values = list(values)
        try:
            return sorted(values)
        except TypeError:
            return values

    def across(axis):
        return axis in (1, "columns")

    # ------------------------------------------------------------------ Index
    @method(Index)
    def union(self, other, sort=None):
        out = list(dict.fromkeys(list(self) + list(other)))
        return Index(out if sort is False else ordered(out), name=self.name)

    @method(Index)
    def intersection(self, other, sort=False):
        other = list(other)
        out = [v for v in dict.fromkeys(self) if v in other]
        return Index(ordered(out) if sort is None else out, name=self.name)

    @method(Index)
    def symmetric_difference(self, other, result_name=None, sort=None):
        a, b = list(self), list(other)
        return Index(ordered([v for v in a if v not in b] + [v for v in b if v not in a]), name=result_name)

    Index.__or__ = lambda self, other: self.union(other)
    Index.__and__ = lambda self, other: self.intersection(other)

    @method(Index)
    def append(self, other):
        others = other if isinstance(other, (list, tuple)) else [other]
        return Index(list(self) + [v for o in others for v in o], name=self.name)

    @method(Index)
    def drop(self, labels, errors="raise"):
        gone = list(labels) if _listlike(labels) else [labels]
        for g in gone:
            if errors == "raise" and g not in self:
                raise KeyError("%r not found in axis" % [g])
        return self._make(_objects(v for v in self if not any(_same(v, g) for g in gone)) if self._values.dtype == object
                          else [v for v in self if v not in gone])

    @method(Index)
    def insert(self, loc, item):
        values = list(self)
        values.insert(loc, item)
        return Index(values, name=self.name)

    @method(Index)
    def delete(self, loc):
        gone = {k % len(self) for k in np.atleast_1d(loc)}
        return self._make([v for k, v in enumerate(self._values) if k not in gone])

    @method(Index)
    def astype(self, dtype, copy=True):
        if dtype in (str, "str"):
            return Index(_objects(str(v) for v in self), name=self.name)
        out = self.copy()
        out._values = out._values.astype(dtype)
        return out

    @method(Index)
    def to_series(self, index=None, name=None):
        return Series(_array(self), index=self if index is None else index, name=self.name if name is None else name)

    @method(Index, Series)
    def duplicated(self, keep="first"):
        values = list(self)
        if keep not in ("first", "last", False):
            raise ValueError("keep must be either 'first', 'last' or False")
        order = range(len(values)) if keep != "last" else range(len(values) - 1, -1, -1)
        seen, out = set(), np.zeros(len(values), dtype=bool)
        for k in order:
            if keep is False:
                out[k] = sum(_same(values[k], v) for v in values) > 1
            elif values[k] in seen:
                out[k] = True
            else:
                seen.add(values[k])
        return Series._of(out, self._index, None) if isinstance(self, Series) else out

    @prop(Index)
    def has_duplicates(self):
        return not self.is_unique

    @method(Index)
    def drop_duplicates(self, keep="first"):
        return self[~self.duplicated(keep)]

    @prop(Index, Series)
    def hasnans(self):
        return any(_is_null(v) for v in self)

    @method(Index, names=("notnull",))
    def notna(self):
        return ~self.isna()

    @method(Index)
    def nunique(self, dropna=True):
        return len([v for v in _unique(self._values) if not (dropna and _is_null(v))])

    @method(Index)
    def value_counts(self, normalize=False, sort=True, ascending=False, dropna=True):
        return Series(_array(self)).value_counts(normalize=normalize, sort=sort, ascending=ascending, dropna=dropna)

    @method(Index)
    def to_frame(self, index=True, name=None):
        if isinstance(self, MultiIndex):
            out = DataFrame({n if n is not None else k: [t[k] for t in self] for k, n in enumerate(self.names)})
        else:
            out = DataFrame({name if name is not None else (0 if self.name is None else self.name): list(self)})
        if index:
            out.index = self
        return out

    @method(Index)
    def argsort(self):
        return np.array(sorted(range(len(self)), key=lambda k: self._values[k]), dtype=np.int64)

    @method(Index)
    def take(self, indices):
        return self._make([self._values[k] for k in indices])

    @method(Index)
    def repeat(self, repeats):
        return self._make(np.repeat(self._values, repeats))

    @method(Index)
    def set_names(self, names, level=None, inplace=False):
        if level is not None:
            raise ShimGap("Index.set_names(level=...)")
        out = self if inplace else self.copy()
        out.names = list(names) if isinstance(out, MultiIndex) or _listlike(names) else [names]
        return None if inplace else out

    @method(Index)
    def droplevel(self, level=0):
        if not isinstance(self, MultiIndex):
            raise ValueError("Cannot remove 1 levels from an index with 1 levels: at least one level must be left.")
        gone = [self.names.index(x) if x in self.names else x % self.nlevels for x in (level if isinstance(level, list) else [level])]
        keep = [k for k in range(self.nlevels) if k not in gone]
        if len(keep) == 1:
            return Index([t[keep[0]] for t in self], name=self.names[keep[0]])
        return MultiIndex.from_tuples([tuple(t[k] for k in keep) for t in self], names=[self.names[k] for k in keep])

    @method(MultiIndex)
    def swaplevel(self, i=-2, j=-1):
        i, j = (self.names.index(x) if x in self.names else x % self.nlevels for x in (i, j))
        order = list(range(self.nlevels))
        order[i], order[j] = order[j], order[i]
        return MultiIndex.from_tuples([tuple(t[k] for k in order) for t in self], names=[self.names[k] for k in order])

    @prop(MultiIndex)
    def codes(self):
        return [[list(level).index(t[k]) for t in self] for k, level in enumerate(self.levels)]

    @prop(Index, Series)
    def array(self):
        return self.values

    @method(Index, Series)
    def item(self):
        if len(self) != 1:
            raise ValueError("can only convert an array of size 1 to a Python scalar")
        return self.tolist()[0]

    @method(Index)
    def argmax(self):
        return int(np.argmax(self._values))

    @method(Index, Series)
    def argmin(self):
        return int(np.argmin(self.values))

    @method(Index, Series)
    def factorize(self, sort=False):
        values = [v for v in _unique(self.values).tolist() if not _is_null(v)]
        values = ordered(values) if sort else values
        codes = np.array([-1 if _is_null(v) else next(k for k, w in enumerate(values) if _same(v, w)) for v in self], dtype=np.int64)
        return codes, Index(values)

    @method(Index)
    def identical(self, other):
        return self.equals(other) and self.names == other.names

    @method(Index)
    def get_indexer_for(self, target):
        return self.get_indexer(target)

    @method(Index)
    def is_numeric(self):
        return self.dtype.kind in "iuf"

    @method(Index)
    def is_object(self):
        return self.dtype == object

    @method(Index)
    def is_integer(self):
        return self.dtype.kind in "iu"

    @method(Index)
    def ravel(self, order="C"):
        return self.values

    @method(Index, Series)
    def searchsorted(self, value, side="left", sorter=None):
        return np.searchsorted(self.values, value, side=side, sorter=sorter)

    @prop(Index, Series)
    def is_monotonic_increasing(self):
        v = self.tolist()
        return all(a <= b for a, b in zip(v, v[1:]))

    @prop(Index, Series)
    def is_monotonic(self):
        return self.is_monotonic_increasing

    @prop(Index, Series)
    def is_monotonic_decreasing(self):
        v = self.tolist()
        return all(a >= b for a, b in zip(v, v[1:]))

    @prop(Index, Series)
    def nbytes(self):
        return self.values.nbytes

    @prop(Index)
    def ndim(self):
        return 1

    # ------------------------------------------------------------------ text
    class Text:
        def __init__(self, owner):
            self.owner = owner

        def _each(self, f):
            values = [np.nan if not isinstance(v, (str, list)) else f(v) for v in self.owner]
            if isinstance(self.owner, Index):
                out = np.array(values, dtype=bool) if values and all(isinstance(v, bool) for v in values) else Index(values, name=self.owner.name)
                return out
            return Series._of(_array(values) if not any(isinstance(v, list) for v in values) else _objects(values), self.owner._index, self.owner.name)

        def contains(self, pat, case=True, flags=0, na=None, regex=True):
            if na is not None:
                raise ShimGap("str.contains(na=...)")
            if regex:
                return self._each(lambda v: re.search(pat, v, flags | (0 if case else re.I)) is not None)
            return self._each(lambda v: (pat in v) if case else (pat.lower() in v.lower()))

        def match(self, pat, case=True, flags=0):
            return self._each(lambda v: re.match(pat, v, flags | (0 if case else re.I)) is not None)

        def startswith(self, pat):
            return self._each(lambda v: v.startswith(pat))

        def endswith(self, pat):
            return self._each(lambda v: v.endswith(pat))

        def replace(self, pat, repl, n=-1, case=None, flags=0, regex=True):
            if regex:
                return self._each(lambda v: re.sub(pat, repl, v, count=max(n, 0), flags=flags))
            return self._each(lambda v: v.replace(pat, repl, n))

        def split(self, pat=None, n=-1, expand=False):
            if expand:
                raise ShimGap("str.split(expand=True)")
            return self._each(lambda v: v.split(pat, n if n else -1))

        def rsplit(self, pat=None, n=-1, expand=False):
            if expand:
                raise ShimGap("str.rsplit(expand=True)")
            return self._each(lambda v: v.rsplit(pat, n if n else -1))

        def len(self):
            return self._each(len)

        def get(self, i):
            return self._each(lambda v: v[i] if -len(v) <= i < len(v) else np.nan)

        def __getitem__(self, key):
            return self._each(lambda v: v[key]) if isinstance(key, slice) else self.get(key)

        def join(self, sep):
            return self._each(sep.join)

        def cat(self, others=None, sep=None):
            if others is not None:
                raise ShimGap("str.cat(others)")
            return (sep or "").join(self.owner)

    for name in ("lower", "upper", "strip", "lstrip", "rstrip", "title", "capitalize", "isdigit", "isnumeric", "isalpha", "zfill"):
        def each(self, *args, name=name):
            return self._each(lambda v: getattr(v, name)(*args))
        setattr(Text, name, each)

    Index.str = property(Text)
    Series.str = property(Text)

    # ------------------------------------------------------------------ elementwise, both
    def aligned(self, other, axis, fill_value, level=None):
        if level is not None:
            raise ShimGap("arithmetic by level")
        if fill_value is not None:
            if isinstance(self, Series) and isinstance(other, Series) and self._index.equals(other._index):
                return self.fillna(fill_value), other.fillna(fill_value)
            raise ShimGap("arithmetic with fill_value")
        if isinstance(self, DataFrame) and not across(axis) and (isinstance(other, Series) or isinstance(other, (list, np.ndarray)) and np.ndim(other) == 1):
            if isinstance(other, Series) and not other._index.equals(self._index):
                raise ShimGap("arithmetic on unaligned labels")
            column = np.asarray(other)
            return self, np.repeat(column.reshape(-1, 1), self.shape[1], axis=1)
        if isinstance(other, (list, tuple)):
            other = np.asarray(other)
            if isinstance(self, DataFrame) and other.ndim == 1:
                other = Series(other, index=self._columns)
        return self, other

    for name, dunder in (("add", "add"), ("sub", "sub"), ("subtract", "sub"), ("mul", "mul"), ("multiply", "mul"), ("div", "truediv"), ("divide", "truediv"), ("truediv", "truediv"),
                         ("floordiv", "floordiv"), ("mod", "mod"), ("pow", "pow")):
        def forward(self, other, axis="columns", level=None, fill_value=None, op=getattr(operator, dunder)):
            a, b = aligned(self, other, axis, fill_value, level)
            return op(a, b)

        def backward(self, other, axis="columns", level=None, fill_value=None, op=getattr(operator, dunder)):
            a, b = aligned(self, other, axis, fill_value, level)
            return a._binary(b, lambda x, y: op(y, x))

        for cls in (Series, DataFrame):
            setattr(cls, name, forward)
            setattr(cls, "r" + name, backward)
    for name in ("eq", "ne", "lt", "le", "gt", "ge"):
        def compare(self, other, axis="columns", level=None, op=getattr(operator, name)):
            if level is not None:
                raise ShimGap("comparison by level")
            if isinstance(self, DataFrame) and isinstance(other, (Series, np.ndarray, list)):
                v = np.asarray(other)
                if isinstance(other, Series) and not other._index.equals(self._columns if across(axis) else self._index):
                    raise ShimGap("comparison of unaligned labels")
                if v.ndim == 1:
                    v = np.repeat(v.reshape(1, -1), len(self), axis=0) if across(axis) else np.repeat(v.reshape(-1, 1), self.shape[1], axis=1)
                return DataFrame._of([Series._of(a, self._index)._cmp(v[:, j], op)._v for j, a in enumerate(self._data)], self._columns, self._index)
            return op(self, other)

        for cls in (Series, DataFrame):
            setattr(cls, name, compare)

    def logical(op):
        def f(self, other):
            return self._binary(other, op)
        return f

    for cls in (Series, DataFrame):
        for name in ("and_", "or_", "xor"):
            f = logical(getattr(operator, name))
            setattr(cls, "__%s__" % name.rstrip("_"), f)
            setattr(cls, "__r%s__" % name.rstrip("_"), f)

    def columnwise(name):
        f = getattr(Series, name)

        def each(self, *args, axis=0, **kwargs):
            if axis not in (0, "index", None):
                raise ShimGap("DataFrame.%s(axis=1)" % name)
            return self._map(lambda s: f(s, *args, **kwargs))
        each.__name__ = name
        setattr(DataFrame, name, each)

    def running(name, f):
        def g(self, axis=None, skipna=True):
            if self.hasnans:
                raise ShimGap("%s of missing values" % name)
            v = self._v.astype(np.int64) if self._v.dtype == bool and name.startswith("cum") and name in ("cumsum", "cumprod") else self._v
            return Series._of(f(v), self._index, self.name)
        setattr(Series, name, g)

    running("cumsum", np.cumsum)
    running("cumprod", np.cumprod)
    running("cummax", np.maximum.accumulate)
    running("cummin", np.minimum.accumulate)

    @method(Series)
    def shift(self, periods=1, freq=None, axis=0, fill_value=None):
        if freq is not None or axis not in (0, "index"):
            raise ShimGap("shift(freq)")
        values, n = self.tolist(), len(self)
        fill = np.nan if fill_value is None else fill_value
        out = [values[k - periods] if 0 <= k - periods < n else fill for k in range(n)]
        if fill_value is None and periods and n and self._v.dtype.kind in "iu":
            return Series._of(np.array(out, dtype=float), self._index, self.name)
        return Series._of(_array(out), self._index, self.name)

    @method(Series)
    def diff(self, periods=1):
        return Series._of(self._v.astype(float) - self.shift(periods)._v.astype(float), self._index, self.name)

    @method(Series)
    def round(self, decimals=0):
        return Series._of(np.round(self._v, decimals), self._index, self.name)

    @method(Series)
    def clip(self, lower=None, upper=None, axis=None, inplace=False):
        if inplace or _listlike(lower) or _listlike(upper):
            raise ShimGap("clip by label or in place")
        v = self._v
        v = v if lower is None else np.where(v < lower, lower, v)
        v = v if upper is None else np.where(v > upper, upper, v)
        return Series._of(_array(v.tolist()) if v.dtype == object else np.array(v), self._index, self.name)

    def condition(self, cond):
        cond = cond(self) if callable(cond) else cond
        for a, b in ((cond, self),):
            if isinstance(a, (Series, DataFrame)) and not a._index.equals(b._index):
                raise ShimGap("where with unaligned labels")
        return np.asarray(cond)

    @method(Series)
    def where(self, cond, other=np.nan, inplace=False):
        if inplace:
            raise ShimGap("where in place")
        keep = condition(self, cond).astype(bool)
        other = other(self) if callable(other) else other
        if isinstance(other, Series) and not other._index.equals(self._index):
            raise ShimGap("where with unaligned labels")
        w = list(np.asarray(other)) if _listlike(other) else [other] * len(self)
        if keep.all():
            return self.copy()
        return Series._of(_array([v if k else x for v, k, x in zip(self.tolist(), keep, w)]), self._index, self.name)

    @method(Series, DataFrame)
    def mask(self, cond, other=np.nan, inplace=False):
        return self.where(~condition(self, cond).astype(bool), other, inplace)

    @method(DataFrame)
    def where(self, cond, other=np.nan, inplace=False):
        keep = condition(self, cond).astype(bool)
        if keep.ndim == 1:
            keep = np.repeat(keep.reshape(-1, 1), self.shape[1], axis=1)
        if inplace or callable(other):
            raise ShimGap("where in place")
        w = np.asarray(other)
        out = [self._series(j).where(keep[:, j], w[:, j] if w.ndim == 2 else other if w.ndim == 0 else w)._v for j in range(self.shape[1])]
        return DataFrame._of(out, self._columns, self._index)

    for name in ("cumsum", "cumprod", "cummax", "cummin", "shift", "diff", "round", "clip"):
        columnwise(name)

    @method(Series)
    def fillna(self, value=None, method=None, axis=None, inplace=False, limit=None):
        if limit is not None:
            raise ShimGap("fillna(limit)")
        if method is not None:
            out = self.ffill() if method in ("ffill", "pad") else self.bfill()
        else:
            if value is None:
                raise ValueError("Must specify a fill 'value' or 'method'.")
            gaps = self.isna()._v
            if isinstance(value, (Series, dict)):
                w = [value[i] if i in value else np.nan for i in self._index]
            else:
                w = [value] * len(self)
            out = Series._of(_array([x if g else v for v, g, x in zip(self.tolist(), gaps, w)]), self._index, self.name) if gaps.any() else self.copy()
        if inplace:
            self._v = out._v
            return None
        return out

    @method(Series, names=("pad",))
    def ffill(self, axis=None, inplace=False, limit=None):
        out, last = [], np.nan
        for v in self.tolist():
            last = last if _is_null(v) else v
            out.append(last)
        return Series._of(_array(out), self._index, self.name)

    @method(Series, names=("backfill",))
    def bfill(self, axis=None, inplace=False, limit=None):
        return Series._of(_array(Series(self.tolist()[::-1]).ffill().tolist()[::-1]), self._index, self.name)

    columnwise("ffill")
    columnwise("bfill")

    @method(DataFrame)
    def fillna(self, value=None, method=None, axis=None, inplace=False, limit=None):
        if axis not in (None, 0, "index") or isinstance(value, DataFrame):
            raise ShimGap("DataFrame.fillna along rows")
        out = []
        for j, c in enumerate(self._columns):
            s = self._series(j)
            if isinstance(value, (dict, Series)):
                out.append((s.fillna(value[c]) if c in value else s.copy())._v)
            else:
                out.append(s.fillna(value, method=method, limit=limit)._v)
        return self._result(DataFrame._of(out, self._columns, self._index), inplace)

    # ------------------------------------------------------------------ reductions
    @method(Series, names=("product",))
    def prod(self, axis=None, skipna=True, out=None, dtype=None):
        return self._reduce(lambda v: v.prod(), 1)

    @method(Series)
    def quantile(self, q=0.5, interpolation="linear"):
        if interpolation != "linear":
            raise ShimGap("quantile(interpolation)")
        v = self._clean()
        if _listlike(q) or isinstance(q, tuple):
            return Series([np.quantile(v, x) for x in q], index=Index(list(q)), name=self.name)
        return np.quantile(v, q) if len(v) else np.nan

    @method(Series)
    def mode(self, dropna=True):
        counts = self.value_counts()
        return Series(ordered([k for k, c in counts.items() if c == counts.max()]), name=self.name)

    def reduction(name):
        def f(self, axis=0, skipna=True, **kwargs):
            return self._reduce(name, axis)
        setattr(DataFrame, name, f)

    for name in ("prod", "product", "median"):
        reduction(name)

    @method(DataFrame)
    def quantile(self, q=0.5, axis=0, numeric_only=True, interpolation="linear"):
        if _listlike(q) or isinstance(q, tuple):
            return DataFrame({c: s.quantile(list(q)).tolist() for c, s in self.items()}, index=Index(list(q)))
        rows = self.T if across(axis) else self
        out = Series([s.quantile(q, interpolation) for _, s in rows.items()], index=rows._columns, name=q)
        return out

    @method(Series)
    def corr(self, other, method="pearson"):
        if method != "pearson":
            raise ShimGap("corr(%r)" % method)
        return float(np.corrcoef(self._v, other._v)[0, 1])

    @method(Series)
    def cov(self, other, ddof=1):
        return float(np.cov(self._v, other._v, ddof=ddof)[0, 1])

    @method(DataFrame)
    def corr(self, method="pearson"):
        if method != "pearson" or self.isna().any(axis=None):
            raise ShimGap("corr beyond pearson")
        return DataFrame(np.atleast_2d(np.corrcoef(self.values.astype(float), rowvar=False)), index=self._columns, columns=self._columns)

    @method(DataFrame)
    def cov(self, ddof=1):
        if self.isna().any(axis=None):
            raise ShimGap("cov of missing values")
        return DataFrame(np.atleast_2d(np.cov(self.values.astype(float), rowvar=False, ddof=ddof)), index=self._columns, columns=self._columns)

    @method(Series)
    def dot(self, other):
        return self._v.dot(np.asarray(other))

    Series.__matmul__ = lambda self, other: self.dot(other)
    DataFrame.__matmul__ = lambda self, other: self.dot(other)

    # ------------------------------------------------------------------ Series
    @method(Series)
    def drop(self, labels=None, axis=0, index=None, columns=None, inplace=False, errors="raise"):
        labels = index if labels is None else labels
        gone = list(labels) if _listlike(labels) else [labels]
        for g in gone:
            if errors == "raise" and g not in self._index:
                raise KeyError("%r not found in axis" % [g])
        out = self._pick([k for k, i in enumerate(self._index) if not any(_same(i, g) for g in gone)])
        if inplace:
            self._v, self._index = out._v, out._index
            return None
        return out

    @method(Series, DataFrame)
    def append(self, other, ignore_index=False, verify_integrity=False, sort=False):
        others = list(other) if isinstance(other, (list, tuple)) else [other]
        if isinstance(self, DataFrame):
            others = [DataFrame([dict(o.items())], index=[o.name]) if isinstance(o, Series) else DataFrame([o]) if isinstance(o, dict) else o for o in others]
        return pd.concat([self] + others, ignore_index=ignore_index)

    @method(Series)
    def between(self, left, right, inclusive=True):
        if inclusive not in (True, False, "both", "neither"):
            raise ShimGap("between(%r)" % inclusive)
        return ((self >= left) & (self <= right)) if inclusive in (True, "both") else ((self > left) & (self < right))

    @method(Series)
    def drop_duplicates(self, keep="first", inplace=False):
        return self._pick(np.nonzero(~self.duplicated(keep)._v)[0])

    @prop(Series)
    def is_unique(self):
        return len(_unique(self._v)) == len(self)

    @method(Series)
    def argsort(self, axis=0, kind="quicksort", order=None):
        return Series._of(np.argsort(self._v, kind="stable"), self._index, self.name)

    @method(Series)
    def repeat(self, repeats, axis=None):
        return self._pick(np.repeat(np.arange(len(self)), repeats))

    @method(Series)
    def take(self, indices, axis=0):
        return self._pick(np.asarray(indices))

    @method(Series)
    def nlargest(self, n=5, keep="first"):
        return self._pick(sorted(range(len(self)), key=lambda k: -self._v[k])[:n])

    @method(Series)
    def nsmallest(self, n=5, keep="first"):
        return self._pick(sorted(range(len(self)), key=lambda k: self._v[k])[:n])

    @method(Series)
    def squeeze(self, axis=None):
        return self._v[0] if len(self) == 1 else self

    @prop(Series)
    def T(self):
        return self

    @prop(Series)
    def axes(self):
        return [self._index]

    @method(Series, DataFrame)
    def pipe(self, func, *args, **kwargs):
        if isinstance(func, tuple):
            raise ShimGap("pipe of a tuple")
        return func(self, *args, **kwargs)

    @method(Series, names=("aggregate",))
    def agg(self, func=None, axis=0, *args, **kwargs):
        if isinstance(func, str):
            return getattr(self, func)(*args, **kwargs)
        if isinstance(func, (list, dict)):
            names = list(func)
            return Series([self.agg(func[f] if isinstance(func, dict) else f) for f in names], index=Index([f if isinstance(f, str) else f.__name__ for f in names]), name=self.name)
        return func(self, *args, **kwargs)

    @method(Series)
    def transform(self, func, axis=0, *args, **kwargs):
        if isinstance(func, str):
            return getattr(self, func)(*args, **kwargs)
        try:
            out = self.apply(func, args, **kwargs)
        except (TypeError, AttributeError, ValueError):
            out = func(self, *args, **kwargs)
        return out

    @method(Series)
    def reset_index(self, level=None, drop=False, name=None, inplace=False):
        if level is not None or inplace:
            raise ShimGap("Series.reset_index(level)")
        if drop:
            return Series._of(self._v.copy(), RangeIndex(len(self._v)), self.name)
        return self.to_frame(name).reset_index()

    @method(Series)
    def rename(self, index=None, axis=None, copy=True, inplace=False, **kwargs):
        out = self if inplace else self.copy()
        if isinstance(index, (dict, Series)) or callable(index):
            f = (lambda x: index.get(x, x)) if not callable(index) else index
            out._index = Index([f(x) for x in out._index], name=out._index.name)
        else:
            out.name = index
        return None if inplace else out

    @method(Series)
    def rename_axis(self, mapper=None, index=None, axis=None, copy=True, inplace=False):
        out = self.copy()
        out._index = out._index.set_names(mapper if index is None else index)
        return out

    @method(DataFrame)
    def rename_axis(self, mapper=None, index=None, columns=None, axis=None, copy=True, inplace=False):
        out = self.copy()
        if columns is not None or (mapper is not None and across(axis)):
            object.__setattr__(out, "_columns", out._columns.set_names(columns if columns is not None else mapper))
        if index is not None or (mapper is not None and not across(axis)):
            object.__setattr__(out, "_index", out._index.set_names(index if index is not None else mapper))
        return self._result(out, inplace)

    @method(Series)
    def set_axis(self, labels, axis=0, inplace=False):
        out = self.copy()
        out.index = labels
        return out

    @method(Series)
    def value_counts(self, normalize=False, sort=True, ascending=False, bins=None, dropna=True):
        if bins is not None:
            raise ShimGap("value_counts(bins)")
        values = self.tolist() if not dropna else [v for v in self.tolist() if not _is_null(v)]
        keys = _unique(_array(values)).tolist() if values else []
        counts = [sum(1 for v in values if _same(v, k) or (_is_null(v) and _is_null(k))) for k in keys]
        items = sorted(zip(keys, counts), key=lambda kc: kc[1] if ascending else -kc[1]) if sort else list(zip(keys, counts))
        return Series([c / len(values) if normalize else c for _, c in items], index=Index([k for k, _ in items]), name=self.name) if items else Series(
            np.array([], dtype=np.int64), index=Index([]), name=self.name)

    @method(Series)
    def reindex(self, index=None, fill_value=np.nan, **kwargs):
        if kwargs:
            raise ShimGap("reindex(%s)" % ", ".join(kwargs))
        target = index if isinstance(index, Index) else Index(list(index))
        where = {v: k for k, v in enumerate(self._index)}
        if len(where) < len(self._index) and not target.equals(self._index):
            raise ValueError("cannot reindex from a duplicate axis")
        values = self.tolist()
        out = [values[where[i]] if i in where else fill_value for i in target]
        if all(i in where for i in target) and self._v.dtype != object:
            return Series._of(np.array(out, dtype=self._v.dtype), target, self.name)
        return Series._of(_array(out), target, self.name)

    @method(Series)
    def combine_first(self, other):
        labels = Index(ordered(dict.fromkeys(list(self._index) + list(other._index)))) if not self._index.equals(other._index) else self._index
        return Series([self[i] if i in self._index and not _is_null(self[i]) else other[i] if i in other._index else np.nan for i in labels], index=labels, name=self.name)

    @method(Series)
    def unstack(self, level=-1, fill_value=None):
        index = self._index
        if not isinstance(index, MultiIndex):
            raise ValueError("index must be a MultiIndex to unstack, %s was passed" % type(index))
        k = index.names.index(level) if level in index.names else level % index.nlevels
        cols = ordered(dict.fromkeys(t[k] for t in index))
        rows = ordered(dict.fromkeys(t[:k] + t[k + 1:] for t in index))
        at = {}
        for t, v in zip(index, self.tolist()):
            if t in at:
                raise ValueError("Index contains duplicate entries, cannot reshape")
            at[t] = v
        names = index.names[:k] + index.names[k + 1:]
        out_index = Index([r[0] for r in rows], name=names[0]) if index.nlevels == 2 else MultiIndex.from_tuples(rows, names=names)
        fill = np.nan if fill_value is None else fill_value
        return DataFrame._of([_array([at.get(r[:k] + (c,) + r[k:], fill) for r in rows]) for c in cols], Index(cols, name=index.names[k]), out_index)

    # ------------------------------------------------------------------ DataFrame
    @method(DataFrame)
    def transpose(self, *args, copy=False):
        return self.T

    @prop(DataFrame)
    def axes(self):
        return [self._index, self._columns]

    @method(DataFrame)
    def squeeze(self, axis=None):
        rows, cols = self.shape
        if axis is None and rows == 1 and cols == 1:
            return self._data[0][0]
        if cols == 1 and axis in (None, 1, "columns"):
            return self._series(0)
        if rows == 1 and axis in (None, 0, "index"):
            return self._row(0)
        return self

    @method(DataFrame, names=("aggregate",))
    def agg(self, func=None, axis=0, *args, **kwargs):
        if isinstance(func, str):
            return getattr(self, func)(*args, axis=axis, **kwargs)
        if isinstance(func, dict):
            return Series([self[c].agg(f) for c, f in func.items()], index=Index(list(func)))
        if isinstance(func, list):
            return DataFrame({c: [s.agg(f) for f in func] for c, s in self.items()}, index=Index([f if isinstance(f, str) else f.__name__ for f in func]))
        return self.apply(func, axis=axis, args=args, **kwargs)

    @method(DataFrame)
    def transform(self, func, axis=0, *args, **kwargs):
        if isinstance(func, dict):
            return DataFrame({c: self[c].transform(f) for c, f in func.items()}, index=self._index)
        return getattr(self, func)(*args, **kwargs) if isinstance(func, str) else self.apply(func, axis=axis, args=args, **kwargs)

    @method(DataFrame)
    def add_prefix(self, prefix):
        return self.rename(columns=lambda c: "%s%s" % (prefix, c))

    @method(DataFrame)
    def add_suffix(self, suffix):
        return self.rename(columns=lambda c: "%s%s" % (c, suffix))

    @method(DataFrame)
    def set_axis(self, labels, axis=0, inplace=False):
        out = self.copy()
        if across(axis):
            out.columns = labels
        else:
            out.index = labels
        return self._result(out, inplace)

    def row_keys(self, subset):
        subset = [subset] if subset is not None and not _listlike(subset) else subset
        columns = self._data if subset is None else [self[c]._v for c in subset]
        return _objects(tuple(a[k] for a in columns) for k in range(len(self)))

    @method(DataFrame)
    def duplicated(self, subset=None, keep="first"):
        keys = Series._of(row_keys(self, subset), self._index)
        return keys.duplicated(keep)

    @method(DataFrame)
    def drop_duplicates(self, subset=None, keep="first", inplace=False, ignore_index=False):
        out = self._take(np.nonzero(~self.duplicated(subset, keep)._v)[0])
        return self._result(out.reset_index(drop=True) if ignore_index else out, inplace)

    @method(DataFrame)
    def value_counts(self, subset=None, normalize=False, sort=True, ascending=False):
        columns = self._columns.tolist() if subset is None else list(subset)
        counts = Series._of(row_keys(self, columns), RangeIndex(len(self))).value_counts(normalize, sort, ascending)
        counts.index = MultiIndex.from_tuples(counts.index.tolist(), names=columns)
        counts.name = None
        return counts

    @method(DataFrame)
    def isin(self, values):
        if isinstance(values, (Series, DataFrame)):
            raise ShimGap("isin by label")
        if isinstance(values, dict):
            return DataFrame._of([s.isin(values[c])._v if c in values else np.zeros(len(self), dtype=bool) for c, s in self.items()], self._columns, self._index)
        return self._map(lambda s: s.isin(values))

    @method(DataFrame)
    def replace(self, to_replace=None, value=None, inplace=False):
        def each(c, s):
            if isinstance(to_replace, dict) and value is None and any(isinstance(v, dict) for v in to_replace.values()):
                return s.replace(to_replace[c]) if c in to_replace else s.copy()
            if isinstance(to_replace, dict) and value is not None:
                raise ShimGap("replace by column")
            return s.replace(to_replace, value)
        return self._result(DataFrame._of([each(c, s)._v for c, s in self.items()], self._columns, self._index), inplace)

    @method(Series)
    def replace(self, to_replace=None, value=None, inplace=False):
        if isinstance(to_replace, dict):
            table = list(to_replace.items())
        elif _listlike(to_replace) or isinstance(to_replace, tuple):
            table = list(zip(to_replace, value if _listlike(value) or isinstance(value, tuple) else [value] * len(list(to_replace))))
        else:
            table = [(to_replace, value)]
        out = _array([next((new for old, new in table if _same(v, old) or (_is_null(v) and _is_null(old))), v) for v in self.tolist()])
        if inplace:
            self._v = out
            return None
        return Series._of(out, self._index, self.name)

    @method(DataFrame)
    def take(self, indices, axis=0):
        n = self.shape[1 if across(axis) else 0]
        picked = [int(k) % n for k in indices]
        return self._take(cols=picked) if across(axis) else self._take(np.array(picked, dtype=int))

    @method(DataFrame)
    def filter(self, items=None, like=None, regex=None, axis=None):
        by_row = axis in (0, "index")
        labels = self._index if by_row else self._columns
        if items is not None:
            keep = [k for item in items for k, c in enumerate(labels) if _same(c, item)]
        elif like is not None:
            keep = [k for k, c in enumerate(labels) if like in str(c)]
        else:
            keep = [k for k, c in enumerate(labels) if re.search(regex, str(c))]
        return self._take(np.array(keep, dtype=int)) if by_row else self._take(cols=keep)

    @method(DataFrame)
    def stack(self, level=-1, dropna=True):
        if isinstance(self._columns, MultiIndex) or isinstance(self._index, MultiIndex):
            raise ShimGap("stack with several levels")
        items = [((i, c), v) for i, *row in zip(self._index, *[a.tolist() for a in self._data]) for c, v in zip(self._columns, row) if not (dropna and _is_null(v))]
        return Series([v for _, v in items], index=MultiIndex.from_tuples([k for k, _ in items], names=[self._index.name, self._columns.name]))

    @method(DataFrame)
    def unstack(self, level=-1, fill_value=None):
        if isinstance(self._index, MultiIndex):
            raise ShimGap("DataFrame.unstack of a MultiIndex")
        items = [((c, i), v) for c, a in zip(self._columns, self._data) for i, v in zip(self._index, a.tolist())]
        return Series([v for _, v in items], index=MultiIndex.from_tuples([k for k, _ in items], names=[self._columns.name, self._index.name]))

    @method(DataFrame)
    def pivot(self, index=None, columns=None, values=None):
        if values is None or index is None or _listlike(values) or _listlike(index) or _listlike(columns):
            raise ShimGap("pivot of several columns")
        keys = MultiIndex.from_arrays([self[index].tolist(), self[columns].tolist()], names=[index, columns])
        return Series._of(self[values]._v.copy(), keys).unstack()

    @method(DataFrame)
    def melt(self, id_vars=None, value_vars=None, var_name=None, value_name="value"):
        ids = [] if id_vars is None else list(id_vars) if _listlike(id_vars) or isinstance(id_vars, tuple) else [id_vars]
        values = [c for c in self._columns if c not in ids] if value_vars is None else list(value_vars)
        out = {c: self[c].tolist() * len(values) for c in ids}
        out[var_name or "variable"] = [c for c in values for _ in range(len(self))]
        out[value_name] = [v for c in values for v in self[c].tolist()]
        return DataFrame(out)

    @method(DataFrame)
    def reset_index(self, level=None, drop=False, inplace=False, col_level=0, col_fill=""):
        if level is not None:
            raise ShimGap("reset_index(level)")
        out = self.copy()
        index = out._index
        object.__setattr__(out, "_index", RangeIndex(len(self)))
        if not drop:
            if isinstance(index, MultiIndex):
                for k in range(index.nlevels - 1, -1, -1):
                    name = index.names[k]
                    out.insert(0, "level_%d" % k if name is None else name, _array([t[k] for t in index]))
            else:
                out.insert(0, index.name if index.name is not None else "index", index.values)
        return self._result(out, inplace)

    @method(DataFrame)
    def reindex(self, labels=None, index=None, columns=None, axis=None, fill_value=np.nan, **kwargs):
        if kwargs:
            raise ShimGap("reindex(%s)" % ", ".join(kwargs))
        if labels is not None:
            if across(axis):
                columns = labels
            else:
                index = labels
        out = self.copy()
        if columns is not None:
            columns = columns if isinstance(columns, Index) else Index(list(columns))
            out = DataFrame._of([out[c]._v.copy() if c in out._columns else _array([fill_value] * len(out)) for c in columns], columns, out._index)
        if index is not None:
            index = index if isinstance(index, Index) else Index(list(index))
            out = DataFrame._of([Series._of(a, out._index).reindex(index, fill_value)._v for a in out._data], out._columns, index)
        return out

    @method(DataFrame)
    def sort_values(self, by, axis=0, ascending=True, inplace=False, kind="quicksort", na_position="last", ignore_index=False):
        by = by if isinstance(by, list) else [by]
        if axis not in (0, "index"):
            raise ShimGap("sort_values(axis=1)")
        directions = ascending if isinstance(ascending, list) else [ascending] * len(by)
        order = list(range(len(self)))
        for b, up in reversed(list(zip(by, directions))):
            column = self[b]._v
            gaps = [k for k in order if _is_null(column[k])]
            order = sorted([k for k in order if not _is_null(column[k])], key=lambda k: column[k], reverse=not up) + gaps
        out = self._take(np.array(order, dtype=int))
        return self._result(out.reset_index(drop=True) if ignore_index else out, inplace)

    @method(DataFrame)
    def sort_index(self, axis=0, level=None, ascending=True, inplace=False, kind="quicksort", na_position="last", sort_remaining=True, ignore_index=False):
        if level is not None:
            raise ShimGap("sort_index(level)")
        if across(axis):
            out = self._take(cols=sorted(range(len(self._data)), key=lambda j: self._columns[j], reverse=not ascending))
        else:
            out = self._take(np.array(sorted(range(len(self)), key=lambda k: self._index[k], reverse=not ascending), dtype=int))
        return self._result(out, inplace)

    @method(Series)
    def sort_values(self, axis=0, ascending=True, inplace=False, kind="quicksort", na_position="last", ignore_index=False):
        gaps = [k for k in range(len(self)) if _is_null(self._v[k])]
        order = sorted([k for k in range(len(self)) if k not in gaps], key=lambda k: self._v[k], reverse=not ascending) + gaps
        out = self._pick(order)
        out = out.reset_index(drop=True) if ignore_index else out
        if inplace:
            self._v, self._index = out._v, out._index
            return None
        return out

    @method(Series)
    def sort_index(self, axis=0, level=None, ascending=True, inplace=False, kind="quicksort", na_position="last", sort_remaining=True, ignore_index=False):
        if level is not None:
            raise ShimGap("sort_index(level)")
        out = self._pick(sorted(range(len(self)), key=lambda k: self._index[k], reverse=not ascending))
        if inplace:
            self._v, self._index = out._v, out._index
            return None
        return out

    @method(DataFrame)
    def dropna(self, axis=0, how="any", thresh=None, subset=None, inplace=False):
        if thresh is not None:
            raise ShimGap("dropna(thresh)")
        part = self if subset is None else self[list(subset)] if not across(axis) else self
        gaps = part.isna().values.astype(bool)
        if across(axis):
            bad = gaps.any(axis=0) if how == "any" else gaps.all(axis=0)
            return self._result(self._take(cols=[j for j in range(self.shape[1]) if not bad[j]]), inplace)
        bad = gaps.any(axis=1) if how == "any" else gaps.all(axis=1)
        return self._result(self._take(np.nonzero(~bad)[0]), inplace)

    @classmethod
    def from_records(cls, data, index=None, exclude=None, columns=None, coerce_float=False, nrows=None):
        if index is not None and not _listlike(index) or exclude is not None or nrows is not None:
            raise ShimGap("from_records with options")
        return cls([list(r) if isinstance(r, tuple) else r for r in data], index=index, columns=columns)

    DataFrame.from_records = from_records

    getitem = DataFrame.__getitem__

    def __getitem__(self, key):
        if isinstance(key, DataFrame):
            return self.where(key)
        if callable(key) and not isinstance(key, type):
            key = key(self)
        return getitem(self, key)

    DataFrame.__getitem__ = __getitem__

    def join_keys(left, right, on, left_on, right_on):
        if on is None and left_on is None:
            on = [c for c in left._columns if c in right._columns]
        a = on if left_on is None else left_on
        b = on if right_on is None else right_on
        return (list(a) if _listlike(a) else [a]), (list(b) if _listlike(b) else [b])

    def merge(left, right, how="inner", on=None, left_on=None, right_on=None, left_index=False, right_index=False, sort=False, suffixes=("_x", "_y"), copy=True,
              indicator=False, validate=None):
        if left_index or right_index or how not in ("inner", "left") or indicator or validate is not None or sort:
            raise ShimGap("merge beyond inner and left joins on columns")
        a, b = join_keys(left, right, on, left_on, right_on)
        keys = [tuple(left[c]._v[k] for c in a) for k in range(len(left))]
        other = {}
        for k in range(len(right)):
            other.setdefault(tuple(right[c]._v[k] for c in b), []).append(k)
        pairs = [(k, m) for k, key in enumerate(keys) for m in (other.get(key) or ([None] if how == "left" else []))]
        out = {}
        shared = [c for c in b if c in a and a[b.index(c)] == c]
        clash = [c for c in left._columns if c in right._columns and c not in shared]
        for c in left._columns:
            v = left[c].tolist()
            out["%s%s" % (c, suffixes[0]) if c in clash else c] = [v[k] for k, _ in pairs]
        for c in right._columns:
            if c in shared:
                continue
            v = right[c].tolist()
            out["%s%s" % (c, suffixes[1]) if c in clash else c] = [np.nan if m is None else v[m] for _, m in pairs]
        return DataFrame(out, index=RangeIndex(len(pairs)))

    DataFrame.merge = merge
    pd.merge = merge

    @method(DataFrame)
    def join(self, other, on=None, how="left", lsuffix="", rsuffix="", sort=False):
        others = [o.to_frame() if isinstance(o, Series) else o for o in (other if isinstance(other, (list, tuple)) else [other])]
        out = self.copy()
        for o in others:
            clash = [c for c in out._columns if c in o._columns]
            if clash and not (lsuffix or rsuffix):
                raise ValueError("columns overlap but no suffix specified: %r" % (Index(clash),))
            if on is not None or clash or how not in ("left", "inner", "outer") or not o._index.equals(out._index) and how != "left":
                raise ShimGap("join of unaligned frames")
            if not o._index.is_unique and not o._index.equals(out._index):
                raise ShimGap("join on repeated labels")
            o = o if o._index.equals(out._index) else o.reindex(out._index)
            out = DataFrame._of(out._data + [a.copy() for a in o._data], Index(list(out._columns) + list(o._columns)), out._index)
        return out

    # ------------------------------------------------------------------ groupby
    class GroupBy:
        def __init__(self, obj, keys, names, sort, as_index, picked=None, hidden=()):
            self.obj, self.keys, self.names, self.sort, self.as_index, self.picked, self.hidden = obj, keys, names, sort, as_index, picked, hidden
            self.where = {}
            for k, key in enumerate(keys):
                if not any(_is_null(x) for x in key):
                    self.where.setdefault(key, []).append(k)
            self.order = ordered(self.where) if sort else list(self.where)

        def _name(self, key):
            return key[0] if len(self.names) == 1 else key

        def _index(self, keys):
            if len(self.names) == 1:
                return Index([k[0] for k in keys], name=self.names[0])
            return MultiIndex.from_tuples(list(keys), names=self.names)

        def _part(self, key):
            rows = np.array(self.where[key], dtype=int)
            part = self.obj._pick(rows) if isinstance(self.obj, Series) else self.obj._take(rows)
            return part if self.picked is None else part[self.picked]

        def _values(self, part):
            """The part without the keys, for reductions."""
            if isinstance(part, Series):
                return part
            return part[[c for c in part._columns if c not in self.hidden]]

        def __iter__(self):
            return iter([(self._name(k), self._part(k)) for k in self.order])

        def __len__(self):
            return len(self.order)

        @property
        def ngroups(self):
            return len(self.order)

        @property
        def groups(self):
            return {self._name(k): self.obj._index[np.array(self.where[k], dtype=int)] for k in self.order}

        @property
        def indices(self):
            return {self._name(k): np.array(self.where[k], dtype=np.int64) for k in self.order}

        def get_group(self, name):
            return self._part(name if isinstance(name, tuple) and len(self.names) > 1 else (name,))

        def __getitem__(self, key):
            return GroupBy(self.obj, self.keys, self.names, self.sort, self.as_index, key, self.hidden)

        def __getattr__(self, name):
            if isinstance(self.obj, DataFrame) and self.picked is None and name in self.obj._columns:
                return self[name]
            raise ShimGap("groupby.%s" % name)

        def _done(self, out):
            return out if self.as_index else out.reset_index()

        def size(self):
            out = Series([len(self.where[k]) for k in self.order], index=self._index(self.order)) if self.order else Series(np.array([], dtype=np.int64))
            if not self.as_index:
                return out.to_frame("size").reset_index()
            return out

        def agg(self, func=None, *args, **kwargs):
            if func is None:
                raise ShimGap("named aggregation")
            parts = [self._values(self._part(k)) for k in self.order]
            if not parts:
                raise ShimGap("aggregating no group")
            if isinstance(parts[0], Series):
                if isinstance(func, list):
                    return self._done(DataFrame._of([_array([p.agg(f) for p in parts]) for f in func], Index([f if isinstance(f, str) else f.__name__ for f in func]), self._index(self.order)))
                return self._done(Series._of(_array([p.agg(func, *args, **kwargs) for p in parts]), self._index(self.order), parts[0].name))
            if isinstance(func, list):
                raise ShimGap("a list of aggregations of a frame")
            table = func if isinstance(func, dict) else {c: func for c in parts[0]._columns}
            if any(isinstance(f, list) for f in table.values()):
                raise ShimGap("lists of aggregations")
            return self._done(DataFrame._of([_array([p[c].agg(f, *args, **kwargs) for p in parts]) for c, f in table.items()], Index(list(table)), self._index(self.order)))

        aggregate = agg

        def apply(self, func, *args, **kwargs):
            out = [func(self._part(k), *args, **kwargs) for k in self.order]
            if not out:
                raise ShimGap("applying to no group")
            if isinstance(out[0], DataFrame):
                raise ShimGap("groupby.apply giving frames")
            if isinstance(out[0], Series):
                if not all(s._index.equals(out[0]._index) for s in out):
                    raise ShimGap("groupby.apply giving different labels")
                return self._done(DataFrame._of([_array([s._v[j] for s in out]) for j in range(len(out[0]))], out[0]._index, self._index(self.order)))
            return self._done(Series._of(_array(out), self._index(self.order)))

        def transform(self, func, *args, **kwargs):
            def spread(column):
                out = [np.nan] * len(column)
                for k in self.order:
                    rows = self.where[k]
                    r = column._pick(np.array(rows, dtype=int)).agg(func, *args, **kwargs)
                    r = r.tolist() if isinstance(r, (Series, np.ndarray)) else [r] * len(rows)
                    for m, v in zip(rows, r):
                        out[m] = v
                return Series._of(_array(out), column._index, column.name)
            obj = self._values(self.obj if self.picked is None else self.obj[self.picked])
            return spread(obj) if isinstance(obj, Series) else obj._map(spread)

        def cumcount(self, ascending=True):
            out = np.zeros(len(self.keys), dtype=np.int64)
            for rows in self.where.values():
                out[rows] = np.arange(len(rows)) if ascending else np.arange(len(rows))[::-1]
            return Series._of(out, self.obj._index)

        def ngroup(self):
            out = np.full(len(self.keys), -1, dtype=np.int64)
            for n, k in enumerate(self.order):
                out[self.where[k]] = n
            return Series._of(out, self.obj._index)

        def filter(self, func):
            keep = sorted(r for k in self.order if func(self._part(k)) for r in self.where[k])
            return self.obj._pick(keep) if isinstance(self.obj, Series) else self.obj._take(np.array(keep, dtype=int))

        def head(self, n=5):
            keep = sorted(r for k in self.order for r in self.where[k][:n])
            return self.obj._pick(keep) if isinstance(self.obj, Series) else self.obj._take(np.array(keep, dtype=int))

        def value_counts(self, normalize=False):
            raise ShimGap("groupby.value_counts")

        def first(self):
            return self.agg(lambda s: s.dropna()._v[0] if len(s.dropna()) else np.nan)

        def last(self):
            return self.agg(lambda s: s.dropna()._v[-1] if len(s.dropna()) else np.nan)

    for name in ("sum", "mean", "max", "min", "std", "var", "median", "count", "nunique", "prod", "any", "all", "idxmax", "idxmin"):
        def aggregate(self, name=name, **kwargs):
            return self.agg(name)
        setattr(GroupBy, name, aggregate)
    for name in ("cumsum", "cumprod", "shift", "diff", "ffill", "bfill", "cummax", "cummin"):
        def along(self, *args, name=name, **kwargs):
            return self.transform(lambda s: getattr(s, name)(*args, **kwargs))
        setattr(GroupBy, name, along)

    @method(Series, DataFrame)
    def groupby(self, by=None, axis=0, level=None, as_index=True, sort=True, group_keys=True, squeeze=False, observed=False, dropna=True):
        if axis not in (0, "index") or not dropna:
            raise ShimGap("groupby(axis=1)")
        columns, names, hidden = [], [], []
        if level is not None:
            for x in level if isinstance(level, list) else [level]:
                values = self._index.get_level_values(x)
                columns.append(list(values))
                names.append(values.name)
        else:
            for b in by if isinstance(by, list) and not (len(by) == len(self) and not (isinstance(self, DataFrame) and all(x in self._columns for x in by))) else [by]:
                if isinstance(b, (Series, Index)):
                    if isinstance(b, Series) and not b._index.equals(self._index):
                        raise ShimGap("groupby unaligned labels")
                    columns.append(b.tolist())
                    names.append(b.name)
                elif isinstance(b, (np.ndarray, list)):
                    columns.append(list(b))
                    names.append(None)
                elif isinstance(b, dict):
                    columns.append([b.get(i, np.nan) for i in self._index])
                    names.append(None)
                elif callable(b):
                    columns.append([b(i) for i in self._index])
                    names.append(None)
                elif isinstance(self, DataFrame):
                    if b in self._columns:
                        columns.append(self[b].tolist())
                        hidden.append(b)
                    else:
                        if b not in self._index.names:
                            raise KeyError(b)
                        columns.append(list(self._index.get_level_values(b)))
                    names.append(b)
                else:
                    raise ShimGap("groupby(%r)" % (b,))
        return GroupBy(self, list(zip(*columns)), names, sort, as_index, None, hidden)

    # ------------------------------------------------------------------ functions
    pd.factorize = lambda values, sort=False: (lambda r: (r[0], r[1] if isinstance(values, (Series, Index)) else r[1].values))(Series(_array(values)).factorize(sort))
    pd.value_counts = lambda values, **kwargs: Series(_array(values)).value_counts(**kwargs)

    def crosstab(index, columns, values=None, aggfunc=None, normalize=False, dropna=True, margins=False, rownames=None, colnames=None):
        if values is not None or normalize or margins or rownames or colnames or isinstance(index, list) or isinstance(columns, list):
            raise ShimGap("crosstab with options")
        a, b = list(index), list(columns)
        rows, cols = ordered(dict.fromkeys(a)), ordered(dict.fromkeys(b))
        pairs = list(zip(a, b))
        return DataFrame._of([np.array([pairs.count((r, c)) for r in rows], dtype=np.int64) for c in cols],
                             Index(cols, name=getattr(columns, "name", None)), Index(rows, name=getattr(index, "name", None)))

    pd.crosstab = crosstab

    def to_numeric(arg, errors="raise", downcast=None):
        if downcast is not None:
            raise ShimGap("to_numeric(downcast)")

        def one(v):
            if _is_null(v):
                return np.nan
            if isinstance(v, str):
                try:
                    return int(v)
                except ValueError:
                    pass
                try:
                    return float(v)
                except ValueError:
                    if errors == "coerce":
                        return np.nan
                    if errors == "ignore":
                        return v
                    raise ValueError("Unable to parse string %r" % v) from None
            return v

        values = _array([one(v) for v in arg])
        return Series._of(values, arg._index, arg.name) if isinstance(arg, Series) else values

    pd.to_numeric = to_numeric

    class types:
        @staticmethod
        def _dtype(x):
            return x.dtype if hasattr(x, "dtype") else np.dtype(x)

        @staticmethod
        def is_numeric_dtype(x):
            return types._dtype(x).kind in "iufcb"

        @staticmethod
        def is_bool_dtype(x):
            return types._dtype(x).kind == "b"

        @staticmethod
        def is_integer_dtype(x):
            return types._dtype(x).kind in "iu"

        @staticmethod
        def is_float_dtype(x):
            return types._dtype(x).kind == "f"

        @staticmethod
        def is_object_dtype(x):
            return types._dtype(x).kind == "O"

        @staticmethod
        def is_string_dtype(x):
            return types._dtype(x).kind in "OUS"

        @staticmethod
        def is_list_like(x):
            return hasattr(x, "__iter__") and not isinstance(x, (str, bytes))

        @staticmethod
        def is_scalar(x):
            return x is None or isinstance(x, (str, bytes)) or np.isscalar(x)

        @staticmethod
        def is_number(x):
            return isinstance(x, (int, float, np.number))

        @staticmethod
        def is_integer(x):
            return isinstance(x, (int, np.integer)) and not isinstance(x, bool)

        @staticmethod
        def is_hashable(x):
            try:
                hash(x)
            except TypeError:
                return False
            return True

    class api:
        pass

    api.types = types
    pd.api = api
    pd.melt = lambda frame, *args, **kwargs: frame.melt(*args, **kwargs)

    dummies = pd.get_dummies

    def get_dummies(data, prefix=None, prefix_sep="_", dummy_na=False, columns=None, sparse=False, drop_first=False, dtype=None):
        if isinstance(data, DataFrame):
            if prefix is not None or dummy_na or sparse:
                raise ShimGap("get_dummies of a frame with options")
            chosen = [c for c, s in data.items() if s.dtype == object] if columns is None else list(columns)
            parts = [data[[c for c in data._columns if c not in chosen]]]
            for c in chosen:
                part = dummies(data[c], dtype=dtype)
                part = part._take(cols=range(1, part.shape[1])) if drop_first else part
                parts.append(part.rename(columns=lambda v, c=c: "%s%s%s" % (c, prefix_sep, v)))
            return pd.concat([p for p in parts if p.shape[1]], axis=1)
        out = dummies(data, dummy_na=dummy_na, sparse=sparse, dtype=dtype)
        out = out._take(cols=range(1, out.shape[1])) if drop_first else out
        return out if prefix is None else out.rename(columns=lambda v: "%s%s%s" % (prefix, prefix_sep, v))

    pd.get_dummies = get_dummies

    joined = pd.concat

    def concat(objs, axis=0, join="outer", ignore_index=False, keys=None, levels=None, names=None, verify_integrity=False, sort=False, copy=True):
        if levels is not None or verify_integrity:
            raise ShimGap("concat with options")
        if isinstance(objs, dict):
            keys = list(objs) if keys is None else keys
            objs = [objs[k] for k in keys]
        objs = [o for o in objs if o is not None]
        if keys is None:
            return joined(objs, axis=axis, ignore_index=ignore_index, join=join, sort=sort)
        keys = list(keys)
        if across(axis) and all(isinstance(o, Series) for o in objs):
            return joined([o.rename(k) for o, k in zip(objs, keys)], axis=1, join=join)
        if across(axis) or any(isinstance(o._index, MultiIndex) for o in objs):
            raise ShimGap("concat(keys=...) of frames side by side")
        out = joined(objs, join=join)
        out.index = MultiIndex.from_tuples([(k, i) for o, k in zip(objs, keys) for i in o._index], names=names if names is None or len(names) == 2 else list(names) + [None])
        return out

    pd.concat = concat

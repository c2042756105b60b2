"""C27: Discretiser puts every value in the bucket which its split points say, and fits the split points it documents."""
import bisect
import math

from rv import libshim

PROPERTY = "C27"
INTERPRETER = "vt"
RULE = ("all five methods on arrays with ties, negative, huge, tiny, integer, boolean-like and narrow-integer values, 1..60 values, one- and two-dimensional; values to transform "
        "include the split points themselves and their neighbours in floating point. Distinct by method, parameters and data; non-trivial with two or more buckets in use")
NEED = {"values_binned": 20000, "fits": 1000, "at_a_split_point": 2000, "rejections": 200, "equal_shares": 60}
ASSUMPTIONS = ["the base classes of scikit-learn are the stand-in rv/shims/sklearn"]
CAP = (150, 700)


def setup(ctx):
    libshim.install()


def data(rng, n):
    import numpy as np

    kind = rng.choice(["normal", "ties", "integers", "int8", "int16", "constant", "huge", "tiny", "two dimensional", "uint8", "skewed"])
    g = np.random.default_rng(rng.getrandbits(48))
    x = {
        "normal": lambda: g.normal(size=n) * 10, "ties": lambda: g.choice([0.0, 0.5, 1.0, 2.0], size=n), "integers": lambda: g.integers(-50, 50, size=n),
        "int8": lambda: g.integers(-128, 128, size=n).astype(np.int8), "int16": lambda: g.integers(-32768, 32768, size=n).astype(np.int16),
        "constant": lambda: np.full(n, g.normal()), "huge": lambda: g.normal(size=n) * 1e200, "tiny": lambda: g.normal(size=n) * 1e-200,
        "two dimensional": lambda: g.normal(size=(n, 2)), "uint8": lambda: g.integers(0, 256, size=n).astype(np.uint8), "skewed": lambda: np.exp(g.normal(size=n) * 3)}[kind]()
    return x, kind


def quantile(ordered, q):
    """Linear interpolation between order statistics."""
    pos = q * (len(ordered) - 1)
    k = min(int(math.floor(pos)), len(ordered) - 1)
    j = min(k + 1, len(ordered) - 1)
    return ordered[k] + (pos - k) * (ordered[j] - ordered[k])


def probe(ctx, rng, d, splits, values, what, tolerance):
    """Transform values, split points and their neighbours, and compare bucket by bucket."""
    import numpy as np

    near = []
    for s in splits:
        near += [s, np.nextafter(s, -np.inf), np.nextafter(s, np.inf)]
        ctx.count("at_a_split_point", 3)
    xs = np.array([float(v) for v in values] + near + [-1e300, 1e300])
    if rng.random() < 0.3 and len(xs) % 2 == 0:
        xs = xs.reshape(2, -1)
    kept = xs.copy()
    got = np.asarray(ctx.call(d.transform, xs))
    ctx.check(got.shape == xs.shape, lambda: "%s: %r values become %r buckets" % (what, xs.shape, got.shape))
    ctx.check(got.dtype.kind in "iu", lambda: "%s: buckets have type %s" % (what, got.dtype))
    ctx.check((xs == kept).all(), what + ": transform modified its argument")
    ctx.check(np.array_equal(np.asarray(d.transform(xs)), got), what + ": transform twice gives two results")
    for x, b in zip(xs.flatten(), got.flatten()):
        ctx.count("values_binned")
        low = bisect.bisect_right([s + tolerance for s in splits], x)
        high = bisect.bisect_right([s - tolerance for s in splits], x)
        ctx.check(low <= b <= high, lambda: "%s: %r goes into bucket %r, split points %r put it in %s" % (what, x, int(b), list(splits), low if low == high else (low, high)))
    return got


def fitted(ctx, rng, i):
    import numpy as np

    from causalnex.discretiser import Discretiser

    n = rng.choice([1, 2, 3, 5, 10, 30, 60])
    x, kind = data(rng, n)
    method = rng.choice(["uniform", "quantile", "outlier", "percentiles"])
    if kind in ("int8", "int16", "uint8") and rng.random() < 0.5:
        method = "uniform"
    k = rng.choice([1, 2, 3, 4, 5, 10])
    ordered = sorted(float(v) for v in x.flatten())
    if method == "uniform":
        d = ctx.call(Discretiser, method=method, num_buckets=k)
        width = ordered[-1] - ordered[0]
        want = [ordered[0] + width * (j + 1) / k for j in range(k - 1)]
    elif method == "quantile":
        d = ctx.call(Discretiser, method=method, num_buckets=k)
        want = [quantile(ordered, (j + 1) / k) for j in range(k - 1)]
    elif method == "outlier":
        q = rng.choice([0, 0.01, 0.1, 0.25, 0.4999])
        d = ctx.call(Discretiser, method=method, outlier_percentile=q)
        want = [quantile(ordered, q), quantile(ordered, 1 - q)]
    else:
        qs = sorted(rng.choice([0, 0.1, 0.25, 0.5, 0.75, 0.9, 1, rng.random()]) for _ in range(rng.randint(0, 4)))
        given = list(qs)
        d = ctx.call(Discretiser, method=method, percentile_split_points=qs)
        want = [quantile(ordered, q) for q in given]
    what = "%s %s on %s data %r" % (method, d.__dict__.get("num_buckets"), kind, ordered if n < 6 else n)
    kept = x.copy()
    if rng.random() < 0.3:
        # an earlier fit on other data leaves nothing behind
        ctx.call(d.fit, np.array([1e6, 2e6, 5e6]))
    if rng.random() < 0.3:
        got = ctx.call(d.fit_transform, x)
        ctx.check(np.array_equal(np.asarray(got), np.asarray(d.transform(x))), what + ": fit_transform is not fit, then transform")
    else:
        ctx.check(ctx.call(d.fit, x) is d, what + ": fit does not return the discretiser")
    ctx.count("fits")
    ctx.check((x == kept).all(), what + ": fit modified its argument")
    span = max(abs(ordered[0]), abs(ordered[-1]), ordered[-1] - ordered[0])
    tolerance = 1e-9 * span
    have = [float(s) for s in d.numeric_split_points]
    ctx.check(len(have) == len(want) and all(abs(a - b) <= tolerance for a, b in zip(have, want)), lambda: "%s: split points %r, should be %r" % (what, have, want))
    buckets = probe(ctx, rng, d, want, x.flatten(), what, tolerance)
    if method == "quantile" and kind in ("normal", "skewed", "huge", "tiny") and n >= k:
        ctx.count("equal_shares")
        counts = np.bincount(np.asarray(d.transform(x)).flatten(), minlength=k)
        ctx.check(counts.max() - counts.min() <= 2 and counts.sum() == n, lambda: "%s: buckets hold %r values" % (what, counts))
    ctx.case((what, float(x.flat[0])), len(set(buckets.flatten())) > 1, {"what": what[:200], "splits": want})


def fixed(ctx, rng, i):
    import numpy as np

    from causalnex.discretiser import Discretiser

    pool = rng.choice([[10, 21], [0.1, 0.2, 0.30000000000000004], [-5.5, 0, 0, 3], [], [1e-300, 1e300], [7]])
    splits = list(pool)
    d = ctx.call(Discretiser, method="fixed", numeric_split_points=splits)
    what = "fixed %r" % (pool,)
    buckets = probe(ctx, rng, d, pool, [rng.uniform(-30, 30) for _ in range(8)] + [0, 10, 20, 21], what, 0.0)
    ints = np.array([rng.randint(-30, 30) for _ in range(10)])
    got = ctx.call(d.transform, ints)
    for x, b in zip(ints, got):
        ctx.count("values_binned")
        ctx.check(b == sum(s <= x for s in pool), lambda: "%s: %r goes into bucket %r" % (what, x, b))
    import pandas as pd

    series = ctx.call(d.transform, pd.Series(ints))
    ctx.check(list(series) == list(got), what + ": a Series is binned in another way than an array")
    ctx.check(splits == pool, what + ": the split points given were modified")
    ctx.raises(RuntimeError, d.fit, np.array([1.0, 2.0]))
    ctx.count("rejections")
    probe(ctx, rng, d, pool, [1.0], what + " after a rejected fit", 0.0)
    ctx.case((tuple(pool), i), len(set(buckets.flatten())) > 1, {"what": what})


def rejected(ctx, rng, i):
    from causalnex.discretiser import Discretiser

    cases = [
        {"method": "other"}, {"method": "Uniform", "num_buckets": 2}, {"method": None, "num_buckets": 2}, {"method": "uniform"}, {"method": "quantile"}, {}, {"method": "outlier"},
        {"method": "outlier", "outlier_percentile": 0.5}, {"method": "outlier", "outlier_percentile": -0.01}, {"method": "outlier", "outlier_percentile": 1},
        {"method": "outlier", "outlier_percentile": float("nan")}, {"method": "fixed"}, {"method": "fixed", "numeric_split_points": [2, 1]},
        {"method": "fixed", "numeric_split_points": [1, 3, 2]}, {"method": "percentiles"}, {"method": "percentiles", "percentile_split_points": [0.5, 1.1]},
        {"method": "percentiles", "percentile_split_points": [-0.1, 0.5]}, {"method": "percentiles", "percentile_split_points": [0.6, 0.5]},
        {"method": "percentiles", "percentile_split_points": [0.1, 0.9, 0.5, 1]},
        {"method": "percentiles", "numeric_split_points": [1, 2]}, {"method": "uniform", "outlier_percentile": 0.1}, {"method": "fixed", "num_buckets": 3}]
    kw = cases[i % len(cases)]
    ctx.raises(ValueError, Discretiser, **kw)
    ctx.count("rejections")
    ctx.case(repr(kw), True, {"rejected": repr(kw)})


FAMILIES = {"fitted": (fitted, 900, 4000), "fixed": (fixed, 60, 300), "rejected": (rejected, 22, 44)}

"""C26: every row of a transformed time series is one window of consecutive times of one realisation, and no window is lost."""
from rv import libshim

PROPERTY = "C26"
INTERPRETER = "vt"
RULE = ("1..4 realisations of 1..30 rows with gaps in the time index, negative and large times, pieces shorter than the window, p = 1..4, columns in another order after fit, "
        "frame and array output. The oracle looks each window up by its time. Distinct by times and p; non-trivial with a gap or several realisations")
NEED = {"windows_compared": 10000, "transforms": 800, "gaps": 500, "short_pieces": 200, "reordered": 100, "rejections": 250}
ASSUMPTIONS = ["pandas and scikit-learn are the stand-ins in rv/shims", "time indices without duplicates"]
CAP = (150, 700)


def setup(ctx):
    libshim.install()


def build(rng, names, values, times, integer):
    import pandas as pd

    data = pd.DataFrame({k: [row[k] for row in values] for k in range(len(names))}, index=times)
    data.columns = names
    return data


def realisation(rng, d, integer, serial):
    n = rng.choice([1, 2, 3, 5, 8, 15, 30])
    t, times = rng.choice([0, 1, -7, 10 ** 9]), []
    for _ in range(n):
        times.append(t)
        t += rng.choice([1, 1, 1, 1, 1, 1, 1, 1, 2, 3, 100])
    values = []
    for _ in range(n):
        serial[0] += 1
        values.append([serial[0] * 10 + k if integer else serial[0] * 10 + k + 0.25 for k in range(d)])
    return times, values


def windows(ctx, rng, i):
    import numpy as np
    import pandas as pd

    from causalnex.structure.transformers import DynamicDataTransformer

    d, p, integer, serial = rng.randint(1, 4), rng.randint(1, 4), rng.random() < 0.3, [0]
    names = rng.choice([["b", "a", "d", "c"], [3, 1, 2, 0], ["x_lag1", "x", "y_lag0", "y"]])[:d]
    parts = [realisation(rng, d, integer, serial) for _ in range(rng.choice([1, 1, 2, 3, 4]))]
    frames = [build(rng, names, v, t, integer) for t, v in parts]
    rows = []
    for times, values in parts:
        at = dict(zip(times, values))
        pieces = [times[0]] + [b for a, b in zip(times, times[1:]) if b != a + 1]
        ctx.count("gaps", len(pieces) - 1)
        for start in pieces:
            length = 0
            while start + length in at:
                length += 1
            ctx.count("short_pieces", length <= p)
        for t in times:
            if all(t - k in at for k in range(p + 1)):
                rows.append([at[t - k] for k in range(p + 1)])
    return_df = rng.random() < 0.5
    transformer = DynamicDataTransformer(p=p)
    fit_on = frames
    given = frames
    if rng.random() < 0.3:
        shuffled = rng.sample(names, d)
        given = [f[shuffled] for f in frames]
        ctx.count("reordered")
    kept = [f.copy() for f in given]
    argument = given[0] if len(given) == 1 and rng.random() < 0.5 else given
    how = rng.choice(["fit then transform", "refit"] + (["fit_transform"] if given is frames else []))
    if how == "fit_transform":
        got = ctx.call(transformer.fit_transform, argument, return_df=return_df)
    else:
        if how == "refit":
            ctx.call(transformer.fit, frames, return_df=not return_df)
            ctx.call(transformer.transform, frames)
        self = ctx.call(transformer.fit, fit_on if len(fit_on) > 1 or rng.random() < 0.5 else fit_on[0], return_df=return_df)
        ctx.check(self is transformer, "fit does not return the transformer")
        got = ctx.call(transformer.transform, argument)
    ctx.count("transforms")
    what = "p=%d, times %r, columns %r, %s" % (p, [t for t, _ in parts], names, how)
    flat = [[x for block in row for x in block] for row in rows]
    if return_df:
        ctx.check(type(got) is pd.DataFrame, lambda: "%s: a %s instead of a frame" % (what, type(got)))
        want_columns = ["%s_lag%d" % (c, k) for k in range(p + 1) for c in names]
        ctx.check(list(got.columns) == want_columns, lambda: "%s: columns %r, should be %r" % (what, list(got.columns), want_columns))
        have = got.values
    else:
        x, lags = got
        ctx.check(x.shape == (len(rows), d) and lags.shape == (len(rows), d * p), lambda: "%s: shapes %r and %r for %d windows" % (what, x.shape, lags.shape, len(rows)))
        have = np.hstack([x, lags])
    ctx.check(have.shape == (len(rows), d * (p + 1)), lambda: "%s: shape %r for %d windows" % (what, have.shape, len(rows)))
    for k, row in enumerate(flat):
        ctx.count("windows_compared")
        ctx.check([float(z) for z in have[k]] == [float(z) for z in row], lambda: "%s: row %d is %r, should be %r" % (what, k, list(have[k]), row))
    ctx.check(all(list(a.columns) == list(b.columns) and list(a.index) == list(b.index) and (a.values == b.values).all() for a, b in zip(given, kept)),
              what + ": an argument was modified")
    ctx.case((tuple(tuple(t) for t, _ in parts), p), len(parts) > 1 or bool(rows) and any(b != a + 1 for t, _ in parts for a, b in zip(t, t[1:])),
             {"what": what[:300], "windows": len(rows)})


def rejected(ctx, rng, i):
    import pandas as pd
    from sklearn.exceptions import NotFittedError

    from causalnex.structure.transformers import DynamicDataTransformer

    d, p = rng.randint(1, 3), rng.randint(1, 3)
    names = ["a", "b", "c"][:d]
    good = [build(rng, names, [[k + j + 0.5 for j in range(d)] for k in range(6)], list(range(6)), False) for _ in range(3)]
    kind = ["not fitted", "empty list", "not a frame", "tuple", "text", "other columns", "column order", "other types", "decreasing", "float index", "text index", "missing column"][i % 12]
    transformer = DynamicDataTransformer(p=p)
    if kind == "not fitted":
        ctx.raises(NotFittedError, transformer.transform, good)
        ctx.count("rejections")
        return
    error, bad, position = ValueError, good, rng.randrange(3)
    if kind == "empty list":
        bad = []
    elif kind == "not a frame":
        bad, error = list(good), TypeError
        bad[position] = rng.choice([good[0].values, None, {"a": [1]}])
    elif kind == "tuple":
        bad, error = tuple(good), TypeError
    elif kind == "text":
        bad = list(good)
        bad[position] = build(rng, names, [["x" if j == 0 else 1.5 for j in range(d)] for k in range(6)], list(range(6)), False)
    elif kind == "other columns":
        bad = good[:2] + [build(rng, names[:-1] + ["zz"], [[k + j + 0.5 for j in range(d)] for k in range(6)], list(range(6)), False)]
    elif kind == "column order" and d > 1:
        bad = good[:2] + [good[2][names[::-1]]]
    elif kind == "other types":
        bad = good[:2] + [build(rng, names, [[k + j for j in range(d)] for k in range(6)], list(range(6)), False)]
    elif kind == "decreasing":
        times = rng.choice([[5, 4, 3, 2, 1, 0], [0, 1, 2, 3, 5, 4], [1, 0, 2, 3, 4, 5]])
        bad = list(good)
        bad[position] = build(rng, names, [[k + j + 0.5 for j in range(d)] for k in range(6)], times, False)
    elif kind in ("float index", "text index"):
        times = [float(k) for k in range(6)] if kind == "float index" else list("abcdef")
        bad, error = list(good), TypeError
        bad[position] = build(rng, names, [[k + j + 0.5 for j in range(d)] for k in range(6)], times, False)
    elif kind == "missing column":
        ctx.call(transformer.fit, good)
        rows = rng.choice([6, 6, 1, 2])
        other = build(rng, ["a", "q", "r"][:d] if d > 1 else ["q"], [[k + j + 0.5 for j in range(d)] for k in range(rows)], list(range(rows)), False)
        ctx.raises(ValueError, transformer.transform, [other])
        ctx.count("rejections")
        return
    if bad is good:
        return
    stage = rng.choice(["fit", "transform"])
    if stage == "transform":
        ctx.call(transformer.fit, good)
        ctx.raises(error, transformer.transform, bad)
    else:
        ctx.raises(error, transformer.fit, bad)
        ctx.raises(NotFittedError, transformer.transform, good)
    ctx.count("rejections")
    ctx.case((kind, d, p, stage), True, {"kind": kind})


FAMILIES = {"windows": (windows, 900, 4000), "rejected": (rejected, 48, 240)}

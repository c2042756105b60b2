"""C25: learning from data frames is learning from the arrays in them, under the columns' own names."""
from rv import libshim
from rv.checks import c21, c23, learncommon as L

PROPERTY = "C25"
INTERPRETER = "vt"
RULE = ("frames with string, integer (a permutation of 0..d-1 among them), tuple, float and mixed column labels, integer and float columns, any row labels; plain, lasso and dynamic "
        "learners with tabu names. Compared with the array learner on the same numbers. Distinct by labels and constraints; non-trivial when an edge was learned")
NEED = {"edges_compared": 1200, "static_frames": 150, "dynamic_frames": 100, "rejections": 60, "permuted_integer_labels": 30, "cut_series": 30}
ASSUMPTIONS = ["pandas is the stand-in rv/shims/pandas", "numpy 2.5 and scipy 1.18 stand for the pinned versions"]
CAP = (150, 700)


def setup(ctx):
    libshim.install()


def labels(rng, d):
    kind = rng.choice(["str", "permuted", "permuted", "int", "tuple", "float", "mixed", "awkward"])
    names = {
        "str": ["v%d" % k for k in range(d)], "permuted": list(range(d)), "int": [10 * k + 3 for k in range(d)],
        "tuple": [("v", k) for k in range(d)], "float": [k + 0.5 for k in range(d)], "mixed": [0, "0", "x", 2.5, ("a",), -1][:d],
        "awkward": ["a b", "", "a", "weight", "origin", "A", "0"][:d]}[kind]
    names = list(names)
    rng.shuffle(names)
    return names, kind


def frame(rng, x, names, index=None):
    import numpy as np
    import pandas as pd

    as_int = rng.random() < 0.15
    columns = {}
    for k, name in enumerate(names):
        column = np.array(x[:, k])
        columns[k] = np.round(column * 3).astype(int) if as_int and rng.random() < 0.7 else column
    data = pd.DataFrame({k: columns[k] for k in range(len(names))}, index=index)
    data.columns = names
    values = np.column_stack([columns[k] for k in range(len(names))])
    return data, values


def compare(ctx, got, want, nodes, what, ordered=True):
    from causalnex.structure import StructureModel

    ctx.check(type(got) is StructureModel, lambda: "%s: result is a %s" % (what, type(got)))
    have_nodes = list(got.nodes)
    ctx.check(len(have_nodes) == len(nodes) and set(have_nodes) == set(nodes), lambda: "%s: nodes are %r, the columns give %r" % (what, have_nodes, nodes))
    ctx.check(all(type(a) is type(b) for a, b in zip(sorted(have_nodes, key=repr), sorted(nodes, key=repr))), lambda: "%s: nodes are %r, the columns give %r" % (what, have_nodes, nodes))
    if ordered:
        ctx.check(have_nodes == list(nodes), lambda: "%s: nodes come in the order %r, the columns in %r" % (what, have_nodes, nodes))
    edges = {(u, v): d for u, v, d in got.edges(data=True)}
    ctx.check(set(edges) == set(want), lambda: "%s: edges %r, the array learner gives %r" % (what, sorted(edges, key=repr), sorted(want, key=repr)))
    for e, d in edges.items():
        ctx.count("edges_compared")
        ctx.check(abs(float(d["weight"]) - want[e]) <= 1e-9 * max(1.0, abs(want[e])), lambda: "%s: edge %r has weight %r, the array learner gives %r" % (what, e, d["weight"], want[e]))
        ctx.check(d.get("origin") == "learned", lambda: "%s: edge %r has origin %r" % (what, e, d.get("origin")))


def named(rng, kw, names):
    out = {}
    for k, v in kw.items():
        v = [e for e in v if not isinstance(e, tuple) or max(int(z) for z in e[-2:]) < len(names)]
        kw[k] = v
        if k == "tabu_edges":
            out[k] = [tuple(map(int, e[:-2])) + (names[e[-2]], names[e[-1]]) for e in v]
        else:
            out[k] = [names[n] for n in v]
    return out


def same(a, b):
    return list(a.columns) == list(b.columns) and list(a.index) == list(b.index) and (a.values == b.values).all() and list(a.dtypes) == list(b.dtypes)


def static(ctx, rng, i):
    from causalnex.structure import notears

    d = rng.randint(1, 6)
    names, kind = labels(rng, d)
    d = len(names)
    x, _, _ = L.sem_data(rng, rng.choice([10, 40, 100]), d)
    index = None if rng.random() < 0.5 else rng.sample(range(1000), len(x))
    data, values = frame(rng, x, names, index)
    kw = c21.constraints(rng, d)
    kw = {k: list(v) for k, v in kw.items()}
    by_name = named(rng, kw, names)
    frozen = {k: list(v) for k, v in by_name.items()}
    options = {"w_threshold": rng.choice([0.0, 0.05, 0.3]), "h_tol": rng.choice([1e-8, 1e-8, 1e-4]), "max_iter": rng.choice([100, 100, 2])}
    if rng.random() < 0.5:
        arrays, frames, extra = notears.from_numpy, notears.from_pandas, ()
    else:
        arrays, frames, extra = notears.from_numpy_lasso, notears.from_pandas_lasso, (rng.choice([0.01, 0.1, 0.5]),)
    what = "%s on columns %r, %r, %r" % (frames.__name__, names, by_name, options)
    want, _ = L.learn(ctx, arrays, values, *extra, **dict(kw, **options))
    kept = data.copy()
    got, _ = L.learn(ctx, frames, data, *extra, **dict(by_name, **options))
    ctx.count("static_frames")
    ctx.count("permuted_integer_labels", kind == "permuted" and names != sorted(names))
    want = {(names[u], names[v]): w for (u, v), w in L.edge_weights(want).items()}
    compare(ctx, got, want, names, what)
    ctx.check(same(data, kept) and {k: list(v) for k, v in by_name.items()} == frozen, what + ": an argument was modified")
    ctx.case((what, float(x[0, 0])), bool(want), {"what": what[:250], "edges": len(want)})


def dynamic(ctx, rng, i):
    import numpy as np

    from causalnex.structure.dynotears import from_numpy_dynamic, from_pandas_dynamic

    d, p = rng.randint(1, 4), rng.choice([1, 1, 2, 3])
    names, kind = labels(rng, d)
    d = len(names)
    frames, xs, lags = [], [], []
    integer = rng.random() < 0.1
    for _ in range(rng.choice([1, 1, 2, 3])):
        x, _, _ = c23.series(rng, rng.choice([5, 30, 60]), d, p)
        x = np.asarray(x, dtype=float)
        if integer:
            x = np.round(x * 3).astype(int)
        times, t = [], rng.choice([0, 1, -5, 1000])
        for _ in range(len(x)):
            times.append(t)
            t += rng.choice([1] * 12 + [2, 5])
        ctx.count("cut_series", times[-1] - times[0] != len(x) - 1)
        import pandas as pd

        data = pd.DataFrame({k: x[:, k] for k in range(d)}, index=times)
        data.columns = names
        frames.append(data)
        for k in range(p, len(x)):
            if times[k] - times[k - p] == p:
                xs.append(x[k])
                lags.append(np.concatenate([x[k - m] for m in range(1, p + 1)]))
    if not xs:
        return
    kw = {k: list(v) for k, v in c23.constraints(rng, d, p).items()}
    by_name = named(rng, kw, names)
    options = {"lambda_w": rng.choice([0.0, 0.05, 0.2]), "lambda_a": rng.choice([0.0, 0.05, 0.2]), "w_threshold": rng.choice([0.0, 0.05, 0.3])}
    what = "from_pandas_dynamic on columns %r, %d lags, %r, %r" % (names, p, by_name, options)
    want, _ = L.learn(ctx, from_numpy_dynamic, np.array(xs), np.array(lags), **dict(kw, **options))
    kept = [f.copy() for f in frames]
    argument = frames[0] if len(frames) == 1 and rng.random() < 0.5 else frames
    got, _ = L.learn(ctx, from_pandas_dynamic, argument, p, **dict(by_name, **options))
    ctx.count("dynamic_frames")
    label = lambda lag, v: "%s_lag%d" % (names[v], lag)
    want = {(label(lag, u), label(0, v)): w for (lag, u, v), w in c23.read(ctx, want, d, p, what).items()}
    if len({str(n) for n in names}) < d:
        return
    compare(ctx, got, want, [label(lag, v) for lag in range(p + 1) for v in range(d)], what, ordered=False)
    ctx.check(all(same(a, b) for a, b in zip(frames, kept)), what + ": an argument was modified")
    ctx.case((what, len(frames), float(xs[0][0])), bool(want), {"what": what[:250], "edges": len(want)})


def rejected(ctx, rng, i):
    import numpy as np
    import pandas as pd

    from causalnex.structure import notears
    from causalnex.structure.dynotears import from_pandas_dynamic

    n, d = rng.randint(2, 6), rng.randint(1, 3)
    columns = {"c%d" % k: np.random.default_rng(rng.getrandbits(40)).normal(size=n) for k in range(d)}
    kind = rng.choice(["text", "mixed objects", "nan", "inf", "no rows"])
    if kind == "text":
        columns["bad"] = [rng.choice("abc") for _ in range(n)]
    elif kind == "mixed objects":
        columns["bad"] = [1, "x"] + [2] * (n - 2)
    elif kind in ("nan", "inf"):
        columns["c0"][rng.randrange(n)] = float(kind)
    data = pd.DataFrame(columns)
    if kind == "no rows":
        data = data.iloc[:0]
    fn = rng.choice([lambda f: notears.from_pandas(f), lambda f: notears.from_pandas_lasso(f, 0.1)])
    if kind in ("text", "mixed objects", "no rows") and rng.random() < 0.4:
        fn = lambda f: from_pandas_dynamic(f, 1)
    ctx.raises(ValueError, fn, data)
    ctx.count("rejections")
    ctx.case((kind, n, d), True, {"kind": kind})


FAMILIES = {"static": (static, 50, 700), "dynamic": (dynamic, 50, 700), "rejected": (rejected, 12, 80)}

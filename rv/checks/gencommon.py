"""Random data generation problems and the oracles for generated data (C36, C39)."""
import math
import warnings

from rv.checks.c35 import gaussian_p, ks_p, likely

EULER = 0.5772156649015329
NOISE = {"continuous": ["gaussian", "normal", "student-t", "exponential", "gumbel"], "binary": ["probit", "normal", "logit"], "categorical": ["probit", "normal", "logit", "gumbel"]}
NAMES = [list("abcdefgh"), [0, 1, 2, 3, 4, 5, 6, 7], [5, 3, 8, 1, 2, 9, 0, -4], ["x1", "x10", "x2", "X", "é", "a b", "_", "z"], ["n", 2, "m", 7, "2x", 3, "k", "0"]]


def a_seed(rng):
    return rng.choice([0, 0, 1, 2 ** 31 - 2]) if rng.random() < 0.15 else rng.randrange(2 ** 31 - 1)


def normal_cdf(x):
    return 0.5 * math.erfc(-x / math.sqrt(2))


def cdf(name):
    from scipy import stats

    return {"gaussian": normal_cdf, "normal": normal_cdf, "probit": normal_cdf, "student-t": lambda x: float(stats.t.cdf(x, 5)),
            "exponential": lambda x: 1 - math.exp(-x) if x > 0 else 0.0, "gumbel": lambda x: math.exp(-math.exp(-x)),
            "logit": lambda x: 1 / (1 + math.exp(-x)) if x > -700 else 0.0}[name]


class Problem:
    pass


def random_problem(rng, types=None, n=None, weighted=None, density=0.5):
    import networkx as nx

    from causalnex.structure import StructureModel

    p = Problem()
    n = rng.choice([1, 2, 2, 3, 4, 5, 6, 8]) if n is None else n
    p.names = rng.sample(rng.choice(NAMES), n)
    order = rng.sample(p.names, n)
    p.graph = StructureModel() if rng.random() < 0.6 else nx.DiGraph()
    p.graph.add_nodes_from(p.names)
    weighted = rng.choice(["all", "none", "some"]) if weighted is None else weighted
    p.weights = {}
    pairs = [(order[a], order[b]) for a in range(n) for b in range(a + 1, n) if rng.random() < density]
    rng.shuffle(pairs)
    for u, v in pairs:
        w = rng.choice([-1, 1]) * rng.choice([0.2, 0.5, 1, 1.3, rng.uniform(0.1, 1.5)])
        if weighted == "all" or weighted == "some" and rng.random() < 0.5:
            p.weights[u, v] = w
            p.graph.add_edge(u, v, weight=w)
        else:
            p.weights[u, v] = None
            p.graph.add_edge(u, v)
    pool = ["continuous", "continuous", "binary", "categorical:2", "categorical:3", "categorical:5", "count"] if types is None else types
    p.types = {v: rng.choice(pool) for v in p.names}
    p.default = rng.choice(sorted(set(p.types.values())))
    p.schema = {v: t for v, t in p.types.items() if t != p.default or rng.random() < 0.5}
    if rng.random() < 0.2:
        p.schema["not a node"] = "binary"
    if len(set(p.types.values())) == 1 and rng.random() < 0.3:
        p.schema = None
    return p


def features(p, v):
    t = p.types[v]
    return ["%s_%d" % (v, k) for k in range(int(t.split(":")[1]))] if t.startswith("cat") else [v]


def frozen(p):
    return (list(p.graph.nodes(data=True)), sorted(map(repr, p.graph.edges(data=True))), dict(p.graph.graph), None if p.schema is None else list(p.schema.items()))


def generate(ctx, fn, *args, **kwargs):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return ctx.call(fn, *args, **kwargs)


def parents(p, v):
    return [u for u, w in p.weights if w == v]


def judge_shape(ctx, p, df, n, what, noisy):
    """Columns, rows and the values that each type may take."""
    import numpy as np

    want = [f for v in p.names for f in features(p, v)]
    ctx.check(sorted(map(repr, df.columns)) == sorted(map(repr, want)), lambda: "%s: columns %r, expected %r" % (what, list(df.columns), want))
    ctx.check(len(df) == n, lambda: "%s: %d rows" % (what, len(df)))
    ctx.count("frames")
    columns = {}
    for v in p.names:
        names = features(p, v)
        x = np.column_stack([np.asarray(df[f].values, dtype=float) for f in names]).reshape(n, len(names))
        columns[v] = x
        ctx.count("columns", len(names))
        ctx.check(np.isfinite(x).all(), lambda: "%s: %r (%s) has values that are not finite" % (what, v, p.types[v]))
        t = p.types[v]
        if t == "binary":
            ctx.check(((x == 0) | (x == 1)).all(), lambda: "%s: binary %r takes %r" % (what, v, sorted(set(x.ravel()))[:5]))
            if n >= 40 and (noisy or not parents(p, v)):
                share = x.mean()
                ctx.check(0.05 - 2 / n <= share <= 0.95 + 2 / n, lambda: "%s: %.3f of binary %r are 1" % (what, share, v))
        elif t == "count":
            ctx.check((x >= 0).all() and (x == np.floor(x)).all(), lambda: "%s: count %r takes %r" % (what, v, sorted(set(x.ravel()))[:5]))
        elif t.startswith("cat"):
            ctx.count("one_hot_rows", n)
            ctx.check(((x == 0) | (x == 1)).all() and (x.sum(axis=1) == 1).all(), lambda: "%s: %r is not one-hot: %r" % (what, v, x[x.sum(axis=1) != 1][:3]))
        elif n > 5 and (noisy or not parents(p, v)):
            ctx.check(len(set(x.ravel())) == n, lambda: "%s: continuous %r has tied values" % (what, v))
    return columns


def known_latent(p, v, columns):
    """The linear predictor of v without intercept, where every weight into it is known and unambiguous."""
    import numpy as np

    total = np.zeros(len(next(iter(columns.values()))))
    for u in parents(p, v):
        w = p.weights[u, v]
        if w is None or len(features(p, u)) > 1:
            return None
        total = total + w * columns[u][:, 0]
    return total


def judge_equations(ctx, p, columns, n, intercept, what, options):
    """At zero noise a variable is a fixed function of its parents."""
    import numpy as np

    for v in p.names:
        above = parents(p, v)
        if not above:
            continue
        x, t = columns[v], p.types[v]
        latent = known_latent(p, v, columns)
        scale = 1 + sum(np.abs(columns[u]).max() for u in above)
        if t == "continuous":
            if latent is not None:
                rest = x[:, 0] - latent
                c = rest[0] if intercept else 0.0
                ctx.count("equations")
                ctx.check(np.abs(rest - c).max() <= 1e-9 * scale, lambda: "%s: %r does not follow from its parents %r: off by %r" % (what, v, above, np.abs(rest - c).max()))
                if intercept and options.get("intercept", "uniform") == "uniform":
                    ctx.check(abs(c) <= math.sqrt(3) + 1e-9 * scale, lambda: "%s: intercept %r of %r" % (what, c, v))
            else:
                m = np.hstack([columns[u] for u in above] + ([np.ones((n, 1))] if intercept else []))
                if n > m.shape[1] + 2:
                    coef = np.linalg.lstsq(m, x[:, 0], rcond=None)[0]
                    ctx.count("equations")
                    ctx.check(np.abs(m @ coef - x[:, 0]).max() <= 1e-8 * scale, lambda: "%s: %r is no linear function of its parents %r" % (what, v, above))
                if len(above) == 1 and not intercept and len(features(p, above[0])) > 1 and p.weights[above[0], v] is not None:
                    # a given weight applies to one category
                    w = p.weights[above[0], v]
                    used = [k for k in range(columns[above[0]].shape[1]) if (x[columns[above[0]][:, k] == 1, 0] != 0).any()]
                    ctx.count("equations")
                    ctx.check(len(used) <= 1 and all(abs(z) < 1e-12 or abs(z - w) < 1e-9 for z in x[:, 0]),
                              lambda: "%s: weight %r from categorical %r gives %r to %r" % (what, w, above[0], sorted(set(x[:, 0]))[:5], v))
        elif t == "binary" and latent is not None:
            ones, zeros = latent[x[:, 0] == 1], latent[x[:, 0] == 0]
            ctx.count("thresholds_seen")
            if len(ones) and len(zeros):
                ctx.check(zeros.max() < ones.min() + 1e-9 * scale, lambda: "%s: binary %r is no threshold of its linear predictor" % (what, v))
            share = (latent > 1e-9 * scale).mean()
            if not intercept and 0.06 <= share <= 0.94 and (np.abs(latent) > 1e-9 * scale).all():
                ctx.check(((latent > 0) == (x[:, 0] == 1)).all(), lambda: "%s: binary %r is not the sign of its linear predictor" % (what, v))
        elif t.startswith("cat") and latent is not None and len(above) == 1 and not intercept:
            up = {int(k) for k in x.argmax(axis=1)[latent > 1e-9]}
            down = {int(k) for k in x.argmax(axis=1)[latent < -1e-9]}
            ctx.count("equations")
            ctx.check(len(up) <= 1 and (x.shape[1] == 1 or not up & down), lambda: "%s: categories %r of %r for positive and %r for negative predictors" % (what, up, v, down))


def draw_options(rng, p):
    kw = {}
    if rng.random() < 0.7:
        kw["distributions"] = {t: rng.choice(NOISE[t]) for t in NOISE if rng.random() < 0.5}
        for t in ("weight", "intercept"):
            if rng.random() < 0.5:
                kw["distributions"][t] = rng.choice(["uniform", "gaussian", "normal"])
        if rng.random() < 0.5:
            kw["distributions"]["count"] = rng.choice([0, 0.0, 0.05, 0.3, 1, 1.0])
    return kw


def repeatable(ctx, rng, fn, args, kwargs, df, continuous):
    import numpy as np

    np.random.seed(rng.getrandbits(31))
    again = generate(ctx, fn, *args, **kwargs)
    ctx.count("repeats")
    ctx.check(list(again.columns) == list(df.columns) and np.array_equal(again.values, df.values), "the same seed gives other data: %r" % (kwargs,))
    if continuous and len(df) > 3:
        other = generate(ctx, fn, *args, **dict(kwargs, seed=kwargs["seed"] + 1))
        ctx.check(not np.array_equal(other.values, df.values), "another seed gives the same data")


def linear(ctx, rng, i):
    from causalnex.structure.data_generators import sem_generator

    exact = i % 2 == 0
    p = random_problem(rng, types=["continuous", "continuous", "binary", "binary", "count", "categorical:3"], n=rng.choice([2, 3, 4, 5, 8]), weighted="all") if exact else random_problem(rng)
    for e, w in list(p.weights.items()):
        if w is not None and rng.random() < 0.06:           # an edge may have weight 0, and then has no effect
            p.weights[e] = p.graph.edges[e]["weight"] = rng.choice([0, 0.0])
    n = rng.choice([40, 100, 250] if exact else [1, 2, 7, 40, 100, 250])
    noise = rng.choice([0, 0.0, 0, 0.5, 1.0, 3.0] if not exact else [0])
    intercept = rng.random() < 0.5
    kw = dict(draw_options(rng, p), schema=p.schema, default_type=p.default, noise_std=noise, n_samples=n, intercept=intercept, seed=a_seed(rng))
    if p.default == "continuous" and rng.random() < 0.3:
        del kw["default_type"]
    what = "sem_generator(%r, %r)" % (sorted(map(repr, p.weights.items())), kw)
    before, options = frozen(p), dict(kw.get("distributions") or {})
    df = generate(ctx, sem_generator, p.graph, **kw)
    ctx.check(frozen(p) == before and dict(kw.get("distributions") or {}) == options, lambda: "%s: an argument was modified" % what)
    columns = judge_shape(ctx, p, df, n, what, noise > 0)
    if not noise:
        judge_equations(ctx, p, columns, n, intercept, what, options)
    if rng.random() < 0.5:
        repeatable(ctx, rng, sem_generator, (p.graph,), kw, df, any(t == "continuous" and not parents(p, v) for v, t in p.types.items()))
    ctx.case((sorted(map(repr, p.weights.items())), sorted(map(repr, p.types.items())), n, noise, intercept), bool(p.weights), {"what": what[:400], "columns": len(df.columns)})


def residuals(ctx, rng, i):
    """The noise of continuous variables, with roots always at scale 1."""
    import numpy as np

    from causalnex.structure.data_generators import sem_generator

    p = random_problem(rng, types=["continuous"], n=rng.choice([2, 3, 4]), weighted="all", density=0.7)
    name, s, intercept = NOISE["continuous"][i % 5], rng.choice([0.1, 0.5, 2.0, 7.0]), rng.random() < 0.3
    n = rng.choice([500, 1500])
    df = generate(ctx, sem_generator, p.graph, schema=p.schema, noise_std=s, n_samples=n, distributions={"continuous": name}, intercept=intercept, seed=a_seed(rng))
    columns = judge_shape(ctx, p, df, n, "noise %s" % name, True)
    f = cdf(name)
    left = []
    for v in p.names:
        rest = (columns[v][:, 0] - known_latent(p, v, columns)) / (s if parents(p, v) else 1.0)
        left.append(rest)
        what = "%s noise of %s %r (noise_std %r, intercept %r)" % (name, "non-root" if parents(p, v) else "root", v, s, intercept)
        if intercept:
            spread = {"gaussian": 1, "normal": 1, "student-t": math.sqrt(5 / 3), "exponential": 1, "gumbel": math.pi / math.sqrt(6)}[name]
            ctx.check(0.6 * spread < rest.std() < 1.7 * spread, lambda: "%s: standard deviation %.3f" % (what, rest.std()))
        else:
            likely(ctx, ks_p(list(rest), f), what)
    for a in range(len(left)):
        for b in range(a):
            r = float(np.corrcoef(left[a], left[b])[0, 1])
            ctx.check(abs(r) < 8 / math.sqrt(n), lambda: "noise of %r and %r is correlated: %.3f" % (p.names[a], p.names[b], r))
    ctx.case(("residuals", name, s, sorted(map(repr, p.weights.items()))), bool(p.weights), {"noise": name, "scale": s})


def latent_classes(ctx, rng, i):
    """Shares of binary and categorical values given the parent."""
    import numpy as np
    from scipy import stats

    from causalnex.structure.data_generators import sem_generator

    kind, n, s = ["binary", "categorical"][i % 2], 3000, rng.choice([0.5, 1.0, 2.0])
    name, w = NOISE[kind][i // 2 % len(NOISE[kind])], rng.choice([-1, 1]) * rng.choice([0.5, 1.0, 2.0])
    k = rng.choice([2, 3, 4])
    from causalnex.structure import StructureModel

    g = StructureModel()
    g.add_weighted_edges_from([("x", "y", w)])
    g.add_node("r")
    t = kind if kind == "binary" else "categorical:%d" % k
    df = generate(ctx, sem_generator, g, schema={"y": t, "r": t}, noise_std=s, n_samples=n, distributions={kind: name}, intercept=False, seed=a_seed(rng))
    x = np.asarray(df["x"].values, dtype=float)
    what = "%s %s, weight %r, noise_std %r" % (name, t, w, s)
    if kind == "binary":
        likely(ctx, gaussian_p(float(df["r"].values.sum()), n / 2, math.sqrt(n) / 2), what + ": share of ones at a root")
        f = cdf(name)
        share = np.array([f(z) for z in w * x / s])
        y = np.asarray(df["y"].values, dtype=float)
        for part, label in ((np.ones(n), "all rows"), (x, "slope"), (np.sign(x), "sides"), (np.abs(x) > 1, "tails")):
            variance = float((part ** 2 * share * (1 - share)).sum())
            if variance > 20:
                likely(ctx, gaussian_p(float((part * (y - share)).sum()), 0, math.sqrt(variance)), "%s: %s" % (what, label))
        # heavy imbalance: another threshold on the same scale, by which each value takes 5%
        up = generate(ctx, sem_generator, g, schema={"y": t, "r": t}, noise_std=0.01, n_samples=500, distributions={"continuous": "exponential", "binary": name},
                      intercept=False, seed=a_seed(rng))
        ones = float(up["y"].values.mean())
        ctx.check(0.045 <= ones <= 0.955, lambda: "%s: the predictor has one sign in nearly all rows, and %.3f of them are 1" % (what, ones))
        ux, uy = (np.asarray(up[v].values, dtype=float) * f for v, f in (("x", w), ("y", 1)))
        ctx.check(ux[uy == 1].min() > ux[uy == 0].max() - 0.4, lambda: "%s: with heavy imbalance and little noise, ones are not the rows of the largest latent values" % what)
    else:
        r = np.column_stack([df["r_%d" % c].values for c in range(k)]).sum(axis=0)
        likely(ctx, float(stats.chisquare(r.astype(float)).pvalue), what + ": shares of the categories at a root")
        y = np.column_stack([df["y_%d" % c].values for c in range(k)]).astype(float)
        if name in ("gumbel", "logit"):
            c = int(np.argmax(np.abs([np.corrcoef(x, y[:, j])[0, 1] for j in range(k)]))) if k > 2 else None
        if name == "gumbel":
            for c in ([c] if k > 2 else [0, 1]):
                share = 1 / (1 + (k - 1) * np.exp(-w * x / s))
                variance = float((share * (1 - share)).sum())
                p = 1.0 if variance < 20 else gaussian_p(float((np.sign(x) * (y[:, c] - share)).sum()), 0, math.sqrt(variance))
                if k > 2 or p > 1e-8:
                    break
            likely(ctx, p, what + ": share of the weighted category")
        rest = [j for j in range(k) if k > 2 and name in ("gumbel", "logit") and j != c]
        if rest:
            likely(ctx, float(stats.chisquare(y[:, rest].sum(axis=0)).pvalue), what + ": shares of the other categories")
    ctx.case(("classes", name, t, w, s), True, {"what": what})


def counts(ctx, rng, i):
    import numpy as np

    from causalnex.structure import StructureModel
    from causalnex.structure.data_generators import sem_generator

    z, w = rng.choice([0, 0.05, 0.3, 0.7]), rng.choice([0.5, 1.0, 3.0])
    side = rng.choice([1, -1])
    if (i + ctx.worker) % 3 == 0:
        side, w = 1, rng.choice([20.0, 60.0, 200.0])
    g = StructureModel()
    g.add_weighted_edges_from([("x", "y", side * w)])
    g.add_node("r")
    n = 2500
    kw = dict(schema={"y": "count", "r": "count"}, n_samples=n, intercept=False, seed=a_seed(rng))
    if z != 0.05 or rng.random() < 0.5:
        kw["distributions"] = {"count": z, "continuous": "exponential"}
    else:
        kw["distributions"] = {"continuous": "exponential"}
    df = generate(ctx, sem_generator, g, noise_std=rng.choice([0, 1.0, 5.0]), **kw)
    x, y, r = (np.asarray(df[v].values, dtype=float) for v in "xyr")
    rate = np.where(side * w * x < 0, np.exp(np.minimum(side * w * x, 0)), side * w * x)
    what = "count, weight %r, zero inflation %r" % (side * w, z)
    likely(ctx, gaussian_p(float(y.sum()), float((1 - z) * rate.sum()), math.sqrt(float(((1 - z) * rate * (1 + z * rate)).sum()))), what + ": mean")
    zero = z + (1 - z) * np.exp(-rate)
    rare = w > 3
    rare or likely(ctx, gaussian_p(float((y == 0).sum()), float(zero.sum()), math.sqrt(float((zero * (1 - zero)).sum()))), what + ": zeros")
    if rare:
        # every count by itself: 0 (by inflation) or near its rate, and their spread is that of the rates
        off = (y - rate)[y > 0] / np.sqrt(np.maximum(rate[y > 0], 1))
        ctx.check((np.abs(off) < 12).all(), lambda: what + ": a count %r at rate %r" % (float(y[y > 0][np.abs(off).argmax()]), float(rate[y > 0][np.abs(off).argmax()])))
        big = rate > 50
        got = float((y[big] == 0).sum())
        ctx.check(z > 0 or got == 0, what + ": zeros at high rates")
        if z:
            likely(ctx, gaussian_p(got, z * big.sum(), math.sqrt(z * (1 - z) * big.sum())), what + ": zeros at high rates")
        ctx.count("high_rates")
    rare or likely(ctx, gaussian_p(float(((y == 1) * 1.0).sum()), float(((1 - z) * rate * np.exp(-rate)).sum()),
                           math.sqrt(float(((1 - z) * rate * np.exp(-rate) * (1 - (1 - z) * rate * np.exp(-rate))).sum()))), what + ": ones")
    ctx.check(side < 0 or (y[x == 0] == 0).all(), what + ": a count with rate 0")
    # a root has a rate that is uniform on [0, 1]
    zero = z + (1 - z) * (1 - math.exp(-1))
    likely(ctx, gaussian_p(float((r == 0).sum()), n * zero, math.sqrt(n * zero * (1 - zero))), what + ": zeros at a root")
    ctx.case(("count", z, side * w), True, {"what": what})


def coefficients(ctx, rng, i):
    """Weights of unweighted edges and intercepts have the named distribution, with unit variance."""
    import numpy as np

    from causalnex.structure import StructureModel
    from causalnex.structure.data_generators import sem_generator

    name, other = rng.choice(["uniform", "gaussian", "normal", None]), rng.choice(["uniform", "gaussian", "normal", None])
    g = StructureModel()
    children = 150
    g.add_edges_from([("r", v) for v in range(children)])
    df = generate(ctx, sem_generator, g, noise_std=0, n_samples=20, distributions={k: v for k, v in (("weight", name), ("intercept", other)) if v}, seed=a_seed(rng))
    x = np.asarray(df["r"].values, dtype=float)
    m = np.column_stack([x, np.ones(len(x))])
    y = np.column_stack([df[v].values for v in range(children)]).astype(float)
    coef = np.linalg.lstsq(m, y, rcond=None)[0]
    ctx.check(np.abs(m @ coef - y).max() < 1e-8, "children of one root are not linear in it")
    ctx.count("equations", children)
    for row, dist, label in ((coef[0], name, "weights"), (coef[1], other, "intercepts")):
        f = normal_cdf if dist in ("gaussian", "normal") else lambda z: min(1.0, max(0.0, (z + math.sqrt(3)) / (2 * math.sqrt(3))))
        likely(ctx, ks_p(list(row), f), "%s with distribution %r" % (label, dist))
    ctx.case(("coefficients", name, other), True, {"weights": name, "intercepts": other})


def category_weights(ctx, rng, i):
    """Every category has a weight of its own; which category has the largest predictor is a matter of chance."""
    import numpy as np
    from scipy import stats
    from sklearn.gaussian_process.kernels import RBF

    from causalnex.structure import StructureModel
    from causalnex.structure.data_generators import nonlinear_sem_generator, sem_generator

    k, children = rng.choice([2, 3, 5]), 60
    name = rng.choice(["uniform", "gaussian", "normal", None])
    g = StructureModel()
    g.add_edges_from([("c", v) for v in range(children)])
    schema = {"c": "categorical:%d" % k}
    df = generate(ctx, sem_generator, g, schema=schema, default_type="continuous", noise_std=0, n_samples=60, intercept=False, distributions={"weight": name} if name else None, seed=a_seed(rng))
    hot = np.column_stack([np.asarray(df["c_%d" % c].values, dtype=float) for c in range(k)])
    f = normal_cdf if name in ("gaussian", "normal") else lambda z: min(1.0, max(0.0, (z + math.sqrt(3)) / (2 * math.sqrt(3))))
    rows = [int(np.flatnonzero(hot[:, c])[0]) for c in range(k) if hot[:, c].any()]
    w = np.array([[float(df[v].values[r]) for r in rows] for v in range(children)])
    ctx.count("equations", children)
    for v in range(children):
        ctx.check(len(set(w[v])) == len(rows), lambda: "categories of one parent have the same weight: %r" % (w[v],))
    likely(ctx, ks_p(list(w.ravel()), f), "weights of categories with distribution %r" % name)
    # and into the categories of a child
    many = StructureModel()
    many.add_edges_from([("x", v) for v in range(children)])
    seen = [0] * k
    both = 0
    gp = rng.random() < 0.5
    if gp:
        df = generate(ctx, nonlinear_sem_generator, many, kernel=RBF(1), schema={"x": "continuous"}, default_type="categorical:%d" % k, noise_std=0, n_samples=40, seed=a_seed(rng))
    else:
        df = generate(ctx, sem_generator, many, schema={"x": "continuous"}, default_type="categorical:%d" % k, noise_std=0, n_samples=40, intercept=False, distributions={"weight": name} if name else None, seed=a_seed(rng))
    for v in range(children):
        x = np.column_stack([np.asarray(df["%d_%d" % (v, c)].values, dtype=float) for c in range(k)])
        seen[int(x[0].argmax())] += 1
        both += len(set(x.argmax(axis=1))) > 1
    likely(ctx, float(stats.chisquare(seen).pvalue), "first rows of %d noiseless categorical children (%s): categories %r" % (children, "nonlinear" if gp else "linear", seen))
    ctx.check(both >= children // 4, lambda: "%d of %d noiseless categorical children (%s) do not depend on their parent" % (children - both, children, "nonlinear" if gp else "linear"))
    ctx.case(("category weights", k, name, gp), True, {"k": k})


def wrappers(ctx, rng, i):
    """The functions for one type generate what the general ones do."""
    import numpy as np
    from sklearn.gaussian_process.kernels import RBF, DotProduct

    from causalnex.structure import data_generators as G

    kind = ["continuous", "binary", "count", "categorical", "continuous array", "binary array"][i % 6]
    k = rng.choice([1, 2, 3, 6])
    t = {"count": "count", "categorical": "categorical:%d" % k}.get(kind, kind.split()[0])
    p = random_problem(rng, types=[t])
    n = rng.choice([5, 40, 120])
    kw = {"seed": a_seed(rng), "intercept": rng.random() < 0.5, "kernel": rng.choice([None, None, RBF(1), DotProduct(1)])}
    same = {"seed": kw["seed"], "schema": None, "default_type": t, "n_samples": n}
    base = t.split(":")[0]
    if kind == "count":
        z = rng.choice([None, 0.0, 0.4, 1])
        same["distributions"] = {"count": 0.1 if z is None else z}
        if z is not None:
            kw["zero_inflation_factor"] = z
    else:
        name = rng.choice([None] + NOISE[base])
        same["distributions"] = {base: {"continuous": "gaussian"}.get(base, "logit") if name is None else name}
        if name is not None:
            kw["distribution"] = name
        s = rng.choice([None, 0.0, 0.3, 2.0])
        same["noise_std"] = 1.0 if s is None else s
        if s is not None:
            kw["noise_scale"] = s
        if kind == "categorical" and (k != 3 or rng.random() < 0.5):
            kw["n_categories"] = k
    fn = {"continuous": G.generate_continuous_dataframe, "binary": G.generate_binary_dataframe, "count": G.generate_count_dataframe,
          "categorical": G.generate_categorical_dataframe, "continuous array": G.generate_continuous_data, "binary array": G.generate_binary_data}[kind]
    what = "%s(%r, %r, %r)" % (fn.__name__, sorted(map(repr, p.weights.items())), n, kw)
    before = frozen(p)
    got = generate(ctx, fn, p.graph, n, **kw)
    ctx.check(frozen(p) == before, lambda: "%s: the graph was modified" % what)
    if kw["kernel"] is None:
        want = generate(ctx, G.sem_generator, p.graph, intercept=kw["intercept"], **same)
    else:
        want = generate(ctx, G.nonlinear_sem_generator, p.graph, kernel=kw["kernel"], **same)
    ctx.count("wrappers")
    p.types = dict.fromkeys(p.names, t)
    if "array" in kind:
        ctx.check(isinstance(got, np.ndarray) and got.shape == (n, len(p.names)), lambda: "%s: result of shape %r" % (what, np.shape(got)))
        ctx.check(np.array_equal(got, np.column_stack([want[v].values for v in p.graph.nodes])), lambda: "%s: columns are not those of %r" % (what, list(p.graph.nodes)))
    else:
        judge_shape(ctx, p, got, n, what, same.get("noise_std", 1) > 0)
        ctx.check(np.array_equal(np.column_stack([got[f].values for f in want.columns]), want.values), lambda: "%s: not what the general generator gives" % what)
    ctx.case((kind, n, sorted(map(repr, kw.items())), sorted(map(repr, p.weights.items()))), bool(p.weights), {"what": what[:300]})


def nonlinear(ctx, rng, i):
    import numpy as np
    from sklearn.gaussian_process.kernels import RBF, DotProduct

    from causalnex.structure.data_generators import nonlinear_sem_generator

    p = random_problem(rng, n=rng.choice([1, 2, 3, 4, 5]))
    n = rng.choice([1, 2, 30, 60, 100, 101, 150, 230])
    noise = rng.choice([0, 0, 0.5, 1.0])
    shape = rng.choice(["rbf", "dot", "rbf2", "default"])
    kernel = {"rbf": RBF(1.0), "dot": DotProduct(0), "rbf2": RBF(3.0), "default": None}[shape]
    kw = dict(draw_options(rng, p), schema=p.schema, default_type=p.default, noise_std=noise, n_samples=n, seed=a_seed(rng))
    if kernel is not None:
        kw["kernel"] = kernel
    what = "nonlinear_sem_generator(%r, %s, %r)" % (sorted(map(repr, p.weights)), shape, kw)
    before, options = frozen(p), dict(kw.get("distributions") or {})
    df = generate(ctx, nonlinear_sem_generator, p.graph, **kw)
    ctx.check(frozen(p) == before and dict(kw.get("distributions") or {}) == options, lambda: "%s: an argument was modified" % what)
    columns = judge_shape(ctx, p, df, n, what, noise > 0 and n > 1)
    for v in p.names:
        above = parents(p, v)
        if noise or not above or p.types[v] != "continuous" or n < 20:
            continue
        m, y = np.hstack([columns[u] for u in above]), columns[v][:, 0]
        spread = y.std()
        varied = [columns[u].std(axis=0).max() > 1e-3 * (1 + np.abs(columns[u]).max()) for u in above]
        if all(varied) and n >= 30:
            ctx.check(abs(spread - 1) < 1e-6, lambda: "%s: %r has standard deviation %r" % (what, v, spread))
        if shape == "dot" and any(varied) and n > 3 * m.shape[1] and n <= 100:
            coef = np.linalg.lstsq(m, y, rcond=None)[0]
            ctx.count("equations")
            ctx.check(np.median(np.abs(m @ coef - y)) <= 0.2, lambda: "%s: %r is no linear function of its parents %r: %r" % (what, v, above, np.median(np.abs(m @ coef - y))))
        # (batches of 100 are drawn with a little noise of their own, which shows where the function hardly varies)
        if shape != "dot" and (n <= 100 or shape != "rbf2" and any(p.types[u] == "continuous" for u in above)):
            # close parents give close values
            gap = np.sqrt(((m[:, None, :] - m[None, :, :]) ** 2).sum(axis=2)) + 1e9 * np.eye(n)
            near = gap.argmin(axis=1)
            close = gap[np.arange(n), near] < 0.02
            if close.sum() >= 5 and all(varied):
                off = np.abs(y - y[near])[close]
                ctx.count("equations")
                ctx.check(np.median(off) < (0.1 if n <= 100 else 0.4), lambda: "%s: %r is no smooth function of its parents %r: median gap %.3f" % (what, v, above, np.median(off)))
    if rng.random() < 0.4:
        repeatable(ctx, rng, nonlinear_sem_generator, (p.graph,), kw, df, any(t == "continuous" and not parents(p, v) for v, t in p.types.items()))
    ctx.case((sorted(map(repr, p.weights)), sorted(map(repr, p.types.items())), n, noise, shape), bool(p.weights), {"what": what[:400]})


def batches(ctx, rng, i):
    """One continuous parent, no noise, several batches: the function does not jump anywhere."""
    import numpy as np
    from sklearn.gaussian_process.kernels import RBF

    from causalnex.structure import StructureModel
    from causalnex.structure.data_generators import nonlinear_sem_generator

    g = StructureModel()
    g.add_edge("x", "y")
    n = rng.choice([150, 230, 320, 450, 700])
    name = rng.choice(["gaussian", "normal", "gumbel", "exponential", "student-t"])
    kw = {"kernel": RBF(1.0)} if rng.random() < 0.7 else {}
    df = generate(ctx, nonlinear_sem_generator, g, noise_std=0, n_samples=n, distributions={"continuous": name}, seed=a_seed(rng), **kw)
    x, y = np.asarray(df["x"].values, dtype=float), np.asarray(df["y"].values, dtype=float)
    order = np.argsort(x, kind="stable")
    dx, dy = np.diff(x[order]), np.abs(np.diff(y[order]))
    near = dx < 0.05
    worst = float((dy - 8 * dx)[near].max()) if near.any() else 0.0
    ctx.count("batched_functions")
    ctx.check(worst < 0.5, lambda: "%d rows, %s parent: the function jumps by %.2f between neighbours (rank %d of the sorted parent)" % (n, name, worst, int(np.where(near, dy - 8 * dx, -1).argmax())))
    ctx.case(("batches", n, name, float(x[0])), True, {"rows": n, "largest jump": worst})


def rejected(ctx, rng, i):
    import networkx as nx

    from causalnex.structure import StructureModel
    from causalnex.structure import data_generators as G

    fn = rng.choice([G.sem_generator, G.nonlinear_sem_generator])
    n = rng.choice([3, 50])
    g = StructureModel([("a", "b"), ("b", "c")])
    case = ["cycle", "noise", "count", "type", "default", "cardinality", "weight", "intercept", "self loop", "wrapper"][i % 10]
    kw = {"n_samples": n, "seed": 1}
    kind = rng.choice(sorted(NOISE))
    wrong = {"continuous": ["logit", "probit", "uniform", "", None, "Gaussian"], "binary": ["gumbel", "exponential", "student-t", "uniform", ""],
             "categorical": ["exponential", "student-t", "uniform", None]}[kind]
    full = {"categorical": "categorical:3"}.get(kind, kind)
    if case == "cycle":
        g.add_edge(*rng.choice([("c", "a"), ("b", "a")]))
        if rng.random() < 0.5:
            g = nx.DiGraph(g)
        ctx.raises(ValueError, fn, g, **kw)
    elif case == "self loop":
        g.add_edge("b", "b")
        ctx.raises(ValueError, fn, g, **kw)
    elif case == "noise":
        ctx.raises(ValueError, fn, g, schema={rng.choice("abc"): full}, distributions={kind: rng.choice(wrong)}, **kw)
    elif case == "count":
        ctx.raises(ValueError, fn, g, schema={rng.choice("abc"): "count"}, distributions={"count": rng.choice([-0.1, 1.1, "0.1", None, 7, float("nan")])}, **kw)
    elif case == "type":
        ctx.raises(ValueError, fn, g, schema={rng.choice("abc"): rng.choice(["text", "", "cont"])}, **kw)
    elif case == "default":
        ctx.raises(ValueError, fn, g, default_type=rng.choice(["text", "unknown", "integer"]), **kw)
    elif case == "cardinality":
        ctx.raises(ValueError, fn, g, schema={rng.choice("abc"): rng.choice(["categorical", "categorical:", "categorical:0", "categorical:03", "categorical:x"])}, **kw)
    elif case in ("weight", "intercept"):
        ctx.raises(ValueError, G.sem_generator, g, distributions={case: rng.choice(["exponential", "", None, "Uniform"])}, **kw)
    else:
        if rng.random() < 0.3:
            ctx.raises(ValueError, G.generate_count_dataframe, g, n, zero_inflation_factor=rng.choice([-1, 2, 1.0001]))
        else:
            f = {"continuous": [G.generate_continuous_data, G.generate_continuous_dataframe], "binary": [G.generate_binary_data, G.generate_binary_dataframe],
                 "categorical": [G.generate_categorical_dataframe]}[kind]
            ctx.raises(ValueError, rng.choice(f), g, n, distribution=rng.choice(wrong))
    ctx.count("rejections")
    ctx.case(("rejected", case, kind, n), True, {"case": case})

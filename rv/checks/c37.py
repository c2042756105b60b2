"""C37: a simulated time series follows its dynamic network, and its lagged columns are its own past."""
import math
import warnings

from rv import libshim
from rv.checks.c35 import gaussian_p, ks_p, likely

PROPERTY = "C37"
INTERPRETER = "vt"
RULE = ("dynamic networks from generate_structure_dynamic and built by hand (all lags present, nodes added in any order, up to 12 variables and 11 lags), noise types and scales, drift, "
        "burn-in; every lagged column is compared with the column it lags, and every row with the structural equation it should satisfy. "
        "Distinct by network and options; non-trivial when there is a lagged edge")
NEED = {"frames": 500, "lag_comparisons": 5000, "equations": 40000, "distribution_tests": 40, "stationary": 60, "fallbacks": 20, "rejections": 40}
ASSUMPTIONS = ["numpy 2.5, scipy 1.18 and networkx 3.7 stand for the pinned versions; pandas is a stand-in"]
CAP = (160, 720)
NOISE = ["linear-gauss", "linear-exp", "linear-gumbel"]


def setup(ctx):
    libshim.install()


def seeded(rng):
    import numpy as np

    np.random.seed(rng.getrandbits(32))


def name(v, lag):
    return "%s_lag%d" % (v, lag)


def network(rng, n=None, p=None):
    """A stable dynamic network as {(u, lag, v): weight}, and the graph."""
    from causalnex.structure import StructureModel

    n = rng.choice([1, 2, 3, 4, 5, 12]) if n is None else n
    p = rng.choice([0, 1, 1, 2, 2, 3, 4, 11]) if p is None else p
    pool = [list(range(n)), rng.sample(range(100), n), rng.sample("abcdefghijklmnop", n), rng.sample(["x", "x1", "x10", "x2", "y_", "Y", "y", "z_z", "price", "Z", "é", "0a", "a0"], n)]
    variables = rng.choice(pool)
    order = rng.sample(variables, n)
    weights = {}
    for a in range(n):
        for b in range(a + 1, n):
            if rng.random() < 0.5:
                weights[order[a], 0, order[b]] = rng.choice([-1, 1]) * rng.uniform(0.1, 1.0)
    for lag in range(1, p + 1):
        for u in variables:
            for v in variables:
                if rng.random() < 0.4:
                    weights[u, lag, v] = rng.choice([-1, 1]) * rng.uniform(0.05, 0.4) / (n * p)
    g = StructureModel()
    nodes = [name(v, lag) for lag in range(p + 1) for v in variables]
    rng.shuffle(nodes)
    g.add_nodes_from(nodes)
    edges = [(name(u, lag), name(v, 0), w) for (u, lag, v), w in weights.items()]
    rng.shuffle(edges)
    g.add_weighted_edges_from(edges)
    return variables, p, weights, g


def read(ctx, df, variables, p, rows, what):
    import numpy as np

    names = [name(v, lag) for lag in range(p + 1) for v in variables]
    ctx.check(sorted(df.columns) == sorted(names), lambda: "%s: columns %r" % (what, list(df.columns)))
    ctx.check(len(df) == rows and list(df.index) == list(range(rows)), lambda: "%s: %d rows, labelled %r" % (what, len(df), list(df.index)[:5]))
    x = {(v, lag): np.asarray(df[name(v, lag)].values, dtype=float) for lag in range(p + 1) for v in variables}
    ctx.count("frames")
    for (v, lag), column in x.items():
        if lag and rows > lag:
            ctx.count("lag_comparisons")
            ctx.check(np.array_equal(column[lag:], x[v, 0][:-lag]), lambda: "%s: column %r is not %r of %d rows before: %r, %r" % (what, name(v, lag), name(v, 0), lag, column[:5], x[v, 0][:5]))
        if lag and rows <= lag or lag > 1:
            # the rows before the frame are only seen in the lagged columns
            ctx.check(np.array_equal(column[1:], x[v, lag - 1][:-1]), lambda: "%s: column %r is not %r of the row before" % (what, name(v, lag), name(v, lag - 1)))
    return x


def predictor(x, weights, v):
    import numpy as np

    total = np.zeros(len(next(iter(x.values()))))
    for (u, lag, w), weight in weights.items():
        if w == v:
            total = total + weight * x[u, lag]
    return total


def series(ctx, rng, i):
    import numpy as np

    from causalnex.structure.data_generators import generate_dataframe_dynamic

    seeded(rng)
    variables, p, weights, g = network(rng)
    rows = rng.choice([1, 2, 5, 30, 100])
    burn = rng.choice([0, 0, 1, 10, 50, 100])
    kw = {"n_samples": rows, "burn_in": burn, "sem_type": rng.choice(NOISE), "noise_scale": rng.choice([0.0, 0, 1.0, 0.3])}
    intra = sorted(name(v, 0) for v in variables)
    drift = None
    if rng.random() < 0.7:
        drift = {v: rng.choice([0.0, rng.uniform(-3, 3)]) for v in variables}
        kw["drift"] = np.array([drift[v] for v in sorted(variables, key=lambda v: name(v, 0))])
        kept = kw["drift"].copy()
    what = "generate_dataframe_dynamic(%r, %r)" % (sorted(map(repr, weights.items())), kw)
    before = (list(g.nodes(data=True)), sorted(map(repr, g.edges(data=True))))
    df = ctx.call(generate_dataframe_dynamic, g, **kw)
    ctx.check((list(g.nodes(data=True)), sorted(map(repr, g.edges(data=True)))) == before, lambda: "%s: the network was modified" % what)
    ctx.check(drift is None or np.array_equal(kw["drift"], kept), lambda: "%s: the drift was modified" % what)
    ctx.check(list(df.columns)[:len(variables)] == intra or set(map(str, df.columns)) == set(g.nodes), lambda: "%s: columns %r" % (what, list(df.columns)))
    x = read(ctx, df, variables, p, rows, what)
    by_column = {c: k for k, c in enumerate(c for c in df.columns if c.endswith("_lag0"))}
    for v in variables:
        rest = x[v, 0] - predictor(x, weights, v)
        if drift is not None:
            rest = rest - kept[by_column[name(v, 0)]]
        ctx.count("equations", rows)
        scale = 1 + max(np.abs(c).max() for c in x.values())
        if not kw["noise_scale"]:
            ctx.check(np.abs(rest).max() <= 1e-9 * scale, lambda: "%s: %r does not follow from the columns of its parents: off by %r" % (what, v, np.abs(rest).max()))
        elif kw["sem_type"] == "linear-exp":
            ctx.check(rest.min() >= -1e-9 * scale, lambda: "%s: exponential noise of %r is negative: %r" % (what, v, rest.min()))
    if not kw["noise_scale"] and drift is None:
        ctx.check(all(not c.any() for c in x.values()), lambda: "%s: without noise and drift, not all is 0" % what)
    if not burn:
        ctx.check(all(not c[:lag].any() for (v, lag), c in x.items()), lambda: "%s: without burn-in, the past is not 0" % what)
    ctx.case((sorted(map(repr, weights.items())), p, sorted(kw.items(), key=repr).__repr__()), any(lag for _, lag, _ in weights), {"what": what[:400]})


def noise(ctx, rng, i):
    import numpy as np

    from causalnex.structure.data_generators import generate_dataframe_dynamic

    seeded(rng)
    variables, p, weights, g = network(rng, n=rng.choice([2, 3]), p=rng.choice([1, 2]))
    kind, s, rows = NOISE[i % 3], rng.choice([0.2, 1.0, 4.0]), 900
    what = "%s, noise_scale %r, %r" % (kind, s, sorted(map(repr, weights.items())))
    kw = {} if s == 1.0 and rng.random() < 0.5 else {"noise_scale": s}
    df = ctx.call(generate_dataframe_dynamic, g, n_samples=rows, sem_type=kind, **kw)
    x = read(ctx, df, variables, p, rows, what)
    cdf = {"linear-gauss": lambda z: 0.5 * math.erfc(-z / math.sqrt(2)), "linear-exp": lambda z: 1 - math.exp(-z) if z > 0 else 0.0,
           "linear-gumbel": lambda z: math.exp(-math.exp(-z))}[kind]
    left = []
    for v in variables:
        rest = (x[v, 0] - predictor(x, weights, v)) / s
        left.append(rest)
        likely(ctx, ks_p(list(rest), cdf), "%s: noise of %r" % (what, v))
        r = float(np.corrcoef(rest[1:], rest[:-1])[0, 1])
        ctx.check(abs(r) < 8 / math.sqrt(rows), lambda: "%s: noise of %r is correlated with its past: %.3f" % (what, v, r))
    for a in range(len(left)):
        for b in range(a):
            r = float(np.corrcoef(left[a], left[b])[0, 1])
            ctx.check(abs(r) < 8 / math.sqrt(rows), lambda: "%s: noises are correlated: %.3f" % (what, r))
    ctx.case((what, rows), True, {"what": what[:300]})


def generated(ctx, df, g, intra, inter, n, p, rows, what):
    variables = list(range(n))
    ctx.check(sorted(g.nodes) == sorted(name(v, lag) for v in variables for lag in range(p + 1)), lambda: "%s: nodes %r" % (what, list(g.nodes)))
    ctx.check(sorted(intra) == sorted(name(v, 0) for v in variables), lambda: "%s: intra-slice nodes %r" % (what, intra))
    ctx.check(sorted(inter) == sorted(name(v, lag) for v in variables for lag in range(1, p + 1)), lambda: "%s: inter-slice nodes %r" % (what, inter))
    ctx.check(list(df.columns) == list(intra) + list(inter), lambda: "%s: columns %r, not %r then %r" % (what, list(df.columns), intra, inter))
    ctx.check(len(df) == rows and list(df.index) == list(range(rows)), lambda: "%s: %d rows, labelled %r" % (what, len(df), list(df.index)[:5]))
    weights = {}
    for u, v, w in g.edges(data="weight"):
        a, lag = u.split("_lag")
        weights[int(a), int(lag), int(v.split("_lag")[0])] = w
    return variables, weights


def stationary(ctx, rng, i):
    """A network that is always stable is found at once, whatever number of attempts is allowed."""
    import numpy as np

    from causalnex.structure.data_generators import gen_stationary_dyn_net_and_df

    seeded(rng)
    n, p, rows = rng.choice([2, 3, 5, 11]), rng.choice([1, 2, 3]), rng.choice([5, 60, 200, 600])
    bound = 0.9 / (n * p)
    kw = {"num_nodes": n, "n_samples": rows, "p": p, "degree_intra": rng.choice([1, 2]), "degree_inter": rng.choice([1, 2]), "w_min_intra": 0.05, "w_max_intra": 0.2,
          "w_min_inter": bound / 20, "w_max_inter": bound / 4, "w_decay": rng.choice([1.0, 1.5]), "graph_type_intra": rng.choice(["erdos-renyi", "barabasi-albert", "full"]),
          "graph_type_inter": rng.choice(["erdos-renyi", "full"]), "sem_type": rng.choice(NOISE), "noise_scale": rng.choice([1, 0.1, 2.0]), "max_data_gen_trials": rng.choice([1, 2, 5, 1000])}
    if kw["graph_type_intra"] == "barabasi-albert":
        kw["degree_intra"] = 2
    none = rng.choice(["intra", "inter"]) if rng.random() < 0.2 else None
    if none:                                             # a network without edges inside, or between, the slices is asked for
        kw["degree_" + none], kw["graph_type_" + none] = 0, "erdos-renyi"
    what = "gen_stationary_dyn_net_and_df(%r)" % kw
    with warnings.catch_warnings(record=True) as seen:
        warnings.simplefilter("always")
        g, df, intra, inter = ctx.call(gen_stationary_dyn_net_and_df, **kw)
    variables, weights = generated(ctx, df, g, intra, inter, n, p, rows, what)
    gave_up = [w for w in seen if "Could not simulate" in str(w.message)]
    ctx.check(not gave_up, lambda: "%s: gave up on a stable network" % what)
    ctx.check(any(lag for _, lag, _ in weights) and any(not lag for _, lag, _ in weights) if none is None
              else not any(bool(lag) == (none == "inter") for _, lag, _ in weights), lambda: "%s: edges %r" % (what, weights))
    x = read(ctx, df, variables, p, rows, what)
    ctx.check(all(np.isfinite(c).all() and np.abs(c).max() < 1e3 for c in x.values()), lambda: "%s: values are not below 1000" % what)
    spread = {"linear-gauss": (0, 1), "linear-exp": (1, 1), "linear-gumbel": (0.5772156649, math.pi / math.sqrt(6))}[kw["sem_type"]]
    for v in variables:
        rest = (x[v, 0] - predictor(x, weights, v)) / kw["noise_scale"]
        ctx.count("equations", rows)
        if rows >= 200:
            mean, sd = float(rest.mean()), float(rest.std())
            ctx.check(abs(mean - spread[0]) < 8 * spread[1] / math.sqrt(rows) and 0.55 < sd / spread[1] < 1.6, lambda: "%s: noise of %r has mean %.3f, sd %.3f" % (what, v, mean, sd))
    ctx.count("stationary")
    ctx.count("degree_zero", bool(none))
    ctx.case((sorted(kw.items()).__repr__(), sorted(weights)), True, {"what": what})


def fallback(ctx, rng, i):
    """Networks that always explode end in the documented warning and constant data of the right shape."""
    import numpy as np

    from causalnex.structure.data_generators import gen_stationary_dyn_net_and_df

    seeded(rng)
    n, p, rows, trials = rng.choice([2, 3]), rng.choice([1, 2]), rng.choice([60, 120]), rng.choice([1, 2, 3])
    # with all lagged weights at least 3 in a full network, one row is a large multiple of the one before
    kw = {"num_nodes": n, "n_samples": rows, "p": p, "degree_intra": 1, "degree_inter": 1, "graph_type_intra": "full", "graph_type_inter": "full",
          "w_min_intra": 0.1, "w_max_intra": 0.1, "w_min_inter": 5.0, "w_max_inter": 9.0, "max_data_gen_trials": trials}
    what = "gen_stationary_dyn_net_and_df(%r)" % kw
    with warnings.catch_warnings(record=True) as seen:
        warnings.simplefilter("always")
        g, df, intra, inter = ctx.call(gen_stationary_dyn_net_and_df, **kw)
    generated(ctx, df, g, intra, inter, n, p, rows, what)
    gave_up = [w for w in seen if issubclass(w.category, UserWarning) and "Could not simulate" in str(w.message)]
    if gave_up:
        ctx.count("fallbacks")
        ctx.check((df.values == 1).all(), lambda: "%s: a warning, but data are not constant" % what)
    else:
        ctx.check(np.isfinite(df.values.astype(float)).all() and np.abs(df.values).max() < 1e3, lambda: "%s: no warning, but values of %r" % (what, np.abs(df.values).max()))
    ctx.case((sorted(kw.items()).__repr__(),), True, {"what": what})


def rejected(ctx, rng, i):
    from causalnex.structure.data_generators import gen_stationary_dyn_net_and_df, generate_dataframe_dynamic

    seeded(rng)
    if i % 2:
        _, _, _, g = network(rng, n=3, p=1)
        ctx.raises(ValueError, generate_dataframe_dynamic, g, sem_type=rng.choice(["linear", "gauss", "", "linear_exp", None]))
    else:
        kw = rng.choice([{"sem_type": "gauss"}, {"num_nodes": 1}, {"w_min_inter": 2, "w_max_inter": 1}, {"w_min_intra": 2, "w_max_intra": 1}, {"graph_type_intra": "x"},
                         {"graph_type_inter": "barabasi-albert"}])
        ctx.raises(ValueError, gen_stationary_dyn_net_and_df, **kw)
    ctx.count("rejections")
    ctx.case(("rejected", i), True, None)


FAMILIES = {"rejected": (rejected, 6, 60), "series": (series, 80, 12000), "noise": (noise, 3, 400), "stationary": (stationary, 10, 1500), "fallback": (fallback, 4, 200)}

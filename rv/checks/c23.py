"""C23: what DYNOTEARS returns obeys every constraint it was given, for any data."""
import math
import re

from rv import libshim
from rv.checks import learncommon as L

PROPERTY = "C23"
INTERPRETER = "vt"
RULE = ("time-series and hostile data, 1..4 variables, 1..3 lags, random tabu triples (lag, from, to), parents and children, penalties, thresholds, tolerances and iteration "
        "limits. Distinct by data kind, shape and constraint sets; non-trivial when a constraint is set and an edge was learned")
NEED = {"models_learned": 250, "intra_edges": 300, "inter_edges": 800, "tabu_pairs": 800, "converged": 150, "rejections": 60, "thresholds_compared": 60}
ASSUMPTIONS = ["numpy 2.5 and scipy 1.18 stand for the pinned versions", "warnings other than the convergence warning are not judged"]
CAP = (150, 700)
NODE = re.compile(r"(\d+)_lag(\d+)\Z")


def setup(ctx):
    libshim.install()


def series(rng, n, d, p):
    """One realisation of a stable vector autoregression, or hostile data, as (X, Xlags)."""
    import numpy as np

    g = np.random.default_rng(rng.getrandbits(48))
    if rng.random() < 0.35:
        x, kind = L.hostile_data(rng, n, d * (p + 1))
        return np.array(x[:, :d]), np.array(x[:, d:]), kind
    order = g.permutation(d)
    w = np.zeros((d, d))
    for a in range(d):
        for b in range(a + 1, d):
            if g.random() < 0.6:
                w[order[a], order[b]] = g.uniform(0.3, 1.2) * g.choice([-1, 1])
    lagged = [g.uniform(-0.5, 0.5, size=(d, d)) * (g.random((d, d)) < 0.5) / (k + 1) / d for k in range(p)]
    inverse = np.linalg.inv(np.eye(d) - w)
    t = n + p + 20
    x = np.zeros((t, d))
    for k in range(p, t):
        x[k] = (sum(x[k - 1 - m] @ lagged[m] for m in range(p)) + g.normal(size=d)) @ inverse
    x = x[20:]
    return x[p:], np.hstack([x[p - k:len(x) - k] for k in range(1, p + 1)]), "autoregression"


def constraints(rng, d, p):
    import numpy as np

    kw = {}
    if rng.random() < 0.6:
        tabu = [(rng.randint(0, p), rng.randrange(d), rng.randrange(d)) for _ in range(rng.randint(0, 2 * d + 2))]
        if rng.random() < 0.15:
            tabu.append((p + 1, 0, 0))
        if rng.random() < 0.2:
            tabu = [tuple(np.int64(a) for a in e) for e in tabu]
        kw["tabu_edges"] = tabu
    if rng.random() < 0.35:
        kw["tabu_parent_nodes"] = rng.sample(range(d), rng.randint(0, max(1, d // 2)))
    if rng.random() < 0.35:
        kw["tabu_child_nodes"] = rng.sample(range(d), rng.randint(0, max(1, d // 2)))
    return kw


def forbidden(kw, lag, u, v):
    return (lag == 0 and u == v or (lag, u, v) in (kw.get("tabu_edges") or ()) or u in (kw.get("tabu_parent_nodes") or ()) or
            v in (kw.get("tabu_child_nodes") or ()))


def read(ctx, model, d, p, what):
    """The edges as {(lag, from, to): weight}; judges names, direction in time and the node set."""
    names = ["%d_lag%d" % (v, l) for l in range(p + 1) for v in range(d)]
    ctx.check(sorted(model.nodes) == sorted(names), lambda: "%s: nodes are %r" % (what, list(model.nodes)))
    edges = {}
    for u, v, data in model.edges(data=True):
        a, b = NODE.match(u), NODE.match(v)
        ctx.check(int(b.group(2)) == 0, lambda: "%s: edge %r points into the past" % (what, (u, v)))
        edges[int(a.group(2)), int(a.group(1)), int(b.group(1))] = float(data["weight"])
    return edges


def judge(ctx, model, d, p, kw, threshold, what):
    from causalnex.structure import StructureModel

    ctx.check(type(model) is StructureModel, lambda: "%s: result is a %s" % (what, type(model)))
    edges = read(ctx, model, d, p, what)
    for e, w in edges.items():
        ctx.count("inter_edges" if e[0] else "intra_edges")
        ctx.check(not forbidden(kw, *e), lambda: "%s: forbidden edge (lag, from, to) %r is in the result, with weight %r" % (what, e, w))
        ctx.check(math.isfinite(w) and w != 0 and abs(w) >= threshold, lambda: "%s: edge %r has weight %r with threshold %r" % (what, e, w, threshold))
    ctx.count("tabu_pairs", sum(forbidden(kw, l, u, v) for l in range(p + 1) for u in range(d) for v in range(d) if l or u != v))
    return edges


def matrices(edges, d, p):
    import numpy as np

    w, a = np.zeros((d, d)), np.zeros((d * p, d))
    for (lag, u, v), x in edges.items():
        if lag:
            a[(lag - 1) * d + u, v] = x
        else:
            w[u, v] = x
    return w, a


def constrained(ctx, rng, i):
    from causalnex.structure.dynotears import from_numpy_dynamic

    d, p, n = rng.choice([1, 2, 3, 3, 4]), rng.choice([1, 1, 2, 3]), rng.choice([3, 20, 60, 150])
    x, lags, kind = series(rng, n, d, p)
    kw = constraints(rng, d, p)
    penalties = {"lambda_w": rng.choice([0.0, 0.01, 0.1, 0.5]), "lambda_a": rng.choice([0.0, 0.01, 0.1, 0.5])}
    if rng.random() < 0.2:
        penalties = {}
    h_tol = rng.choice([1e-8, 1e-8, 1e-8, 1e-4, 1e-2])
    threshold = rng.choice([0.0, 0.0, 0.01, 0.1, 0.3])
    options = dict(kw, h_tol=h_tol, max_iter=rng.choice([100, 100, 100, 1, 2]), **penalties)
    what = "%s data %r, %d lags, %r" % (kind, x.shape, p, options)
    kept, kept_lags = x.copy(), lags.copy()
    frozen = {k: list(v) for k, v in kw.items()}
    x.setflags(write=False)
    lags.setflags(write=False)
    full, warned = L.learn(ctx, from_numpy_dynamic, x, lags, **options)
    edges = judge(ctx, full, d, p, kw, 0.0, what)
    w, _ = matrices(edges, d, p)
    h = L.cyclicity(w)
    slack = 1e-6 * h_tol + 1e-11
    ctx.count("warned" if warned else "converged")
    if not warned:
        ctx.check(h <= h_tol + slack, lambda: "%s: no warning, but the cyclicity is %r" % (what, h))
    else:
        ctx.check(h > h_tol - slack, lambda: "%s: a warning, but the cyclicity is %r" % (what, h))
    if threshold:
        thin, _ = L.learn(ctx, from_numpy_dynamic, x, lags, w_threshold=threshold, **options)
        got = judge(ctx, thin, d, p, kw, threshold, what + " threshold %r" % threshold)
        want = {e: z for e, z in edges.items() if abs(z) > threshold}
        ctx.count("thresholds_compared")
        ctx.check(set(want) <= set(got) and all(e in edges and abs(got[e] - edges[e]) <= 1e-9 * max(1, abs(got[e])) for e in got),
                  lambda: "%s: threshold %r gives %r, the unthresholded result is %r" % (what, threshold, got, edges))
    else:
        again, _ = L.learn(ctx, from_numpy_dynamic, x, lags, **options)
        ctx.check(read(ctx, again, d, p, what) == edges, lambda: "%s: a second call gives another result" % what)
    ctx.check((x == kept).all() and (lags == kept_lags).all() and {k: list(v) for k, v in kw.items()} == frozen, "an argument was modified")
    ctx.case((kind, x.shape, p, sorted(map(repr, kw.items()))), bool(kw) and bool(edges), {"what": what[:300], "edges": len(edges), "cyclicity": h})


def rejected(ctx, rng, i):
    import numpy as np

    from causalnex.structure.dynotears import from_numpy_dynamic

    g = np.random.default_rng(rng.getrandbits(40))
    d, p, n = rng.randint(1, 4), rng.randint(1, 3), rng.randint(2, 8)
    x, lags = g.normal(size=(n, d)), g.normal(size=(n, d * p))
    kind = ["no rows in X", "no columns in X", "no rows in Xlags", "no columns in Xlags", "rows differ", "columns do not divide", "both empty", "nothing has columns"][i % 8]
    if kind == "no rows in X":
        x = x[:0]
    elif kind == "no columns in X":
        x = x[:, :0]
    elif kind == "no rows in Xlags":
        lags = lags[:0]
    elif kind == "no columns in Xlags":
        lags = lags[:, :0]
    elif kind == "rows differ":
        lags = lags[:-1] if rng.random() < 0.5 else np.vstack([lags, lags[:1]])
    elif kind == "columns do not divide":
        d = max(d, 2)
        x, lags = g.normal(size=(n, d)), g.normal(size=(n, d * p + rng.randint(1, d - 1) * rng.choice([1, -1]) if d > 1 else 1))
    elif kind == "both empty":
        x, lags = x[:0], lags[:0]
    else:
        x, lags = x[:, :0], lags[:, :0]
    ctx.raises(ValueError, from_numpy_dynamic, x, lags, **constraints(rng, d, p))
    ctx.count("rejections")
    ctx.case((kind, x.shape, lags.shape), True, {"kind": kind})


FAMILIES = {"rejected": (rejected, 16, 80), "constrained": (constrained, 60, 800)}

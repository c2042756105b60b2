"""C21: what NOTEARS returns obeys every constraint it was given, for any data."""
import math

from rv import libshim
from rv.checks import learncommon as L

PROPERTY = "C21"
INTERPRETER = "vt"
RULE = ("plain and lasso learners on linear-model data and on hostile data (constant, duplicated, collinear, one-hot, badly scaled, integer, float32 columns, "
        "one row or column), with random tabu edges, parents and children, thresholds, tolerances and iteration limits. Distinct by data kind, shape and constraint sets; "
        "non-trivial when a constraint is set and an edge was learned")
NEED = {"models_learned": 400, "edges_judged": 2000, "tabu_pairs": 1000, "converged": 300, "warned": 30, "unreachable_tolerances": 60, "rejections": 40, "thresholds_compared": 100}
ASSUMPTIONS = ["numpy 2.5 and scipy 1.18 stand for the pinned versions", "warnings other than the convergence warning are not judged"]
CAP = (150, 700)


def setup(ctx):
    libshim.install()


def constraints(rng, d):
    import numpy as np

    kw = {}
    if rng.random() < 0.6:
        tabu = [(rng.randrange(d), rng.randrange(d)) for _ in range(rng.randint(0, 2 * d))]
        if rng.random() < 0.2:
            tabu.append((d, 0))
        if rng.random() < 0.2:
            tabu = [(np.int64(a), np.int64(b)) for a, b in tabu]
        kw["tabu_edges"] = set(tabu) if rng.random() < 0.1 else tabu
    if rng.random() < 0.4:
        kw["tabu_parent_nodes"] = rng.sample(range(d), rng.randint(0, max(1, d // 2)))
    if rng.random() < 0.4:
        kw["tabu_child_nodes"] = rng.sample(range(d), rng.randint(0, max(1, d // 2)))
    return kw


def forbidden(kw, u, v):
    return u == v or (u, v) in (kw.get("tabu_edges") or ()) or u in (kw.get("tabu_parent_nodes") or ()) or v in (kw.get("tabu_child_nodes") or ())


def learner(rng):
    from causalnex.structure import notears

    if rng.random() < 0.5:
        return "plain", lambda x, **kw: notears.from_numpy(x, **kw)
    beta = rng.choice([0.0, 0.001, 0.05, 0.5, 100.0])
    return "lasso %s" % beta, lambda x, **kw: notears.from_numpy_lasso(x, beta, **kw)


def data(rng):
    d = rng.choice([1, 2, 3, 3, 4, 4, 5, 6])
    n = rng.choice([1, 2, 5, 20, 60, 150])
    if rng.random() < 0.5:
        return L.sem_data(rng, n, d)[0], "sem"
    return L.hostile_data(rng, n, d)


def judge(ctx, model, d, kw, threshold, what):
    from causalnex.structure import StructureModel

    ctx.check(type(model) is StructureModel, lambda: "%s: result is a %s" % (what, type(model)))
    ctx.check(list(model.nodes) == list(range(d)), lambda: "%s: nodes are %r" % (what, list(model.nodes)))
    edges = L.edge_weights(model)
    for (u, v), w in edges.items():
        ctx.count("edges_judged")
        ctx.check(not forbidden(kw, u, v), lambda: "%s: forbidden edge %r is in the result, with weight %r" % (what, (u, v), w))
        ctx.check(math.isfinite(w) and w != 0 and abs(w) >= threshold, lambda: "%s: edge %r has weight %r with threshold %r" % (what, (u, v), w, threshold))
    ctx.count("tabu_pairs", sum(forbidden(kw, u, v) for u in range(d) for v in range(d) if u != v))
    return edges


def constrained(ctx, rng, i):
    x, kind = data(rng)
    n, d = x.shape
    kw = constraints(rng, d)
    name, fn = learner(rng)
    h_tol = rng.choice([1e-8, 1e-8, 1e-8, 1e-4, 1e-2, 1e-11, 1e-15, 0.0])
    iterations = rng.choice([100, 100, 100, 100, 1, 2, 3])
    threshold = rng.choice([0.0, 0.0, 0.01, 0.1, 0.3, 1.0])
    options = dict(kw, h_tol=h_tol, max_iter=iterations)
    what = "%s on %s data %r, %r" % (name, kind, x.shape, options)
    kept = x.copy()
    frozen = {k: sorted(v) if isinstance(v, set) else list(v) for k, v in kw.items()}
    x.setflags(write=False)
    full, warned = L.learn(ctx, fn, x, **options)
    edges = judge(ctx, full, d, kw, 0.0, what)
    h = L.cyclicity(L.matrix(edges, d))
    ctx.count("warned" if warned else "converged")
    # the code takes the trace of a matrix exponential: it knows h up to the rounding of that
    slack = 1e-6 * h_tol + min(1e-11, 4e-15 * L.expm_size(L.matrix(edges, d)))
    if h_tol < 1e-13:
        ctx.count("unreachable_tolerances")
    if not warned:
        ctx.check(h <= h_tol + slack, lambda: "%s: no warning, but the cyclicity is %r" % (what, h))
    else:
        ctx.check(h > h_tol - slack, lambda: "%s: a warning, but the cyclicity is %r" % (what, h))
        # what it was warned of at this tolerance is cured by asking for less
        easy, still = L.learn(ctx, fn, x, **dict(options, h_tol=h * 1.01 + slack))
        ctx.check(not still, lambda: "%s: does not converge to %r, which it had reached" % (what, h))
    if threshold:
        thin, _ = L.learn(ctx, fn, x, w_threshold=threshold, **options)
        got = judge(ctx, thin, d, kw, threshold, what + " threshold %r" % threshold)
        want = {e: w for e, w in edges.items() if abs(w) > threshold}
        ctx.count("thresholds_compared")
        ctx.check(set(want) <= set(got) and all(L_close(got[e], edges.get(e)) for e in got),
                  lambda: "%s: threshold %r gives %r, the unthresholded result is %r" % (what, threshold, got, edges))
    else:
        again, _ = L.learn(ctx, fn, x, **options)
        ctx.check(L.edge_weights(again) == edges, lambda: "%s: a second call gives another result" % what)
    ctx.check((x == kept).all() and {k: sorted(v) if isinstance(v, set) else list(v) for k, v in kw.items()} == frozen, "an argument was modified")
    ctx.case((name, kind, x.shape, sorted(map(repr, kw.items()))), bool(kw) and bool(edges), {"what": what[:300], "edges": len(edges), "cyclicity": h})


def L_close(a, b):
    return b is not None and abs(a - b) <= 1e-9 * max(1.0, abs(a))


def rejected(ctx, rng, i):
    import numpy as np

    d, n = rng.randint(1, 4), rng.randint(1, 6)
    x = np.random.default_rng(rng.getrandbits(40)).normal(size=(n, d))
    name, fn = learner(rng)
    kind = rng.choice(["nan", "inf", "-inf", "no rows", "no columns", "float32 overflow"])
    if kind == "no rows":
        x = x[:0]
    elif kind == "no columns":
        x = x[:, :0]
    elif kind == "float32 overflow":
        x = x.astype(np.float32)
        x[0, 0] = np.inf
    else:
        x[rng.randrange(n), rng.randrange(d)] = float(kind)
    ctx.raises(ValueError, fn, x, **constraints(rng, max(d, 1)))
    ctx.count("rejections")
    ctx.case((name, kind, x.shape), True, {"kind": kind})


FAMILIES = {"constrained": (constrained, 100, 1200), "rejected": (rejected, 12, 60)}

"""C24: the weights DYNOTEARS returns are the best penalised fit for the order of their contemporaneous graph."""
from rv import libshim
from rv.checks import c23, learncommon as L

PROPERTY = "C24"
INTERPRETER = "vt"
RULE = ("vector autoregressions of 1..4 variables and 1..3 lags, random penalties. 'ordered': tabu triples leave contemporaneous edges along one order only, and forbid random "
        "lagged edges, so the problem is one lasso per variable; 'free': no or few tabu triples, the order is read off the pruned result. Distinct by data and constraints; "
        "non-trivial when there are contemporaneous and lagged edges")
NEED = {"ordered_optima": 120, "free_optima": 80, "edges_learned": 500, "inter_edges_learned": 300}
ASSUMPTIONS = ["numpy 2.5 and scipy 1.18 stand for the pinned versions",
               "optimal means: objective within 10% of the reference optimum in every case and within 0.1% in all but 8% of them, since L-BFGS stops early now and then"]
CAP = (150, 700)


def setup(ctx):
    libshim.install()


def problem(rng):
    d, p = rng.choice([1, 2, 3, 4]), rng.choice([1, 1, 2, 3])
    while True:
        x, lags, kind = c23.series(rng, rng.choice([40, 100, 200]), d, p)
        if kind == "autoregression":
            return x, lags, d, p


def close_enough(ctx, gap, unit, message):
    ctx.check(gap <= 0.1 * unit, message)
    ctx.count("gaps_judged")
    if gap > 1e-3 * unit:
        ctx.count("gaps_above_0.1%")
        ctx.notes.append(message())


def objective(x, lags, w, a, lw, la):
    import numpy as np

    return L.score(x, w, lags, a) + lw * float(np.abs(w).sum()) + la * float(np.abs(a).sum())


def solve(ctx, x, lags, d, p, tabu, lw, la):
    from causalnex.structure.dynotears import from_numpy_dynamic

    model, warned = L.learn(ctx, from_numpy_dynamic, x, lags, lw, la, tabu_edges=tabu)
    edges = c23.read(ctx, model, d, p, "learned")
    ctx.count("edges_learned", len(edges))
    ctx.count("inter_edges_learned", sum(e[0] > 0 for e in edges))
    return edges, c23.matrices(edges, d, p), warned


def ordered(ctx, rng, i):
    x, lags, d, p = problem(rng)
    order = rng.sample(range(d), d)
    tabu = {(0, order[b], order[a]) for a in range(d) for b in range(a, d)}
    tabu |= {(l, u, v) for l in range(p + 1) for u in range(d) for v in range(d) if rng.random() < 0.15}
    lw, la = rng.choice([0.0, 0.02, 0.1, 0.4]), rng.choice([0.0, 0.02, 0.1, 0.4])
    edges, (w, a), warned = solve(ctx, x, lags, d, p, sorted(tabu), lw, la)
    ctx.check(not warned, "the forbidden edges leave no cycle, yet it does not converge")
    bw, ba = L.best_for_order(x, order, lambda u, v: (0, u, v) not in tabu, lw, lags, lambda j, v: (j // d + 1, j % d, v) not in tabu, la)
    have, want = objective(x, lags, w, a, lw, la), objective(x, lags, bw, ba, lw, la)
    ctx.count("ordered_optima")
    close_enough(ctx, have - want, max(1.0, want), lambda: "order %r, forbidden %r, penalties %r: objective %r, the optimum is %r\n%r\n%r\noptimum\n%r\n%r" % (
        order, sorted(tabu), (lw, la), have, want, w, a, bw, ba))
    ctx.check(have >= want - 1e-6 * max(1.0, want), "better than the optimum: a forbidden edge was used, or the reference is wrong")
    ctx.case((x.shape, p, lw, la, tuple(order), float(x[0, 0])), bool(edges), {"penalties": [lw, la], "objective": have, "optimum": want})


def free(ctx, rng, i):
    x, lags, d, p = problem(rng)
    tabu = sorted({(l, u, v) for l in range(p + 1) for u in range(d) for v in range(d) if rng.random() < rng.choice([0, 0, 0.15])})
    lw, la = rng.choice([0.0, 0.05, 0.1]), rng.choice([0.0, 0.05, 0.1])
    edges, (w, a), warned = solve(ctx, x, lags, d, p, tabu, lw, la)
    if warned:
        ctx.count("not_converged")
        return
    pruned, order = L.prune_to_dag(w)
    bw, ba = L.best_for_order(x, order, lambda u, v: (0, u, v) not in tabu, lw, lags, lambda j, v: (j // d + 1, j % d, v) not in tabu, la)
    have, want = objective(x, lags, pruned, a, lw, la), objective(x, lags, bw, ba, lw, la)
    ctx.count("free_optima")
    close_enough(ctx, have - want, max(1e-3, want), lambda: "forbidden %r, penalties %r: objective after pruning %r, the optimum in the learned order %r is %r\n%r\n%r\noptimum\n%r\n%r" % (
        tabu, (lw, la), have, order, want, w, a, bw, ba))
    ctx.case((x.shape, p, lw, la, tuple(tabu), float(x[0, 0])), bool(edges), {"penalties": [lw, la], "objective": have, "optimum": want})


def finish(ctx):
    total, far = ctx.counters.get("gaps_judged", 0), ctx.counters.get("gaps_above_0.1%", 0)
    if total >= 20:
        ctx.check(far <= max(3, 0.08 * total), lambda: "%d of %d results are more than 0.1%% above the optimum; the last: %s" % (far, total, ctx.notes[-1]))


FAMILIES = {"ordered": (ordered, 60, 800), "free": (free, 50, 800)}

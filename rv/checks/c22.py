"""C22: the weights NOTEARS returns are the best fit that the order of its graph and its constraints allow."""
from rv import libshim
from rv.checks import learncommon as L

PROPERTY = "C22"
INTERPRETER = "vt"
RULE = ("linear-model data of 2..6 variables, 20..200 rows. 'ordered': tabu edges leave only edges along one order, so the problem is a regression (lasso) per variable; "
        "'free': no or few tabu edges, the order is read off the pruned result; 'recovery': noiseless covariance of an equal-variance model. "
        "Distinct by data and constraints; non-trivial when there are edges")
NEED = {"ordered_optima": 150, "free_optima": 100, "recoveries_tried": 60, "edges_learned": 500}
ASSUMPTIONS = ["numpy 2.5 and scipy 1.18 stand for the pinned versions",
               "optimal means: objective within 10% of the reference optimum in every case and within 0.1% in all but 6% of them (at most 1% were seen), since L-BFGS stops early now and then"]
CAP = (150, 700)


def setup(ctx):
    libshim.install()


def problem(rng):
    d = rng.randint(2, 6)
    n = rng.choice([20, 50, 120, 200])
    x, weights, order = L.sem_data(rng, n, d, scale=rng.choice([0.5, 1, 1, 2]), noise=rng.choice([None, (0.5, 1.5)]))
    if rng.random() < 0.5:
        x = x - x.mean(axis=0)
    return x, weights, order


def close_enough(ctx, gap, unit, message):
    """L-BFGS stops early now and then: no case may be 10% off, and few may be 0.1% off (judged in finish)."""
    ctx.check(gap <= 0.1 * unit, message)
    ctx.count("gaps_judged")
    if gap > 1e-3 * unit:
        ctx.count("gaps_above_0.1%")
        ctx.notes.append(message())


def run(ctx, x, beta, tabu):
    from causalnex.structure import notears

    if beta is None:
        model, warned = L.learn(ctx, notears.from_numpy, x, tabu_edges=tabu)
    else:
        model, warned = L.learn(ctx, notears.from_numpy_lasso, x, beta, tabu_edges=tabu)
    return L.matrix(L.edge_weights(model), x.shape[1]), warned


def objective(x, w, beta):
    import numpy as np

    return L.score(x, w) + (beta or 0.0) * float(np.abs(w).sum())


def ordered(ctx, rng, i):
    x, _, _ = problem(rng)
    d = x.shape[1]
    order = rng.sample(range(d), d)
    banned = {(order[b], order[a]) for a in range(d) for b in range(a, d)}
    banned |= {(a, b) for a in range(d) for b in range(d) if rng.random() < 0.2}
    beta = rng.choice([None, None, 0.0, 0.02, 0.1, 0.5, 2.0])
    w, warned = run(ctx, x, beta, sorted(banned))
    best, _ = L.best_for_order(x, order, lambda u, v: (u, v) not in banned, beta or 0.0)
    have, want = objective(x, w, beta), objective(x, best, beta)
    ctx.count("ordered_optima")
    ctx.count("edges_learned", int((w != 0).sum()))
    ctx.check(not warned, "the forbidden edges leave no cycle, yet it does not converge")
    close_enough(ctx, have - want, max(1.0, want), lambda: "order %r, forbidden %r, lasso %r: objective %r, the optimum is %r\nweights\n%r\noptimum\n%r" % (
        order, sorted(banned), beta, have, want, w, best))
    ctx.check(have >= want - 1e-6 * max(1.0, want), "better than the optimum: a forbidden edge was used, or the reference is wrong")
    ctx.case((x.shape, beta, tuple(order), len(banned), float(x[0, 0])), bool((w != 0).any()), {"beta": beta, "objective": have, "optimum": want})


def free(ctx, rng, i):
    x, _, _ = problem(rng)
    d = x.shape[1]
    tabu = sorted({(a, b) for a in range(d) for b in range(d) if rng.random() < rng.choice([0, 0, 0.15])})
    beta = rng.choice([None, None, 0.0, 0.05, 0.3])
    w, warned = run(ctx, x, beta, tabu)
    ctx.count("edges_learned", int((w != 0).sum()))
    if warned:
        ctx.count("not_converged")
        return
    pruned, order = L.prune_to_dag(w)
    best, _ = L.best_for_order(x, order, lambda u, v: (u, v) not in tabu, beta or 0.0)
    have, loose, want = objective(x, pruned, beta), objective(x, w, beta), objective(x, best, beta)
    ctx.count("free_optima")
    close_enough(ctx, loose - want, max(1e-3, want), lambda: "forbidden %r, lasso %r: objective %r, the optimum in the learned order %r is %r\n%r\n%r" % (
        tabu, beta, loose, order, want, w, best))
    close_enough(ctx, have - want, max(1e-3, want), lambda: "forbidden %r, lasso %r: objective after pruning %r, the optimum in the learned order %r is %r\n%r\n%r" % (
        tabu, beta, have, order, want, w, best))
    ctx.case((x.shape, beta, tuple(tabu), float(x[0, 0])), bool((w != 0).any()), {"error": have, "least squares": want})


def recovery(ctx, rng, i):
    """Data whose sample covariance is exactly that of a model with equal noise: the model's own order is the global optimum."""
    import numpy as np

    d = rng.randint(2, 4)
    _, weights, order = L.sem_data(rng, 3, d, low=0.6, high=1.5)
    g = np.random.default_rng(rng.getrandbits(40))
    n = 40
    noise = np.linalg.qr(g.normal(size=(n, d)))[0] * np.sqrt(n)
    x = noise @ np.linalg.inv(np.eye(d) - weights)
    w, warned = run(ctx, x, None, None)
    ctx.count("recoveries_tried")
    pruned, _ = L.prune_to_dag(w)
    if not warned and np.abs(pruned - weights).max() < 0.1:
        ctx.count("recovered")
    ctx.case((d, tuple(order), float(x[0, 0])), bool(weights.any()), {"true": repr(weights)[:200], "learned": repr(w.round(2))[:200]})


def finish(ctx):
    total, far = ctx.counters.get("gaps_judged", 0), ctx.counters.get("gaps_above_0.1%", 0)
    if total >= 20:
        ctx.check(far <= max(3, 0.06 * total), lambda: "%d of %d results are more than 0.1%% above the optimum; the last: %s" % (far, total, ctx.notes[-1]))
    tried, got = ctx.counters.get("recoveries_tried", 0), ctx.counters.get("recovered", 0)
    if tried >= 8 and not ctx.violations:
        ctx.check(got >= 0.5 * tried, "only %d of %d models with equal noise variances and strong edges are recovered" % (got, tried))


FAMILIES = {"ordered": (ordered, 60, 800), "free": (free, 50, 800), "recovery": (recovery, 24, 300)}

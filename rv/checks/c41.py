"""C41: the objective that the torch NOTEARS hands to the optimiser is the documented one, value and gradient, and what it returns is its optimum."""
from rv.checks import torchcommon as T

PROPERTY = "C41"
INTERPRETER = "vt"
RULE = ("'objective': a monitor at scipy.optimize.minimize evaluates the function it is handed at random parameters and compares value and directional derivatives with a double-precision reference; "
        "'optimum': tabu edges leave one causal order, so the problem is a (generalised linear) regression per variable with a known optimum; distinct by data, schema and settings")
NEED = {"values_compared": 1000, "slopes_compared": 2000, "minimize_calls": 100, "optima": 100, "penalties_grown": 30}
ASSUMPTIONS = ["torch, pandas and scikit-learn are stand-ins (torch: reverse-mode differentiation over numpy in single precision)",
               "optimal means: objective within 3% of the reference optimum in every case and within 0.2% in all but 10% of them (L-BFGS in single precision)"]
CAP = (200, 760)


def setup(ctx):
    T.setup()


def objective(ctx, rng, i):
    import numpy as np

    from causalnex.structure.pytorch import core, from_numpy

    d = rng.randint(1, 4) if rng.random() < 0.85 else rng.randint(5, 7)
    kinds = [rng.choice(T.KINDS if d < 5 else ["cont", "cont", "bin"]) for _ in range(d)]
    x = T.mixed_data(rng, rng.choice([12, 25]), kinds)
    schema = list(enumerate(kinds))
    rng.shuffle(schema)
    kw = T.settings(rng)
    kw["lasso_beta"], kw["ridge_beta"] = rng.choice([0.0, 0.3, 1.0]), rng.choice([0.0, 0.3, 1.0])
    kw["max_iter"] = rng.choice([1, 2])
    hidden = T.hidden_of(kw)
    ref = T.Reference(x, schema)
    what = "schema %r %r, %d rows" % (schema, kw, len(x))
    g = np.random.default_rng(rng.getrandbits(40))
    models = []
    fit = core.NotearsMLP.fit
    calls, rhos = [], []

    def reference(weights):
        """(losses and penalties, cyclicity) at these weights."""
        return (ref.loss(weights.forward(ref.x)) + 0.5 * kw["ridge_beta"] * weights.l2() + kw["lasso_beta"] * weights.l1(), ref.cyclicity(weights.dag))

    def value_of(fun, theta, options):
        out = fun(np.array(theta, dtype=float))
        return float(out[0] if options.get("jac") is True else out)

    left = {}       # what the last minimisation ended with

    def minimized(fun, result, options):
        left.clear()
        if 0 < len(calls) <= 4 and models and rhos:
            value = value_of(fun, result.x, options)
            left.update(theta=np.array(result.x, dtype=float), value=value, h=ref.cyclicity(T.Weights(models[-1], ref.d, hidden).dag), rho=rhos[-1])

    def watch(fun, x0, options):
        calls.append(1)
        if len(calls) > 4 or not models:
            return
        if left and left["rho"] is not None:
            # where the last minimisation stopped, the next objective must weigh the remaining cyclicity more
            grown = value_of(fun, left["theta"], options) - left["value"]
            due = left["rho"] * left["h"] ** 2
            if due > 1e-4 * max(1.0, abs(left["value"])):
                ctx.count("penalties_grown")
                ctx.check(grown >= 0.5 * due, lambda: "%s: minimisation %d left a cyclicity of %r (rho %r); there the next objective is larger by %r only" % (what, len(calls) - 1, left["h"], left["rho"], grown))
        ctx.count("minimize_calls")
        model = models[-1]

        def at(theta):
            if options.get("jac") is True:
                value, slope = fun(np.array(theta))
            elif callable(options.get("jac")):
                value, slope = fun(np.array(theta)), options["jac"](np.array(theta))
            else:
                value, slope = fun(np.array(theta)), None
            return float(value), None if slope is None else np.array(slope, dtype=float), T.Weights(model, ref.d, hidden)

        ctx.check(np.isfinite(np.asarray(x0, dtype=float)).all(), lambda: "%s: the optimiser starts at %r" % (what, x0))
        points = []
        for k in range(4):
            theta = g.normal(size=len(x0)) * (0.3 if d < 5 or k < 2 else 0.8)
            theta = np.where(np.abs(theta) < 0.03, np.sign(theta) * 0.03 + (theta == 0) * 0.03, theta)
            points.append((theta,) + at(theta))
        # value = losses + penalties + rho/2 h^2 + alpha h for one rho and alpha per call
        base = [reference(w) for _, _, _, w in points]
        rest = np.array([v - b[0] for (_, v, _, _), b in zip(points, base)])
        hs = np.array([b[1] for b in base])
        scale = max(1.0, max(abs(v) for _, v, _, _ in points))
        rhos.append(None)
        if np.abs(hs).max() < 1e-9:
            rho = alpha = 0.0
        else:
            design = np.column_stack([0.5 * hs ** 2, hs])
            (rho, alpha), *_ = np.linalg.lstsq(design, rest, rcond=None)
            if np.abs(hs).max() > 0.02:
                rhos[-1] = rho
            ctx.check(rho > -1e-3 and alpha > -1e-3 * max(1, rho, scale / np.abs(hs).max()), lambda: "%s: call %d has penalties rho %r, alpha %r" % (what, len(calls), rho, alpha))
        for (theta, value, slope, _), (known, h) in zip(points, base):
            want = known + 0.5 * rho * h * h + alpha * h
            ctx.count("values_compared")
            ctx.check(abs(value - want) <= 2e-4 * scale, lambda: "%s: call %d: the objective at random parameters is %r, documented %r (of which loss and penalties %r; cyclicity %r)" % (
                what, len(calls), value, want, known, h))
            for _ in range(2 if slope is not None and (d < 5 or np.abs(theta).max() < 1.2) else 0):
                v = g.normal(size=len(theta))
                v /= np.linalg.norm(v)
                sides = []
                step = 0.01
                for t in (step, -step, step / 2, -step / 2):
                    _, _, w = at(theta + t * v)
                    a, b = reference(w)
                    sides.append(a + 0.5 * rho * b * b + alpha * b)
                coarse, fine = (sides[0] - sides[1]) / (2 * step), (sides[2] - sides[3]) / step
                want_slope = (4 * fine - coarse) / 3
                got = float(slope @ v)
                ctx.count("slopes_compared")
                ctx.check(abs(got - want_slope) <= 2e-3 * max(1.0, np.linalg.norm(slope), abs(want_slope)), lambda: "%s: call %d: the gradient along a direction is %r, the objective's slope %r (gradient norm %r)" % (
                    what, len(calls), got, want_slope, np.linalg.norm(slope)))

    def fit_watched(self, *args, **kwargs):
        models.append(self)
        return fit(self, *args, **kwargs)

    core.NotearsMLP.fit = fit_watched
    T.HOOK.update(minimize=watch, minimized=minimized)
    try:
        T.seed(rng.randrange(1000))
        T.quiet(ctx, from_numpy, x, dist_type_schema=dict(schema), **kw)
    finally:
        T.HOOK.update(minimize=None, minimized=None)
        core.NotearsMLP.fit = fit
    ctx.case((what, float(x.sum())), d > 1, {"what": what[:300], "minimize calls": len(calls)})


def best(ref, order, banned, lasso, ridge, bias):
    """The optimum of the documented objective over weights along the order, in double precision (split into positive and negative parts for the lasso)."""
    import numpy as np
    import scipy.optimize

    d = ref.d
    rank = {j: k for k, j in enumerate(order)}
    free = [(a, b) for a in range(d) for b in range(d)
            if ref.owner[a] != ref.owner[b] and rank[ref.owner[a]] < rank[ref.owner[b]] and (ref.owner[a], ref.owner[b]) not in banned]
    m = len(free)
    rows, cols = np.array([a for a, _ in free], dtype=int), np.array([b for _, b in free], dtype=int)

    def unpack(z):
        w = np.zeros((d, d))
        w[rows, cols] = z[:m] - z[m:2 * m]
        return w, (z[2 * m:] if bias else np.zeros(d))

    def latent_grad(latent):
        """Gradient of the loss with respect to the latent columns."""
        n = len(latent)
        out = np.zeros_like(latent)
        for j, kind in ref.schema:
            grp = ref.groups[j]
            p = ref.project(j, latent)
            if kind in ("cont", "bin", "poiss"):
                out[:, j] = (p - ref.x[:, j]) / n
            elif kind == "cat":
                out[:, grp] = (p - ref.x[:, grp]) / n
            else:
                odds = ref.log_cum_odds(j)
                cum = 1 / (1 + np.exp(-(odds[None, :] - latent[:, [j]])))
                dens = np.column_stack([np.zeros(n), -cum * (1 - cum), np.zeros(n)])   # d cum / d latent
                code = ref.x[:, j].astype(int)
                r = np.arange(n)
                out[:, j] = -(dens[r, code + 1] - dens[r, code]) / p[r, code] / n
        return out

    def f(z):
        w, b = unpack(z)
        latent = ref.x @ w + b
        value = ref.loss(latent) + 0.5 * ridge * (w ** 2).sum() / d + lasso * (z[:2 * m].sum()) / d
        gl = latent_grad(latent)
        gw = (ref.x.T @ gl + ridge * w / d)[rows, cols] if m else np.zeros(0)
        grad = np.concatenate([gw + lasso / d, -gw + lasso / d] + ([gl.sum(axis=0)] if bias else []))
        return value, grad

    z0 = np.zeros(2 * m + (d if bias else 0))
    bounds = [(0, None)] * (2 * m) + [(None, None)] * (d if bias else 0)
    if not len(z0):
        return f(z0)[0]
    sol = scipy.optimize.minimize(f, z0, jac=True, method="L-BFGS-B", bounds=bounds, options={"maxiter": 2000, "maxfun": 20000, "ftol": 1e-14, "gtol": 1e-9})
    return float(sol.fun)


def optimum(ctx, rng, i):
    import numpy as np

    from causalnex.structure.pytorch import from_numpy

    d = rng.randint(2, 4)
    kinds = [rng.choice(T.KINDS) for _ in range(d)] if rng.random() < 0.75 else ["cont"] * d
    x = T.mixed_data(rng, rng.choice([40, 80, 150]), kinds, signal=rng.choice([0.0, 0.5, 1.0]), plain=True)
    schema = list(enumerate(kinds))
    rng.shuffle(schema)
    ref = T.Reference(x, schema)
    order = rng.sample(range(d), d)
    banned = {(order[b], order[a]) for a in range(d) for b in range(a, d)}
    banned |= {(a, b) for a in range(d) for b in range(d) if rng.random() < 0.15}
    bias = rng.random() < 0.6
    lasso = rng.choice([0.0, 0.0, 0.1, 0.5])
    ridge = rng.choice([0.1, 0.5, 1.0])     # keeps the optimum finite for separable data
    what = "schema %r, order %r, %d rows, lasso %r, ridge %r, bias %r" % (schema, order, len(x), lasso, ridge, bias)
    T.seed(0)
    sm = T.quiet(ctx, from_numpy, x, dist_type_schema=dict(schema), lasso_beta=lasso, ridge_beta=ridge, use_bias=bias, tabu_edges=sorted(banned))
    w = T.Weights(sm.graph["structure_learner"], ref.d, [])
    have = ref.loss(w.forward(ref.x)) + 0.5 * ridge * w.l2() + lasso * w.l1()
    want = best(ref, order, banned, lasso, ridge, bias)
    unit = max(0.2, abs(want))
    gap = have - want
    ctx.count("optima")
    message = lambda: "%s: objective %r, the optimum is %r; weights\n%r\nbias %r" % (what, have, want, w.dag[:, 0, :].T, w.bias)  # noqa: E731
    ctx.check(gap <= 0.03 * unit, message)
    ctx.check(gap >= -1e-4 * unit, lambda: "better than the optimum: a constraint was broken. " + message())
    if gap > 2e-3 * unit:
        ctx.count("gaps_above_0.2%")
        ctx.notes.append(message())
    ctx.case((what, float(x.sum())), bool(w.dag.any()), {"what": what, "objective": have, "optimum": want})


def finish(ctx):
    total, far = ctx.counters.get("optima", 0), ctx.counters.get("gaps_above_0.2%", 0)
    if total >= 10:
        ctx.check(far <= max(3, 0.1 * total), lambda: "%d of %d results are more than 0.2%% above the optimum; the last: %s" % (far, total, ctx.notes[-1]))


FAMILIES = {"objective": (objective, 35, 300), "optimum": (optimum, 35, 500)}

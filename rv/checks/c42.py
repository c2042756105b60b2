"""C42: what the learned torch model says of itself is what it computes: adjacency, mean effects, biases and reconstructions."""
from rv.checks import torchcommon as T

PROPERTY = "C42"
INTERPRETER = "vt"
RULE = ("models learned from mixed data of 1..4 variables with 0..3 hidden layers and few optimiser steps; their weights are read and the documented forward pass, inverse links and derivatives "
        "are computed in double precision at the training rows and at new rows; distinct by schema, settings and data")
NEED = {"reconstructions": 150, "derivatives_compared": 150, "nonlinear_models": 60, "rows_alone": 300, "unseen_categories": 20}
ASSUMPTIONS = ["torch, pandas and scikit-learn are stand-ins (torch: reverse-mode differentiation over numpy in single precision)"]
CAP = (200, 760)


def setup(ctx):
    T.setup()


def fitted(ctx, rng, kinds, hidden_ok=True):
    from causalnex.structure.pytorch import from_numpy

    x = T.mixed_data(rng, rng.choice([12, 25, 40, 130, 260] if len(kinds) < 4 else [12, 25, 40]), kinds)
    schema = list(enumerate(kinds))
    rng.shuffle(schema)
    kw = T.settings(rng, hidden_ok)
    kw["max_iter"] = rng.choice([1, 1, 2, 5])
    ref = T.Reference(x, schema)
    con = T.constraints(rng, list(range(len(kinds))))
    T.seed(rng.randrange(1000))
    sm = T.quiet(ctx, from_numpy, x, dist_type_schema=dict(schema), **con, **kw)
    model = sm.graph["structure_learner"]
    return x, ref, kw, sm, model, T.Weights(model, ref.d, T.hidden_of(kw)), "schema %r %r, %d rows" % (schema, kw, len(x))


def effects(ctx, rng, i):
    """The weight of an edge is the mean absolute derivative of the child's reconstruction, the mean effect its mean."""
    import numpy as np

    d = rng.randint(1, 4)
    kinds = [rng.choice(T.KINDS) for _ in range(d)]
    if i % 2:
        kinds = [rng.choice(["cont", "cont", "bin"]) for _ in range(rng.randint(2, 4))]
    x, ref, kw, sm, model, weights, what = fitted(ctx, rng, kinds)
    slopes = T.derivatives(weights, ref.x, ref.d)
    want_w, want_e = np.abs(slopes).mean(axis=0), slopes.mean(axis=0)
    w, e = np.zeros((ref.d, ref.d)), np.zeros((ref.d, ref.d))
    for u, v, data in sm.edges(data=True):
        w[u, v], e[u, v] = data["weight"], data["mean_effect"]
    tol = 1e-3 * max(1.0, want_w.max()) * (10 if T.hidden_of(kw) else 0.1)
    tol = max(tol * 0.1, 1e-6)
    ctx.count("derivatives_compared")
    ctx.count("nonlinear_models", bool(T.hidden_of(kw)))
    ctx.check(np.abs(w - want_w).max() <= tol, lambda: "%s: the weights are\n%r\nthe mean absolute derivatives\n%r" % (what, w, want_w))
    shown = w > 0
    ctx.check(np.abs((e - want_e)[shown]).max(initial=0) <= tol, lambda: "%s: the mean effects are\n%r\nthe mean derivatives\n%r" % (what, e, want_e))
    adj, mean = np.asarray(model.adj), np.asarray(model.adj_mean_effect)
    ctx.check(np.allclose(adj, w, atol=1e-6, rtol=1e-5) and np.abs(mean - want_e).max() <= tol, lambda: "%s: adj\n%r and adj_mean_effect\n%r of the learner are not those of its graph" % (what, adj, mean))
    bias = model.bias
    ctx.check((bias is None) == (weights.bias is None) and (bias is None or np.allclose(np.asarray(bias).reshape(-1), weights.bias.reshape(-1))), lambda: "%s: bias %r" % (what, bias))
    ctx.case((what, float(x.sum())), bool(shown.any()), {"what": what[:300], "edges": int(shown.sum())})


def reconstruct(ctx, rng, i):
    """reconstruct_data of training rows, new rows and single rows is the documented forward pass and inverse link."""
    import numpy as np

    d = rng.randint(1, 4) if rng.random() < 0.85 else rng.randint(7, 9)
    kinds = [rng.choice(["cont", "bin", "cat", "poiss"] if d < 5 else ["cont", "bin", "bin"]) for _ in range(d)]
    x, ref, kw, sm, model, weights, what = fitted(ctx, rng, kinds)
    g = np.random.default_rng(rng.getrandbits(40))
    size = rng.choice([1, 2, 9, 90])
    rows = x[g.integers(len(x), size=size)].copy()
    few = g.integers(len(x), size=2) if rng.random() < 0.5 else np.arange(len(x))      # sometimes most categories do not occur
    for j, kind in enumerate(kinds):                     # new combinations of known values, new continuous values
        rows[:, j] = x[few[g.integers(len(few), size=size)], j]
        if kind == "cont":
            rows[:, j] += g.normal(size=len(rows))
    if all(k in ("bin", "cat", "poiss") for k in kinds) and rng.random() < 0.5:
        rows = rows.astype(int)
    kept = rows.copy()
    got = np.asarray(T.quiet(ctx, model.reconstruct_data, rows))
    latent = weights.forward(ref.transform(rows))
    want = latent.copy()
    for j in range(d):
        p = ref.project(j, latent)
        want[:, ref.groups[j] if p.ndim == 2 else j] = p
    tol = 2e-4 * np.maximum(1.0, np.abs(want)) * (5 if T.hidden_of(kw) else 1) * np.maximum(1.0, np.abs(latent))
    ctx.count("reconstructions")
    ctx.check(got.shape == want.shape and (np.abs(got - want) <= tol).all(), lambda: "%s: the reconstruction of\n%r is\n%r, documented\n%r" % (what, rows, got, want))
    ctx.check(np.array_equal(rows, kept), "%s: the rows were modified" % what)
    for j, kind in enumerate(kinds):
        dist = sm.nodes[j]["dist_type"]
        part = np.asarray(dist.get_columns(got))
        mine = got[:, ref.groups[j]] if kind == "cat" else got[:, j]
        ctx.check(np.array_equal(part, mine), lambda: "%s: the columns of variable %d are %r in %r" % (what, j, part, got))
        if kind in ("bin", "cat"):
            ctx.check((part >= 0).all() and (part <= 1 + 1e-6).all(), lambda: "%s: probabilities of %d are %r" % (what, j, part))
        if kind == "cat":
            ctx.check(np.allclose(part.sum(axis=1), 1, atol=1e-5), lambda: "%s: probabilities of %d add to %r" % (what, j, part.sum(axis=1)))
        if kind == "poiss":
            ctx.check((part >= 0).all(), lambda: "%s: expected counts of %d are %r" % (what, j, part))
    for k in range(min(3, len(rows))):
        alone = np.asarray(T.quiet(ctx, model.reconstruct_data, rows[k:k + 1]))
        ctx.count("rows_alone")
        ctx.check((np.abs(alone[0] - got[k]) <= tol[k]).all(), lambda: "%s: row %r alone gives %r, among others %r" % (what, rows[k], alone[0], got[k]))
    ctx.case((what, float(rows.sum())), bool(weights.dag.any()), {"what": what[:300], "rows": len(rows)})


def ordinal(ctx, rng, i):
    """A model with an ordinal variable, asked for one variable at a time."""
    import inspect

    import numpy as np

    kinds = ["ord"] + [rng.choice(T.KINDS) for _ in range(rng.randint(0, 3))]
    rng.shuffle(kinds)
    x, ref, kw, sm, model, weights, what = fitted(ctx, rng, kinds)
    latent = weights.forward(ref.x)
    if "target_dist_type" in inspect.signature(model.reconstruct_data).parameters:
        for j, kind in enumerate(kinds):
            dist = sm.nodes[j]["dist_type"]
            got = np.asarray(dist.get_columns(T.quiet(ctx, model.reconstruct_data, x, dist)))
            want = ref.project(j, latent)
            tol = 2e-4 * np.maximum(1.0, np.abs(want)) * (5 if T.hidden_of(kw) else 1) * max(1.0, np.abs(latent).max())
            ctx.count("reconstructions")
            ctx.check(got.shape == want.shape and (np.abs(got - want) <= tol).all(), lambda: "%s: variable %d is reconstructed as\n%r, documented\n%r" % (what, j, got[:5], want[:5]))
            if kind == "ord":
                ctx.check((got >= -1e-6).all() and np.allclose(got.sum(axis=1), 1, atol=1e-5), lambda: "%s: ordinal probabilities %r" % (what, got[:5]))
    if len(kinds) > 1:
        ctx.count("ordinals_among_others")
        try:
            whole = np.asarray(T.quiet(ctx, model.reconstruct_data, x))
            right = whole.shape == latent.shape
        except BaseException:
            right = False
        if not right:
            ctx.known_finding("reconstruct-all-with-ordinal", "NotearsMLP.reconstruct_data(X) of a model with an ordinal variable among others returns the probabilities of that variable in place of the data, or raises IndexError")
    ctx.case((what, float(x.sum())), bool(weights.dag.any()), {"what": what[:300]})


def unseen(ctx, rng, i):
    import numpy as np

    kinds = ["cat"] + [rng.choice(["cont", "bin"]) for _ in range(rng.randint(0, 2))]
    x, ref, kw, sm, model, weights, what = fitted(ctx, rng, kinds)
    rows = x[:3].copy()
    rows[rng.randrange(3), 0] = max(ref.values[0]) + rng.choice([1, 0.5, 100])
    ctx.raises((ValueError,), model.reconstruct_data, rows)
    counts = [rng.choice(["poiss"])] + ["cont"]
    x, ref, kw, sm, model, weights, what = fitted(ctx, rng, counts)
    rows = x[:3].copy()
    rows[rng.randrange(3), 0] = -1
    ctx.raises((ValueError,), model.reconstruct_data, rows)
    ctx.count("unseen_categories")
    ctx.case((what, float(rows.sum())), True, {"what": what[:200]})


FAMILIES = {"effects": (effects, 30, 500), "reconstruct": (reconstruct, 25, 400), "ordinal": (ordinal, 8, 80), "unseen": (unseen, 4, 30)}

"""Shared by C43 (DAGRegressor) and C44 (DAGClassifier)."""
from rv.checks import torchcommon as T


def features(rng, n, kinds):
    """Columns of independent features of the given kinds (so that the target's fit is well conditioned)."""
    import numpy as np

    g = np.random.default_rng(rng.getrandbits(48))
    cols = []
    for kind in kinds:
        if kind == "cont":
            cols.append(g.normal(size=n) * rng.choice([1, 1, 2]) + rng.choice([0, 0, 1]))
        elif kind == "bin":
            cols.append((g.random(n) < rng.choice([0.3, 0.5])).astype(float))
        elif kind == "poiss":
            cols.append(g.poisson(rng.choice([0.7, 2.0]), size=n).astype(float))
        else:
            k = int(g.integers(2, 5))
            codes = g.integers(k, size=n)
            codes[:k] = np.arange(k)
            cols.append(np.sort(g.choice(np.arange(-3, 9), size=k, replace=False)).astype(float)[codes])
    return np.column_stack(cols), g


def latent_signal(g, x):
    import numpy as np

    z = (x - x.mean(axis=0)) / np.maximum(x.std(axis=0), 1e-9)
    return z @ g.normal(size=x.shape[1])


def frame_of(rng, x, labels=None):
    """The same data as an array, or as a frame with hostile row labels."""
    import numpy as np
    import pandas as pd

    if labels is None:
        return x
    n = len(x)
    index = rng.choice([None, list(range(5, n + 5)), rng.sample(range(n), n), ["r%d" % i for i in range(n)], list(np.arange(n) * 0.5)])
    return pd.DataFrame({c: x[:, j] for j, c in enumerate(labels)}, index=index)


def parameters(rng, hidden_ok=True):
    kw = {}
    if rng.random() < 0.6:
        kw["alpha"] = rng.choice([0, 0.0, 0.01, 0.1])
    if rng.random() < 0.7:
        kw["beta"] = rng.choice([0, 0.1, 0.5, 1])
    if rng.random() < 0.5:
        kw["fit_intercept"] = rng.random() < 0.5
    if hidden_ok and rng.random() < 0.25:
        kw["hidden_layer_units"] = rng.choice([[2], [3], (2, 2), [4]])
        kw["beta"] = 0.2
    if rng.random() < 0.3:
        kw["dependent_target"] = rng.random() < 0.5
    return kw


def same(a, b, tol=1e-6):
    import numpy as np

    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    return a.shape == b.shape and bool((np.abs(a - b) <= tol * np.maximum(1.0, np.abs(b))).all())


def graphs_equal(a, b):
    import numpy as np

    ea = {(u, v): (float(d["weight"]), float(d["mean_effect"])) for u, v, d in a.edges(data=True)}
    eb = {(u, v): (float(d["weight"]), float(d["mean_effect"])) for u, v, d in b.edges(data=True)}
    return set(a.nodes) == set(b.nodes) and set(ea) == set(eb) and all(np.allclose(ea[e], eb[e], rtol=1e-4, atol=1e-6) for e in ea)


def constructor_errors(ctx, rng, cls, wrong_types, i):
    bad = [({"alpha": "0.0"}, TypeError), ({"beta": None}, TypeError), ({"beta": [1]}, TypeError), ({"fit_intercept": 0}, TypeError), ({"fit_intercept": "yes"}, TypeError),
           ({"threshold": "0.1"}, TypeError), ({"threshold": (0,)}, TypeError)] + [({"target_dist_type": t}, NotImplementedError) for t in wrong_types]
    kw, error = bad[i % len(bad)]
    ctx.raises((error,), cls, **kw)
    ctx.count("rejections")


def data_errors(ctx, rng, cls, i):
    import numpy as np

    g = np.random.default_rng(rng.getrandbits(40))
    x, y = g.normal(size=(12, 2)), (np.arange(12) % 2).astype(float)
    kind = ["nan in X", "inf in X", "nan in y", "rows differ", "X of one dimension", "empty"][i % 6]
    if kind == "nan in X":
        x[3, 1] = np.nan
    elif kind == "inf in X":
        x[0, 0] = np.inf
    elif kind == "nan in y":
        if cls.__name__ == "DAGClassifier":
            return
        y[2] = np.nan
    elif kind == "rows differ":
        x = x[:-1]
    elif kind == "X of one dimension":
        x = x[:, 0]
    else:
        if cls.__name__ == "DAGClassifier":
            return
        x, y = x[:0], y[:0]
    if rng.random() < 0.5 and x.ndim == 2:
        x = frame_of(rng, x, ["a", "b"])
    ctx.raises((ValueError,), cls().fit, x, y)
    ctx.count("rejections")


def unfitted(ctx, rng, cls, i):
    import numpy as np
    from sklearn.exceptions import NotFittedError

    model = cls(standardize=rng.random() < 0.5, **({"hidden_layer_units": [2]} if rng.random() < 0.3 else {}))
    x = np.zeros((3, 2))
    calls = [(model.predict, x), (model.get_edges_to_node, "a")]
    if cls.__name__ == "DAGClassifier":
        calls.append((model.predict_proba, x))
    fn, arg = calls[i % len(calls)]
    ctx.raises((NotFittedError,), fn, arg)
    ctx.count("rejections")


def target_optimum(ref, target, lasso, ridge, bias):
    """The least value of the target's own part of the objective: its loss given the features, and its share of the penalties.

    A target without children closes no cycle, so nothing else constrains the edges into it.
    """
    import numpy as np
    import scipy.optimize

    d = ref.d
    grp = ref.groups[target]
    src = [k for k in range(d) if ref.owner[k] != target]
    x, m, c = ref.x[:, src], len(src), len(grp)

    def split(z):
        w = (z[:m * c] - z[m * c:2 * m * c]).reshape(m, c)
        return w, (z[2 * m * c:] if bias else np.zeros(c))

    def value(w, b):
        latent = np.zeros((len(x), d))
        latent[:, grp] = x @ w + b
        return ref.loss_of(target, latent) + 0.5 * ridge * float((w ** 2).sum()) / d + lasso * float(np.abs(w).sum()) / d

    def f(z):
        w, b = split(z)
        latent = np.zeros((len(x), d))
        latent[:, grp] = x @ w + b
        kind, n = ref.kind[target], len(x)
        p = ref.project(target, latent)
        if kind == "ord":
            odds = ref.log_cum_odds(target)
            cum = 1 / (1 + np.exp(-(odds[None, :] - latent[:, [target]])))
            dens = np.column_stack([np.zeros(n), -cum * (1 - cum), np.zeros(n)])
            code, r = ref.x[:, target].astype(int), np.arange(n)
            gl = (-(dens[r, code + 1] - dens[r, code]) / p[r, code] / n)[:, None]
        else:
            gl = (p.reshape(n, -1) - ref.x[:, grp]) / n
        gw = (x.T @ gl + ridge * w / d).reshape(-1)
        return value(w, b) + lasso * 2 * float(np.minimum(z[:m * c], z[m * c:2 * m * c]).sum()) / d, np.concatenate([gw + lasso / d, -gw + lasso / d] + ([gl.sum(axis=0)] if bias else []))

    z0 = np.zeros(2 * m * c + (c if bias else 0))
    sol = scipy.optimize.minimize(f, z0, jac=True, method="L-BFGS-B", bounds=[(0, None)] * (2 * m * c) + [(None, None)] * (c if bias else 0),
                                  options={"maxiter": 3000, "maxfun": 30000, "ftol": 1e-14, "gtol": 1e-9})
    return value(*split(sol.x)), value

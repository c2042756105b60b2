"""Data and reference optima for the structure learners (C21..C25).  The oracles here use only numpy least squares and
a coordinate descent for the lasso; none of the code under test."""
import itertools
import warnings


def sem_data(rng, n, d, density=0.6, scale=1.0, noise=None, low=0.3, high=2.0):
    """Rows of a linear model with a random order; returns the data and the true weights."""
    import numpy as np

    g = np.random.default_rng(rng.getrandbits(48))
    order = list(g.permutation(d))
    weights = np.zeros((d, d))
    for a, b in itertools.combinations(range(d), 2):
        if g.random() < density:
            weights[order[a], order[b]] = g.uniform(low, high) * g.choice([-1, 1])
    sd = np.ones(d) if noise is None else g.uniform(*noise, size=d)
    x = g.normal(size=(n, d)) * sd @ np.linalg.inv(np.eye(d) - weights)
    return x * scale, weights, order


def hostile_data(rng, n, d):
    """Data without any promise: constant, duplicated, collinear, integer, tiny and badly scaled columns."""
    import numpy as np

    g = np.random.default_rng(rng.getrandbits(48))
    kind = rng.choice(["normal", "integer", "constant column", "duplicate column", "collinear", "scales", "zeros", "one hot", "heavy", "float32", "offset"])
    x = g.normal(size=(n, d))
    if kind == "integer":
        x = g.integers(-5, 6, size=(n, d))
    elif kind == "constant column":
        x[:, rng.randrange(d)] = rng.choice([0.0, 1.0, -7.0])
    elif kind == "duplicate column" and d > 1:
        a, b = rng.sample(range(d), 2)
        x[:, a] = x[:, b]
    elif kind == "collinear" and d > 2:
        x[:, 0] = x[:, 1:].sum(axis=1)
    elif kind == "scales":
        x = x * 10.0 ** g.integers(-2, 3, size=d)
    elif kind == "zeros":
        x = np.zeros((n, d))
    elif kind == "one hot":
        x = np.eye(d)[g.integers(0, d, size=n)]
    elif kind == "heavy":
        x = g.standard_t(2, size=(n, d))
    elif kind == "float32":
        x = x.astype(np.float32)
    elif kind == "offset":
        x = x + g.normal(size=d) * 5
    if rng.random() < 0.2:
        x = np.asfortranarray(x)
    return x, kind


def learn(ctx, fn, *args, **kwargs):
    """Call a learner with warnings recorded; returns the model and whether it said that it did not converge."""
    import numpy as np

    with warnings.catch_warnings(record=True) as seen:
        warnings.simplefilter("always")
        with np.errstate(all="ignore"):
            model = ctx.call_budget(300_000_000, fn, *args, **kwargs)
    ctx.count("models_learned")
    return model, any("converge" in str(w.message) for w in seen)


def edge_weights(model):
    return {(u, v): float(d["weight"]) for u, v, d in model.edges(data=True)}


def matrix(edges, d):
    import numpy as np

    w = np.zeros((d, d))
    for (u, v), x in edges.items():
        w[u, v] = x
    return w


def expm_size(w):
    """The sum of the entries of exp(w * w)."""
    import numpy as np
    import scipy.linalg

    with np.errstate(all="ignore"):
        size = float(np.sum(scipy.linalg.expm(np.asarray(w, dtype=float) ** 2))) if len(w) else 0.0
    return size if np.isfinite(size) else float("inf")


def cyclicity(w):
    import numpy as np
    import scipy.linalg

    return float(np.trace(scipy.linalg.expm(w * w)) - len(w))


def score(x, w, lags=None, a=None):
    import numpy as np

    r = x - x @ w
    if lags is not None:
        r = r - lags @ a
    return 0.5 / len(x) * float(np.square(r).sum())


def regress(z, y, penalty=None):
    """argmin 1/2n |y - z b|^2 + sum penalty_k |b_k|"""
    import numpy as np

    if z.shape[1] == 0:
        return np.zeros(0)
    if penalty is None or not np.any(penalty):
        return np.linalg.lstsq(z, y, rcond=None)[0]
    n = len(z)
    gram, corr = z.T @ z / n, z.T @ y / n
    b = np.zeros(z.shape[1])
    for _ in range(20000):
        worst = 0.0
        for k in range(len(b)):
            if gram[k, k] == 0:
                continue
            rho = corr[k] - gram[k] @ b + gram[k, k] * b[k]
            new = np.sign(rho) * max(abs(rho) - penalty[k], 0) / gram[k, k]
            worst = max(worst, abs(new - b[k]))
            b[k] = new
        if worst < 1e-12:
            break
    return b


def best_for_order(x, order, allowed, beta=0.0, lags=None, allowed_lag=None, beta_lag=0.0):
    """Weights with the least penalised squared error among those with edges only along `order` and only where allowed."""
    import numpy as np

    d = x.shape[1]
    w = np.zeros((d, d))
    a = None if lags is None else np.zeros((lags.shape[1], d))
    for k, v in enumerate(order):
        parents = [u for u in order[:k] if allowed(u, v)]
        z, pen = x[:, parents], [beta] * len(parents)
        lag_parents = []
        if lags is not None:
            lag_parents = [j for j in range(lags.shape[1]) if allowed_lag(j, v)]
            z = np.hstack([z, lags[:, lag_parents]])
            pen = pen + [beta_lag] * len(lag_parents)
        b = regress(z, x[:, v], np.array(pen))
        w[parents, v] = b[:len(parents)]
        if lags is not None:
            a[lag_parents, v] = b[len(parents):]
    return w, a


def prune_to_dag(w):
    """Drop the weakest edges until no cycle is left; returns the weights and an order of the variables."""
    import numpy as np

    w = w.copy()
    while True:
        order, left = [], set(range(len(w)))
        while left:
            free = [v for v in sorted(left) if not any(w[u, v] for u in left)]
            if not free:
                break
            order.append(free[0])
            left.discard(free[0])
        if not left:
            return w, order
        size = np.where(w == 0, np.inf, np.abs(w))
        w[np.unravel_index(np.argmin(size), size.shape)] = 0

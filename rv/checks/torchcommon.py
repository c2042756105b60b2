"""Data, references and probes for the checks of causalnex.structure.pytorch (C40..C45).

The references are numpy in double precision, written from the documentation: one-hot expansion, the
forward pass, the losses, the penalties and the acyclicity function; nothing of the code under test.
"""
import warnings

KINDS = ("cont", "bin", "cat", "ord", "poiss")
HOOK = {"minimize": None, "minimized": None}


def setup():
    """Import causalnex.structure.pytorch with the torch stand-in, and let scipy's minimize pass by a monitor."""
    from rv import libshim

    libshim.install(torch=True)
    import functools

    import scipy.optimize

    original = scipy.optimize.minimize

    @functools.wraps(original)
    def minimize(fun, x0, *args, **kwargs):
        watch = HOOK["minimize"]
        if watch is not None:
            watch(fun, x0, kwargs)
        result = original(fun, x0, *args, **kwargs)
        if HOOK["minimized"] is not None:
            HOOK["minimized"](fun, result, kwargs)
        return result

    scipy.optimize.minimize = minimize


def quiet(ctx, fn, *args, **kwargs):
    """Call the code under test under the step budget, without numpy's warnings."""
    import numpy as np

    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        with np.errstate(all="ignore"):
            return ctx.call_budget(300_000_000, fn, *args, **kwargs)


def seed(n=0):
    import torch

    torch.manual_seed(n)


def mixed_data(rng, n, kinds, signal=None, noise=1.0, plain=False):
    """Rows of a model with a random order whose variables have the given kinds; returns the array (one column per kind); plain: few categories, none rare."""
    import numpy as np

    g = np.random.default_rng(rng.getrandbits(48))
    d = len(kinds)
    x = np.zeros((n, d))
    effect = np.zeros((n, d))
    signal = rng.choice([0.0, 0.5, 1.0]) if signal is None else signal
    for j in g.permutation(d):
        z = effect[:, j]
        if kinds[j] == "cont":
            v = z + noise * g.normal(size=n)
            x[:, j] = v
        elif kinds[j] == "bin":
            v = (z + g.logistic(size=n) > 0).astype(float)
            x[:, j] = v
        elif kinds[j] in ("cat", "ord"):
            many = 0.1 > g.random() and not plain
            k = int(g.integers(5, 13)) if many and kinds[j] == "cat" and n > 12 else int(g.integers(2, 5))
            # sometimes all but the first are rare
            codes = np.digitize(z + g.normal(size=n), np.linspace(2, 4, k - 1) if n > 50 and not plain and g.random() < 0.4 else np.linspace(-1, 1, k - 1))
            codes[:k] = np.arange(k)            # every category occurs
            values = np.sort(g.choice(np.arange(-3, 12), size=k, replace=False)).astype(float)
            x[:, j] = values[codes]
            v = codes - codes.mean()
        else:
            x[:, j] = g.poisson(np.exp(np.clip(z, -3, 1.5)))
            v = x[:, j] - x[:, j].mean()
        for t in range(d):
            effect[:, t] += signal * g.choice([-1, 0, 1]) * v
    return x


class Reference:
    """What the model should be, computed from the data and the schema alone."""

    def __init__(self, x, schema):
        """schema: list of (column, kind), in the order of the dict given to the code under test."""
        import numpy as np

        self.schema = list(schema)
        self.d_orig = x.shape[1]
        self.groups = {}
        self.values = {}
        cols = [np.array(x[:, j], dtype=float) for j in range(x.shape[1])]
        for j, kind in self.schema:
            self.groups[j] = [j]
            if kind == "cat":
                vals = sorted(set(cols[j].tolist()))
                self.values[j] = vals
                raw = cols[j]
                hot = [(raw == v).astype(float) for v in vals]
                cols[j] = hot[0]
                self.groups[j] += list(range(len(cols), len(cols) + len(vals) - 1))
                cols += hot[1:]
            elif kind == "ord":
                vals = sorted(set(cols[j].tolist()))
                self.values[j] = vals
                cols[j] = np.array([vals.index(v) for v in cols[j].tolist()], dtype=float)
        self.x = np.column_stack(cols)
        self.d = self.x.shape[1]
        self.owner = {k: j for j, g in self.groups.items() for k in g}
        self.kind = dict(self.schema)

    def transform(self, rows):
        """New rows (in the original columns) in the expanded columns."""
        import numpy as np

        out = np.zeros((len(rows), self.d))
        for j, kind in self.schema:
            if kind == "cat":
                for k, v in zip(self.groups[j], self.values[j]):
                    out[:, k] = rows[:, j] == v
            elif kind == "ord":
                out[:, j] = [self.values[j].index(v) for v in rows[:, j].tolist()]
            else:
                out[:, j] = rows[:, j]
        return out

    def log_cum_odds(self, j):
        import numpy as np

        counts = np.array([(self.x[:, j] == k).sum() for k in range(len(self.values[j]))], dtype=float)
        cum = np.cumsum(counts / counts.sum())[:-1]
        return np.log(cum / (1 - cum))

    def ordinal_probs(self, j, latent):
        import numpy as np

        cum = 1 / (1 + np.exp(-(self.log_cum_odds(j)[None, :] - latent[:, None])))
        return np.diff(np.column_stack([np.zeros(len(latent)), cum, np.ones(len(latent))]), axis=1)

    def loss_of(self, j, latent, x=None):
        """Mean negative log likelihood of variable j (the documented loss of its distribution type)."""
        import numpy as np

        x = self.x if x is None else x
        kind, group = self.kind[j], self.groups[j]
        if kind == "cont":
            return 0.5 * float(((latent[:, j] - x[:, j]) ** 2).mean())
        if kind == "bin":
            z, t = latent[:, j], x[:, j]
            return float((np.logaddexp(0, z) - t * z).mean())
        if kind == "cat":
            z = latent[:, group]
            top = z.max(axis=1, keepdims=True)
            log_norm = (top + np.log(np.exp(z - top).sum(axis=1, keepdims=True)))[:, 0]
            return float((log_norm - (z * x[:, group]).sum(axis=1)).mean())
        if kind == "poiss":
            return float((np.exp(latent[:, j]) - x[:, j] * latent[:, j]).mean())
        probs = self.ordinal_probs(j, latent[:, j])
        return float(-np.log(probs[np.arange(len(x)), x[:, j].astype(int)]).mean())

    def loss(self, latent, x=None):
        return sum(self.loss_of(j, latent, x) for j, _ in self.schema)

    def project(self, j, latent):
        """The documented inverse link of variable j: its column(s) in the space of the data."""
        import numpy as np

        kind, group = self.kind[j], self.groups[j]
        if kind == "cont":
            return latent[:, j]
        if kind == "bin":
            return 1 / (1 + np.exp(-latent[:, j]))
        if kind == "poiss":
            return np.exp(latent[:, j])
        if kind == "ord":
            return self.ordinal_probs(j, latent[:, j])
        z = latent[:, group]
        e = np.exp(z - z.max(axis=1, keepdims=True))
        return e / e.sum(axis=1, keepdims=True)

    def cyclicity(self, dag):
        """tr((I + S/d)^d) - d of the summed squares between the original variables; dag is [target, unit, source]."""
        import numpy as np

        s = collapse((dag ** 2).sum(axis=1).T, self)
        d = len(s)
        return float(np.trace(np.linalg.matrix_power(np.eye(d) + s / d, d)) - d)


def collapse(m, ref):
    import numpy as np

    out = np.zeros((ref.d_orig, ref.d_orig))
    for a in range(ref.d):
        for b in range(ref.d):
            out[ref.owner[a], ref.owner[b]] += m[a, b]
    return out


class Weights:
    """The weights of a NotearsMLP in double precision, read at its public properties."""

    def __init__(self, model, d, hidden):
        import numpy as np

        def read(t):
            return np.array(t.detach().cpu().numpy(), dtype=float)

        self.hidden = list(hidden)
        units = self.hidden[0] if self.hidden else 1
        self.dag = read(model.dag_layer_weight).reshape(d, units, d)
        bias = model.dag_layer_bias
        self.bias = None if bias is None else read(bias).reshape(d, units)
        self.layers = [(read(layer.weight), None if layer.bias is None else read(layer.bias)) for layer in model.loc_lin_layer_weights]
        self.clamp = model.nonlinear_clamp

    def forward(self, x):
        import numpy as np

        z = np.einsum("ni,jmi->njm", x, self.dag)
        if self.bias is not None:
            z = z + self.bias
        for w, b in self.layers:
            z = np.where(z >= 0, 1 / (1 + np.exp(-np.abs(z))), np.exp(-np.abs(z)) / (1 + np.exp(-np.abs(z))))
            mean = z.mean(axis=2, keepdims=True)
            z = (z - mean) / np.sqrt(((z - mean) ** 2).mean(axis=2, keepdims=True) + self.clamp)
            z = np.einsum("njm,jmk->njk", z, w)
            if b is not None:
                z = z + b
        return z[:, :, 0]

    def l1(self):
        import numpy as np

        return float(np.abs(self.dag).mean()) * self.dag.shape[0]

    def l2(self):
        squares = float((self.dag ** 2).sum()) + sum(float((w ** 2).sum()) for w, _ in self.layers)
        return squares / (self.dag.size + sum(w.size for w, _ in self.layers)) * self.dag.shape[0]


def derivatives(weights, x, ref_d):
    """d forward[:, j] / d x[:, i] at every row, by complex-step-free central differences in double precision: [n, i, j]."""
    import numpy as np

    out = np.zeros((len(x), ref_d, ref_d))
    for i in range(ref_d):
        step = 1e-5 * max(1.0, float(np.abs(x[:, i]).max()))
        up, down = x.copy(), x.copy()
        up[:, i] += step
        down[:, i] -= step
        out[:, i, :] = (weights.forward(up) - weights.forward(down)) / (2 * step)
    return out


def settings(rng, hidden_ok=True):
    """Keyword arguments of from_numpy / from_pandas other than data, schema and constraints."""
    kw = {}
    if rng.random() < 0.6:
        kw["use_bias"] = rng.random() < 0.7
    if rng.random() < 0.6:
        kw["lasso_beta"] = rng.choice([0.0, 0.01, 0.1, 0.5])
    if rng.random() < 0.6:
        kw["ridge_beta"] = rng.choice([0.0, 0.01, 0.1, 0.5])
    r = rng.random()
    if hidden_ok and r < 0.3:
        kw["hidden_layer_units"] = rng.choice([[1], [2], [3], [2, 2], (3,), [4, 1]])
        kw["ridge_beta"] = rng.choice([0.05, 0.2])
        if rng.random() < 0.5:
            kw["nonlinear_clamp"] = rng.choice([1e-2, 0.1, 1.0])
    elif r < 0.5:
        kw["hidden_layer_units"] = rng.choice([None, [], [0], ()])
    return kw


def hidden_of(kw):
    h = list(kw.get("hidden_layer_units") or [])
    return [] if not h or not h[0] else h


def constraints(rng, names, kinds=None):
    """Tabu edges, parents and children over the given names."""
    kw = {}
    pairs = [(a, b) for a in names for b in names]
    if rng.random() < 0.5:
        kw["tabu_edges"] = [p for p in pairs if rng.random() < rng.choice([0.1, 0.3])]
        rng.shuffle(kw["tabu_edges"])
    if rng.random() < 0.3:
        kw["tabu_parent_nodes"] = rng.sample(names, rng.randint(0, max(1, len(names) // 2)))
    if rng.random() < 0.3:
        kw["tabu_child_nodes"] = rng.sample(names, rng.randint(0, max(1, len(names) // 2)))
    return kw


def allowed(a, b, kw):
    """Is the edge a -> b between original variables permitted?"""
    return (a != b and (a, b) not in (kw.get("tabu_edges") or []) and a not in (kw.get("tabu_parent_nodes") or [])
            and b not in (kw.get("tabu_child_nodes") or []))

"""C45: the distribution types are what they are named after: likelihoods, inverse links, encodings and the book-keeping of expanded columns."""
from rv.checks import torchcommon as T

PROPERTY = "C45"
INTERPRETER = "vt"
RULE = ("random mixes of 1..5 distribution types in any schema order over 3..40 rows; latent values from 1e-3 to 80 in size (binary, categorical); random tabu sets, squared weights and names; "
        "locally connected layers of random shape; distinct by schema, family and data")
NEED = {"losses": 1000, "loss_slopes": 1000, "projections": 1000, "encodings": 400, "tabu_sets": 200, "matrices": 200, "names": 200, "layers": 100}
ASSUMPTIONS = ["torch and scikit-learn are stand-ins (torch: reverse-mode differentiation over numpy in single precision; scikit-learn's encoders from their documentation)"]
CAP = (150, 700)


def setup(ctx):
    T.setup()


def types():
    from causalnex.structure.pytorch import dist_type as D

    return {"cont": D.DistTypeContinuous, "bin": D.DistTypeBinary, "cat": D.DistTypeCategorical, "ord": D.DistTypeOrdinal, "poiss": D.DistTypePoisson}


def problem(rng, kinds=None):
    """Data, schema in any order, fitted distribution types and the expanded data."""
    d = rng.randint(1, 5)
    kinds = kinds or [rng.choice(T.KINDS) for _ in range(d)]
    x = T.mixed_data(rng, rng.choice([6, 15, 40, 40, 150]), kinds)
    schema = list(enumerate(kinds))
    if rng.random() < 0.6:
        rng.shuffle(schema)
    return x, schema


def fitted(ctx, x, schema):
    cls = types()
    dists = {}
    for j, kind in schema:
        dists[j] = cls[kind](idx=j)
        x = T.quiet(ctx, dists[j].preprocess_X, x)
    return dists, x


def shown_other_rows(ctx, rng, dists, schema, x):
    """Encode other rows of the same levels, in other shares, as predictions at new rows do; what was fitted must not change."""
    import numpy as np

    if rng.random() < 0.5:
        return
    keep = [int(np.argmax(x[:, j] == v)) for j, kind in schema if kind in ("ord", "cat", "bin") for v in np.unique(x[:, j])]
    rows = x[keep + [rng.randrange(len(x))] * rng.choice([0, 5, 30])] if keep else x[::-1]
    for j, _ in schema:
        rows = T.quiet(ctx, dists[j].preprocess_X, rows, fit_transform=False)
    ctx.count("other_rows_shown")


def latent_of(g, rng, ref, n):
    import numpy as np

    z = g.normal(size=(n, ref.d)) * rng.choice([1e-3, 0.3, 1, 3])
    for j, kind in ref.schema:
        if kind in ("bin", "cat") and rng.random() < 0.4:
            for c in ref.groups[j]:
                z[:, c] *= rng.choice([10, 25])
        if kind in ("poiss", "ord"):
            z[:, j] = np.clip(z[:, j], -4, 4)
    return z.astype(np.float32)


def likelihoods(ctx, rng, i):
    """The loss is the mean negative log likelihood of the variable's own column(s); its gradient is that of the likelihood and is zero elsewhere."""
    import numpy as np
    import torch

    x, schema = problem(rng)
    ref = T.Reference(x, schema)
    dists, full = fitted(ctx, x, schema)
    g = np.random.default_rng(rng.getrandbits(40))
    what = "schema %r, %d rows" % (schema, len(x))
    ctx.check(full.shape == ref.x.shape and np.array_equal(full, ref.x), lambda: "%s: encoded as\n%r\nexpected\n%r" % (what, full[:4], ref.x[:4]))
    shown_other_rows(ctx, rng, dists, schema, x)
    rows = full[g.integers(len(full), size=rng.choice([1, 2, len(full)]))] if rng.random() < 0.5 else full
    if all(kind != "ord" for _, kind in schema) and rng.random() < 0.3:
        rows = full[:1]
    z = latent_of(g, rng, ref, len(rows))
    z64 = z.astype(float)
    data = torch.from_numpy(rows).float()
    for j, kind in schema:
        latent = torch.tensor(z, requires_grad=True)
        value = T.quiet(ctx, dists[j].loss, data, latent)
        want = ref.loss_of(j, z64, rows)
        ctx.count("losses")
        got = float(value.item())
        size = max(1.0, abs(want), float(np.abs(z64[:, ref.groups[j]]).max()) * 0.1)
        ctx.check(np.isfinite(got) and abs(got - want) <= 2e-4 * size, lambda: "%s: loss of %s column %d at latent %r is %r, expected %r" % (what, kind, j, z[:3, ref.groups[j]], got, want))
        T.quiet(ctx, value.backward)
        slope = np.asarray(latent.grad.detach().numpy(), dtype=float)
        other = [c for c in range(ref.d) if c not in ref.groups[j]]
        ctx.check(not np.abs(slope[:, other]).any(), lambda: "%s: the loss of column %d has a gradient at other columns %r" % (what, j, slope[:3]))
        v = g.normal(size=(len(rows), len(ref.groups[j])))
        sides = []
        for h in (1e-4, -1e-4):
            zz = z64.copy()
            zz[:, ref.groups[j]] += h * v
            sides.append(ref.loss_of(j, zz, rows))
        want_slope = (sides[0] - sides[1]) / 2e-4
        got_slope = float((slope[:, ref.groups[j]] * v).sum())
        ctx.count("loss_slopes")
        ctx.check(abs(got_slope - want_slope) <= 2e-3 * max(1.0, abs(want_slope)), lambda: "%s: gradient of the loss of %s column %d is %r, expected %r" % (what, kind, j, got_slope, want_slope))
        # what the columns of the others hold does not matter
        if other:
            z2, r2 = z.copy(), rows.copy()
            z2[:, other] = g.normal(size=(len(rows), len(other)))
            r2[:, other] = g.normal(size=(len(rows), len(other)))
            again = float(T.quiet(ctx, dists[j].loss, torch.from_numpy(r2).float(), torch.tensor(z2)).item())
            ctx.check(again == got or abs(again - got) <= 1e-6 * max(1, abs(got)), lambda: "%s: the loss of column %d depends on the other columns" % (what, j))
    ctx.case(("likelihood", what, float(x.sum()), float(z.sum())), True, {"what": what})


def projections(ctx, rng, i):
    """The inverse link gives means, probabilities or expected counts, in the variable's own column(s) only."""
    import numpy as np
    import torch

    x, schema = problem(rng)
    ref = T.Reference(x, schema)
    dists, full = fitted(ctx, x, schema)
    g = np.random.default_rng(rng.getrandbits(40))
    shown_other_rows(ctx, rng, dists, schema, x)
    n = rng.choice([1, 2, 7])
    z = latent_of(g, rng, ref, n)
    what = "schema %r" % (schema,)
    for j, kind in schema:
        out = T.quiet(ctx, dists[j].inverse_link_function, torch.tensor(z.copy()))
        out = np.asarray(out.detach().numpy(), dtype=float)
        own = np.asarray(T.quiet(ctx, dists[j].get_columns, out), dtype=float)
        want = ref.project(j, z.astype(float))
        ctx.count("projections")
        tol = 1e-5 * np.maximum(1.0, np.abs(want))
        ctx.check(own.shape == want.shape and (np.abs(own - want) <= tol).all(), lambda: "%s: %s column %d at latent %r becomes %r, expected %r" % (what, kind, j, z[:, ref.groups[j]], own, want))
        if kind in ("cat", "ord"):
            ctx.check((np.abs(own.sum(axis=1) - 1) <= 1e-5).all() and (own >= -1e-7).all(), lambda: "%s: probabilities %r" % (what, own))
        if kind != "ord":
            other = [c for c in range(ref.d) if c not in ref.groups[j]]
            ctx.check(out.shape == z.shape and np.array_equal(out[:, other], z[:, other].astype(float)), lambda: "%s: the inverse link of %s column %d changes other columns" % (what, kind, j))
    # all of them in turn (an ordinal one replaces the data, so without those)
    if all(kind != "ord" for _, kind in schema):
        out = torch.tensor(z.copy())
        for j, _ in schema:
            out = T.quiet(ctx, dists[j].inverse_link_function, out)
        for j, kind in schema:
            ctx.check(np.allclose(np.asarray(dists[j].get_columns(np.asarray(out.numpy(), dtype=float))), ref.project(j, z.astype(float)), rtol=1e-4, atol=1e-5), lambda: "%s: in turn, column %d" % (what, j))
    ctx.case(("projection", what, float(z.sum())), True, {"what": what})


def encodings(ctx, rng, i):
    """Encoding fits on the given rows and then applies to others; nothing is modified, other columns stay, unknown values and negative counts are refused."""
    import numpy as np

    x, schema = problem(rng)
    ref = T.Reference(x, schema)
    kept = x.copy()
    what = "schema %r, %d rows" % (schema, len(x))
    dists, full = fitted(ctx, x, schema)
    ctx.check(np.array_equal(x, kept), "%s: the data was modified" % what)
    ctx.check(np.array_equal(full, ref.x), lambda: "%s: encoded as\n%r\nexpected\n%r" % (what, full[:4], ref.x[:4]))
    for _ in range(3):
        pick = rng.choices(range(len(x)), k=rng.choice([1, 2, len(x)]))
        rows = x[pick].copy()
        if rng.random() < 0.5:
            for j, kind in schema:              # new combinations of known values
                rows[:, j] = [rng.choice(x[:, j].tolist()) for _ in pick]
        new, before = rows, rows.copy()
        for j, _ in schema:
            new = T.quiet(ctx, dists[j].preprocess_X, new, fit_transform=False)
        ctx.count("encodings")
        ctx.check(np.array_equal(rows, before), "%s: new rows were modified" % what)
        ctx.check(np.array_equal(new, ref.transform(rows)), lambda: "%s: rows\n%r\nare encoded as\n%r\nexpected\n%r" % (what, rows[:3], new[:3], ref.transform(rows)[:3]))
    for j, kind in schema:
        odd = x[:2].copy()
        if kind == "poiss":
            odd[1, j] = -rng.choice([1.0, 1e-9, 50])
        elif kind in ("cat", "ord"):
            odd[1, j] = rng.choice([99.0, 0.5, -77])
        else:
            continue
        try:
            for t, _ in schema:
                if t == j:
                    ctx.raises((ValueError,), dists[j].preprocess_X, odd, fit_transform=False)
                    if kind == "poiss":
                        ctx.raises((ValueError,), types()[kind](idx=j).preprocess_X, odd)
                    break
                odd = T.quiet(ctx, dists[t].preprocess_X, odd, fit_transform=False)
        finally:
            ctx.count("unknown_values")
    ctx.case(("encoding", what, float(x.sum())), True, {"what": what})


def bookkeeping(ctx, rng, i):
    """Tabu sets, squared weights, adjacencies, names and nodes follow the expansion: every category stands for its variable."""
    import numpy as np
    import torch

    from causalnex.structure import StructureModel

    kinds = [rng.choice(["cat", "cat", "cont", "ord", "bin"]) for _ in range(rng.randint(1, 4))]
    x, schema = problem(rng, kinds)
    for j, kind in enumerate(kinds):
        if kind == "cat" and rng.random() < 0.1:
            x[:, j] = x[0, j]           # a single category
    ref = T.Reference(x, schema)
    dists, full = fitted(ctx, x, schema)
    d, order = ref.d_orig, [j for j, _ in schema]
    what = "schema %r, groups %r" % (schema, ref.groups)
    g = np.random.default_rng(rng.getrandbits(40))
    # tabu edges and nodes
    edges = rng.choice([None, []] + [[(rng.randrange(d), rng.randrange(d)) for _ in range(rng.randint(1, 5))] for _ in range(4)])
    nodes = rng.choice([None, []] + [[rng.randrange(d) for _ in range(rng.randint(1, 3))] for _ in range(3)])
    e, v = edges, nodes
    frozen = (None if e is None else list(e), None if v is None else list(v))
    for j in order:
        e = T.quiet(ctx, dists[j].preprocess_tabu_edges, e)
        v = T.quiet(ctx, dists[j].preprocess_tabu_nodes, v)
    ctx.check((edges, nodes) == frozen, lambda: "%s: tabu %r %r were modified" % (what, edges, nodes))
    want = {(a, b) for s, t in edges or [] for a in ref.groups[s] for b in ref.groups[t]}
    want |= {(a, b) for grp in ref.groups.values() for a in grp for b in grp if a != b}
    ctx.count("tabu_sets")
    same = {(a, b) for a in range(ref.d) for b in range(ref.d) if a == b}      # a self loop is forbidden either way
    ctx.check({tuple(p) for p in e or []} - same == want - same, lambda: "%s: tabu edges %r become %r, expected %r" % (what, edges, sorted(e or []), sorted(want)))
    ctx.check((v is None) == (nodes is None) and set(v or []) == {c for s in nodes or [] for c in ref.groups[s]}, lambda: "%s: tabu nodes %r become %r" % (what, nodes, v))
    # squared weights and adjacencies
    m = np.abs(g.normal(size=(ref.d, ref.d))).astype(np.float32)
    for a in range(ref.d):
        for b in range(ref.d):
            if ref.owner[a] == ref.owner[b]:
                m[a, b] = 0
    want_m = T.collapse(m.astype(float), ref)
    t, adj = torch.tensor(m.copy()), m.copy()
    for j in order:
        t = T.quiet(ctx, dists[j].modify_h, t)
        adj = T.quiet(ctx, dists[j].collapse_adj, adj)
    ctx.count("matrices")
    for name, got in (("modify_h", np.asarray(t.detach().numpy(), dtype=float)), ("collapse_adj", np.asarray(adj, dtype=float))):
        ctx.check(np.allclose(got[:d, :d], want_m, rtol=1e-4, atol=1e-5), lambda: "%s: %s gives\n%r\nthe sums over the categories are\n%r" % (what, name, got[:d, :d], want_m))
    # names and nodes
    labels = rng.choice([["a", "bb", "c", "d"], [10, 20, 30, 40], ["x y", "é", "Q", "_"]])[:d]
    idx_col = dict(enumerate(labels))
    shuffled = order[:]
    rng.shuffle(shuffled)
    for j in shuffled:
        idx_col = T.quiet(ctx, dists[j].update_idx_col, idx_col)
    want_names = {c: (labels[j] if k == 0 else "%s%d" % (labels[j], k)) for j, grp in ref.groups.items() for k, c in enumerate(grp)}
    ctx.count("names")
    ctx.check(idx_col == want_names, lambda: "%s: names %r, expected %r" % (what, idx_col, want_names))
    sm = StructureModel()
    sm.add_nodes_from(range(ref.d))
    for j in order:
        sm = T.quiet(ctx, dists[j].add_to_node, sm)
    ctx.check(all(sm.nodes[c].get("dist_type") is dists[ref.owner[c]] for c in range(ref.d)), lambda: "%s: a node has another's distribution" % what)
    ctx.case(("bookkeeping", what, repr(edges), repr(nodes)), True, {"what": what})


def layers(ctx, rng, i):
    """A locally connected layer maps each variable's units with that variable's own weights."""
    import numpy as np
    import torch

    from causalnex.structure.pytorch.nonlinear import LocallyConnected

    T.seed(rng.randrange(10000))
    d, a, b, n = rng.randint(1, 5), rng.randint(1, 4), rng.randint(1, 4), rng.randint(1, 6)
    bias = rng.random() < 0.5
    layer = T.quiet(ctx, LocallyConnected, d, a, b, bias=bias)
    w = np.asarray(layer.weight.detach().numpy(), dtype=float)
    what = "layer of %d variables, %d to %d units, bias %r" % (d, a, b, bias)
    bound = np.sqrt(1.0 / a) * (1 + 1e-6)
    ctx.check(w.shape == (d, a, b) and (np.abs(w) <= bound).all() and w.any(), lambda: "%s: weights %r" % (what, w))
    ctx.check((layer.bias is not None) == bias, "%s: bias %r" % (what, layer.bias))
    c = np.asarray(layer.bias.detach().numpy(), dtype=float) if bias else np.zeros((d, b))
    ctx.check(c.shape == (d, b) and (np.abs(c) <= bound).all(), lambda: "%s: bias %r" % (what, c))
    x = np.random.default_rng(rng.getrandbits(40)).normal(size=(n, d, a)).astype(np.float32)
    given = torch.tensor(x.copy())
    for _ in range(2):
        out = np.asarray(T.quiet(ctx, layer, given).detach().numpy(), dtype=float)
        want = np.einsum("nda,dab->ndb", x.astype(float), w) + c
        ctx.count("layers")
        ctx.check(out.shape == want.shape and np.allclose(out, want, rtol=1e-4, atol=1e-5), lambda: "%s: gives\n%r\nexpected\n%r" % (what, out, want))
    ctx.check(np.array_equal(np.asarray(given.numpy()), x) and np.array_equal(np.asarray(layer.weight.detach().numpy(), dtype=float), w)
              and (not bias or np.array_equal(np.asarray(layer.bias.detach().numpy(), dtype=float), c)), "%s: the input or the weights were modified" % what)
    ctx.case((what, n, float(x.sum())), True, {"what": what})


FAMILIES = {"likelihoods": (likelihoods, 180, 1500), "projections": (projections, 180, 1500), "encodings": (encodings, 120, 1000), "bookkeeping": (bookkeeping, 180, 1500), "layers": (layers, 80, 600)}

"""C40: the torch NOTEARS obeys every constraint, for every mix of distribution types, and names and sums what it expands."""
from rv.checks import torchcommon as T

PROPERTY = "C40"
INTERPRETER = "vt"
RULE = ("mixed data of 1..5 variables (continuous, binary, categorical, ordinal, Poisson; a random order of the schema), 20..60 rows, random penalties, hidden layers, tabu sets, thresholds; "
        "distinct by schema, settings and data; non-trivial when edges are learned")
NEED = {"models": 150, "edges": 300, "forbidden_pairs": 800, "expanded_columns": 60, "frames_compared": 60, "rejections": 80, "cyclicities": 60, "rings": 16}
ASSUMPTIONS = ["torch, pandas and scikit-learn are stand-ins (torch: reverse-mode differentiation over numpy in single precision, which the existing tests of these modules pass)",
               "acyclic means: the documented function of the squared weights is at most 1e-3 in every case and 1e-5 in all but 10% of them (single precision does not resolve the default tolerance)"]
CAP = (230, 760)


def setup(ctx):
    T.setup()


def learn(ctx, fn, x, s, **kw):
    T.seed(s)
    model = T.quiet(ctx, fn, x, **kw)
    ctx.count("models")
    return model


def problem(rng, most=4):
    d = rng.randint(1, most) if rng.random() < 0.9 else 5
    n = rng.choice([20, 30, 60])
    kinds = [rng.choice(T.KINDS) for _ in range(d)]
    x = T.mixed_data(rng, n, kinds)
    schema = list(enumerate(kinds))
    if rng.random() < 0.5:
        rng.shuffle(schema)
    return x, schema


def judge(ctx, sm, ref, kw, con, threshold, what):
    """Every promise about the graph of from_numpy; returns its edges."""
    import numpy as np

    d = ref.d
    ctx.check(set(sm.nodes) == set(range(d)), lambda: "%s: the nodes are %r, not the %d columns after expansion" % (what, list(sm.nodes), d))
    edges = {}
    for u, v, data in sm.edges(data=True):
        w, effect = float(data["weight"]), float(data["mean_effect"])
        ctx.check(np.isfinite(w) and w > 0, lambda: "%s: edge %r has weight %r" % (what, (u, v), w))
        ctx.check(data["origin"] == "learned", lambda: "%s: edge %r has origin %r" % (what, (u, v), data["origin"]))
        ctx.check(abs(effect) <= w * (1 + 1e-4) + 1e-7, lambda: "%s: edge %r has mean effect %r, more than its weight %r" % (what, (u, v), effect, w))
        ctx.check(T.allowed(ref.owner[u], ref.owner[v], con), lambda: "%s: forbidden edge %r of %r -> %r" % (what, (u, v), ref.owner[u], ref.owner[v]))
        if threshold:
            ctx.check(w >= threshold, lambda: "%s: edge %r with weight %r below the threshold %r" % (what, (u, v), w, threshold))
        edges[u, v] = (w, effect)
    ctx.count("edges", len(edges))
    ctx.count("forbidden_pairs", sum(not T.allowed(ref.owner[a], ref.owner[b], con) for a in range(d) for b in range(d)))
    ctx.count("expanded_columns", d - ref.d_orig)
    model = sm.graph["structure_learner"]
    from causalnex.structure.pytorch import dist_type as D

    classes = {"cont": D.DistTypeContinuous, "bin": D.DistTypeBinary, "cat": D.DistTypeCategorical, "ord": D.DistTypeOrdinal, "poiss": D.DistTypePoisson}
    hidden = T.hidden_of(kw)
    weights = T.Weights(model, d, hidden)
    for v in sm.nodes:
        bias, dist = sm.nodes[v]["bias"], sm.nodes[v]["dist_type"]
        ctx.check(type(dist) is classes[ref.kind[ref.owner[v]]] and dist.idx == ref.owner[v],
                  lambda: "%s: node %r carries distribution %r of column %r" % (what, v, type(dist).__name__, dist.idx))
        if not kw.get("use_bias"):
            ctx.check(bias is None, lambda: "%s: no bias was asked for, node %r has %r" % (what, v, bias))
        elif not hidden:
            ctx.check(abs(float(bias) - weights.bias[v, 0]) <= 1e-6 * max(1, abs(float(bias))), lambda: "%s: bias of node %r is %r, the learner's is %r" % (what, v, bias, weights.bias[v, 0]))
        else:
            ctx.check(bias is not None, lambda: "%s: node %r has no bias" % (what, v))
    return edges, weights


def collapsed(ctx, sm, ref, full, names, what):
    """graph_collapsed sums the weights of all categories, before any threshold."""
    import numpy as np

    want = np.zeros((ref.d_orig, ref.d_orig))
    for (u, v), (w, _) in full.items():
        want[ref.owner[u], ref.owner[v]] += w
    g = sm.graph["graph_collapsed"]
    ctx.check(set(g.nodes) == set(names), lambda: "%s: the collapsed graph has nodes %r" % (what, list(g.nodes)))
    got = np.zeros_like(want)
    at = {x: i for i, x in enumerate(names)}
    for u, v, data in g.edges(data=True):
        got[at[u], at[v]] = data["weight"]
    ctx.check(np.allclose(got, want, rtol=1e-4, atol=1e-6), lambda: "%s: the collapsed graph has weights\n%r\nthe sums over the categories are\n%r" % (what, got, want))


def constrained(ctx, rng, i):
    import numpy as np

    from causalnex.structure.pytorch import from_numpy

    x, schema = problem(rng)
    con = T.constraints(rng, list(range(x.shape[1])))
    kw = T.settings(rng)
    kw["max_iter"] = rng.choice([100, 100, 2, 1, 3])
    ref = T.Reference(x, schema)
    given = dict(schema)
    if all(k == "cont" for k in given.values()) and rng.random() < 0.5:
        given = None
    what = "schema %r %r %r, %d rows" % (given, kw, con, len(x))
    kept, kept_con, kept_given = x.copy(), {k: list(v) for k, v in con.items()}, None if given is None else dict(given)
    s = rng.randrange(1000)
    sm = learn(ctx, from_numpy, x, s, dist_type_schema=given, **con, **kw)
    edges, weights = judge(ctx, sm, ref, kw, con, 0, what)
    collapsed(ctx, sm, ref, edges, list(range(ref.d_orig)), what)
    for a in range(ref.d):
        for b in range(ref.d):
            if not T.allowed(ref.owner[a], ref.owner[b], con):
                ctx.check(not weights.dag[b, :, a].any(), lambda: "%s: the learner gives the forbidden %d -> %d the weights %r" % (what, a, b, weights.dag[b, :, a]))
    if kw["max_iter"] == 100:
        h = ref.cyclicity(weights.dag)
        ctx.count("cyclicities")
        ctx.check(h <= 1e-3, lambda: "%s: the cyclicity is %r" % (what, h))
        if h > 1e-5:
            ctx.count("cyclicities_above_1e-5")
    if edges and rng.random() < 0.5:
        threshold = rng.choice(sorted(w for w, _ in edges.values())) * rng.choice([1.0001, 0.9999, 0.5, 2])
        thin = learn(ctx, from_numpy, x, s, dist_type_schema=given, w_threshold=threshold, **con, **kw)
        got, _ = judge(ctx, thin, ref, kw, con, threshold, what + " threshold %r" % threshold)
        want = {e for e, (w, _) in edges.items() if w >= threshold}
        ctx.count("thresholds_compared")
        ctx.check(set(got) == want and all(abs(got[e][0] - edges[e][0]) <= 1e-6 + 1e-5 * edges[e][0] and abs(got[e][1] - edges[e][1]) <= 1e-6 + 1e-5 * edges[e][0] for e in got),
                  lambda: "%s: threshold %r gives %r, without it %r" % (what, threshold, got, edges))
        collapsed(ctx, thin, ref, edges, list(range(ref.d_orig)), what + " with a threshold")
    ctx.check(np.array_equal(x, kept) and {k: list(v) for k, v in con.items()} == kept_con and given == kept_given, lambda: "%s: an argument was modified" % what)
    ctx.case((what, float(x.sum())), bool(edges), {"what": what[:300], "edges": len(edges)})


LABELS = [["a", "b", "c", "d", "e"], ["x y", "", "Z", "éa", "q."], [10, 20, 30, 40, 50], [3, 1, 0, 2, 4], [("t", 1), ("t", 2), ("u", 1), ("u", 2), ("v", 0)]]


def frames(ctx, rng, i):
    """from_pandas is from_numpy under column names; a categorical column c of k values has the nodes c, c1, .., c(k-1)."""
    import numpy as np
    import pandas as pd

    from causalnex.structure.pytorch import from_numpy, from_pandas

    x, schema = problem(rng, 3)
    d = x.shape[1]
    labels = list(rng.choice(LABELS[:4]))[:d]
    if rng.random() < 0.3:
        rng.shuffle(labels)
    index = rng.sample(range(len(x)), len(x)) if rng.random() < 0.5 else None
    frame = pd.DataFrame({c: x[:, j] for j, c in enumerate(labels)}, index=index)
    con = T.constraints(rng, list(range(d)))
    named = {k: [(labels[e[0]], labels[e[1]]) if isinstance(e, tuple) else labels[e] for e in v] for k, v in con.items()}
    kw = T.settings(rng)
    kw["max_iter"] = rng.choice([1, 2, 4])
    ref = T.Reference(x, schema)
    s = rng.randrange(1000)
    what = "labels %r, schema %r %r %r" % (labels, schema, kw, con)
    base = learn(ctx, from_numpy, x, s, dist_type_schema=dict(schema), **con, **kw)
    edges, weights = judge(ctx, base, ref, kw, con, 0, what)
    if edges and rng.random() < 0.5:
        kw["w_threshold"] = rng.choice(sorted(w for w, _ in edges.values())) * rng.choice([0.999, 1.001])
    kept = frame.values.copy()
    kept_named = {k: list(v) for k, v in named.items()}
    sm = learn(ctx, from_pandas, frame, s, dist_type_schema={labels[j]: k for j, k in schema}, **named, **kw)
    ctx.check(np.array_equal(frame.values, kept) and list(frame.columns) == labels and named == kept_named, lambda: "%s: an argument was modified" % what)
    name = {}
    for j, group in ref.groups.items():
        for k, column in enumerate(group):
            name[column] = labels[j] if k == 0 else "%s%d" % (labels[j], k)
    ctx.check(len(sm.nodes) == ref.d and set(sm.nodes) == set(name.values()), lambda: "%s: the nodes are %r, expected %r" % (what, list(sm.nodes), name))
    want = {(name[u], name[v]): z for (u, v), z in edges.items() if z[0] >= kw.get("w_threshold", 0)}
    got = {(u, v): (float(z["weight"]), float(z["mean_effect"])) for u, v, z in sm.edges(data=True)}
    ctx.check(set(got) == set(want) and all(np.allclose(got[e], want[e], rtol=1e-5, atol=1e-7) for e in got), lambda: "%s: the frame gives %r, its array %r" % (what, got, want))
    ctx.check(all(z["origin"] == "learned" for _, _, z in sm.edges(data=True)), lambda: "%s: an edge is not 'learned'" % what)
    for column, label in name.items():
        a, b = sm.nodes[label], base.nodes[column]
        ctx.check(type(a["dist_type"]) is type(b["dist_type"]) and a["dist_type"].idx == b["dist_type"].idx and (a["bias"] is None) == (b["bias"] is None)
                  and (a["bias"] is None or abs(a["bias"] - b["bias"]) <= 1e-6 + 1e-5 * abs(b["bias"])),
                  lambda: "%s: node %r has %r, column %r has %r" % (what, label, a, column, b))
    collapsed(ctx, sm, ref, edges, labels, what)
    ctx.check(all(z["origin"] == "learned" for _, _, z in sm.graph["graph_collapsed"].edges(data=True)), lambda: "%s: a collapsed edge is not 'learned'" % what)
    ctx.count("frames_compared")
    ctx.case((what, float(x.sum())), bool(edges), {"what": what[:300]})


def rejected(ctx, rng, i):
    import numpy as np
    import pandas as pd

    from causalnex.structure.pytorch import from_numpy, from_pandas

    d, n = rng.randint(2, 4), rng.choice([rng.randint(5, 12), rng.randint(30, 200)])
    g = np.random.default_rng(rng.getrandbits(40))
    x = g.normal(size=(n, d))
    labels = ["c%d" % j for j in range(d)]
    kind = ["empty", "nan", "inf", "text", "bool", "schema misses a column", "schema has another column", "negative counts", "no columns"][i % 9]
    by_frame = rng.random() < 0.5
    schema = {j: "cont" for j in range(d)}
    expected = (ValueError,)
    frame = None
    if kind == "empty":
        x = x[:0]
    elif kind == "no columns":
        x, schema, labels = x[:, :0], None, []
    elif kind in ("nan", "inf"):
        x[g.integers(n), g.integers(d)] = np.nan if kind == "nan" else rng.choice([np.inf, -np.inf])
        schema = rng.choice([schema, None])
    elif kind in ("text", "bool"):
        frame = {c: x[:, j] for j, c in enumerate(labels)}
        frame[rng.choice(labels)] = ["a"] * n if kind == "text" else np.array([True, False] * n)[:n]
        frame, schema = pd.DataFrame(frame), None
    elif kind == "schema misses a column":
        del schema[g.integers(d)]
    elif kind == "schema has another column":
        schema[d + 1] = "cont"
        by_frame = False
    elif kind == "negative counts":
        j = int(g.integers(d))
        x[:, j] = np.abs(x[:, j]).round()
        x[g.integers(n), j] = -1
        schema[j] = "poiss"
    if frame is None and by_frame and x.size:
        frame = pd.DataFrame({c: x[:, j] for j, c in enumerate(labels)})
    if frame is not None:
        ctx.raises(expected, from_pandas, frame, dist_type_schema=None if schema is None else {labels[j]: k for j, k in schema.items()})
    else:
        ctx.raises(expected, from_numpy, x, dist_type_schema=schema)
    ctx.count("rejections")
    ctx.case((kind, x.shape), True, {"kind": kind})


def collision(ctx, rng, i):
    """The names of expanded columns are not checked against those of other columns (a known finding)."""
    import numpy as np
    import pandas as pd

    from causalnex.structure.pytorch import from_pandas

    g = np.random.default_rng(0)
    frame = pd.DataFrame({"a": np.arange(30) % 3, "a1": g.normal(size=30)})
    try:
        sm = learn(ctx, from_pandas, frame, 0, dist_type_schema={"a": "cat", "a1": "cont"}, max_iter=1)
    except ValueError:
        return
    if set(sm.nodes) == {"a", "a1", "a2"}:
        ctx.known_finding("expanded-names-collide", "from_pandas of a categorical column 'a' of three values and a column 'a1': two of the four nodes are both named a1 and are merged")
        return
    ctx.check(len(sm.nodes) == 4, lambda: "the nodes are %r" % list(sm.nodes))


def ring(ctx, rng, i):
    """Only the edges of one long cycle (and perhaps a few more) are allowed, and the data want all of them."""
    import numpy as np

    from causalnex.structure.pytorch import from_numpy

    first = ctx.worker == 0 and i == 0
    d = 6 if first else rng.choice([2, 3, 4, 5, 5, 6, 7])
    g = np.random.default_rng(0 if first else rng.getrandbits(40))
    x = g.normal(size=60)[:, None] + (0.05 if first else rng.choice([0.02, 0.05, 0.3])) * g.normal(size=(60, d))
    order = list(range(d)) if first else rng.sample(range(d), d)
    allowed = {(order[k], order[(k + 1) % d]) for k in range(d)}
    if not first:
        extra = rng.random() < 0.3
        x *= g.choice([-1, 1], size=d) * g.uniform(0.8, 1.2, size=d)
        allowed |= {(a, b) for a in range(d) for b in range(d) if a != b and extra and rng.random() < 0.3}
    tabu = [(a, b) for a in range(d) for b in range(d) if a != b and (a, b) not in allowed]
    kw = {} if first else {"lasso_beta": rng.choice([0, 0, 0.01]), "use_bias": rng.random() < 0.3}
    what = "%d variables that are nearly equal, allowed edges %r, %r" % (d, sorted(allowed), kw)
    ref = T.Reference(x, list(enumerate(["cont"] * d)))
    sm = learn(ctx, from_numpy, x, 0, tabu_edges=tabu, **kw)
    edges, weights = judge(ctx, sm, ref, kw, {"tabu_edges": tabu}, 0, what)
    h = ref.cyclicity(weights.dag)
    ctx.count("rings")
    ctx.check(h <= 1e-3, lambda: "%s: the cyclicity is %r; edges %r" % (what, h, edges))
    if first and h > 2e-8 and len(edges) == d and min(w for w, _ in edges.values()) > 0.3:
        ctx.known_finding("ring-below-single-precision", "from_numpy of six nearly equal columns (default_rng(0)) with all edges tabu but those of a ring returns the whole ring, with weights near %.2f: its cyclicity %.2g "
                          "exceeds the tolerance 1e-8, but is 0 in the single precision in which the learner computes it" % (min(w for w, _ in edges.values()), h))
    ctx.case((what, float(x.sum())), True, {"what": what[:300], "cyclicity": h})


def finish(ctx):
    total, far = ctx.counters.get("cyclicities", 0), ctx.counters.get("cyclicities_above_1e-5", 0)
    if total >= 10:
        ctx.check(far <= max(4, 0.2 * total), "%d of %d models have a cyclicity above 1e-5" % (far, total))


FAMILIES = {"collision": (collision, 1, 1), "rejected": (rejected, 18, 60), "constrained": (constrained, 30, 250), "frames": (frames, 14, 150), "ring": (ring, 4, 60)}

"""C43: DAGRegressor: predictions, coefficients and graph agree with each other and with the data, however the data is given."""
from rv.checks import dagcommon as D
from rv.checks import torchcommon as T

PROPERTY = "C43"
INTERPRETER = "vt"
RULE = ("regressions of 1..4 features (continuous, binary, categorical, ordinal, Poisson) on a continuous or Poisson target, 20..80 rows, as arrays and frames with any row labels, "
        "with random penalties, hidden layers, tabu sets, standardisation; distinct by settings and data")
NEED = {"fits": 200, "linear_predictions": 60, "presentations": 60, "optima": 60, "rejections": 60, "graphs_compared": 60, "equivariances": 25}
ASSUMPTIONS = ["torch, pandas and scikit-learn are stand-ins (torch: reverse-mode differentiation over numpy in single precision; scikit-learn's checks, scaler and clone from their documentation)"]
CAP = (230, 760)
LABELS = ["u", "v", "w", "z"]


def setup(ctx):
    T.setup()


def fit(ctx, x, y, s=0, **kw):
    from causalnex.structure import DAGRegressor

    T.seed(s)
    model = DAGRegressor(**kw)
    T.quiet(ctx, model.fit, x, y)
    ctx.count("fits")
    return model


def problem(rng, target=None, d=None, only_cont=False):
    import numpy as np

    d = d or rng.randint(1, 4)
    kinds = [rng.choice(["cont", "cont", "bin", "cat", "ord", "poiss"]) for _ in range(d)] if not only_cont else ["cont"] * d
    n = rng.choice([20, 40, 80])
    x, g = D.features(rng, n, kinds)
    z = D.latent_signal(g, x)
    target = target or rng.choice(["cont", "cont", "poiss"])
    y = z + g.normal(size=n) * 0.5 + rng.choice([0, 3]) if target == "cont" else g.poisson(np.exp(np.clip(0.5 * z, -3, 2))).astype(float)
    return x, y, kinds, target, g


def schema_kw(kinds, labels, rng=None):
    """The schema, in the order of the columns or (with rng) in any order."""
    if all(k == "cont" for k in kinds):
        return {}
    items = [((labels[j] if labels else j), k) for j, k in enumerate(kinds)]
    if rng is not None:
        rng.shuffle(items)
    return {"dist_type_schema": dict(items)}


def linear(ctx, rng, i):
    """X @ coef_ + intercept_ (exponential for counts) are the predictions at any rows, in standardised units where asked for."""
    import numpy as np

    x, y, kinds, target, g = problem(rng, only_cont=True)
    labels = LABELS[:x.shape[1]] if rng.random() < 0.5 else None
    if target == "cont":
        x = x * rng.choice([1.0, 1.0, 0.03])        # small units, large coefficients
    kw = D.parameters(rng, hidden_ok=False)
    kw.update(max_iter=rng.choice([1, 3, 100]), standardize=rng.random() < 0.4)
    if target == "poiss":
        kw["target_dist_type"] = "poiss"
    X = D.frame_of(rng, x, labels)
    Y = y
    if rng.random() < 0.5:
        import pandas as pd
        Y = pd.Series(y, name=rng.choice([None, "t", "y"]))
    model = fit(ctx, X, Y, **kw)
    what = "%r, target %s, %d rows" % (kw, target, len(x))
    coef, intercept = np.asarray(model.coef_, dtype=float), model.intercept_
    ctx.check(coef.shape == (x.shape[1],) and isinstance(intercept, float), lambda: "%s: coef_ %r intercept_ %r" % (what, coef, intercept))
    if not kw.get("fit_intercept", True):
        ctx.check(intercept == 0.0, lambda: "%s: intercept_ is %r without one" % (what, intercept))
    importance = np.asarray(model.feature_importances_, dtype=float)
    ctx.check(D.same(importance, np.abs(coef), 1e-5), lambda: "%s: feature_importances_ %r, coef_ %r" % (what, importance, coef))
    rows = np.vstack([x[:3], g.normal(size=(2, x.shape[1])) * 3])
    if rng.random() < 0.3:
        rows = np.round(rows).astype(int)
    given = D.frame_of(rng, rows, labels) if rng.random() < 0.5 else rows
    kept = rows.copy()
    got = np.asarray(T.quiet(ctx, model.predict, given), dtype=float)
    mean, sd = (x.mean(axis=0), x.std(axis=0)) if kw["standardize"] else (0.0, 1.0)
    latent = (rows - mean) / sd @ coef + intercept
    if target == "poiss":
        want = np.exp(latent)
    else:
        want = latent * y.std() + y.mean() if kw["standardize"] else latent
    ctx.count("linear_predictions")
    scale = np.maximum(1.0, np.abs(want)) * np.maximum(1, np.abs(latent)) * max(1.0, np.abs(coef).max())
    ctx.check(got.shape == want.shape and (np.abs(got - want) <= 2e-4 * scale).all(), lambda: "%s: predictions of\n%r are %r, coefficients give %r" % (what, rows, got, want))
    ctx.check(np.array_equal(rows, kept), "%s: the rows were modified" % what)
    if target == "poiss":
        ctx.check((got >= 0).all(), lambda: "%s: expected counts %r" % (what, got))
    ctx.case((what, float(x.sum())), bool(coef.any()), {"what": what, "coef": coef.tolist()})


def presentations(ctx, rng, i):
    """Arrays, frames with any row labels, integers, other memory orders: the same model; nothing given is modified, and repeating repeats."""
    import numpy as np
    import pandas as pd

    x, y, kinds, target, g = problem(rng, only_cont=rng.random() < 0.6)
    d = x.shape[1]
    if rng.random() < 0.3:
        x = np.round(x * 2)
        if target == "cont":
            y = np.round(y * 2)
    s = rng.randrange(1000)
    kw = D.parameters(rng)
    kw.update(max_iter=rng.choice([1, 2]), standardize=rng.random() < 0.4)
    if target == "poiss":
        kw["target_dist_type"] = "poiss"
    what = "%r %r, target %s, %d rows" % (kinds, kw, target, len(x))
    base = fit(ctx, x, y, s, **kw, **schema_kw(kinds, None))
    want = np.asarray(T.quiet(ctx, base.predict, x), dtype=float)
    ctx.check(want.shape == (len(x),) and np.isfinite(want).all(), lambda: "%s: predictions %r" % (what, want))
    for _ in range(3):
        labels = LABELS[:d] if rng.random() < 0.7 else None
        X = D.frame_of(rng, x, labels) if labels else rng.choice([np.asfortranarray(x), x.copy(), x.astype(int) if (x == np.round(x)).all() else x])
        Y = rng.choice([y, pd.Series(y), pd.Series(y, name="t", index=rng.sample(range(len(y)), len(y))), pd.Series(y, index=["q%d" % k for k in range(len(y))]),
                        y.astype(int) if (y == np.round(y)).all() else y, y.tolist()])
        x_kept, y_kept = np.array(X, dtype=float), np.array(Y, dtype=float)
        name = getattr(Y, "name", None)
        schema = schema_kw(kinds, labels)
        frozen = {k: dict(v) for k, v in schema.items()}
        model = fit(ctx, X, Y, s, **kw, **schema)
        got = np.asarray(T.quiet(ctx, model.predict, D.frame_of(rng, x, labels) if labels and rng.random() < 0.5 else x), dtype=float)
        ctx.count("presentations")
        ctx.check(D.same(got, want, 1e-4), lambda: "%s: as %s and %s the predictions are %r, as arrays %r" % (what, type(X).__name__, type(Y).__name__, got[:6], want[:6]))
        ctx.check(np.array_equal(np.array(X, dtype=float), x_kept) and np.array_equal(np.array(Y, dtype=float), y_kept) and getattr(Y, "name", None) == name
                  and {k: dict(v) for k, v in schema.items()} == frozen, lambda: "%s: the data or the schema was modified" % what)
    # single rows and repetition
    k = rng.randrange(len(x))
    alone = np.asarray(T.quiet(ctx, base.predict, x[k:k + 1]), dtype=float)
    ctx.check(D.same(alone, want[k:k + 1], 1e-4), lambda: "%s: row %d alone is predicted %r, among others %r" % (what, k, alone, want[k]))
    T.seed(s)
    T.quiet(ctx, base.fit, x, y)
    ctx.check(D.same(T.quiet(ctx, base.predict, x), want, 1e-5), lambda: "%s: fitting again changes the predictions" % what)
    # the same estimator fitted to other data first
    before = dict(kw)
    switched = rng.random() < 0.5
    if switched:
        before["standardize"] = not kw["standardize"]
    other = fit(ctx, np.where(x > 1e9, 0, x) if any(k != "cont" for k in kinds) else x[::-1] * 2 + 1, y + (1 if target == "poiss" else -3), s, **before, **schema_kw(kinds, None))
    if switched:
        ctx.call(other.set_params, standardize=kw["standardize"])
    T.seed(s)
    T.quiet(ctx, other.fit, x, y)
    ctx.check(D.same(T.quiet(ctx, other.predict, x), want, 1e-5), lambda: "%s: an earlier fit to other data%s changes the predictions" % (what, " with another setting of standardize" if switched else ""))
    from sklearn.base import clone

    twin = clone(model)
    for p in ("alpha", "beta", "fit_intercept", "hidden_layer_units", "threshold", "tabu_edges", "dependent_target", "enforce_dag", "standardize", "target_dist_type", "dist_type_schema"):
        ctx.check(twin.get_params()[p] == model.get_params()[p], lambda: "%s: clone has %s=%r, the original %r" % (what, p, twin.get_params()[p], model.get_params()[p]))
    ctx.check(twin.get_params()["target_dist_type"] == kw.get("target_dist_type"), lambda: "%s: a clone has target_dist_type %r" % (what, twin.get_params()["target_dist_type"]))
    ctx.case((what, float(x.sum())), True, {"what": what})


def optimum(ctx, rng, i):
    """A target without children is an ordinary penalised (generalised linear) regression on the features."""
    import numpy as np

    x, y, kinds, target, g = problem(rng, d=rng.choice([1, 2, 2, 3]))
    kw = {"alpha": rng.choice([0.0, 0.0, 0.1]), "beta": rng.choice([0.1, 0.5]), "fit_intercept": rng.random() < 0.6, "target_dist_type": target}
    model = fit(ctx, x, y, **kw, **schema_kw(kinds, None))
    what = "%r %r, %d rows" % (kinds, kw, len(x))
    d = x.shape[1]
    ref = T.Reference(np.column_stack([x, y]), list(enumerate(kinds)) + [(d, target)])
    weights = T.Weights(model.graph_.graph["structure_learner"], ref.d, [])
    src = [k for k in range(ref.d) if ref.owner[k] != d]
    w = weights.dag[ref.groups[d], 0][:, src].T
    b = weights.bias[ref.groups[d], 0] if weights.bias is not None else np.zeros(len(ref.groups[d]))
    best, value = D.target_optimum(ref, d, kw["alpha"], kw["beta"], kw["fit_intercept"])
    have = value(w, b)
    unit = max(0.1, abs(best))
    ctx.count("optima")
    ctx.check(-1e-4 * unit <= have - best <= 0.05 * unit, lambda: "%s: the target's part of the objective is %r, its optimum %r (weights %r, bias %r)" % (what, have, best, w, b))
    if have - best > 5e-3 * unit:
        ctx.count("gaps_above_0.5%")
        ctx.notes.append(what)
    # a constant prediction is in the model class when there is an intercept: it cannot be beaten by much
    got = np.asarray(T.quiet(ctx, model.predict, x), dtype=float)
    latent = np.zeros((len(x), ref.d))
    latent[:, ref.groups[d]] = ref.x[:, src] @ w + b
    ctx.check(D.same(got, ref.project(d, latent), 1e-3), lambda: "%s: predictions %r are not those of the weights %r" % (what, got[:5], ref.project(d, latent)[:5]))
    ctx.case((what, float(x.sum())), True, {"what": what, "objective": have, "optimum": best})


def graph(ctx, rng, i):
    """graph_ is what from_pandas learns from [X | y] with the same settings; a dependent target has no children; constraints and thresholds hold."""
    import numpy as np
    import pandas as pd

    from causalnex.structure.pytorch import from_pandas

    x, y, kinds, target, g = problem(rng)
    d = x.shape[1]
    labels = rng.choice([LABELS[:d], ["f%d" % j for j in range(d)]])
    name = rng.choice([None, "t", "t", "the target", 7])
    tname = name or "__target"
    kw = D.parameters(rng)
    kw["max_iter"] = rng.choice([1, 2, 3])
    if target == "poiss":
        kw["target_dist_type"] = "poiss"
    con = T.constraints(rng, labels)
    if rng.random() < 0.15:
        con["tabu_parent_nodes"] = list(labels)
    if rng.random() < 0.3:
        con.setdefault("tabu_parent_nodes", []).append(tname)
    if rng.random() < 0.3:
        con.setdefault("tabu_edges", []).append((rng.choice(labels), tname))
    if rng.random() < 0.4:
        kw["threshold"] = rng.choice([0.01, 0.1, 0.3])
    if rng.random() < 0.3:
        kw["nonlinear_clamp"] = 0.5
    s = rng.randrange(1000)
    frozen = {k: list(v) for k, v in con.items()}
    enforce = rng.random() < 0.4
    model = fit(ctx, D.frame_of(rng, x, labels), pd.Series(y, name=name), s, enforce_dag=enforce, **kw, **con, **schema_kw(kinds, labels))
    what = "%r %r %r, target %s" % (kinds, kw, con, target)
    ctx.check({k: list(v) for k, v in con.items()} == frozen, lambda: "%s: the constraints were modified" % what)
    frame = pd.DataFrame({c: v for c, v in zip(labels + [tname], list(x.T) + [y])})
    parents = list(con.get("tabu_parent_nodes") or [])
    if kw.get("dependent_target", True):
        parents.append(tname)
    T.seed(s)
    direct = T.quiet(ctx, from_pandas, frame, dist_type_schema=dict(zip(labels + [tname], kinds + [target])), lasso_beta=kw.get("alpha", 0.0), ridge_beta=kw.get("beta", 0.0),
                     use_bias=kw.get("fit_intercept", True), hidden_layer_units=kw.get("hidden_layer_units"), w_threshold=kw.get("threshold", 0.0), max_iter=kw["max_iter"],
                     tabu_edges=con.get("tabu_edges"), tabu_parent_nodes=parents or None, tabu_child_nodes=con.get("tabu_child_nodes"),
                     **({"nonlinear_clamp": 0.5} if "nonlinear_clamp" in kw else {}))
    if enforce:
        direct.threshold_till_dag()
        import networkx as nx
        ctx.check(nx.is_directed_acyclic_graph(model.graph_), lambda: "%s: enforce_dag leaves the cycle %r" % (what, nx.find_cycle(model.graph_)))
    ctx.count("graphs_compared")
    ctx.check(D.graphs_equal(model.graph_, direct), lambda: "%s: graph_ has %r, from_pandas gives %r" % (what, sorted(model.graph_.edges(data="weight"), key=repr), sorted(direct.edges(data="weight"), key=repr)))
    if kw.get("dependent_target", True):
        ctx.check(not list(model.graph_.successors(tname)), lambda: "%s: the dependent target has children %r" % (what, list(model.graph_.successors(tname))))
    if not any(k == "cat" for k in kinds):
        for node in labels + [tname]:
            for data in ("weight", "mean_effect"):
                got = T.quiet(ctx, model.get_edges_to_node, node, data)
                if tname in [u for u, v in model.graph_.edges if v == node]:
                    continue            # a target that is a parent of a feature is added to the features
                want = [float(model.graph_.edges[u, node][data]) if model.graph_.has_edge(u, node) else 0.0 for u in labels]
                ctx.check(list(got.index) == labels and D.same(np.asarray(got.values, dtype=float), want, 1e-6), lambda: "%s: edges to %r are %r, expected %r" % (what, node, got.values, want))
        ctx.check(D.same(model.coef_, model.get_edges_to_node(tname, "mean_effect").values) and D.same(model.feature_importances_, model.get_edges_to_node(tname).values), "%s: coef_ or feature_importances_" % what)
    ctx.case((what, float(x.sum())), bool(direct.edges), {"what": what[:300]})


def equivariance(ctx, rng, i):
    """A standardised model does not depend on the units of the continuous features and the target."""
    import numpy as np

    x, y, kinds, target, g = problem(rng, target="cont", only_cont=rng.random() < 0.6)
    kw = D.parameters(rng)
    kw.update(max_iter=1, standardize=True)
    s = rng.randrange(1000)
    scale, shift = np.array([rng.choice([0.01, 0.5, 3, 100.0]) for _ in kinds]), np.array([rng.choice([0, -5.0, 20]) for _ in kinds])
    for j, k in enumerate(kinds):
        if k != "cont":
            scale[j], shift[j] = 1, 0
    a, b = rng.choice([0.1, 1, 7.0]), rng.choice([0, 10.0])
    schema = schema_kw(kinds, None, rng)
    one, two = fit(ctx, x, y, s, **kw, **schema), fit(ctx, x * scale + shift, y * a + b, s, **kw, **schema)
    p, q = np.asarray(T.quiet(ctx, one.predict, x), dtype=float), np.asarray(T.quiet(ctx, two.predict, x * scale + shift), dtype=float)
    what = "%r %r" % (schema or kinds, kw)
    ctx.count("equivariances")
    # rounding steers L-BFGS: the fits agree to its tolerance, not to the last digit
    ctx.check((np.abs((q - b) / a - p) <= 0.05 * y.std()).all(), lambda: "%s: in other units (times %r plus %r, target times %r plus %r) the predictions are %r, expected %r" % (what, scale, shift, a, b, ((q - b) / a)[:6], p[:6]))
    ctx.case((what, float(x.sum())), True, {"what": what})


def rejected(ctx, rng, i):
    from causalnex.structure import DAGRegressor

    kind = i % 3
    if kind == 0:
        D.constructor_errors(ctx, rng, DAGRegressor, ["bin", "cat", "ord", "nonsense", ""], i // 3 + 4 * ctx.worker)
    elif kind == 1:
        D.data_errors(ctx, rng, DAGRegressor, i // 3 + ctx.worker)
    else:
        D.unfitted(ctx, rng, DAGRegressor, i // 3 + ctx.worker)
    ctx.case((kind, i, ctx.worker), True, {"kind": kind})


def expanded(ctx, rng, i):
    """coef_ of a model with a categorical feature (a known finding)."""
    import numpy as np

    g = np.random.default_rng(1)
    x = np.column_stack([np.arange(40) % 3, g.normal(size=40)])
    model = fit(ctx, x, x[:, 1] + (x[:, 0] == 2) * 3 - (x[:, 0] == 1), dist_type_schema={0: "cat", 1: "cont"}, max_iter=1)
    if np.asarray(model.coef_).shape != (2,):
        ctx.known_finding("coef-of-categorical-feature", "coef_ and feature_importances_ of DAGRegressor and DAGClassifier have more entries than features when a feature is categorical: the nodes of its other categories are appended")


def finish(ctx):
    total, far = ctx.counters.get("optima", 0), ctx.counters.get("gaps_above_0.5%", 0)
    if total >= 8:
        ctx.check(far <= max(3, 0.2 * total), lambda: "%d of %d targets are more than 0.5%% above their optimum; the last: %s" % (far, total, ctx.notes[-1]))


FAMILIES = {"expanded": (expanded, 1, 1), "rejected": (rejected, 12, 40), "linear": (linear, 14, 200), "presentations": (presentations, 9, 120),
            "optimum": (optimum, 12, 150), "graph": (graph, 12, 150), "equivariance": (equivariance, 5, 60)}

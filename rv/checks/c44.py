"""C44: DAGClassifier: classes, probabilities, predictions, coefficients and graph agree with each other and with the data, whatever the labels are."""
from rv.checks import dagcommon as D
from rv.checks import torchcommon as T

PROPERTY = "C44"
INTERPRETER = "vt"
RULE = ("classifications into 2..4 classes labelled by strings, booleans, integers, floats or mixed-length names, as arrays, series with any index and lists, "
        "of 1..3 continuous, binary, categorical, ordinal or Poisson features, 24..90 rows, binary, categorical and ordinal targets; distinct by settings and data")
NEED = {"fits": 200, "probabilities": 300, "linear_probabilities": 60, "relabellings": 60, "refits": 40, "optima": 60, "rejections": 60, "graphs_compared": 40}
ASSUMPTIONS = ["torch, pandas and scikit-learn are stand-ins (torch: reverse-mode differentiation over numpy in single precision; scikit-learn's checks, label encoder, scaler and clone from their documentation)"]
CAP = (230, 760)
NAMES = ["u", "v", "w"]
# names that begin like those of targets
LIKE_TARGETS = ["t_a", "tt", "__target_w", "target b", "tx"]


def names_of(rng, d):
    return NAMES[:d] if rng.random() < 0.6 else rng.sample(LIKE_TARGETS, d)


def setup(ctx):
    T.setup()


def fit(ctx, x, y, s=0, **kw):
    from causalnex.structure import DAGClassifier

    T.seed(s)
    model = DAGClassifier(**kw)
    T.quiet(ctx, model.fit, x, y)
    ctx.count("fits")
    return model


def labels_of(rng, k):
    """k sorted labels of one kind, and how to hold them."""
    import numpy as np

    kind = rng.choice((["str", "int", "float", "object", "negative"] if k < 7 else ["str", "int"]) + (["bool"] * 2 if k == 2 else []))
    if kind == "bool":
        return np.array([False, True])
    if kind == "str":
        return np.array(sorted(rng.sample(["a", "b", "bb", "Zebra", "no", "yes", "cat", "0", "10", "9", "é", "a class of long name"], k)))
    if kind == "object":
        return np.array(sorted(rng.sample(["low", "mid", "high", "x1", "x10", "x2"], k)), dtype=object)
    if kind == "int":
        return np.array(sorted(rng.sample(range(0, 12), k)))
    if kind == "negative":
        return np.array(sorted(rng.sample(range(-7, 3), k)))
    return np.array(sorted(float(v) for v in rng.sample(range(-4, 6), k)))


def held(rng, y):
    """The labels as an array, a series (any index and name), or a list."""
    import pandas as pd

    n = len(y)
    how = rng.choice(["array", "series", "series", "list"])
    if how == "array":
        return y
    if how == "list":
        return y.tolist()
    index = rng.choice([None, rng.sample(range(n), n), list(range(3, n + 3)), ["r%d" % k for k in range(n)]])
    return pd.Series(y, index=index, name=rng.choice([None, "t", "target"]))


def problem(rng, k=None, d=None, only_cont=False):
    import numpy as np

    d = d or rng.randint(1, 3)
    kinds = ["cont"] * d if only_cont else [rng.choice(["cont", "cont", "bin", "cat", "ord", "poiss"]) for _ in range(d)]
    k = k or rng.choice([2, 2, 3, 4])
    n = rng.choice([24, 45, 90]) if k < 5 else 90
    x, g = D.features(rng, n, kinds)
    z = D.latent_signal(g, x)
    shape = rng.choice(["ordered", "free"])
    if shape == "ordered":
        codes = np.digitize(z + g.logistic(size=n), np.sort(g.normal(size=k - 1) * 1.2))
    else:
        codes = np.argmax(np.outer(z, g.normal(size=k)) + g.normal(size=k) * 0.5 + g.gumbel(size=(n, k)), axis=1)
    codes[rng.sample(range(n), k)] = np.arange(k)
    return x, codes, k, kinds, g


def target_of(rng, k):
    """target_dist_type given and the kind it stands for."""
    given = rng.choice([None, None, "ord", "cat"] + (["bin"] if k == 2 else []))
    return given, given or ("bin" if k == 2 else "cat")


def schema_kw(kinds, labels, rng=None):
    """The schema, in the order of the columns or (with rng) in any order."""
    if all(k == "cont" for k in kinds):
        return {}
    items = [((labels[j] if labels else j), k) for j, k in enumerate(kinds)]
    if rng is not None:
        rng.shuffle(items)
    return {"dist_type_schema": dict(items)}


def keywords(rng, given, hidden_ok=True):
    kw = D.parameters(rng, hidden_ok)
    kw.update(max_iter=rng.choice([1, 2, 5]), standardize=rng.random() < 0.3)
    if kw.get("beta", 0) == 0:
        kw["beta"] = 0.1        # classes that can be told apart exactly have no finite fit
    if given:
        kw["target_dist_type"] = given
    return kw


def coherent(ctx, model, rows, classes, what):
    """Predictions and probabilities of a fitted model at the rows; checks what any classifier promises."""
    import numpy as np

    proba = T.quiet(ctx, model.predict_proba, rows)
    pred = T.quiet(ctx, model.predict, rows)
    n, k = len(rows), len(classes)
    ctx.count("probabilities")
    ctx.check(isinstance(proba, np.ndarray) and proba.shape == (n, k), lambda: "%s: probabilities of shape %r for %d rows and %d classes" % (what, np.shape(proba), n, k))
    ctx.check(np.isfinite(proba).all() and (proba >= -1e-6).all() and (proba <= 1 + 1e-6).all() and (np.abs(proba.sum(axis=1) - 1) <= 1e-4).all(), lambda: "%s: probabilities %r" % (what, proba[:5]))
    ctx.check(isinstance(pred, np.ndarray) and pred.shape == (n,) and pred.dtype == classes.dtype, lambda: "%s: predictions %r (labels %r)" % (what, pred, classes))
    place = {v: c for c, v in enumerate(classes.tolist())}
    ctx.check(all(v in place for v in pred.tolist()), lambda: "%s: predictions %r are not labels" % (what, sorted(set(pred.tolist()), key=repr)))
    codes = np.array([place[v] for v in pred.tolist()])
    ctx.check((proba[np.arange(n), codes] >= proba.max(axis=1) - 1e-6).all(), lambda: "%s: predicted %r, probabilities %r" % (what, pred[:5], proba[:5]))
    return proba, pred


def basic(ctx, rng, i):
    """classes_, probabilities and predictions; linear models: the probabilities are those of coef_ and intercept_."""
    import numpy as np

    x, codes, k, kinds, g = problem(rng, only_cont=rng.random() < 0.7, k=rng.choice([10, 11, 12]) if rng.random() < 0.1 else None)
    classes = labels_of(rng, k)
    given, kind = target_of(rng, k)
    kw = keywords(rng, given)
    names = names_of(rng, x.shape[1]) if rng.random() < 0.6 else None
    X, Y = D.frame_of(rng, x, names), held(rng, classes[codes])
    kept = np.array(X, dtype=float), np.array(Y), getattr(Y, "name", None)
    schema = schema_kw(kinds, names, rng)
    model = fit(ctx, X, Y, **kw, **schema)
    what = "%r %r, labels %r as %s, %d rows" % (schema or kinds, kw, classes, type(Y).__name__, len(x))
    ctx.check(np.array_equal(np.array(X, dtype=float), kept[0]) and np.array_equal(np.array(Y), kept[1]) and getattr(Y, "name", None) == kept[2], "%s: the data was modified" % what)
    ctx.check(isinstance(model.classes_, np.ndarray) and model.classes_.tolist() == classes.tolist() and [type(v) for v in model.classes_.tolist()] == [type(v) for v in classes.tolist()],
              lambda: "%s: classes_ is %r" % (what, model.classes_))
    rows = x
    if all(t == "cont" for t in kinds):
        rows = np.vstack([x[:6], g.normal(size=(4, x.shape[1])) * 3])
        if rng.random() < 0.3:
            rows = np.round(rows).astype(int)
    classes = classes.astype(np.asarray(Y).dtype)
    proba, pred = coherent(ctx, model, D.frame_of(rng, rows, names) if rng.random() < 0.5 else rows, classes, what)
    one = rng.randrange(len(rows))
    ctx.check(D.same(T.quiet(ctx, model.predict_proba, rows[one:one + 1]), proba[one:one + 1], 1e-4), lambda: "%s: row %d alone has other probabilities" % (what, one))
    d, outputs = x.shape[1], k if kind == "cat" else 1
    if "cat" not in kinds:
        coef, intercept, importance = (np.asarray(v, dtype=float) for v in (model.coef_, model.intercept_, model.feature_importances_))
        ctx.check(coef.shape == (outputs, d) and importance.shape == (outputs, d) and intercept.shape == (outputs,), lambda: "%s: coef_ %r intercept_ %r" % (what, coef, intercept))
        ctx.check((importance >= 0).all() and (kw.get("fit_intercept", True) or (intercept == 0).all()), lambda: "%s: importances %r, intercept_ %r" % (what, importance, intercept))
        if not kw.get("hidden_layer_units"):
            cols = [j for j, t in enumerate(kinds) if t == "cont"]
            z = rows.astype(float)
            for j, t in enumerate(kinds):
                if t == "ord":
                    values = sorted(set(x[:, j].tolist()))
                    z[:, j] = [values.index(v) for v in rows[:, j].tolist()]
            if kw["standardize"] and cols:
                z[:, cols] = (z[:, cols] - x[:, cols].mean(axis=0)) / x[:, cols].std(axis=0)
            latent = z @ coef.T + intercept
            ref = T.Reference(codes.reshape(-1, 1).astype(float), [(0, kind)])
            want = ref.project(0, latent)
            if kind == "bin":
                want = np.column_stack([1 - want, want])
            ctx.check(D.same(importance, np.abs(coef), 1e-5), lambda: "%s: feature_importances_ %r, coef_ %r" % (what, importance, coef))
            ctx.count("linear_probabilities")
            tol = 1e-3 * max(1.0, float(np.abs(latent).max()))
            ctx.check(want.shape == proba.shape and (np.abs(want - proba) <= tol).all(), lambda: "%s: probabilities %r, of coef_ and intercept_ %r" % (what, proba[:5], want[:5]))
    ctx.case((what, float(x.sum())), len(set(pred.tolist())) > 1, {"what": what, "predicted": [str(v) for v in pred[:5].tolist()]})


def relabelled(ctx, rng, i):
    """Other labels of the same order, other containers and row labels: the same probabilities, and the predictions renamed."""
    import numpy as np

    x, codes, k, kinds, g = problem(rng)
    given, kind = target_of(rng, k)
    kw = keywords(rng, given)
    s = rng.randrange(1000)
    what = "%r %r, %d classes, %d rows" % (kinds, kw, k, len(x))
    base = fit(ctx, x, codes, s, **kw, **schema_kw(kinds, None))
    proba, pred = coherent(ctx, base, x, np.arange(k), what)
    for _ in range(2):
        classes = labels_of(rng, k)
        names = names_of(rng, x.shape[1]) if rng.random() < 0.6 else None
        Y = held(rng, classes[codes])
        model = fit(ctx, D.frame_of(rng, x, names), Y, s, **kw, **schema_kw(kinds, names))
        classes = classes.astype(np.asarray(Y).dtype)
        other, theirs = coherent(ctx, model, D.frame_of(rng, x, names) if rng.random() < 0.5 else x, classes, what)
        ctx.count("relabellings")
        ctx.check(D.same(other, proba, 1e-4), lambda: "%s: labelled %r (%s) the probabilities are %r, labelled 0.. %r" % (what, classes, type(Y).__name__, other[:4], proba[:4]))
    # an estimator which was fitted before, to other data with other classes, and a clone of it
    k2 = rng.choice([c for c in (2, 3, 4) if c != k])
    if given != "bin":
        codes2 = np.arange(len(x)) % k2
        rng.shuffle(codes2)
        T.seed(s)
        T.quiet(ctx, base.fit, x, codes2 + 5)
        coherent(ctx, base, x, np.arange(k2) + 5, what + " (%d classes)" % k2)
        T.seed(s)
        T.quiet(ctx, base.fit, x, codes)
        ctx.count("refits")
        again, _ = coherent(ctx, base, x, np.arange(k), what + " (again)")
        ctx.check(D.same(again, proba, 1e-5), lambda: "%s: a fit to %d classes in between changes the probabilities to %r from %r" % (what, k2, again[:4], proba[:4]))
    from sklearn.base import clone

    twin = clone(base)
    mine = base.get_params()
    ctx.check(all(twin.get_params()[p] == mine[p] for p in mine), lambda: "%s: clone has %r" % (what, twin.get_params()))
    ctx.check(mine["target_dist_type"] == given, lambda: "%s: target_dist_type became %r" % (what, mine["target_dist_type"]))
    ctx.case((what, float(x.sum())), True, {"what": what})


def optimum(ctx, rng, i):
    """The target has no children: its part of the model is an ordinary penalised logistic, multinomial or ordinal regression."""
    import numpy as np

    x, codes, k, kinds, g = problem(rng)
    given, kind = target_of(rng, k)
    kw = {"alpha": rng.choice([0.0, 0.0, 0.05]), "beta": rng.choice([0.1, 0.5]), "fit_intercept": rng.random() < 0.6}
    if given:
        kw["target_dist_type"] = given
    model = fit(ctx, x, labels_of(rng, k)[codes], **kw, **schema_kw(kinds, None))
    what = "%r %r, %d classes, %d rows" % (kinds, kw, k, len(x))
    d = x.shape[1]
    ref = T.Reference(np.column_stack([x, codes]), list(enumerate(kinds)) + [(d, kind)])
    weights = T.Weights(model.graph_.graph["structure_learner"], ref.d, [])
    src = [c for c in range(ref.d) if ref.owner[c] != d]
    w = weights.dag[ref.groups[d], 0][:, src].T
    b = weights.bias[ref.groups[d], 0] if weights.bias is not None else np.zeros(len(ref.groups[d]))
    best, value = D.target_optimum(ref, d, kw["alpha"], kw["beta"], kw["fit_intercept"])
    have, unit = value(w, b), max(0.1, abs(best))
    ctx.count("optima")
    ctx.check(-1e-4 * unit <= have - best <= 0.05 * unit, lambda: "%s: the target's part of the objective is %r, its optimum %r (weights %r, bias %r)" % (what, have, best, w, b))
    if have - best > 5e-3 * unit:
        ctx.count("gaps_above_0.5%")
        ctx.notes.append(what)
    ctx.case((what, float(x.sum())), True, {"what": what, "objective": have, "optimum": best})


def graph(ctx, rng, i):
    """graph_ is what from_pandas learns from the features and the class numbers."""
    import networkx as nx
    import numpy as np
    import pandas as pd

    from causalnex.structure.pytorch import from_pandas

    x, codes, k, kinds, g = problem(rng)
    d, given_kind = x.shape[1], target_of(rng, k)
    given, kind = given_kind
    names = names_of(rng, d)
    name = rng.choice([None, "t"])
    tname = name or "__target"
    kw = D.parameters(rng)
    kw["max_iter"] = rng.choice([1, 2])
    if given:
        kw["target_dist_type"] = given
    con = T.constraints(rng, names)
    if rng.random() < 0.3:
        con.setdefault("tabu_edges", []).append((rng.choice(names), tname))
    if rng.random() < 0.4:
        kw["threshold"] = rng.choice([0.01, 0.1, 0.3])
    frozen = {c: list(v) for c, v in con.items()}
    s, enforce = rng.randrange(1000), rng.random() < 0.4
    model = fit(ctx, D.frame_of(rng, x, names), pd.Series(labels_of(rng, k)[codes], name=name), s, enforce_dag=enforce, **kw, **con, **schema_kw(kinds, names))
    what = "%r %r %r, %d classes as %s" % (kinds, kw, con, k, kind)
    ctx.check({c: list(v) for c, v in con.items()} == frozen, lambda: "%s: the constraints were modified" % what)
    parents = list(con.get("tabu_parent_nodes") or [])
    if kw.get("dependent_target", True):
        parents.append(tname)
    frame = pd.DataFrame({c: v for c, v in zip(names + [tname], list(x.T) + [codes])})
    T.seed(s)
    direct = T.quiet(ctx, from_pandas, frame, dist_type_schema=dict(zip(names + [tname], kinds + [kind])), lasso_beta=kw.get("alpha", 0.0), ridge_beta=kw.get("beta", 0.0),
                     use_bias=kw.get("fit_intercept", True), hidden_layer_units=kw.get("hidden_layer_units"), w_threshold=kw.get("threshold", 0.0), max_iter=kw["max_iter"],
                     tabu_edges=con.get("tabu_edges"), tabu_parent_nodes=parents or None, tabu_child_nodes=con.get("tabu_child_nodes"))
    if enforce:
        direct.threshold_till_dag()
        ctx.check(nx.is_directed_acyclic_graph(model.graph_), lambda: "%s: enforce_dag leaves a cycle" % what)
    ctx.count("graphs_compared")
    ctx.check(D.graphs_equal(model.graph_, direct), lambda: "%s: graph_ has %r, from_pandas gives %r" % (what, sorted(model.graph_.edges(data="weight"), key=repr), sorted(direct.edges(data="weight"), key=repr)))
    own = [tname] if kind != "cat" else [v for v in model.graph_.nodes if v == tname or str(v).startswith(tname) and str(v)[len(tname):].isdigit()]
    ctx.check(len(own) == (k if kind == "cat" else 1), lambda: "%s: target nodes %r" % (what, own))
    if kw.get("dependent_target", True):
        ctx.check(not any(list(model.graph_.successors(v)) for v in own), "%s: the dependent target has children" % what)
    if "cat" not in kinds:
        feature_only = [[float(model.graph_.edges[u, v]["weight"]) if model.graph_.has_edge(u, v) else 0.0 for u in names] for v in own]
        if not any(u in own for u, v in model.graph_.edges if v in own):
            order = sorted(range(len(own)), key=lambda c: int(str(own[c])[len(tname):] or 0))
            ctx.check(D.same(model.feature_importances_, [feature_only[c] for c in order]), lambda: "%s: feature_importances_ %r, edge weights %r" % (what, model.feature_importances_, feature_only))
    ctx.case((what, float(x.sum())), bool(direct.edges), {"what": what[:300]})


def rejected(ctx, rng, i):
    import numpy as np

    from causalnex.structure import DAGClassifier

    kind = i % 4
    if kind == 0:
        D.constructor_errors(ctx, rng, DAGClassifier, ["cont", "poiss", "nonsense", ""], i // 4 + 4 * ctx.worker)
    elif kind == 1:
        D.data_errors(ctx, rng, DAGClassifier, [0, 1, 3, 4][(i // 4 + ctx.worker) % 4])
    elif kind == 2:
        D.unfitted(ctx, rng, DAGClassifier, i // 4 + ctx.worker)
    else:
        g = np.random.default_rng(rng.getrandbits(40))
        x = g.normal(size=(12, 2))
        y = [np.zeros(12), np.array(["a"] * 12), g.normal(size=12), np.ones(12, dtype=bool), np.linspace(0, 1, 12)][(i // 4 + ctx.worker) % 5]
        ctx.raises((ValueError,), DAGClassifier().fit, x, held(rng, y))
        ctx.count("rejections")
    ctx.case((kind, i, ctx.worker), True, {"kind": kind})


def finish(ctx):
    total, far = ctx.counters.get("optima", 0), ctx.counters.get("gaps_above_0.5%", 0)
    if total >= 8:
        ctx.check(far <= max(3, 0.2 * total), lambda: "%d of %d targets are more than 0.5%% above their optimum; the last: %s" % (far, total, ctx.notes[-1]))


FAMILIES = {"rejected": (rejected, 12, 40), "basic": (basic, 20, 250), "relabelled": (relabelled, 7, 120), "optimum": (optimum, 9, 150), "graph": (graph, 7, 120)}

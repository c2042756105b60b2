"""C33: predictions are the rows of the network's tables, or exact posteriors where parents are missing, in terms of states."""
from rv import libshim
from rv.checks import netcommon as N

PROPERTY = "C33"
INTERPRETER = "vt"
RULE = ("fitted networks of 2..6 nodes; for each node, data with all its parents (and any other columns, the node's own included or not, any row labels) or lacking some of them; "
        "predicted probabilities compared with the network's CPDs, or with enumeration. Distinct by structure, states and columns; non-trivial when the node has parents")
NEED = {"complete_rows": 5000, "incomplete_rows": 800, "probabilities_compared": 15000, "own_column_absent": 300, "roots": 200, "states_not_indices": 300}
ASSUMPTIONS = ["pandas and pgmpy are the stand-ins in rv/shims", "with parents missing, a predicted state may be a most likely one either by itself or as part of a most likely joint assignment"]
CAP = (150, 700)


def setup(ctx):
    libshim.install()


def test_data(rng, p, node, parents_known, positive):
    """Some rows, as a list of {column: state}, with the columns that are given."""
    hidden = set()
    if not parents_known:
        hidden |= set(rng.sample(p.parents[node], rng.randint(1, len(p.parents[node]))))
    others = [v for v in p.names if v != node and v not in p.parents[node]]
    hidden |= set(v for v in others if rng.random() < 0.4)
    if rng.random() < 0.5:
        hidden.add(node)
    given = [v for v in p.names if v not in hidden]
    if not given:
        given = [node]
    rows = []
    for _ in range(rng.choice([1, 2, 6, 12] if parents_known else [1, 3, 5])):
        if positive:
            k = rng.randrange(p.rows)
            rows.append({v: p.columns[v][k] for v in given})
        else:
            rows.append({v: rng.choice(p.states[v]) for v in given})
    return given, rows


def predictions(ctx, rng, i):
    import itertools

    import pandas as pd

    p = N.random_problem(rng)
    while N.size_of(p) > 600:
        p = N.random_problem(rng)
    kind, size, kw = N.estimator(rng)
    bn, data = N.fit(ctx, rng, p, kw)
    tables = N.tables_of(bn)
    for _ in range(3):
        node = rng.choice(p.names)
        known = not p.parents[node] or rng.random() < 0.6
        given, rows = test_data(rng, p, node, known, kind == "mle")
        known = all(u in given for u in p.parents[node])
        order = rng.sample(given, len(given))
        index = rng.choice([None, rng.sample(range(100), len(rows)), ["r%d" % k for k in range(len(rows))]])
        frame = pd.DataFrame({c: [r[c] for r in rows] for c in order}, index=index)
        labels = list(frame.index)
        what = "edges %r, states %r, %r; predicting %r from %r" % (p.edges, p.states, kw, node, rows[:6])
        for method in rng.sample(["predict", "probability"], 2):
            kept = frame.copy()
            got = ctx.call(bn.predict if method == "predict" else bn.predict_probability, frame, node)
            ctx.check(list(frame.columns) == list(kept.columns) and all(list(frame[c]) == list(kept[c]) for c in order) and list(frame.index) == labels, what + ": the data were changed")
            ctx.check(list(got.index) == labels, lambda: "%s: rows %r become %r" % (what, labels, list(got.index)))
            columns = ["%s_prediction" % node] if method == "predict" else ["{}_{}".format(node, s) for s in p.states[node]]
            ctx.check(sorted(got.columns) == sorted(columns), lambda: "%s: columns %r, should be %r" % (what, list(got.columns), columns))
            for k, row in enumerate(rows):
                ctx.count("complete_rows" if known else "incomplete_rows")
                if known:
                    names, table = tables[node]
                    dist = table[tuple(row[u] for u in names)]
                    joint_best = set()
                else:
                    evidence = {v: s for v, s in row.items() if v != node}
                    dist = N.posterior(tables, p.states, evidence)[0][node]
                    joint_best = None
                if method == "probability":
                    for s, c in zip(p.states[node], columns):
                        ctx.count("probabilities_compared")
                        x = float(got[c].tolist()[k])
                        ctx.check((x == 0 if dist[s] == 0 else abs(x - dist[s]) <= 1e-9 * dist[s]), lambda: "%s: row %d, probability of %r is %r, should be %r" % (what, k, s, x, dist[s]))
                else:
                    s = got[columns[0]].tolist()[k]
                    ctx.count("states_not_indices", p.states[node] != list(range(len(p.states[node]))))
                    ctx.check(s in dist and isinstance(s, str) == isinstance(p.states[node][0], str), lambda: "%s: row %d, prediction %r is not a state" % (what, k, s))
                    top = max(dist.values())
                    ok = dist[s] >= top - 1e-12
                    if not ok and joint_best is None:
                        ok = s in joint_modes(p, tables, {v: x for v, x in row.items() if v != node}, node)
                    ctx.check(ok, lambda: "%s: row %d, prediction %r, probabilities %r" % (what, k, s, dist))
        ctx.count("own_column_absent", node not in given)
        ctx.count("roots", not p.parents[node])
    ctx.case((repr(p.edges), repr(p.states), tuple(order), node), bool(p.parents[node]), {"what": what[:300]})


def joint_modes(p, tables, evidence, node):
    import itertools

    best, modes = -1.0, set()
    names = p.names
    for states in itertools.product(*[[evidence[v]] if v in evidence else p.states[v] for v in names]):
        full = dict(zip(names, states))
        x = 1.0
        for v in names:
            parents, table = tables[v]
            x *= table[tuple(full[u] for u in parents)][full[v]]
        if x > best * (1 + 1e-12):
            best, modes = x, {full[node]}
        elif x >= best * (1 - 1e-12):
            modes.add(full[node])
    return modes


FAMILIES = {"predictions": (predictions, 390, 3000)}

"""C34: the evaluation reports are computed from each state's own truth and prediction."""
from rv import libshim
from rv.checks import netcommon as N

PROPERTY = "C34"
INTERPRETER = "vt"
RULE = ("fitted networks over twelve kinds of states (multi-digit integers, names that share characters with the node's, case variants), test data with states missing from it and columns beyond the parents; "
        "the ROC and its area are recomputed from the network's CPDs by rank statistics, and the report from its predictions by counting. Distinct by node, states and data; "
        "non-trivial when several probabilities occur")
NEED = {"reports": 600, "curves": 600, "points": 2000, "missing_states": 150, "awkward_order": 150, "prefix_states": 40}
ASSUMPTIONS = ["pandas, pgmpy and sklearn.metrics are the stand-ins in rv/shims", "the node has at least two states, all states of the test data are known and all parents are in the test data"]
CAP = (150, 700)


def setup(ctx):
    libshim.install()


def evaluate(ctx, rng, i):
    import pandas as pd

    from causalnex.evaluation import classification_report, roc_auc

    p = N.random_problem(rng)
    if rng.random() < 0.5:
        v = rng.choice(p.names)
        p.states[v] = sorted(rng.choice([[2, 10, 1], [v + "_", "x", v], ["9", "10", "1"], [v + "1", "1", "0"], [-1, -10, 2], ["_a", "a", "b_"]]))
        p.columns[v] = [rng.choice(p.states[v]) for _ in range(p.rows)]
        node = v
    else:
        node = rng.choice(p.names)
    kind, size, kw = N.estimator(rng)
    bn, data = N.fit(ctx, rng, p, kw, full_states=True)
    states = p.states[node]
    if len(states) < 2:
        return
    tables = N.tables_of(bn)
    n = rng.choice([1, 3, 10, 40])
    rows = [{v: rng.choice(p.states[v]) for v in p.names} for _ in range(n)]
    columns = [v for v in p.names if v == node or v in p.parents[node] or rng.random() < 0.7]
    rng.shuffle(columns)
    index = rng.choice([None, rng.sample(range(100), n)])
    test = pd.DataFrame({c: [r[c] for r in rows] for c in columns}, index=index)
    kept = test.copy()
    what = "node %r, states %r, %r" % (node, states, [(r[node], [r[u] for u in p.parents[node]]) for r in rows[:5]])
    names, table = tables[node]
    dists = [table[tuple(r[u] for u in names)] for r in rows]
    pairs = [(d[s], r[node] == s) for r, d in zip(rows, dists) for s in states]
    positive, negative = [x for x, t in pairs if t], [x for x, t in pairs if not t]
    wins = sum((a > b) + 0.5 * (a == b) for a in positive for b in negative)
    want = wins / (len(positive) * len(negative))
    roc, auc = ctx.call(roc_auc, bn, test, node)
    ctx.count("curves")
    ctx.count("missing_states", len({r[node] for r in rows}) < len(states))
    ctx.count("awkward_order", sorted(map(str, states)) != [str(s) for s in states])
    ctx.count("prefix_states", any(isinstance(s, str) and s[:1] in node + "_" for s in states))
    ctx.check(abs(float(auc) - want) <= 1e-9, lambda: "%s: area %r, should be %r (truth and score %r)" % (what, auc, want, pairs[:12]))
    points = [(sum(x >= t for x in negative) / len(negative), sum(x >= t for x in positive) / len(positive)) for t in sorted({x for x, _ in pairs})] + [(0.0, 0.0)]
    ctx.check([float(z) for z in roc[0]] == [0, 0] and [float(z) for z in roc[-1]] == [1, 1], lambda: "%s: the curve %r does not lead from (0,0) to (1,1)" % (what, roc))
    for a in roc:
        ctx.count("points")
        ctx.check(any(abs(float(a[0]) - b[0]) <= 1e-9 and abs(float(a[1]) - b[1]) <= 1e-9 for b in points), lambda: "%s: point %r of the curve belongs to no threshold: %r" % (what, a, points))
    report = ctx.call(classification_report, bn, test, node)
    ctx.count("reports")
    predicted = bn.predict(test, node)["%s_prediction" % node].tolist()
    for s in states:
        entry = report.get("{}_{}".format(node, s))
        ctx.check(entry is not None, lambda: "%s: no entry for state %r in %r" % (what, s, list(report)))
        both = sum(r[node] == s and q == s for r, q in zip(rows, predicted))
        said, true = sum(q == s for q in predicted), sum(r[node] == s for r in rows)
        precision, recall = both / said if said else 0.0, both / true if true else 0.0
        ctx.check(abs(entry["precision"] - precision) <= 1e-12 and abs(entry["recall"] - recall) <= 1e-12 and entry["support"] == true,
                  lambda: "%s: entry of %r is %r, should be precision %r recall %r support %r" % (what, s, entry, precision, recall, true))
    accuracy = sum(r[node] == q for r, q in zip(rows, predicted)) / n
    ctx.check(abs(report.get("accuracy", accuracy) - accuracy) <= 1e-12, lambda: "%s: accuracy %r, should be %r" % (what, report.get("accuracy"), accuracy))
    ctx.check(list(test.columns) == list(kept.columns) and all(list(test[c]) == list(kept[c]) for c in columns), what + ": the data were changed")
    ctx.case((node, repr(states), repr(rows[:3])), len(set(x for x, _ in pairs)) > 2, {"what": what[:300], "auc": want})


FAMILIES = {"evaluate": (evaluate, 420, 3000)}

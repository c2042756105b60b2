"""C47: a network in which every two variables are joined answers with the frequencies of the data it was fitted to."""
import bisect
import itertools

from rv.checks import infcommon as I
from rv.checks import netcommon as N

PROPERTY = "C47"
INTERPRETER = "vt"
RULE = ("the whole way from data to answers: 2..4 columns of states or of numbers discretised at random split points, 5..150 rows, a StructureModel pruned to a random complete DAG, maximum likelihood, "
        "then queries, predictions and interventions; the oracle counts (or, under interventions, weighs by inverse propensity) rows of the data and reads no table. Distinct by data and order; non-trivial with three or more variables")
NEED = {"queries": 3000, "answers_compared": 20000, "predictions_compared": 6000, "interventions": 300, "discretised": 300}
ASSUMPTIONS = ["pandas, pgmpy and scikit-learn's base classes are the stand-ins in rv/shims", "types.CodeType takes the arguments of Python 3.8 (rv/py38code.py)"]
CAP = (150, 700)


def setup(ctx):
    I.setup(ctx)


def dataset(ctx, rng):
    """names, columns of states, and for each discretised column how."""
    import numpy as np

    from causalnex.discretiser import Discretiser

    n = rng.choice([2, 3, 3, 4])
    names = rng.choice(N.NAMES)(rng, n)
    rows = rng.choice([5, 20, 60, 150])
    hidden = [rng.gauss(0, 1) for _ in range(rows)]
    columns = {}
    for v in names:
        shift = rng.uniform(0, 1.5)
        values = [shift * h + rng.gauss(0, 1) for h in hidden]
        splits = sorted(set(round(rng.uniform(-1.5, 1.5), 1) for _ in range(rng.randint(1, 2))))
        buckets = [bisect.bisect_right(splits, x) for x in values]
        if rng.random() < 0.4:
            got = ctx.call(ctx.call(Discretiser, method="fixed", numeric_split_points=splits).transform, np.array(values))
            ctx.check(got.tolist() == buckets, lambda: "discretising %r at %r gives %r" % (values, splits, got))
            ctx.count("discretised")
            columns[v] = got.tolist()
        else:
            pool = [s for s in rng.choice([s for s in N.STATES if len(s) >= 3])]
            rng.shuffle(pool)
            columns[v] = [pool[b] for b in buckets]
    return names, columns, rows


def network(ctx, rng, names, columns):
    """A complete DAG over the names in a random order, left over from a denser weighted graph by pruning."""
    from causalnex.network import BayesianNetwork
    from causalnex.structure import StructureModel

    order = rng.sample(names, len(names))
    edges = [(u, v, rng.choice([-1, 1]) * rng.uniform(0.5, 2)) for u, v in itertools.combinations(order, 2)]
    noise = [(v, u, rng.choice([-1, 1]) * rng.uniform(0.01, 0.4)) for u, v, w in edges if rng.random() < 0.5]
    everything = edges + noise
    rng.shuffle(everything)
    sm = StructureModel()
    if rng.random() < 0.5:
        ctx.call(sm.add_weighted_edges_from, everything, origin="learned")
    else:
        for u, v, w in everything:
            ctx.call(sm.add_edge, u, v, origin="expert", weight=w)
    if rng.random() < 0.5:
        ctx.call(sm.remove_edges_below_threshold, 0.45)
    else:
        for u, v, w in noise:
            sm.remove_edge(u, v)
    if rng.random() < 0.3:
        sm = ctx.call(sm.get_largest_subgraph)
    elif rng.random() < 0.3:
        sm = ctx.call(sm.get_target_subgraph, rng.choice(names))
    data = frame(rng, names, columns)
    bn = ctx.call(BayesianNetwork, sm)
    if rng.random() < 0.5:
        ctx.call(bn.fit_node_states_and_cpds, data)
    else:
        ctx.call(bn.fit_node_states, data)
        ctx.call(bn.fit_cpds, data, method="MaximumLikelihoodEstimator")
    return order, bn


def frame(rng, names, columns):
    import pandas as pd

    return pd.DataFrame({v: list(columns[v]) for v in rng.sample(list(names), len(names))})


def shares(names, columns, weights, obs):
    """The weighted frequency of every state of every variable among the rows that match the observations."""
    match = [k for k in range(len(weights)) if weights[k] and all(columns[v][k] == s for v, s in obs.items())]
    total = sum(weights[k] for k in match)
    out = {v: {s: 0.0 for s in set(columns[v])} for v in names}
    for k in match:
        for v in names:
            out[v][columns[v][k]] += weights[k] / total
    return out


def compare(ctx, ie, names, columns, weights, obs, what):
    got = ctx.call(ie.query, dict(obs)) if obs else ctx.call(ie.query)
    want = shares(names, columns, weights, obs)
    ctx.count("queries")
    for v in names:
        ctx.check(set(got[v]) == set(want[v]), lambda: "%s: states of %r are %r, in the data %r" % (what, v, list(got[v]), list(want[v])))
        for s, x in want[v].items():
            ctx.count("answers_compared")
            ctx.check((float(got[v][s]) == 0 if x == 0 else abs(float(got[v][s]) - x) <= 1e-9 * x), lambda: "%s: P(%s=%r | %r) is %r, the frequency in the data %r" % (what, v, s, obs, got[v][s], x))


def saturated(ctx, rng, i):
    import pandas as pd

    from causalnex.inference import InferenceEngine

    names, columns, rows = dataset(ctx, rng)
    order, bn = network(ctx, rng, names, columns)
    ie = ctx.call(InferenceEngine, bn)
    what = "data %r, order %r" % ({v: c[:20] for v, c in columns.items()}, order)
    plain = [1.0] * rows

    def observed(among):
        k = rng.choice(among)
        return {v: columns[v][k] for v in rng.sample(names, rng.randint(0, len(names)))}

    for _ in range(4):
        compare(ctx, ie, names, columns, plain, observed(range(rows)), what)
    # predictions from any columns of the data
    for _ in range(2):
        node = rng.choice(names)
        given = rng.sample(names, rng.randint(1, len(names)))
        parents = order[:order.index(node)]
        ks = [rng.randrange(rows) for _ in range(3)]
        test = pd.DataFrame({v: [columns[v][k] for k in ks] for v in given})
        got = ctx.call(bn.predict_probability, test, node)
        best = ctx.call(bn.predict, test, node)
        for r, k in enumerate(ks):
            known = parents if set(parents) <= set(given) else [v for v in given if v != node]
            want = shares(names, columns, plain, {v: columns[v][k] for v in known})[node]
            for s, x in want.items():
                ctx.count("predictions_compared")
                ctx.check(abs(float(got["%s_%s" % (node, s)].iloc[r]) - x) <= 1e-9, lambda: "%s: from %r, %r=%r is predicted with %r, its frequency is %r" % (what, test.iloc[r], node, s, got["%s_%s" % (node, s)].iloc[r], x))
            if set(parents) <= set(given):
                shown = N.plain(best["%s_prediction" % node].iloc[r])
                ctx.check(shown in want and want[shown] >= max(want.values()) - 1e-9, lambda: "%s: from %r, %r is predicted to be %r; frequencies %r" % (what, test.iloc[r], node, shown, want))
    # interventions: rows are weighed by the inverse of the frequency of what they happened to be given their parents
    weights, done = list(plain), set()
    for node in rng.sample(order[:-1], rng.randint(1, len(order) - 1)):
        if len(set(order) - done) <= 2 and len(order) > 2:
            break
        parents = order[:order.index(node)]
        groups = {}
        for k in range(rows):
            groups.setdefault(tuple(columns[u][k] for u in parents), []).append(columns[node][k])
        possible = [s for s in sorted(set(columns[node])) if all(s in g for g in groups.values())]
        if not possible:
            continue
        shift = {s: rng.random() + 0.05 for s in possible if rng.random() < 0.6} or {rng.choice(possible): 1.0}
        total = sum(shift.values())
        shift = {s: x / total for s, x in shift.items()}
        request = {s: shift.get(s, 0.0) for s in set(columns[node])}
        if len(shift) == 1 and rng.random() < 0.7:
            request = list(shift)[0]
        ctx.call(ie.do_intervention, node, request)
        done.add(node)
        ctx.count("interventions")
        for k in range(rows):
            g = groups[tuple(columns[u][k] for u in parents)]
            weights[k] *= shift.get(columns[node][k], 0.0) * len(g) / g.count(columns[node][k])
        for _ in range(2):
            alive = [k for k in range(rows) if weights[k] > 0]
            compare(ctx, ie, names, columns, weights, observed(alive), what + ", intervention on %r with %r" % (node, shift))
    for node in done:
        ctx.call(ie.reset_do, node)
    compare(ctx, ie, names, columns, plain, observed(range(rows)), what + ", after resets")
    ctx.case((what,), len(names) > 2, {"what": what[:300]})


FAMILIES = {"saturated": (saturated, 240, 3000)}

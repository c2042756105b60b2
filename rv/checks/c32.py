"""C32: a BayesianNetwork accepts exactly connected DAGs, and its CPDs are the estimator's counts under the right labels."""
import itertools

from rv import libshim
from rv.checks import netcommon as N

PROPERTY = "C32"
INTERPRETER = "vt"
RULE = ("'cpds': connected networks of 2..6 nodes with up to four parents, twelve kinds of states (given or taken from the data), data of 1..60 rows, three estimators; the tables are compared, "
        "label by label, with counts made by the harness; refits and rejected fits follow. 'structure': random directed graphs with cycles, loops and several components. 'states': incomplete and null states. "
        "Distinct by structure, states and estimator; non-trivial with parents of several states")
NEED = {"cells_compared": 20000, "fits": 700, "unobserved_parents": 300, "structures_rejected": 300, "structures_accepted": 200, "states_rejected": 200, "fits_rejected": 200, "refits": 200}
ASSUMPTIONS = ["pandas and pgmpy are the stand-ins in rv/shims; how a column without observations is filled is pgmpy's choice (uniform)", "nodes are strings"]
CAP = (150, 700)


def setup(ctx):
    libshim.install()


def compare(ctx, bn, p, kind, size, what):
    cpds = ctx.call(lambda: bn.cpds)
    want = N.counted(p, kind, size)
    ctx.check(set(cpds) == set(p.names), lambda: "%s: tables of %r" % (what, list(cpds)))
    for v in p.names:
        cpd = cpds[v]
        ctx.check(list(cpd.index) == p.states[v] and cpd.index.name == v, lambda: "%s: rows of %r are %r (%r), should be %r" % (what, v, list(cpd.index), cpd.index.name, p.states[v]))
        names = [n for n in cpd.columns.names if n is not None]
        ctx.check(sorted(names) == p.parents[v], lambda: "%s: column levels of %r are %r, its parents %r" % (what, v, names, p.parents[v]))
        labels = [() if not names else tuple(c) if isinstance(c, tuple) else (c,) for c in cpd.columns]
        ctx.check(sorted(labels, key=repr) == sorted(itertools.product(*[p.states[u] for u in names]), key=repr) if all(type(a) is type(b) for a, b in zip(labels[0], [p.states[u][0] for u in names]))
                  else len(set(labels)) == len(want[v]), lambda: "%s: columns of %r are %r" % (what, v, labels))
        for k, label in enumerate(labels):
            by_name = dict(zip(names, label))
            key = tuple(by_name[u] for u in p.parents[v])
            ctx.check(key in want[v], lambda: "%s: column %r of %r is no combination of its parents' states" % (what, label, v))
            for j, s in enumerate(p.states[v]):
                ctx.count("cells_compared")
                x = float(cpd.values[j, k])
                ctx.check(abs(x - want[v][key][j]) <= 1e-10 * want[v][key][j], lambda: "%s: P(%s=%r | %r) is %r, should be %r" % (what, v, s, by_name, x, want[v][key][j]))
        seen = set(tuple(p.columns[u][k] for u in p.parents[v]) for k in range(p.rows))
        ctx.count("unobserved_parents", len(want[v]) - len(seen))


def same(a, b):
    return list(a.columns) == list(b.columns) and list(a.index) == list(b.index) and all(list(a[c]) == list(b[c]) for c in a.columns)


def cpds(ctx, rng, i):
    p = N.random_problem(rng)
    kind, size, kw = N.estimator(rng)
    extra = rng.random() < 0.2
    what = "edges %r, states %r, %d rows, %r" % (p.edges, p.states, p.rows, kw)
    bn, data = N.fit(ctx, rng, p, kw)
    ctx.count("fits")
    kept = N.frame(rng, p, order=list(data.columns))
    ctx.check(same(data, kept), what + ": fitting changed the data")
    ctx.check(isinstance(bn.nodes, list) and isinstance(bn.edges, list), lambda: "nodes %r and edges %r are no lists" % (bn.nodes, bn.edges))
    ctx.check(set(bn.nodes) == set(p.names) and len(bn.nodes) == len(p.names) and set(bn.edges) == set(p.edges) and len(bn.edges) == len(p.edges),
              lambda: "%s: nodes %r edges %r" % (what, bn.nodes, bn.edges))
    ctx.check({v: set(s) for v, s in p.states.items()} == bn.node_states, lambda: "%s: node_states %r" % (what, bn.node_states))
    compare(ctx, bn, p, kind, size, what)
    if rng.random() < 0.5:
        # what a caller does to the tables handed out stays with the caller
        handed = bn.cpds
        v = rng.choice(p.names)
        handed[v].iloc[0, 0] = 7.0
        handed.pop(rng.choice(p.names))
        states = bn.node_states
        states.pop(v)
        compare(ctx, bn, p, kind, size, what + ", after a change to the tables handed out")
    if rng.random() < 0.4:
        bad = rng.choice([{"method": "Other"}, {"method": "BayesianEstimator"}, {"method": "BayesianEstimator", "bayes_prior": "k2"}, {"method": "BayesianEstimator", "bayes_prior": "Dirichlet"},
                          {"method": "maximumlikelihoodestimator"}, {"method": None}])
        ctx.raises(ValueError, bn.fit_cpds, data, **bad)
        ctx.count("fits_rejected")
        ctx.check(same(data, kept), what + ": a rejected fit changed the data")
        compare(ctx, bn, p, kind, size, what + ", after rejecting %r" % bad)
    if rng.random() < 0.4:
        rows = rng.randint(1, p.rows)
        p.columns = {v: c[:rows] for v, c in p.columns.items()}
        p.rows = rows
        kind, size, kw = N.estimator(rng)
        columns = dict(p.columns, unrelated=[None] * rows) if False else p.columns
        ctx.call(bn.fit_cpds, N.frame(rng, p, columns), **kw)
        ctx.count("refits")
        compare(ctx, bn, p, kind, size, what + ", refitted with %r to %d rows" % (kw, rows))
    ctx.case((repr(p.edges), repr(p.states), kind), any(len(t) > 1 for t in N.counted(p, kind, size).values()), {"what": what[:300]})


def structure(ctx, rng, i):
    import networkx as nx

    from causalnex.network import BayesianNetwork
    from causalnex.structure import StructureModel

    n = rng.randint(2, 7)
    names = rng.choice(N.NAMES)(rng, n)
    m = rng.choice([n - 1, n - 1, n, n + 2])
    if rng.random() < 0.5:
        order = rng.sample(names, n)
        edges = {tuple(sorted(rng.sample(order, 2), key=order.index)) for _ in range(m)}
    else:
        edges = {(rng.choice(names), rng.choice(names)) for _ in range(m)}
    if rng.random() < 0.4:
        edges |= set(zip(names, names[1:]))
    sm = StructureModel()
    edges = rng.sample(sorted(edges), len(edges))
    sm.add_edges_from(edges, origin="expert", weight=3)
    if rng.random() < 0.2:
        sm.add_node(rng.choice(names))
    if not edges:
        return
    ok = weakly_connected(list(sm.nodes), edges) and acyclic(edges)
    before = list(sm.edges(data=True))
    if ok:
        bn = ctx.call(BayesianNetwork, sm)
        ctx.count("structures_accepted")
        ctx.check(set(bn.nodes) == set(sm.nodes) and sorted(bn.edges) == sorted(edges) and len(bn.nodes) == len(sm.nodes), lambda: "edges %r: nodes %r edges %r" % (edges, bn.nodes, bn.edges))
        ctx.check(bn.structure is sm or (set(bn.structure.edges) == set(edges)), "structure is another one")
        ctx.check(ctx.call(lambda: bn.cpds) == {}, "CPDs before any fit")
    else:
        ctx.raises(ValueError, BayesianNetwork, sm)
        ctx.count("structures_rejected")
    ctx.check(list(sm.edges(data=True)) == before, "the structure was changed")
    ctx.case(repr(sorted(edges)), True, {"edges": repr(edges), "accepted": ok})


def weakly_connected(nodes, edges):
    seen, todo = set(), [nodes[0]]
    while todo:
        v = todo.pop()
        if v not in seen:
            seen.add(v)
            todo += [b for a, b in edges if a == v] + [a for a, b in edges if b == v]
    return len(seen) == len(nodes)


def acyclic(edges):
    left = set(edges)
    while left:
        heads = {b for _, b in left}
        sources = {e for e in left if e[0] not in heads}
        if not sources:
            return False
        left -= sources
    return True


def states(ctx, rng, i):
    import numpy as np

    from causalnex.network import BayesianNetwork
    from causalnex.structure import StructureModel

    p = N.random_problem(rng)
    sm = StructureModel()
    sm.add_edges_from(p.edges)
    bn = ctx.call(BayesianNetwork, sm)
    good = {v: set(s) for v, s in p.states.items()}
    if rng.random() < 0.7:
        bn.node_states = good
        earlier = good
    else:
        earlier = None
    victim = rng.choice(p.names)
    kind = rng.choice(["missing", "null", "missing in data", "null in data"])
    null = rng.choice([None, float("nan")])
    if kind == "missing":
        ctx.raises(KeyError, setattr, bn, "node_states", {v: s for v, s in good.items() if v != victim})
    elif kind == "null":
        ctx.raises(ValueError, setattr, bn, "node_states", {v: (set(s) | {null} if v == victim else s) for v, s in good.items()})
    elif kind == "missing in data":
        if len(p.names) > 1:
            columns = {v: c for v, c in p.columns.items() if v != victim}
            if rng.random() < 0.5:
                columns["other"] = [1] * p.rows
            ctx.raises(KeyError, bn.fit_node_states, N.frame(rng, p, columns))
    else:
        columns = {v: list(c) for v, c in p.columns.items()}
        columns[victim][rng.randrange(p.rows)] = null
        ctx.raises(ValueError, bn.fit_node_states, N.frame(rng, p, columns))
    ctx.count("states_rejected")
    if earlier is not None:
        ctx.check(bn.node_states == earlier, lambda: "after rejected states (%s), node_states are %r, were %r" % (kind, bn.node_states, earlier))
    more = {"unrelated": {1, 2}} if rng.random() < 0.3 else {}
    bn.node_states = dict(good, **more)
    ctx.check({v: s for v, s in bn.node_states.items() if v not in more} == good, lambda: "node_states %r, given %r" % (bn.node_states, good))
    ctx.case((kind, repr(p.states)), True, {"kind": kind})


FAMILIES = {"cpds": (cpds, 300, 2500), "structure": (structure, 300, 2000), "states": (states, 120, 400)}

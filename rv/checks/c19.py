"""C19: pruning by weight keeps exactly the edges it should, with their data, and ends in a DAG."""
from rv import libshim

PROPERTY = "C19"
INTERPRETER = "vt"
RULE = ("random weighted models of 1..9 nodes with ties, negative, zero and tiny weights, self-loops, two-cycles and several components; "
        "thresholds below, between, exactly at and above the weights. Non-trivial when something is removed and something kept")
NEED = {"edges_judged": 10000, "dags_reached": 500, "exact_threshold": 300, "removed": 2000}
CAP = (150, 700)


def setup(ctx):
    libshim.install()


def random_model(rng):
    import numpy as np

    from causalnex.structure import StructureModel

    n = rng.randint(1, 9)
    names = rng.choice([list(range(n)), ["n%d" % k for k in range(n)], [(k, "x") for k in range(n)]])
    pool = rng.choice([[1, 2, 3], [0.5, -0.5, 0.25], [1e-12, 1.0, -3.0, 0.0], [1e300, -1e-300, 5], None])
    sm = StructureModel()
    sm.add_nodes_from(names)
    density = rng.choice([0.1, 0.3, 0.6, 1.0])
    for u in names:
        for v in names:
            if rng.random() < density and (u != v or rng.random() < 0.2):
                w = rng.choice(pool) if pool else rng.uniform(-2, 2)
                w = rng.choice([w, w, np.float64(w), float(w)])
                sm.add_edge(u, v, origin=rng.choice(["unknown", "learned", "expert"]), weight=w, note=str((u, v)))
    return sm


def snapshot(sm):
    return {(u, v): dict(d) for u, v, d in sm.edges(data=True)}, {n: dict(d) for n, d in sm.nodes(data=True)}


def acyclic(edges):
    out = {}
    for u, v in edges:
        out.setdefault(u, set()).add(v)
        out.setdefault(v, set())
    indeg = {n: 0 for n in out}
    for u in out:
        for v in out[u]:
            indeg[v] += 1
    ready = [n for n in out if indeg[n] == 0]
    seen = 0
    while ready:
        n = ready.pop()
        seen += 1
        for v in out[n]:
            indeg[v] -= 1
            if indeg[v] == 0:
                ready.append(v)
    return seen == len(out)


def threshold(ctx, rng, i):
    sm = random_model(rng)
    edges, nodes = snapshot(sm)
    weights = [abs(d["weight"]) for d in edges.values()] or [1.0]
    kind = rng.choice(["exact", "exact", "between", "zero", "high", "tiny above"])
    t = {"exact": rng.choice(weights), "between": rng.uniform(0, max(weights)), "zero": rng.choice([0, 0.0]), "high": max(weights) * 2 + 1,
         "tiny above": rng.choice(weights) * (1 + 1e-15) + 5e-324}[kind]
    ctx.count("exact_threshold", kind == "exact")
    result = ctx.call(sm.remove_edges_below_threshold, t)
    ctx.check(result is None, "remove_edges_below_threshold returns something")
    after, after_nodes = snapshot(sm)
    want = {e: d for e, d in edges.items() if not abs(d["weight"]) < t}
    ctx.count("edges_judged", len(edges))
    ctx.count("removed", len(edges) - len(want))
    ctx.check(set(after) == set(want), lambda: "threshold %r: kept %r, should keep %r of %r" % (
        t, sorted(after, key=repr), sorted(want, key=repr), {e: d["weight"] for e, d in edges.items()}))
    ctx.check(after == want, "the data of a kept edge changed")
    ctx.check(after_nodes == nodes, "nodes changed")
    ctx.case((tuple(sorted((repr(e), d["weight"]) for e, d in edges.items())), t), 0 < len(want) < len(edges), {"edges": repr(edges)[:300], "threshold": t})


def till_dag(ctx, rng, i):
    sm = random_model(rng)
    edges, nodes = snapshot(sm)
    ctx.call(sm.threshold_till_dag)
    after, after_nodes = snapshot(sm)
    weight = {e: abs(d["weight"]) for e, d in edges.items()}
    removed = set(edges) - set(after)
    ctx.count("edges_judged", len(edges))
    ctx.count("removed", len(removed))
    ctx.check(set(after) <= set(edges) and all(after[e] == edges[e] for e in after), "an edge appeared, or the data of a kept edge changed")
    ctx.check(after_nodes == nodes, "nodes changed")
    ctx.check(acyclic(after), lambda: "the result has a cycle: %r" % sorted(after, key=repr))
    ctx.count("dags_reached")
    if removed:
        top = max(weight[e] for e in removed)
        ctx.check(all(weight[e] >= top for e in after), lambda: "an edge lighter than a removed one was kept: removed %r kept %r" % (
            {e: weight[e] for e in removed}, {e: weight[e] for e in after}))
        ctx.check(any(weight[e] == top and not acyclic(list(after) + [e]) for e in removed),
                  lambda: "more was removed than needed: removed %r kept %r" % ({e: weight[e] for e in removed}, {e: weight[e] for e in after}))
    else:
        ctx.check(acyclic(edges), "nothing was removed from a cyclic model")
    ctx.case(tuple(sorted((repr(e), weight[e]) for e in edges)), bool(removed) and bool(after), {"edges": repr(weight)[:300], "removed": repr(removed)[:200]})


FAMILIES = {"threshold": (threshold, 750, 6000), "till_dag": (till_dag, 750, 6000)}

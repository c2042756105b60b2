"""C18: every edge of a StructureModel carries exactly the origin it was last given, one of the three allowed."""
import copy
import pickle

from rv import libshim

PROPERTY = "C18"
INTERPRETER = "vt"
RULE = ("histories of 6..25 operations (construction from seven formats, add_edge, add_edges_from with 2- and 3-tuples from lists, sets and "
        "generators, add_weighted_edges_from, removals, copies, views, networkx helpers, rejected origins) on one StructureModel, each "
        "followed by a comparison with a plain dictionary model. Distinct by operation sequence; non-trivial when an edge was re-added or rejected")
NEED = {"operations": 5000, "edges_compared": 20000, "rejections": 300, "copies": 300, "constructions": 500}
ASSUMPTIONS = ["networkx is the installed 3.7, not the 2.5 the package pins"]
CAP = (150, 700)
ORIGINS = ["unknown", "learned", "expert"]
BAD = ["", "Expert", "unknown ", None, 0, 1, True, "other", ("expert",), b"expert", "UNKNOWN", "learnt", "expertlearned", "un", "e"]


def setup(ctx):
    libshim.install()


def nodes_pool(rng):
    return rng.choice([
        ["a", "b", "c", "d", "e"], [0, 1, 2, 3, 4], [("x", 1), ("x", 2), "x", 1.5, frozenset([1])], ["a", "A", "a ", "origin", "weight"],
        [0, "0", (0,), False or -1, "None"]])


def compare(ctx, sm, model, nodes, what):
    got = {(u, v): d for u, v, d in sm.edges(data=True)}
    ctx.check(set(got) == set(model), lambda: "%s: edges %r, should be %r" % (what, sorted(map(repr, got)), sorted(map(repr, model))))
    for e, attrs in model.items():
        ctx.count("edges_compared")
        ctx.check(got[e].get("origin") == attrs["origin"] and isinstance(got[e].get("origin"), str),
                  lambda: "%s: edge %r has origin %r, should be %r" % (what, e, got[e].get("origin"), attrs["origin"]))
        for k, x in attrs.items():
            ctx.check(k in got[e] and got[e][k] == x, lambda: "%s: edge %r has %r = %r, should be %r" % (what, e, k, got[e].get(k), x))
    for o in ORIGINS:
        want = {e for e, a in model.items() if a["origin"] == o}
        have = ctx.call(sm.edges_with_origin, o)
        ctx.check(len(have) == len(set(have)) and set(have) == want, lambda: "%s: edges_with_origin(%r) gives %r, should be %r" % (what, o, have, want))
    ctx.check(ctx.call(sm.edges_with_origin, "nonsense") == [], "edges_with_origin of an origin which no edge has")
    ctx.check(nodes <= set(sm.nodes), lambda: "%s: nodes %r are missing" % (what, nodes - set(sm.nodes)))


def attributes(rng):
    return {k: rng.choice([1, 2.5, "x", None]) for k in rng.sample(["weight", "colour", "label"], rng.choice([0, 0, 1, 2]))}


def random_edges(rng, pool, k=None):
    return [(rng.choice(pool), rng.choice(pool)) for _ in range(rng.randint(1, 5) if k is None else k)]


def construct(ctx, rng, pool, cls):
    import networkx as nx
    import numpy as np
    import scipy.sparse as sp

    how = rng.choice(["empty", "edges", "dictdict", "dictlist", "graph", "digraph", "sm", "array", "sparse"])
    origin = rng.choice(ORIGINS)
    given = {} if origin == "unknown" and rng.random() < 0.5 else {"origin": origin}
    edges = list(dict.fromkeys(random_edges(rng, pool)))
    extra = {}
    if how == "empty":
        sm, edges = ctx.call(cls, **given), []
    elif how == "edges":
        sm = ctx.call(cls, list(edges), **given)
    elif how == "dictdict":
        d = {}
        for u, v in edges:
            d.setdefault(u, {})[v] = {"weight": 2}
        extra = {"weight": 2}
        sm = ctx.call(cls, d, **given)
    elif how == "dictlist":
        d = {}
        for u, v in edges:
            d.setdefault(u, []).append(v)
        sm = ctx.call(cls, d, **given)
    elif how in ("graph", "digraph", "sm"):
        g = nx.Graph() if how == "graph" else nx.DiGraph() if how == "digraph" else cls()
        g.add_nodes_from(pool[:1])
        g.add_edges_from(edges, weight=7)
        extra = {"weight": 7}
        if how == "graph":
            edges = list(dict.fromkeys(edges + [(v, u) for u, v in edges]))
        if how == "digraph" and rng.random() < 0.3:
            for u, v in edges:
                g[u][v]["origin"] = "expert"
        sm = ctx.call(cls, g, **given)
        before = {(u, v): dict(d) for u, v, d in g.edges(data=True)}
        for u, v in edges:
            sm[u][v]["touched"] = 1
        ctx.check({(u, v): dict(d) for u, v, d in g.edges(data=True)} == before, "the graph a model was made from shares its edge data")
        for u, v in edges:
            del sm[u][v]["touched"]
    else:
        n = rng.randint(1, 4)
        m = np.array([[rng.choice([0, 0, 1.5, -2.0]) for _ in range(n)] for _ in range(n)])
        sm = ctx.call(cls, sp.csr_matrix(m) if how == "sparse" else m, **given)
        model = {(i, j): {"weight": m[i, j], "origin": origin} for i in range(n) for j in range(n) if m[i, j]}
        return sm, model, set(range(n)), how
    model = {e: dict(extra, origin=origin) for e in edges}
    return sm, model, set(x for e in edges for x in e), how


def history(ctx, rng, i):
    import networkx as nx

    from causalnex.structure import StructureModel

    pool = nodes_pool(rng)
    sm, model, nodes, how = construct(ctx, rng, pool, StructureModel)
    ctx.count("constructions")
    compare(ctx, sm, model, nodes, "after construction from " + how)
    trace = [how]
    interesting = False

    def put(e, origin, attrs):
        # adding an edge again replaces what it says explicitly
        model[e] = dict(attrs, origin=origin)
        nodes.update(e)

    for _ in range(rng.randint(6, 25)):
        op = rng.choice(["add", "add", "many", "many", "weighted", "remove", "bad", "copy", "view", "helper", "node", "reweight"])
        trace.append(op)
        ctx.count("operations")
        origin = rng.choice(ORIGINS)
        given = {} if origin == "unknown" and rng.random() < 0.6 else {"origin": origin}
        if op == "add":
            u, v = random_edges(rng, pool, 1)[0]
            attrs = attributes(rng)
            interesting |= (u, v) in model
            if rng.random() < 0.3 and given:
                ctx.call(sm.add_edge, u, v, given["origin"], **attrs)
            else:
                ctx.call(sm.add_edge, u, v, **dict(attrs, **given))
            put((u, v), origin, attrs)
        elif op == "many":
            edges = random_edges(rng, pool)
            attrs = attributes(rng)
            bunch, plan = [], []
            for e in edges:
                if rng.random() < 0.4:
                    own = attributes(rng)
                    o = rng.choice(ORIGINS + [None] * 3)
                    bunch.append(e + (dict(own, origin=o) if o else dict(own),))
                    plan.append((e, o or origin, dict(attrs, **own)))
                else:
                    bunch.append(e)
                    plan.append((e, origin, attrs))
            how = rng.choice(["list", "tuple", "generator", "iterator", "set"])
            if how == "set" and all(len(b) == 2 for b in bunch):
                arg = set(bunch)
            else:
                arg = {"tuple": tuple(bunch), "generator": (b for b in bunch), "iterator": iter(bunch)}.get(how, bunch)
            snapshot = copy.deepcopy(bunch)
            ctx.call(sm.add_edges_from, arg, **dict(attrs, **given))
            ctx.check(bunch == snapshot, "add_edges_from changed the edges it was given")
            for e, o, a in plan:
                interesting |= e in model
                # a later mention of the same edge in one bunch updates it
                put(e, o, a)
        elif op == "weighted":
            edges = [(u, v, rng.choice([0, 1, -2.5, 1e-9])) for u, v in random_edges(rng, pool)]
            name = rng.choice([None, "cost"])
            kw = dict(given) if name is None else dict(given, weight=name)
            ctx.call(sm.add_weighted_edges_from, iter(edges) if rng.random() < 0.3 else edges, **kw)
            for u, v, w in edges:
                put((u, v), origin, {name or "weight": w})
        elif op == "remove" and model:
            e = rng.choice(sorted(model, key=repr))
            if rng.random() < 0.5:
                sm.remove_edge(*e)
            else:
                sm.remove_edges_from([e])
            del model[e]
        elif op == "bad":
            bad = rng.choice(BAD)
            u, v = random_edges(rng, pool, 1)[0]
            what = rng.choice(["add_edge", "add_edges_from", "add_weighted_edges_from", "init"])
            before = {e: dict(d) for e, d in ((tuple(x[:2]), x[2]) for x in sm.edges(data=True))}
            before_nodes = list(sm.nodes)
            if what == "add_edge":
                ctx.raises(ValueError, sm.add_edge, u, v, origin=bad)
            elif what == "add_edges_from":
                ctx.raises(ValueError, sm.add_edges_from, [(u, v), ("new", u)] if rng.random() < 0.8 else [], origin=bad)
            elif what == "add_weighted_edges_from":
                ctx.raises(ValueError, sm.add_weighted_edges_from, [(u, v, 1.0)] if rng.random() < 0.8 else [], origin=bad)
            else:
                ctx.raises(ValueError, StructureModel, [(u, v)], origin=bad)
            after = {e: dict(d) for e, d in ((tuple(x[:2]), x[2]) for x in sm.edges(data=True))}
            ctx.check(after == before and list(sm.nodes) == before_nodes, lambda: "%s rejected origin %r but changed the model" % (what, bad))
            ctx.count("rejections")
            interesting = True
        elif op == "copy":
            how = rng.choice(["copy", "deepcopy", "pickle", "to_directed", "subgraph", "edge_subgraph", "compose", "copycopy"])
            ctx.count("copies")
            if how == "copy":
                other = ctx.call(sm.copy)
            elif how == "copycopy":
                other = ctx.call(copy.copy, sm)
            elif how == "deepcopy":
                other = ctx.call(copy.deepcopy, sm)
            elif how == "pickle":
                other = pickle.loads(pickle.dumps(sm))
            elif how == "to_directed":
                other = ctx.call(sm.to_directed)
            elif how == "subgraph":
                other = ctx.call(lambda: sm.subgraph(list(sm.nodes)).copy())
            elif how == "edge_subgraph":
                other = ctx.call(lambda: sm.edge_subgraph(list(sm.edges)).copy())
            else:
                other = ctx.call(nx.compose, sm, StructureModel())
            ctx.check(type(other) is StructureModel, lambda: "%s gives a %s" % (how, type(other)))
            compare(ctx, other, model, set(x for e in model for x in e), how)
            if how not in ("copycopy",):
                if model and how != "edge_subgraph" and rng.random() < 0.7:
                    e = sorted(model, key=repr)[0]
                    other.add_edge(*e, origin="expert", extra=1)
                    compare(ctx, sm, model, nodes, "after changing what %s gave" % how)
                    sm_has = sm[e[0]][e[1]].get("extra")
                    ctx.check(sm_has is None, lambda: "%s shares edge data with the original" % how)
                elif how != "edge_subgraph":
                    sm = other
        elif op == "view":
            u = ctx.call(sm.to_undirected)
            ctx.check(type(u) is nx.Graph, lambda: "to_undirected gives a %s" % type(u))
            ctx.check({frozenset(e) for e in u.edges} == {frozenset(e) for e in model}, "to_undirected has other edges")
            r = ctx.call(sm.reverse)
            ctx.check(type(r) is StructureModel, lambda: "reverse gives a %s" % type(r))
            compare(ctx, r, {(b, a): d for (a, b), d in model.items()}, nodes, "reverse")
        elif op == "helper":
            path = [rng.choice(pool) for _ in range(3)]
            if rng.random() < 0.5:
                ctx.call(nx.add_path, sm, path)
            else:
                ctx.call(sm.update, edges=list(zip(path, path[1:])))
            for e in zip(path, path[1:]):
                put(e, "unknown", {})
        elif op == "node":
            n = rng.choice(pool)
            if rng.random() < 0.6 or n not in sm:
                sm.add_node(n)
                nodes.add(n)
            else:
                sm.remove_node(n)
                nodes.discard(n)
                for e in [e for e in model if n in e]:
                    del model[e]
        elif op == "reweight" and model:
            e = rng.choice(sorted(model, key=repr))
            sm[e[0]][e[1]]["weight"] = 4
            model[e]["weight"] = 4
        compare(ctx, sm, model, nodes, "after %s" % trace)
    ctx.case(tuple(trace), interesting, {"operations": trace, "edges": repr(model)[:300]})


def edge_data(ctx, rng, i):
    """The three ways in which the data of one edge, rather than the argument, names the origin."""
    from causalnex.structure import StructureModel

    bad = BAD[i % len(BAD)]
    sm = StructureModel()
    how = ["add_edges_from with the origin in the data of an edge", "add_weighted_edges_from with weight='origin'"][(i // len(BAD)) % 2]
    try:
        if how.startswith("add_edges"):
            sm.add_edges_from([("a", "b", {"origin": bad})])
        else:
            sm.add_weighted_edges_from([("a", "b", bad)], weight="origin")
    except ValueError:
        ctx.count("edge_data_rejected")
        ctx.check(not sm.edges, "rejected, yet the edge was added")
        return
    ctx.count("edge_data_accepted")
    origin = sm["a"]["b"]["origin"]
    if origin not in ORIGINS:
        ctx.known_finding("origin-in-edge-data", "%s stores origin %r" % (how, origin))


FAMILIES = {"history": (history, 450, 3000), "edge_data": (edge_data, 30, 30)}

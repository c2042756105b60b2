"""C20: subgraph extraction returns a whole connected component, with all its data, as an independent model."""
from rv import libshim
from rv.checks.c19 import snapshot

PROPERTY = "C20"
INTERPRETER = "vt"
RULE = ("models of several components (sizes 1..7, directed edges either way, self-loops, equal sizes, arbitrary hashable nodes); every node as "
        "target, absent nodes, and the largest component. Non-trivial when there are at least two components")
NEED = {"targets": 3000, "largest": 800, "absent": 800, "mutations": 500}
CAP = (150, 700)


def setup(ctx):
    libshim.install()


def random_model(rng):
    from causalnex.structure import StructureModel

    k = rng.randint(0, 12)
    names = rng.choice([list(range(k)), ["n%d" % j for j in range(k)], [("t", j) for j in range(k)],
                        ([0, "0", "", 2.5, frozenset(), (), "a b", -1, "None", b"x", 7, "7"])[:k]])
    rng.shuffle(names)
    sm = StructureModel()
    for n in names:
        sm.add_node(n, tag=rng.random())
    groups = {}
    for n in names:
        groups.setdefault(rng.randint(0, max(1, k // 3)), []).append(n)
    for members in groups.values():
        for a, b in zip(members, members[1:]):
            if rng.random() < 0.85:
                u, v = (a, b) if rng.random() < 0.5 else (b, a)
                sm.add_edge(u, v, origin=rng.choice(["unknown", "learned", "expert"]), weight=rng.choice([1, -1.5, 0, 3]))
        for _ in range(rng.choice([0, 0, 2, 4])):
            sm.add_edge(rng.choice(members), rng.choice(members), origin="expert")
    return sm


def components(edges, nodes):
    near = {n: set() for n in nodes}
    for u, v in edges:
        near[u].add(v)
        near[v].add(u)
    left, out = set(nodes), []
    while left:
        stack, comp = [next(iter(left))], set()
        while stack:
            n = stack.pop()
            if n not in comp:
                comp.add(n)
                stack += near[n]
        left -= comp
        out.append(comp)
    return out


def part(edges, nodes, comp):
    return {e: d for e, d in edges.items() if e[0] in comp}, {n: d for n, d in nodes.items() if n in comp}


def subgraphs(ctx, rng, i):
    from networkx.exception import NodeNotFound

    from causalnex.structure import StructureModel

    sm = random_model(rng)
    edges, nodes = snapshot(sm)
    comps = components(edges, nodes)
    for n in list(nodes):
        ctx.count("targets")
        got = ctx.call(sm.get_target_subgraph, n)
        want = part(edges, nodes, next(c for c in comps if n in c))
        ctx.check(type(got) is StructureModel, lambda: "get_target_subgraph gives a %s" % type(got))
        ctx.check(snapshot(got) == want, lambda: "get_target_subgraph(%r) gives %r, should be %r" % (n, snapshot(got), want))
    for n in ("absent", ("no", 1), 99, None):
        if n in nodes:
            continue
        ctx.count("absent")
        ctx.raises(NodeNotFound, sm.get_target_subgraph, n)
    got = ctx.call(sm.get_largest_subgraph)
    ctx.count("largest")
    sizes = [len(part(edges, nodes, c)[0]) for c in comps]
    best = max(sizes, default=0)
    if best == 0:
        ctx.check(got is None, lambda: "get_largest_subgraph of a model without edges gives %r" % got)
    else:
        ctx.check(type(got) is StructureModel, lambda: "get_largest_subgraph gives %r" % type(got))
        options = [part(edges, nodes, c) for c, s in zip(comps, sizes) if s == best]
        ctx.check(any(snapshot(got) == o for o in options), lambda: "get_largest_subgraph gives %r; the largest are %r" % (snapshot(got), options))
    ctx.check(snapshot(sm) == (edges, nodes), "extracting subgraphs changed the model")
    for g in [got] if best else []:
        u, v = list(g.edges)[0]
        g[u][v]["touched"] = 1
        g.nodes[u]["touched"] = 1
        g.remove_edge(u, v)
        g.add_edge("fresh", u)
        ctx.count("mutations")
        ctx.check(snapshot(sm) == (edges, nodes), "changing the subgraph changed the model")
    if nodes:
        n = list(nodes)[0]
        g = ctx.call(sm.get_target_subgraph, n)
        g.nodes[n]["touched"] = 1
        g.add_edge(n, "fresh")
        ctx.check(snapshot(sm) == (edges, nodes), "changing the target subgraph changed the model")
    ctx.case((repr(sorted(map(repr, edges))), len(nodes)), len(comps) > 1, {"components": [sorted(map(repr, c)) for c in comps]})


FAMILIES = {"subgraphs": (subgraphs, 750, 6000)}

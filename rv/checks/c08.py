"""C08: moralisation and triangulation are correct for every graph and elimination priority."""
import itertools

from rv import nets
from rv.checks import treecommon as tc

PROPERTY = "C08"
INTERPRETER = "repo"
RULE = ("random DAGs of 1..16 variables with up to 13 parents and random undirected graphs of 1..36 nodes; six kinds of elimination priority. Oracles from the "
        "definitions: exact moral graph; the elimination game replayed on the order that was returned. Non-trivial: the graph has an edge")
NEED = {"moral_graphs": 300, "triangulations": 600, "fill_edges": 200, "chordal_inputs": 50, "wide": 50}


def wide(rng):
    """Variables with many parents, some of them shared."""
    k, more = rng.randint(6, 13), rng.randint(1, 3)
    net = nets.random_net(rng, n=k + more, style=rng.choice(["isolated", "chain", "tree", "disconnected"]), max_size=10 ** 9, boolean=True, kind="uniform")
    for v in net.order[k:]:
        net.parents[v] = rng.sample(net.order[:k], rng.randint(k // 2, k))
        net.cpt[v] = {}
    return net


def moral(ctx, rng, i):
    import causalnex.ebaybbn as m

    if rng.random() < 0.08:
        net = wide(rng)
        ctx.count("wide")
    else:
        net = nets.random_net(rng, n=rng.randint(1, 14), max_size=10 ** 9, max_card=2, kind="plain")
    b = ctx.call(nets.build, m, net, rng)
    ctx.case(("moral", net.signature()[:2]), bool(net.edges()), net.describe())
    gu = ctx.call(m.make_undirected_copy, b)
    tc.check_symmetric(ctx, gu, "undirected copy")
    ctx.check(tc.adjacency(gu) == tc.skeleton(net), lambda: "undirected copy %r of %r" % (tc.adjacency(gu), net.describe()))
    own = {id(n) for n in b.nodes}
    ctx.check(not any(id(n) in own for n in gu.nodes), "the undirected copy shares nodes with the network")
    ctx.check({n.variable_name for n in gu.nodes} == set(net.order), "variable names are lost")
    gm = ctx.call(m.make_moralized_copy, gu, b)
    tc.check_symmetric(ctx, gm, "moral graph")
    ctx.check(tc.adjacency(gm) == tc.moral(net), lambda: "moral graph %r of %r" % (tc.adjacency(gm), net.describe()))
    ctx.check({n.variable_name for n in gm.nodes} == set(net.order), "variable names are lost")
    ctx.check(tc.adjacency(gu) == tc.skeleton(net), "moralisation modified its argument")
    ctx.check({n.name: {c.name for c in n.children} for n in b.nodes} == {
        "f_" + v: {"f_" + c for p, c in net.edges() if p == v} for v in net.order}, "the network was modified")
    ctx.count("moral_graphs")
    triangulated(ctx, rng, m, gm, tc.moral(net))


def arbitrary(ctx, rng, i):
    import causalnex.ebaybbn as m
    from causalnex.ebaybbn.graph import UndirectedGraph, UndirectedNode

    n = rng.randint(1, 10) if rng.random() < 0.93 else rng.randint(11, 36)
    names = ["f_%s" % x for x in nets.NAME_POOLS[rng.randrange(3)](rng, n)]
    p = rng.choice([0.1, 0.3, 0.5, 0.8, 1.0])
    style = rng.choice(["gnp", "gnp", "cycle", "chordal", "grid"])
    adj = {x: set() for x in names}

    def join(a, b):
        adj[a].add(b)
        adj[b].add(a)

    if style == "gnp":
        for a, b in itertools.combinations(names, 2):
            if rng.random() < p:
                join(a, b)
    elif style == "cycle":
        for k in range(n):
            if n > 2:
                join(names[k], names[(k + 1) % n])
    elif style == "grid":
        for k in range(n):
            if k % 3:
                join(names[k], names[k - 1])
            if k >= 3:
                join(names[k], names[k - 3])
    else:
        # each new vertex is joined to a clique of the earlier ones
        for k in range(1, n):
            a = rng.choice(names[:k])
            clique = {a}
            for c in sorted(adj[a]):
                if all(c in adj[d] for d in clique) and rng.random() < 0.6:
                    clique.add(c)
            for c in clique:
                join(names[k], c)
    nodes = {x: UndirectedNode(x) for x in names}
    for x in names:
        nodes[x].variable_name = x[2:]
        nodes[x].neighbours = [nodes[y] for y in rng.sample(sorted(adj[x]), len(adj[x]))]
    order = list(nodes.values())
    rng.shuffle(order)
    index = {x: k for k, x in enumerate(names)}
    ctx.case(("graph", n, tuple(sorted((index[a], index[b]) for a in adj for b in adj[a]))), any(adj.values()))
    triangulated(ctx, rng, m, UndirectedGraph(order), adj)


def triangulated(ctx, rng, m, g, adj):
    adj = {k: set(v) for k, v in adj.items()}
    kind, priority = tc.random_priority(rng)
    cliques, order = ctx.call(m.triangulate, g, priority) if priority else ctx.call(m.triangulate, g)
    ctx.count("triangulations")
    ctx.check(sorted(order) == sorted(adj), lambda: "the elimination ordering %r is not a permutation of %r" % (order, sorted(adj)))
    tc.check_symmetric(ctx, g, "triangulated graph")
    now = tc.adjacency(g)
    for a in adj:
        ctx.check(adj[a] <= now[a], lambda: "triangulation lost edges of %r" % a)
    filled, maximal = tc.eliminate(adj, order)
    ctx.check(tc.is_chordal(now), lambda: "the triangulated graph %r is not chordal" % (now,))
    ctx.check(now == filled, lambda: "fill edges are not those of the elimination ordering %r: %r, should be %r" % (order, now, filled))
    got = [frozenset(n.name for n in c.nodes) for c in cliques]
    ctx.check(len(got) == len(set(got)) and set(got) == maximal,
              lambda: "cliques %r, should be %r" % (sorted(map(sorted, got)), sorted(map(sorted, maximal))))
    members = {id(n) for n in g.nodes}
    ctx.check(all(id(n) in members for c in cliques for n in c.nodes), "cliques refer to nodes outside the triangulated graph")
    ctx.count("fill_edges", sum(len(filled[a]) - len(adj[a]) for a in adj) // 2)
    if tc.is_chordal(adj):
        ctx.count("chordal_inputs")
        if kind == "default":
            ctx.check(now == adj, "the default priority added edges to a chordal graph")


FAMILIES = {"moral": (moral, 700, 15000), "arbitrary": (arbitrary, 900, 20000)}

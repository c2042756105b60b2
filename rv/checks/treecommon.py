"""Structural oracles over join trees and undirected graphs, written from the definitions."""
import itertools


def adjacency(graph):
    """{name: set of names}, after checking nothing."""
    return {n.name: {m.name for m in n.neighbours} for n in graph.nodes}


def check_symmetric(ctx, graph, what):
    names = [n.name for n in graph.nodes]
    ctx.check(len(names) == len(set(names)), lambda: "%s: repeated nodes %r" % (what, names))
    members = {id(n) for n in graph.nodes}
    for n in graph.nodes:
        for k in n.neighbours:
            ctx.check(id(k) in members, lambda: "%s: %r has a neighbour outside the graph" % (what, n.name))
            ctx.check(any(n is x for x in k.neighbours), lambda: "%s: %r-%r is not symmetric" % (what, n.name, k.name))
            ctx.check(k is not n, lambda: "%s: %r neighbours itself" % (what, n.name))


def skeleton(net, prefix="f_"):
    adj = {prefix + v: set() for v in net.order}
    for a, b in net.edges():
        adj[prefix + a].add(prefix + b)
        adj[prefix + b].add(prefix + a)
    return adj


def moral(net, prefix="f_"):
    adj = skeleton(net, prefix)
    for v in net.order:
        for a, b in itertools.combinations(net.parents[v], 2):
            adj[prefix + a].add(prefix + b)
            adj[prefix + b].add(prefix + a)
    return adj


def is_chordal(adj):
    """Repeatedly remove a simplicial vertex; chordal exactly when that removes everything."""
    adj = {k: set(v) for k, v in adj.items()}
    while adj:
        for v, nb in adj.items():
            if all(b in adj[a] for a, b in itertools.combinations(nb, 2)):
                break
        else:
            return False
        for k in adj.pop(v):
            adj[k].discard(v)
    return True


def eliminate(adj, order):
    """The fill edges and the maximal elimination cliques of the elimination game."""
    adj = {k: set(v) for k, v in adj.items()}
    filled = {k: set(v) for k, v in adj.items()}
    clusters = []
    for v in order:
        nb = adj.pop(v)
        for a, b in itertools.combinations(nb, 2):
            adj[a].add(b)
            adj[b].add(a)
            filled[a].add(b)
            filled[b].add(a)
        for k in nb:
            adj[k].discard(v)
        clusters.append(frozenset(nb | {v}))
    maximal = {c for c in clusters if not any(c < d for d in clusters)}
    return filled, maximal


def check_join_tree(ctx, jt, families, variables, triangulated_ok=None):
    """families: {variable: set(parents + variable)}."""
    cliques, sepsets = list(jt.clique_nodes), list(jt.sepset_nodes)
    sets = {id(c): frozenset(n.variable_name for n in c.clique.nodes) for c in cliques}
    ctx.check(len(cliques) + len(sepsets) == len(jt.nodes), "the tree has nodes which are neither clique nor separator")
    ctx.check(len({id(n) for n in jt.nodes}) == len(jt.nodes), "the tree lists a node twice")
    for c in cliques:
        ctx.check(list(c.variable_names) == sorted(sets[id(c)]), lambda: "variable_names %r of clique %r" % (c.variable_names, sets[id(c)]))
    ctx.check(set().union(*sets.values()) == set(variables), lambda: "cliques %r do not cover the variables" % list(map(sorted, sets.values())))
    for a, b in itertools.combinations(cliques, 2):
        ctx.check(not (sets[id(a)] <= sets[id(b)] or sets[id(b)] <= sets[id(a)]),
                  lambda: "clique %r contains clique %r" % (sorted(sets[id(a)]), sorted(sets[id(b)])))
    for v, fam in families.items():
        ctx.check(any(fam <= s for s in sets.values()), lambda: "no clique contains the family %r of %r" % (sorted(fam), v))
    # a tree: every separator joins two different cliques; connected; one separator fewer than cliques
    links = {id(c): [] for c in cliques}
    for s in sepsets:
        ends = list(s.neighbours)
        ctx.check(len(ends) == 2 and ends[0] is not ends[1] and all(id(e) in links for e in ends),
                  lambda: "separator %r does not join two cliques" % (s,))
        x, y = ends
        label = frozenset(n.variable_name for n in s.sepset.label)
        ctx.check(label == sets[id(x)] & sets[id(y)], lambda: "separator %r between %r and %r" % (
            sorted(label), sorted(sets[id(x)]), sorted(sets[id(y)])))
        ctx.check(list(s.variable_names) == sorted(label), "variable_names of a separator")
        ctx.check({frozenset(n.variable_name for n in s.sepset.X.nodes), frozenset(n.variable_name for n in s.sepset.Y.nodes)}
                  == {sets[id(x)], sets[id(y)]}, "a separator records other cliques than it joins")
        for e in ends:
            ctx.check(any(n is s for n in e.neighbours), "a clique does not know its separator")
        links[id(x)].append(id(y))
        links[id(y)].append(id(x))
        ctx.count("separators_checked")
    for c in cliques:
        ctx.check(all(any(n is s for s in sepsets) for n in c.neighbours) and len(c.neighbours) == len(links[id(c)]),
                  "a clique has neighbours which are not its separators")
        ctx.count("cliques_checked")
        # the message-passing view agrees
        ctx.check(sorted(id(n) for n in c.neighbouring_cliques) == sorted(links[id(c)]), "neighbouring_cliques disagrees with the tree")
    ctx.check(len(sepsets) == len(cliques) - 1, lambda: "%d separators for %d cliques" % (len(sepsets), len(cliques)))

    def connected(members):
        members = set(members)
        if not members:
            return True
        stack, seen = [next(iter(members))], set()
        while stack:
            k = stack.pop()
            if k not in seen:
                seen.add(k)
                stack += [j for j in links[k] if j in members]
        return seen == members

    ctx.check(connected(links), "the join tree is not connected")
    for v in variables:
        ctx.check(connected([k for k in links if v in sets[k]]), lambda: "running intersection fails for %r: %r" % (
            v, [(sorted(sets[k]), [sorted(sets[j]) for j in links[k]]) for k in links]))
        ctx.count("running_intersections_checked")
    # no other tree of these cliques has larger separators or, with as large ones, cheaper ones
    cost = lambda a, b: 2 ** len(a) + 2 ** len(b)  # noqa: E731
    pairs = sorted((-len(sets[a] & sets[b]), cost(sets[a], sets[b]), a, b) for a, b in itertools.combinations(sets, 2))
    root = {k: k for k in sets}

    def find(k):
        while root[k] != k:
            root[k] = root[root[k]]
            k = root[k]
        return k

    mass = total = 0
    for size, price, a, b in pairs:
        if find(a) != find(b):
            root[find(a)] = find(b)
            mass, total = mass - size, total + price
    have = [(len(s.sepset.label), cost(*(sets[id(e)] for e in s.neighbours))) for s in sepsets]
    ctx.count("spanning_trees_compared")
    ctx.check((sum(s for s, _ in have), sum(c for _, c in have)) == (mass, total), lambda: "the separators have %d variables at cost %d in all; a tree with %d at cost %d exists" % (
        sum(s for s, _ in have), sum(c for _, c in have), mass, total))
    return sets


def random_priority(rng, module=None):
    """A priority function as build_join_tree accepts, of one of several hostile kinds."""
    import random

    salt = rng.random()
    kind = rng.choice(["default", "random", "constant", "reverse", "degree", "name"])

    def priority(node):
        if kind == "random":
            return [random.Random("%s%s%d" % (salt, node.name, len(node.neighbours))).random(), 2]
        if kind == "constant":
            return [0, 0]
        if kind == "reverse":
            return [-len(node.neighbours), 1]
        if kind == "degree":
            return [len(node.neighbours), 1]
        return [[-ord(c) for c in node.name], 0]

    return kind, (None if kind == "default" else priority)

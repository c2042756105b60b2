"""C07: the join tree is a valid junction tree, and every table is assigned once to a clique containing its family."""
from rv import nets
from rv.checks import treecommon as tc

PROPERTY = "C07"
INTERPRETER = "repo"
RULE = ("random DAGs of 1..14 variables (connected or not), join trees by build_join_tree with six kinds of elimination priority and by "
        "BBN.build_join_tree(); each tree is checked against the definition. Distinct by network shape and priority; non-trivial "
        "when the tree has at least two cliques")
NEED = {"trees": 500, "separators_checked": 1000, "running_intersections_checked": 2000, "assignments_checked": 2000, "disconnected": 50, "spanning_trees_compared": 500, "wide_trees": 40}


def trees(ctx, rng, i):
    examine(ctx, rng, nets.random_net(rng, n=rng.randint(1, 14), max_size=10 ** 9, max_card=2, kind="plain"))


def large(ctx, rng, i):
    """Networks with many cliques: a clique tree grows by merging many trees."""
    net = nets.random_net(rng, n=rng.randint(18, 45), max_size=10 ** 18, max_card=2, kind="plain",
                          style=rng.choice(["chain", "star", "polytree", "disconnected", "chain", "diamond"]))
    examine(ctx, rng, net)
    ctx.count("large_trees")


def wide(ctx, rng, i):
    """Cliques of very different sizes."""
    net = nets.random_net(rng, n=rng.randint(11, 22), style="isolated", boolean=True, kind="uniform", max_size=10 ** 9)
    net.parents = {v: [] for v in net.order}
    for v in net.order[8:]:
        net.parents[v] = rng.sample(net.order[:8], rng.choice([1, 2, 3, 5, 8] if rng.random() < 0.5 else [1, 2, 3]))
    if rng.random() < 0.3:
        net.parents[net.order[-1]] = rng.sample(net.order[:-1], 10)
    net.cpt = {v: {} for v in net.order}
    examine(ctx, rng, net)
    ctx.count("wide_trees")


def examine(ctx, rng, net):
    import causalnex.ebaybbn as m

    b = ctx.call(nets.build, m, net, rng)
    kind, priority = tc.random_priority(rng)
    if priority is None:
        jt = ctx.call(b.build_join_tree) if rng.random() < 0.5 else ctx.call(m.build_join_tree, b)
    else:
        jt = ctx.call(m.build_join_tree, b, priority)
    families = {v: set(net.parents[v]) | {v} for v in net.order}
    sets = tc.check_join_tree(ctx, jt, families, net.order)
    ctx.count("trees")
    if len(net.components()) > 1:
        ctx.count("disconnected")
    ctx.case((net.signature()[:2], kind), len(sets) > 1, {"network": net.describe(), "priority": kind, "cliques": [sorted(s) for s in sets.values()]})
    assigned = {}
    for clique, nodes in ctx.call(jt.assign_clusters, b).items():
        ctx.check(id(clique) in sets, "a table is assigned to something which is not a clique of the tree")
        for n in nodes:
            assigned.setdefault(n.variable_name, []).append(sets[id(clique)])
    for v, fam in families.items():
        got = assigned.get(v, [])
        ctx.count("assignments_checked")
        ctx.check(len(got) == 1, lambda: "the table of %r is assigned %d times" % (v, len(got)))
        ctx.check(fam <= got[0], lambda: "the table of %r is assigned to %r" % (v, sorted(got[0])))
    ctx.check(set(assigned) == set(net.order), "tables of unknown variables are assigned")


FAMILIES = {"trees": (trees, 900, 20000), "large": (large, 12, 300), "wide": (wide, 40, 600)}

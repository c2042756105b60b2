"""C01: marginals without evidence are exact, for every network."""
from rv import nets
from rv.checks import bbncommon as bc

PROPERTY = "C01"
INTERPRETER = "repo"
RULE = ("random DAGs of 1..9 variables in 15 shapes, with domains of 1..5 values of many types and 7 kinds of tables, built "
        "through build_bbn and answered by query(); the oracle is exact enumeration in rationals. Distinct by shape, "
        "cardinalities and number of zero entries; non-trivial when the network has an edge")
NEED = {"marginals_compared": 5000, "cases_exact": 300, "cases_larger": 16}
ASSUMPTIONS = ["tables are proper (non-negative, each row sums to 1 to rounding)", "relative tolerance 1e-9"]


def exact(ctx, rng, i):
    import causalnex.ebaybbn as m

    net = nets.random_net(rng, n=rng.randint(1, 7))
    ctx.case(net.signature(), bool(net.edges()), net.describe())
    b = ctx.call(nets.build, m, net, rng, any_names=True)
    r = ctx.call(b.query)
    want, total = nets.joint_marginals(net)
    bc.compare(ctx, net, r, want, {}, "query()")


def other_trees(ctx, rng, i):
    """The same marginals from join trees of other elimination orders and other starting cliques."""
    import causalnex.ebaybbn as m

    net = nets.random_net(rng, n=rng.randint(2, 6), max_size=1024)
    ctx.case(net.signature(), bool(net.edges()))
    b = ctx.call(nets.build, m, net, rng, any_names=True)
    want, _ = nets.joint_marginals(net)
    salt = rng.random()

    def priority(node):
        import random

        return [random.Random("%s%s%d" % (salt, node.name, len(node.neighbours))).random(), 2]

    jt = ctx.call(m.build_join_tree, b, priority)
    ctx.call(jt.initialize_potentials, ctx.call(jt.assign_clusters, b), b)
    ctx.call(jt.propagate, starting_clique=rng.choice(sorted(jt.clique_nodes, key=lambda c: c.name)))
    got = {}
    for node in b.nodes:
        for k, p in ctx.call(jt.marginal, node).items():
            got[k[0]] = p
    bc.compare(ctx, net, got, want, {}, "JoinTree.marginal")


def larger(ctx, rng, i):
    import causalnex.ebaybbn as m

    n = rng.randint(10, 22)
    net = nets.random_net(rng, n=n, style=rng.choice(["chain", "rchain", "tree", "polytree", "diamond", "grid", "disconnected",
                                                       "ladder", "loop", "star"]), max_size=10 ** 12, max_card=3)
    ctx.case(net.signature(), True)
    b = ctx.call(nets.build, m, net, rng, any_names=True)
    r = ctx.call(b.query)
    ve = nets.Elimination(net)
    want = {}
    for v in net.order:
        for x, p in ve.marginal(v).items():
            want[(v, x)] = p
    bc.compare(ctx, net, r, want, {}, "query()")


FAMILIES = {"exact": (exact, 400, 9000), "other_trees": (other_trees, 150, 3000), "larger": (larger, 40, 600)}

"""C09: after propagation the join tree is calibrated."""
import itertools
from fractions import Fraction

from rv import nets
from rv.checks import bbncommon as bc
from rv.checks import treecommon as tc
from rv.core import close

PROPERTY = "C09"
INTERPRETER = "repo"
RULE = ("random networks (up to 512 joint states, with zeros, disconnected ones too), random elimination priority, random starting clique, no / "
        "possible / impossible evidence; every entry of every clique and separator table is compared with the exact P(assignment, "
        "evidence), before and after a second propagation; chains and trees of 20..150 variables, whose tables have to agree with each other, with the joint and with variable elimination. Non-trivial: at least two cliques")
NEED = {"entries_compared": 10000, "trees": 400, "with_evidence": 150, "initial_products": 400, "large": 20}


def calibrated(ctx, rng, i):
    import causalnex.ebaybbn as m

    net = nets.random_net(rng, n=rng.randint(2, 7), max_size=512)
    b = ctx.call(nets.build, m, net, rng)
    kind, priority = tc.random_priority(rng)
    jt = ctx.call(m.build_join_tree, b, priority) if priority else ctx.call(b.build_join_tree)
    assignments = ctx.call(jt.assign_clusters, b)
    for use in range(rng.choice([1, 2])):
        one_use(ctx, rng, net, b, jt, kind, assignments)


def one_use(ctx, rng, net, b, jt, kind, assignments):
    """Initialise (again), propagate, and compare every table."""
    e = rng.choice([{}, bc.possible_evidence(rng, net), bc.any_evidence(rng, net)])
    if e:
        ctx.count("with_evidence")
    if e or rng.random() < 0.5:
        ctx.call(jt.initialize_potentials, assignments, b, dict(e))
    else:
        ctx.call(jt.initialize_potentials, assignments, b)
    ctx.count("trees")
    ctx.case((net.signature(), kind, len(e)), len(jt.clique_nodes) > 1, {"network": net.describe(), "evidence": repr(e), "priority": kind})
    joint = []
    for a, p in nets.enumerate_joint(net):
        joint.append((a, p if all(a[v] == x for v, x in e.items()) else Fraction(0)))
    # before propagation: the product of the clique tables is the joint
    for a, p in rng.sample(joint, min(len(joint), 24)):
        product = 1.0
        for c in jt.clique_nodes:
            product *= c.potential_tt[tuple((v, a[v]) for v in c.variable_names)]
        ctx.count("initial_products")
        ctx.check(close(product, p, 1e-9, 1e-300), lambda: "product of the initial potentials at %r is %r, should be %r" % (a, product, float(p)))
    for s in jt.sepset_nodes:
        ctx.check(all(x == 1 for x in s.potential_tt.values()), "a separator does not start at 1")
    start = rng.choice([None] + sorted(jt.clique_nodes, key=lambda c: (c.name, tuple(c.variable_names))))
    for again in range(2):
        if start is None:
            ctx.call(jt.propagate)
        else:
            ctx.call(jt.propagate, starting_clique=start)
        for node in list(jt.clique_nodes) + list(jt.sepset_nodes):
            names = list(node.variable_names)
            want = {}
            for a, p in joint:
                k = tuple((v, a[v]) for v in names)
                want[k] = want.get(k, 0) + p
            table = node.potential_tt
            ctx.check(set(table) == set(want), lambda: "table of %r has entries %r" % (node, list(table)[:5]))
            for k, w in want.items():
                ctx.count("entries_compared")
                ctx.check(close(table[k], w, 1e-9) if w else table[k] == 0, lambda: "%s of %r at %r is %r, should be %r; evidence %r; network %r" % (
                    "second propagation: table" if again else "table", node, k, table[k], float(w), e, net.describe()))


DYADIC = [[0.5, 0.5], [0.25, 0.75], [0.125, 0.875], [0.75, 0.25], [0.9375, 0.0625]]


def large(ctx, rng, i):
    """Trees of 20..150 cliques: entries are compared with exact marginals of a few cliques, and all tables with each other."""
    import causalnex.ebaybbn as m

    style = rng.choice(["chain", "rchain", "tree", "polytree", "ladder", "isolated", "star"])
    n = {"chain": rng.randint(60, 150), "rchain": rng.randint(60, 150)}.get(style) or rng.randint(20, 70)
    net = nets.random_net(rng, n=n, style=style, boolean=True, kind="uniform", max_size=10 ** 200, names=lambda r, k: ["v%d" % j for j in range(k)], max_states_per_family=8)
    for v in net.order:
        for row in net.cpt[v].values():
            row.update(zip(net.domains[v], rng.choice(DYADIC)))
    b = ctx.call(nets.build, m, net, rng)
    jt = ctx.call_budget(400_000_000, b.build_join_tree)
    assignments = ctx.call_budget(400_000_000, jt.assign_clusters, b)
    ve = nets.Elimination(net)
    first = net.order[0]
    for e in ({}, bc.possible_evidence(rng, net, rng.choice([1, 2, 5]))):
        ctx.call_budget(400_000_000, jt.initialize_potentials, assignments, b, dict(e))
        start = rng.choice([None] + sorted(jt.clique_nodes, key=lambda c: tuple(c.variable_names)))
        for again in range(2):
            if start is None:
                ctx.call_budget(400_000_000, jt.propagate)
            else:
                ctx.call_budget(400_000_000, jt.propagate, starting_clique=start)
            what = "%s of %d variables, evidence %r%s" % (style, n, e, ", second propagation" if again else "")
            total = float(sum(ve.marginal(first, e).values()))
            tables = {id(c): c.potential_tt for c in list(jt.clique_nodes) + list(jt.sepset_nodes)}
            for c in jt.clique_nodes:
                ctx.count("large_tables")
                ctx.check(close(sum(c.potential_tt.values()), total, 1e-9), lambda: "%s: the table of %r sums to %r, should be %r" % (what, c, sum(c.potential_tt.values()), total))
            for s in jt.sepset_nodes:
                for c in s.neighbours:
                    sums = {}
                    for k, x in c.potential_tt.items():
                        kk = tuple((v, y) for v, y in k if v in s.variable_names)
                        sums[kk] = sums.get(kk, 0) + x
                    ctx.check(set(sums) == set(s.potential_tt), lambda: "%s: entries of %r" % (what, s))
                    for k, x in sums.items():
                        ctx.count("entries_compared")
                        ctx.check(close(s.potential_tt[k], x, 1e-9), lambda: "%s: %r at %r is %r, but %r sums to %r" % (what, s, k, s.potential_tt[k], c, x))
            # the product of clique tables over that of separators is the joint
            a = net.sample(rng)
            a.update(e)
            ratio = Fraction(net.probability(a))
            for c in jt.clique_nodes:
                ratio /= Fraction(c.potential_tt[tuple((v, a[v]) for v in c.variable_names)]) or 1
            for s in jt.sepset_nodes:
                ratio *= Fraction(s.potential_tt[tuple((v, a[v]) for v in s.variable_names)]) or 1
            ctx.check(net.probability(a) == 0 or close(ratio, 1, 1e-9), lambda: "%s: cliques over separators at %r is not the joint, by a factor of %r" % (what, a, float(ratio)))
            for c in rng.sample(sorted(jt.clique_nodes, key=lambda c: tuple(c.variable_names)), 1):
                v = rng.choice(list(c.variable_names))
                want = ve.marginal(v, e)
                for x, w in want.items():
                    got = sum(p for k, p in c.potential_tt.items() if (v, x) in k)
                    ctx.check(close(got, w, 1e-9) if w else got == 0, lambda: "%s: %r in %r sums to %r, should be %r" % (what, (v, x), c, got, float(w)))
    ctx.count("large")
    ctx.case((style, n, repr(e)), True, {"style": style, "variables": n})


FAMILIES = {"calibrated": (calibrated, 500, 12000), "large": (large, 3, 60)}

"""C15: every valid network is answered within bounded steps: disconnected, isolated, deep, wide and large ones."""
import sys

from rv import nets
from rv.checks import bbncommon as bc

PROPERTY = "C15"
INTERPRETER = "repo"
RULE = ("disconnected networks and networks with isolated variables (2..40 variables, up to 12 components), chains, trees, stars and polytrees "
        "of 50..300 variables, nodes with up to 9 parents, under a budget of logical steps and the default recursion limit; oracle: exact "
        "marginals per component or by variable elimination. Non-trivial: more than one component or at least 40 variables")
NEED = {"disconnected": 200, "large": 10, "largest_variables": 300, "isolated_variables": 200}
CAP = (300, 840)


def disconnected(ctx, rng, i):
    import causalnex.ebaybbn as m

    parts = []
    for k in range(rng.randint(2, 6)):
        net = nets.random_net(rng, n=rng.choice([1, 1, 2, 3, 4]), max_size=64, style=rng.choice(nets.STYLES), names=rng.choice(nets.NAME_POOLS))
        parts.append((k, net))
    order, parents, domains, cpt = [], {}, {}, {}
    tags = rng.choice([["_%d" % k for k in range(9)], ["%d" % k for k in range(9)], ["q" * (k + 1) for k in range(9)], list("xXyYzZwWv")])
    seen = {}

    def name(k, v):
        """Names that are distinct, though some only by case or by where one ends and the next begins."""
        if (k, v) not in seen:
            n = v + tags[k]
            while n in seen.values():
                n += "_"
            seen[(k, v)] = n
        return seen[(k, v)]

    for k, net in parts:
        for v in net.order:
            order.append(name(k, v))
            parents[name(k, v)] = [name(k, p) for p in net.parents[v]]
            domains[name(k, v)] = net.domains[v]
            cpt[name(k, v)] = net.cpt[v]
    whole = nets.Net(order, parents, domains, cpt, "disconnected")
    comps = whole.components()
    b = ctx.call(nets.build, m, whole, rng)
    ctx.count("disconnected")
    ctx.count("isolated_variables", sum(1 for c in comps if len(c) == 1))
    ctx.case(whole.signature(), len(comps) > 1, whole.describe())
    for e_kind in range(3):
        want, e = {}, {}
        possible = True
        for k, net in parts:
            pe = {} if e_kind == 0 else (bc.possible_evidence(rng, net) if e_kind == 1 else
                                         (bc.any_evidence(rng, net) if rng.random() < 0.4 else {}))
            w, total = nets.joint_marginals(net, pe)
            possible = possible and total > 0
            for (v, x), p in w.items():
                want[(name(k, v), x)] = p / total if total and pe else p
            e.update({name(k, v): x for v, x in pe.items()})
        if not possible:
            want = {key: 0 for key in want}
        bc.compare(ctx, whole, ctx.call(b.query, **e), want, e, "query(**%r)" % (e,))
    s = ctx.call(b.draw_samples, {}, 2)
    for x in s:
        ctx.check(set(x) == set(order) and whole.probability(x) > 0, "sample of a disconnected network")


DYADIC = [[0.5, 0.5], [0.25, 0.75], [0.125, 0.875], [0.75, 0.25], [0.9375, 0.0625]]


def large(ctx, rng, i):
    import causalnex.ebaybbn as m

    style = ["chain", "tree", "star", "polytree", "rchain", "isolated", "vwide"][(i + ctx.worker) % 7]
    n = {"chain": rng.randint(170, 300), "rchain": rng.randint(170, 300), "tree": rng.randint(70, 110), "star": rng.randint(50, 100),
         "polytree": rng.randint(60, 100), "isolated": rng.randint(40, 90), "vwide": 10}[style]
    if style == "vwide":
        net = nets.random_net(rng, n=9, style="isolated", boolean=True, kind="plain", names=lambda r, k: ["p%d" % j for j in range(k)])
        net.order.append("child")
        net.domains["child"] = [True, False]
        net.parents["child"] = list(net.order[:9])
        nets.with_tables(rng, net, "plain")
    else:
        net = nets.random_net(rng, n=n, style=style, boolean=True, kind="uniform", max_size=10 ** 200, names=lambda r, k: ["v%d" % j for j in range(k)],
                              max_states_per_family=8)
        for v in net.order:
            for row in net.cpt[v].values():
                row.update(zip(net.domains[v], rng.choice(DYADIC)))
    n = len(net.order)
    limit = sys.getrecursionlimit()
    b = ctx.call(nets.build, m, net, rng)
    e = bc.possible_evidence(rng, net, rng.choice([0, 1, 2])) if style != "isolated" else bc.possible_evidence(rng, net, 2)
    r = ctx.call_budget(400_000_000, b.query, **e)
    ctx.check(sys.getrecursionlimit() == limit, "the recursion limit was changed")
    ctx.check(set(r) == {(v, x) for v in net.order for x in net.domains[v]}, "entries missing")
    ve = nets.Elimination(net)
    base = None
    for v in rng.sample(net.order, 3 if style in ("star", "polytree", "tree", "isolated") else 2):
        w = ve.marginal(v, e)
        total = sum(w.values())
        for x in w:
            ctx.count("marginals_compared")
            ctx.check(bc.close(r[(v, x)], w[x] / total, 1e-9), lambda: "P(%r) = %r, should be %r in a %s of %d variables, evidence %r" % (
                (v, x), r[(v, x)], float(w[x] / total), style, n, e))
    for v in net.order:
        ctx.check(bc.close(sum(r[(v, x)] for x in net.domains[v]), 1, 1e-9), "marginal of %r does not sum to 1" % v)
    ctx.count("large")
    ctx.count("largest_variables", n)
    ctx.case((style, n), True, {"style": style, "variables": n, "evidence": repr(e)})


def deep(ctx, rng, i):
    """Known finding: propagation recurses once per clique, so a chain of about 1000 variables fails."""
    import causalnex.ebaybbn as m

    if ctx.worker or i:
        return
    n = 1000
    fs = []
    for k in range(n):
        def f(*a):
            return 0.5 if len(a) == 1 else (0.75 if a[0] == a[1] else 0.25)
        f.argspec = ["v%d" % (k - 1), "v%d" % k] if k else ["v0"]
        f.__name__ = "f_v%d" % k
        fs.append(f)
    b = ctx.call(m.build_bbn, fs)
    ctx.case(("deep", n), True)
    ctx.steps.off()  # this one case alone would take most of the run under the monitor
    try:
        r = b.query()
    except RecursionError:
        ctx.known_finding("deep-join-tree-recursion", "RecursionError in query() on a chain of %d variables" % n)
        return
    finally:
        ctx.steps.on()
    ctx.check(bc.close(r[("v999", True)], 0.5), "P(v999) = %r" % r[("v999", True)])


FAMILIES = {"disconnected": (disconnected, 80, 2000), "large": (large, 2, 45), "deep": (deep, 1, 1)}

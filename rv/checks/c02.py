"""C02: posteriors given evidence are exact and normalised."""
from rv import nets
from rv.checks import bbncommon as bc
from rv.core import close

PROPERTY = "C02"
INTERPRETER = "repo"
RULE = ("random networks as in C01, each asked several times with evidence of positive probability on 1..all variables, including "
        "very unlikely evidence; oracle: exact conditional probabilities in rationals. Distinct by network and evidence positions; "
        "non-trivial when evidence and at least one unobserved variable are there")
NEED = {"marginals_compared": 5000, "evidence_sets": 800, "unlikely_evidence": 20, "wide": 80, "rarest_evidence": 40}
ASSUMPTIONS = ["tables are proper (non-negative, each row sums to 1 to rounding)", "relative tolerance 1e-9"]


def judge(ctx, net, r, e, want, total):
    bc.compare(ctx, net, r, want, e, "query(**%r)" % (e,), normalise=total)
    for v in net.order:
        s = sum(r[(v, x)] for x in net.domains[v])
        ctx.check(close(s, 1, 1e-9), lambda: "posterior of %r sums to %r given %r" % (v, s, e))
    for v, x in e.items():
        ctx.check(close(r[(v, x)], 1, 1e-12), lambda: "observed %r=%r has posterior %r" % (v, x, r[(v, x)]))


def exact(ctx, rng, i):
    import causalnex.ebaybbn as m

    net = nets.random_net(rng, n=rng.randint(1, 6), max_size=1024)
    b = ctx.call(nets.build, m, net, rng, any_names=True)
    for _ in range(rng.randint(2, 4)):
        e = bc.possible_evidence(rng, net, rng.randint(1, len(net.order)))
        want, total = nets.joint_marginals(net, e)
        ctx.case((net.signature(), tuple(sorted(net.order.index(v) for v in e))), len(e) < len(net.order),
                 {"network": net.describe(), "evidence": repr(e)})
        ctx.count("evidence_sets")
        if total < 1e-6:
            ctx.count("unlikely_evidence")
        r = ctx.call(b.query, **e)
        judge(ctx, net, r, e, want, total)


def unlikely(ctx, rng, i):
    """Evidence chosen among the least probable combinations which are still possible."""
    import causalnex.ebaybbn as m

    net = nets.random_net(rng, n=rng.randint(2, 5), kind=rng.choice(["tiny", "mixed"]), max_size=512)
    b = ctx.call(nets.build, m, net, rng, any_names=True)
    worst = min(((p, list(a.values())) for a, p in nets.enumerate_joint(net) if p), key=lambda t: t[0])
    a = dict(zip(net.order, worst[1]))
    names = sorted(net.order)
    e = {v: a[v] for v in rng.sample(names, rng.randint(1, len(names)))}
    want, total = nets.joint_marginals(net, e)
    ctx.case((net.signature(), tuple(sorted(net.order.index(v) for v in e))), len(e) < len(net.order))
    ctx.count("evidence_sets")
    if total < 1e-6:
        ctx.count("unlikely_evidence")
    judge(ctx, net, ctx.call(b.query, **e), e, want, total)


def larger(ctx, rng, i):
    import causalnex.ebaybbn as m

    net = nets.random_net(rng, n=rng.randint(9, 16), style=rng.choice(["chain", "tree", "polytree", "diamond", "grid",
                                                                        "disconnected", "ladder", "loop", "bipartite"]),
                          max_size=10 ** 12, max_card=3)
    b = ctx.call(nets.build, m, net, rng, any_names=True)
    e = bc.possible_evidence(rng, net, rng.choice([rng.randint(1, 5), rng.randint(1, len(net.order))]))
    ve = nets.Elimination(net)
    want = {}
    for v in net.order:
        for x, p in ve.marginal(v, e).items():
            want[(v, x)] = p
    total = sum(want[(net.order[0], x)] for x in net.domains[net.order[0]])
    ctx.case((net.signature(), tuple(sorted(net.order.index(v) for v in e))), True)
    ctx.count("evidence_sets")
    judge(ctx, net, ctx.call(b.query, **e), e, want, total)


def wide(ctx, rng, i):
    """A variable with many parents: one clique holds many tables; evidence on many of them."""
    import causalnex.ebaybbn as m

    k = rng.randint(5, 9)
    net = nets.random_net(rng, n=k + 1, style="isolated", boolean=True, kind="plain", max_size=10 ** 9)
    child = net.order[-1]
    net.parents[child] = rng.sample(net.order[:-1], k)
    nets.with_tables(rng, net, rng.choice(["plain", "zeros", "mixed"]))
    b = ctx.call(nets.build, m, net, rng, any_names=True)
    for _ in range(2):
        e = bc.possible_evidence(rng, net, rng.choice([1, 1, 2, k]))
        want, total = nets.joint_marginals(net, e)
        ctx.case((net.signature(), tuple(sorted(net.order.index(v) for v in e))), True)
        ctx.count("evidence_sets")
        ctx.count("wide")
        judge(ctx, net, ctx.call(b.query, **e), e, want, total)


def star(rng, k, p, q):
    """A root with k children; rare is the value whose probability is p or q, by the root."""
    root, children = "root", ["c%d" % j for j in range(k)]
    order = [root] + children
    domains = {v: [True, False] for v in order}
    cpt = {root: {(): {True: 0.5, False: 0.5}}}
    for c in children:
        cpt[c] = {(True,): {True: p, False: 1 - p}, (False,): {True: q, False: 1 - q}}
    return nets.Net(order, {v: [root] if v != root else [] for v in order}, domains, cpt, "star"), children


def rarest(ctx, rng, i):
    """Evidence of probabilities down to 1e-125 (at which no order of multiplying and dividing underflows)."""
    import causalnex.ebaybbn as m

    k = rng.randint(8, 40)
    p = 10 ** (-rng.uniform(30, 125) / k)
    net, children = star(rng, k, p, p * rng.choice([1.0, 0.5, 0.9, 2.0 ** (1 / k)]))
    b = ctx.call(nets.build, m, net, rng, any_names=True)
    e = {c: True for c in children}
    if rng.random() < 0.3:
        del e[rng.choice(children)]
    ve = nets.Elimination(net)
    want = {}
    for v in net.order:
        for x, w in ve.marginal(v, e).items():
            want[(v, x)] = w
    total = want[("root", True)] + want[("root", False)]
    ctx.case((k, len(e), round(p, 3)), True, {"children": k, "P(evidence)": repr(float(total))})
    ctx.count("evidence_sets")
    ctx.count("unlikely_evidence")
    ctx.count("rarest_evidence")
    judge(ctx, net, ctx.call(b.query, **e), e, want, total)


def below(ctx, rng, i):
    """Known finding: evidence whose probability is below the range of floating point is taken for impossible."""
    import causalnex.ebaybbn as m

    if ctx.worker or i:
        return
    net, children = star(rng, 40, 1e-9, 2e-9)
    b = ctx.call(nets.build, m, net, rng)
    r = ctx.call(b.query, **{c: True for c in children})
    ctx.case(("below", 40), True)
    if not any(r.values()):
        ctx.known_finding("joint-below-float-range", "every probability is 0 given 40 observations whose joint probability is 1e-349")
        return
    ctx.check(close(r[("root", False)], 2 ** 40 / (2 ** 40 + 1), 1e-9), lambda: "P(root) = %r" % r)


FAMILIES = {"rarest": (rarest, 10, 200), "below": (below, 1, 1), "wide": (wide, 12, 200), "exact": (exact, 300, 7000), "unlikely": (unlikely, 120, 2500), "larger": (larger, 30, 400)}

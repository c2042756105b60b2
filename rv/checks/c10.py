"""C10: answers obey the laws of probability and do not depend on presentation, on networks of any size."""
from rv import nets
from rv.checks import bbncommon as bc
from rv.core import close

PROPERTY = "C10"
INTERPRETER = "repo"
RULE = ("random networks of 3..30 variables; pairs of queries related by a law: chain rule both ways round, total probability, no effect of "
        "d-separated evidence, removal of an unobserved leaf, renaming, permuting factors, arguments and domains. Non-trivial: every case; "
        "distinct by network and law")
NEED = {"law_bayes": 100, "law_total": 100, "law_dsep": 60, "law_leaf": 60, "law_presentation": 100}
STYLES = ["chain", "rchain", "tree", "polytree", "diamond", "grid", "disconnected", "ladder", "loop", "star", "random", "bipartite"]


def make(ctx, rng, lo=3, hi=24):
    net = nets.random_net(rng, n=rng.randint(lo, hi), style=rng.choice(STYLES), max_size=10 ** 15, max_card=3,
                          kind=rng.choice(["plain", "plain", "zeros", "mixed"]), max_states_per_family=64)
    return net


def same(ctx, a, b, what):
    ctx.check(set(a) == set(b), lambda: "%s: different entries" % what)
    for k in a:
        ctx.count("comparisons")
        ctx.check(close(a[k], b[k], 1e-8, 1e-13), lambda: "%s: P(%r) is %r and %r" % (what, k, a[k], b[k]))


def bayes(ctx, rng, i):
    import causalnex.ebaybbn as m

    net = make(ctx, rng)
    b = ctx.call(nets.build, m, net, rng)
    base = bc.possible_evidence(rng, net, rng.choice([0, 1, 2, rng.randint(0, len(net.order))]))
    x, y = rng.sample(net.order, 2)
    base.pop(x, None)
    base.pop(y, None)
    ctx.case(("bayes", net.signature(), len(base)), True)
    r = ctx.call(b.query, **base)
    for v in net.order:
        s = sum(r[(v, k)] for k in net.domains[v])
        ctx.check(close(s, 1, 1e-8), lambda: "P(%r) sums to %r given %r in %r" % (v, s, base, net.describe()))
    vx = rng.choice([k for k in net.domains[x] if r[(x, k)] > 1e-9] or [None])
    vy = rng.choice([k for k in net.domains[y] if r[(y, k)] > 1e-9] or [None])
    ctx.count("law_bayes")
    rx = ctx.call(b.query, **dict(base, **{x: vx}))
    ry = ctx.call(b.query, **dict(base, **{y: vy}))
    left, right = r[(x, vx)] * rx[(y, vy)], r[(y, vy)] * ry[(x, vx)]
    ctx.check(close(left, right, 1e-8, 1e-14), lambda: "P(x)P(y|x) = %r but P(y)P(x|y) = %r for x=%r, y=%r given %r in %r" % (
        left, right, (x, vx), (y, vy), base, net.describe()))


def total(ctx, rng, i):
    import causalnex.ebaybbn as m

    net = make(ctx, rng, 3, 16)
    b = ctx.call(nets.build, m, net, rng)
    base = bc.possible_evidence(rng, net, rng.choice([0, 1, 2]))
    x = rng.choice(net.order)
    base.pop(x, None)
    ctx.case(("total", net.signature(), len(base)), True)
    ctx.count("law_total")
    r = ctx.call(b.query, **base)
    mix = {k: 0.0 for k in r}
    for v in net.domains[x]:
        if r[(x, v)] > 0:
            part = ctx.call(b.query, **dict(base, **{x: v}))
            for k in mix:
                mix[k] += r[(x, v)] * part[k]
    same(ctx, r, mix, "total probability over %r given %r in %r" % (x, base, net.describe()))


def d_separated(net, x, y, given):
    """Reachability by active trails (the Bayes-ball rules)."""
    children = {v: [c for p, c in net.edges() if p == v] for v in net.order}
    anc = set()
    stack = list(given)
    while stack:
        v = stack.pop()
        if v not in anc:
            anc.add(v)
            stack += net.parents[v]
    seen, stack = set(), [(x, "up")]
    while stack:
        v, d = stack.pop()
        if (v, d) in seen:
            continue
        seen.add((v, d))
        if v == y and v not in given:
            return False
        if d == "up" and v not in given:
            stack += [(p, "up") for p in net.parents[v]] + [(c, "down") for c in children[v]]
        elif d == "down":
            if v not in given:
                stack += [(c, "down") for c in children[v]]
            if v in anc:
                stack += [(p, "up") for p in net.parents[v]]
    return True


def dsep(ctx, rng, i):
    import causalnex.ebaybbn as m

    net = make(ctx, rng)
    b = ctx.call(nets.build, m, net, rng)
    a = net.sample(rng)
    for _ in range(30):
        x, y = rng.sample(net.order, 2)
        given = [v for v in rng.sample(net.order, rng.randint(0, min(4, len(net.order)))) if v not in (x, y)]
        if d_separated(net, x, y, set(given)):
            break
    else:
        ctx.case("none", False)
        return
    ctx.case(("dsep", net.signature(), len(given)), True)
    ctx.count("law_dsep")
    e = {v: a[v] for v in given}
    r1 = ctx.call(b.query, **e)
    r2 = ctx.call(b.query, **dict(e, **{x: a[x]}))
    for k in net.domains[y]:
        ctx.check(close(r1[(y, k)], r2[(y, k)], 1e-8, 1e-12), lambda: "observing %r changes %r although they are independent given %r: %r, %r in %r" % (
            (x, a[x]), (y, k), e, r1[(y, k)], r2[(y, k)], net.describe()))


def leaf(ctx, rng, i):
    import causalnex.ebaybbn as m

    net = make(ctx, rng)
    has_children = {p for p, _ in net.edges()}
    leaves = [v for v in net.order if v not in has_children]
    x = rng.choice(leaves)
    ctx.case(("leaf", net.signature()), True)
    ctx.count("law_leaf")
    small = nets.Net([v for v in net.order if v != x], {v: p for v, p in net.parents.items() if v != x},
                     {v: d for v, d in net.domains.items() if v != x}, {v: t for v, t in net.cpt.items() if v != x}, net.style)
    e = bc.possible_evidence(rng, small, rng.choice([0, 1, 3, len(small.order) - 1]))
    r1 = ctx.call(ctx.call(nets.build, m, net, rng).query, **e)
    r2 = ctx.call(ctx.call(nets.build, m, small, rng).query, **e)
    same(ctx, {k: p for k, p in r1.items() if k[0] != x}, r2, "removing the leaf %r, evidence %r, network %r" % (x, e, net.describe()))


def presentation(ctx, rng, i):
    import causalnex.ebaybbn as m

    net = make(ctx, rng, 3, 30)
    ctx.case(("presentation", net.signature()), True)
    ctx.count("law_presentation")
    e = bc.possible_evidence(rng, net, rng.choice([0, 1, 2, 4, len(net.order)]))
    r1 = ctx.call(ctx.call(nets.build, m, net, rng).query, **e)
    r2 = ctx.call(ctx.call(nets.build, m, net, rng).query, **e)
    same(ctx, r1, r2, "permuted factors, arguments and domains; evidence %r; network %r" % (e, net.describe()))
    fresh = ["n%d" % k for k in range(len(net.order))]
    rng.shuffle(fresh)
    name = dict(zip(net.order, fresh))
    other = nets.Net([name[v] for v in net.order], {name[v]: [name[p] for p in ps] for v, ps in net.parents.items()},
                     {name[v]: d for v, d in net.domains.items()}, {name[v]: t for v, t in net.cpt.items()}, net.style)
    r3 = ctx.call(ctx.call(nets.build, m, other, rng).query, **{name[v]: x for v, x in e.items()})
    same(ctx, {(name[k[0]], k[1]): p for k, p in r1.items()}, r3, "renamed variables; evidence %r; network %r" % (e, net.describe()))


FAMILIES = {"bayes": (bayes, 50, 800), "total": (total, 40, 600), "dsep": (dsep, 50, 800), "leaf": (leaf, 40, 700),
            "presentation": (presentation, 40, 700)}

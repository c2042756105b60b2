"""C03: events of probability zero never crash or corrupt inference."""
from rv import nets
from rv.checks import bbncommon as bc

PROPERTY = "C03"
INTERPRETER = "repo"
RULE = ("networks rich in zero and one table entries, asked with arbitrary in-domain evidence, possible or not; oracle: exact "
        "enumeration, with every mass 0 when the evidence is impossible. Distinct by network and evidence positions; "
        "non-trivial when some joint state has probability zero")
NEED = {"impossible_evidence": 300, "possible_evidence": 300, "zero_marginals": 500, "impossible_samples": 50, "impossible_complete_samples": 20}
ASSUMPTIONS = ["tables are proper (non-negative, each row sums to 1 to rounding)"]


def zeros(ctx, rng, i):
    import causalnex.ebaybbn as m

    net = nets.random_net(rng, n=rng.randint(2, 6), kind=rng.choice(["zeros", "deterministic", "mixed"]), max_size=512)
    b = ctx.call(nets.build, m, net, rng)
    for k in range(4):
        e = bc.any_evidence(rng, net) if k else {}
        want, total = nets.joint_marginals(net, e)
        sparse = any(p == 0 for v in net.order for row in net.cpt[v].values() for p in row.values())
        ctx.case((net.signature(), tuple(sorted(net.order.index(v) for v in e)), total == 0), sparse,
                 {"network": net.describe(), "evidence": repr(e), "P(evidence)": float(total)})
        ctx.count("possible_evidence" if total else "impossible_evidence")
        r = ctx.call(b.query, **e)
        bc.compare(ctx, net, r, want, e, "query(**%r)" % (e,), normalise=total)
        for key, p in r.items():
            ctx.check(p == p and 0 <= p <= 1 + 1e-9, lambda: "P(%r | %r) = %r" % (key, e, p))
            if p == 0:
                ctx.count("zero_marginals")
        if total == 0:
            # the network still answers correctly afterwards
            again, t = nets.joint_marginals(net)
            bc.compare(ctx, net, ctx.call(b.query), again, {}, "query() after impossible evidence")


def impossible_sample(ctx, rng, i):
    """No sample is made up for a query of probability zero."""
    import causalnex.ebaybbn as m

    net = nets.random_net(rng, n=rng.randint(2, 5), kind=rng.choice(["zeros", "deterministic"]), max_size=256)
    for _ in range(10):
        e = bc.any_evidence(rng, net)
        if rng.random() < 0.3:
            e = {v: bc.equal_copy(rng, rng.choice(net.domains[v])) for v in net.order}
        want, total = nets.joint_marginals(net, e)
        if total == 0:
            break
    else:
        ctx.case("none", False)
        return
    b = ctx.call(nets.build, m, net, rng)
    ctx.case((net.signature(), len(e)), True)
    ctx.count("impossible_samples")
    if len(e) == len(net.order):
        ctx.count("impossible_complete_samples")
    ctx.raises((Exception,), b.draw_samples, dict(e), rng.choice([1, 2]))


FAMILIES = {"zeros": (zeros, 250, 6000), "impossible_sample": (impossible_sample, 60, 1500)}

"""C04: evidence is validated: unknown variables and out-of-domain values are rejected, the rest accepted."""
from rv import nets
from rv.checks import bbncommon as bc

PROPERTY = "C04"
INTERPRETER = "repo"
RULE = ("random networks; evidence for query(), validate_keyvals() and draw_samples() with 0..2 corrupted items among valid ones: "
        "near-miss names, factor names, values of other variables' domains, other types. Non-trivial: at least one item is corrupted")
NEED = {"rejections": 1500, "acceptances": 500, "rejected_name": 300, "rejected_value": 300, "rejected_samples": 200, "rejected_among_many": 200}
ASSUMPTIONS = ["a value is in a domain when it equals one of its members (so 1 is accepted where True is)"]


def near_names(rng, net):
    v = rng.choice(net.order)
    return [v + "_", "_" + v, v.upper() + "?", v + " ", " " + v, "f_" + v, v * 2, v[:-1] or "q", "", "nodes", v.swapcase(), "zz9"]


def near_values(rng, net, v):
    pool = ["True", "False", True, False, None, 0, 1, 2, -1, "0", "low", "LOW", 0.25, (), ("a",), (1, 2, 3), frozenset([9]),
            "", " ", b"x", 10 ** 19, nets.Opaque("other"), nets.Colour.RED]
    pool += [x for u in net.order for x in net.domains[u]] + [str(x) for x in net.domains[v]]
    return [x for x in pool if not any(x == d for d in net.domains[v])]


def validation(ctx, rng, i):
    import causalnex.ebaybbn as m
    from causalnex.ebaybbn.exceptions import VariableNotInGraphError, VariableValueNotInDomainError

    net = nets.random_net(rng, n=rng.randint(1, 6), max_size=512)
    b = ctx.call(nets.build, m, net, rng)
    for _ in range(6):
        a = net.sample(rng)
        names = list(net.order)
        e = {v: a[v] for v in rng.sample(names, rng.randint(0, len(names)))}
        kinds = rng.choice([(), ("name",), ("name",), ("value",), ("value",), ("name", "value")])
        if "value" in kinds:
            v = rng.choice(names)
            e[v] = rng.choice(near_values(rng, net, v))
        if "name" in kinds:
            bad = rng.choice([x for x in near_names(rng, net) if x not in net.order])
            e[bad] = rng.choice(rng.choice([net.domains[w] for w in names]) + ["whatever"])
        items = list(e.items())
        rng.shuffle(items)
        e = dict(items)
        before = dict(e)
        ctx.case((net.signature(), kinds, len(e)), bool(kinds), {"evidence": repr(e), "corrupted": kinds})
        if kinds:
            expected = tuple({"name": VariableNotInGraphError, "value": VariableValueNotInDomainError}[k] for k in kinds)
            ctx.count("rejected_" + kinds[0])
            ctx.count("rejections", 3)
            ctx.raises(expected, b.query, **e)
            ctx.raises(expected, b.validate_keyvals, **e)
            ctx.raises(expected, b.draw_samples, dict(e), 1)
            ctx.count("rejected_samples")
        else:
            ctx.count("acceptances", 3)
            ctx.check(ctx.call(b.validate_keyvals, **e), "valid evidence %r was not accepted" % (e,))
            want, total = nets.joint_marginals(net, e)
            bc.compare(ctx, net, ctx.call(b.query, **e), want, e, "query after rejections", normalise=total)
            ctx.check(len(ctx.call(b.draw_samples, dict(e), 1)) == 1, "no sample for valid evidence %r" % (e,))
        ctx.check(e == before, "the evidence was modified")


def many(ctx, rng, i):
    """One wrong item, anywhere among many; domains which also mention variables the network does not have."""
    import causalnex.ebaybbn as m
    from causalnex.ebaybbn.exceptions import VariableNotInGraphError, VariableValueNotInDomainError

    net = nets.random_net(rng, n=rng.randint(10, 22), style=rng.choice(["chain", "tree", "isolated", "star"]), max_size=10 ** 30)
    fs = [nets.factor(net, v, rng) for v in net.order]
    rng.shuffle(fs)
    domains = nets.domains_argument(net, rng)
    domains["not there"] = ["x", "y"]
    domains["zzz"] = [True, False]
    b = ctx.call(m.build_bbn, fs, domains=domains)
    a = net.sample(rng)
    for _ in range(4):
        e = {v: a[v] for v in rng.sample(net.order, rng.randint(0, len(net.order)))}
        kind = rng.choice(["value", "domain only", "name", ""])
        if kind == "value":
            v = rng.choice(net.order)
            e[v] = rng.choice(near_values(rng, net, v))
        elif kind == "domain only":
            name = rng.choice(["not there", "zzz"])
            e[name] = rng.choice(domains[name])
        elif kind == "name":
            e[rng.choice([x for x in near_names(rng, net) if x not in net.order])] = a[rng.choice(net.order)]
        items = list(e.items())
        rng.shuffle(items)
        e = dict(items)
        ctx.case((net.signature()[:2], kind, len(e)), bool(kind))
        if kind:
            error = (VariableValueNotInDomainError if kind == "value" else VariableNotInGraphError,)
            ctx.count("rejected_among_many")
            ctx.count("rejections", 3)
            ctx.raises(error, b.query, **e)
            ctx.raises(error, b.validate_keyvals, **e)
            ctx.raises(error, b.draw_samples, dict(e), rng.choice([0, 1]))
        else:
            ctx.count("acceptances")
            ctx.check(ctx.call(b.validate_keyvals, **e), "valid evidence %r was not accepted" % (e,))


def default_domain(ctx, rng, i):
    """Variables without a declared domain take exactly True and False."""
    import causalnex.ebaybbn as m
    from causalnex.ebaybbn.exceptions import VariableValueNotInDomainError

    net = nets.random_net(rng, n=rng.randint(1, 5), boolean=True)
    fs = [nets.factor(net, v, rng) for v in net.order]
    b = ctx.call(m.build_bbn, fs) if rng.random() < 0.5 else ctx.call(m.build_bbn, *fs, domains={})
    v = rng.choice(net.order)
    bad = rng.choice(["True", "False", None, 2, -1, "", "t", (True,), 0.5])
    ctx.case((net.signature(), repr(bad)), True)
    ctx.count("rejections")
    ctx.raises((VariableValueNotInDomainError,), b.query, **{v: bad})
    e = {v: net.sample(rng)[v]}
    want, total = nets.joint_marginals(net, e)
    ctx.count("acceptances")
    bc.compare(ctx, net, ctx.call(b.query, **e), want, e, "query", normalise=total)


def self_name(ctx, rng, i):
    """Known finding: a variable that is called `self` cannot be observed."""
    import causalnex.ebaybbn as m

    if ctx.worker or i:
        return
    net = nets.Net(["self", "b"], {"self": [], "b": ["self"]}, {"self": [True, False], "b": [True, False]}, {})
    nets.with_tables(rng, net, "plain")
    b = ctx.call(nets.build, m, net)
    ctx.case("self", True)
    try:
        r = b.query(**{"self": True})
    except TypeError as e:
        if "multiple values for argument 'self'" not in str(e):
            raise
        ctx.known_finding("variable-named-self", "BBN.query(**{'self': True}) raises TypeError")
        return
    want, total = nets.joint_marginals(net, {"self": True})
    bc.compare(ctx, net, r, want, {"self": True}, "query", normalise=total)


FAMILIES = {"validation": (validation, 400, 8000), "many": (many, 30, 400), "default_domain": (default_domain, 150, 2000), "self_name": (self_name, 1, 1)}

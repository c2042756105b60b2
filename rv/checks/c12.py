"""C12: networks and node functions built from conditional tables reproduce those tables."""
import itertools
from fractions import Fraction

from rv import nets
from rv.checks import bbncommon as bc

PROPERTY = "C12"
INTERPRETER = "repo"
RULE = ("random networks handed over as conditional tables, with rows, conditions within a row, outcomes and variables each in random order, "
        "as lists or tuples; every table entry is read back through the node function, every marginal compared with exact enumeration. "
        "Non-trivial: some variable has two parents")
NEED = {"entries_read": 5000, "marginals_compared": 3000, "two_parents": 200, "unlisted_assignments": 2000}


def conditions(rng, net, v):
    rows = []
    for givens, outcome in net.cpt[v].items():
        pair = rng.choice([list, tuple])
        pairs = [pair((p, x)) for p, x in zip(net.parents[v], givens)]
        rng.shuffle(pairs)
        items = [(x, outcome[x]) for x in net.domains[v]]
        rng.shuffle(items)
        rows.append(rng.choice([list, tuple])((rng.choice([list, tuple])(pairs), dict(items))))
    rng.shuffle(rows)
    return rows


def tables(ctx, rng, i):
    import copy

    import causalnex.ebaybbn as m

    net = nets.random_net(rng, n=rng.randint(1, 6), max_size=512)
    names = list(net.order)
    rng.shuffle(names)
    conds = {v: conditions(rng, net, v) for v in names}
    before = repr(conds)
    many = any(len(p) > 1 for p in net.parents.values())
    ctx.case(net.signature(), many, {"conditions": repr(conds)[:600]})
    if many:
        ctx.count("two_parents")
    v = rng.choice(names)
    f = ctx.call(m.make_node_func, v, conds[v])
    order = sorted(net.parents[v])
    from causalnex.ebaybbn.utils import get_args

    args = ctx.call(get_args, f)
    ctx.check(list(args) == order + [v], lambda: "arguments of the node function of %r are %r, should be %r" % (v, args, order + [v]))
    for values in itertools.product(*[net.domains[p] for p in order]):
        a = dict(zip(order, values))
        for x in net.domains[v]:
            got = ctx.call(f, *values, x)
            want = net.cpt[v][tuple(a[p] for p in net.parents[v])][x]
            ctx.count("entries_read")
            ctx.check(got == want, lambda: "P(%r=%r | %r) reads %r, table says %r" % (v, x, a, got, want))
    known = [x for u in names for x in net.domains[u]]
    for _ in range(2):
        # what the table does not list
        values = [rng.choice(net.domains[p]) for p in order] + [rng.choice(net.domains[v])]
        k = rng.randrange(len(values))
        stranger = rng.choice([x for x in known + ["?", None, -99] if not any(x == y for y in net.domains[(order + [v])[k]])])
        ctx.count("unlisted_assignments")
        ctx.raises((KeyError,), f, *values[:k], stranger, *values[k + 1:])
    if rng.random() < 0.2:
        # exact numbers stay exact
        exact = [(givens, {x: Fraction(rng.randint(0, 7), rng.choice([1, 3, 7, 10])) for x in outcome}) for givens, outcome in conds[v]]
        g = ctx.call(m.make_node_func, v, exact)
        for givens, outcome in exact:
            a = dict(map(tuple, givens))
            for x, p in outcome.items():
                ctx.count("entries_read")
                got = ctx.call(g, *[a[p] for p in order], x)
                ctx.check(got == p, lambda: "P(%r=%r | %r) reads %r, table says %r" % (v, x, a, got, p))
    b = ctx.call(m.build_bbn_from_conditionals, conds)
    ctx.check(repr(conds) == before, "the tables were modified")
    for e in ({}, bc.possible_evidence(rng, net), bc.any_evidence(rng, net)):
        want, total = nets.joint_marginals(net, e)
        bc.compare(ctx, net, ctx.call(b.query, **e), want, e, "query", normalise=total)
    ps = {x.variable_name: sorted(p.variable_name for p in x.parents) for x in b.nodes}
    ctx.check(ps == {u: sorted(net.parents[u]) for u in names}, lambda: "parents %r" % (ps,))


FAMILIES = {"tables": (tables, 500, 9000)}

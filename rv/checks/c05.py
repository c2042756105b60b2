"""C05: samples are complete, possible, agree with the query, for every random stream."""
from rv import ctlrandom, nets
from rv.checks import bbncommon as bc

PROPERTY = "C05"
INTERPRETER = "repo"
RULE = ("random networks, partly with zero entries; draw_samples(query, n) with possible queries under ordinary random streams and "
        "streams in which most draws are the extreme values random() can return (0, 2**-53, 1-2**-53) or sit on partial sums of "
        "the tables. Non-trivial: at least one variable is free to be drawn")
NEED = {"samples_seen": 5000, "extreme_draws": 5000, "cases_extreme": 100, "lookalikes": 2000}
ASSUMPTIONS = ["the code draws from Python's random module, which returns values in [0, 1)"]


def setup(ctx):
    ctlrandom.install()


def judge(ctx, rng, i, script):
    import causalnex.ebaybbn as m

    control = ctlrandom.CONTROL
    control.seed(rng.random())
    net = nets.random_net(rng, n=rng.randint(1, 6), max_size=512)
    b = ctx.call(nets.build, m, net, rng, any_names=True)
    if script == "rounding":
        special = []
        for v in net.order:
            for row in net.cpt[v].values():
                t = 0
                for x in row.values():
                    t += x
                    special += [t, 1 - x]
        control.script = ctlrandom.extreme_stream(rng, special)
    else:
        control.script = None
    try:
        for _ in range(2):
            q = bc.possible_evidence(rng, net, rng.choice([0, 0, 1, 2, len(net.order)]))
            n = rng.choice([0, 1, 2, 7])
            before = dict(q)
            d0 = control.drawn
            if q or rng.random() < 0.5:
                samples = ctx.call(b.draw_samples, q, n) if rng.random() < 0.5 else ctx.call(b.draw_samples, query=q, n=n)
            else:
                samples = ctx.call(b.draw_samples, n=n)
            if script:
                ctx.count("extreme_draws", control.drawn - d0)
            ctx.case((net.signature(), len(q), n, bool(script)), len(q) < len(net.order),
                     {"network": net.describe(), "query": repr(q), "n": n, "samples": repr(samples)[:400]})
            ctx.check(q == before, "the query %r was modified into %r" % (before, q))
            ctx.check(len(samples) == n, lambda: "asked for %d samples, got %d" % (n, len(samples)))
            ctx.check(len({id(s) for s in samples} | {id(q)}) == n + 1, "samples share one dictionary")
            for s in samples:
                ctx.count("samples_seen")
                ctx.check(set(s) == set(net.order), lambda: "sample %r does not assign exactly the variables %r" % (s, net.order))
                for v, x in s.items():
                    ctx.check(any(x is y or (x == y and type(x) is type(y)) for y in net.domains[v]),
                              lambda: "sampled %r=%r is not in the domain %r" % (v, x, net.domains[v]))
                for v, x in q.items():
                    ctx.check(s[v] == x, lambda: "sample %r contradicts the query %r" % (s, q))
                ctx.check(net.probability(s) > 0, lambda: "sample %r has probability 0; query %r; network %r" % (s, q, net.describe()))
    finally:
        control.script = None


def ordinary(ctx, rng, i):
    judge(ctx, rng, i, None)


def extreme(ctx, rng, i):
    judge(ctx, rng, i, "rounding")


def twins(ctx, rng, i):
    """Values that look alike: what follows from one must not be taken for what follows from the other."""
    import itertools

    import causalnex.ebaybbn as m

    control = ctlrandom.CONTROL
    control.seed(rng.random())
    control.script = None
    pool = rng.choice([[1, "1"], [True, "True"], [None, "None"], [0.5, "0.5", "0.50"], ["a", "a ", "A"], [(1,), "(1,)"], [2, "2", b"2"], ["1", 1, 11, "11"]])
    n = rng.randint(2, 4)
    names = rng.sample(["a", "b", "ab", "x", "y"], n)
    net = nets.Net(names, {v: ([names[0]] if k else []) for k, v in enumerate(names)}, {v: rng.sample(pool, len(pool)) for v in names}, {}, "copies")
    nets.with_tables(rng, net, "uniform")
    shown = {v: dict(zip(pool, rng.sample(pool, len(pool)))) for v in names}
    for v in names[1:]:
        net.cpt[v] = {(x,): {y: float(shown[v][x] == y) for y in net.domains[v]} for x, in itertools.product(pool)}
    b = ctx.call(nets.build, m, net, rng, any_names=True)
    samples = ctx.call(b.draw_samples, {}, 24)
    ctx.case((repr(pool), n), True, {"network": net.describe()})
    ctx.check(len(samples) == 24, "%d samples" % len(samples))
    for s in samples:
        ctx.count("samples_seen")
        ctx.count("lookalikes")
        ctx.check(set(s) == set(names) and net.probability(s) > 0, lambda: "sample %r has probability 0; network %r" % (s, net.describe()))


FAMILIES = {"twins": (twins, 20, 300), "ordinary": (ordinary, 80, 2500), "extreme": (extreme, 120, 4000)}

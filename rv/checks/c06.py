"""C06: samples follow the conditional joint distribution, independently of each other."""
import math

from rv import nets, stats
from rv.checks import bbncommon as bc

PROPERTY = "C06"
INTERPRETER = "repo"
RULE = ("small random networks (2..4 variables, at most 16 joint states), 2500 samples each, with and without a query, in one call "
        "or many; chi-square of the joint, and of pairs of consecutive samples, against exact probabilities at p < 1e-12. "
        "Non-trivial: at least two joint states are possible")
NEED = {"samples_seen": 100000, "tests": 100, "interleaved_queries": 100, "many_valued": 40, "repeats": 150}
ASSUMPTIONS = ["a wrong distribution within about 2-3 % of the right one is not told apart from it by 2500 samples"]
CAP = (200, 800)
N = 2500


def conditional(net, q):
    joint = {}
    for a, p in nets.enumerate_joint(net):
        if p and all(a[v] == x for v, x in q.items()):
            joint[tuple(a[v] for v in net.order)] = p
    total = sum(joint.values())
    return {k: float(p / total) for k, p in joint.items()}


def distribution(ctx, rng, i):
    import random

    import causalnex.ebaybbn as m

    net = nets.random_net(rng, n=rng.randint(2, 4), max_size=16, kind=rng.choice(["plain", "zeros", "mixed", "plain"]),
                          style=rng.choice(["chain", "vstruct", "diamond", "dense", "star", "disconnected", "polytree"]))
    b = ctx.call(nets.build, m, net, rng)
    q = bc.possible_evidence(rng, net, rng.choice([0, 0, 1]))
    random.seed(rng.random())
    how = rng.choice(["one call", "many calls", "singles"])
    if how == "one call":
        samples = ctx.call_budget(10 ** 9, b.draw_samples, q, N)
    else:
        size = 50 if how == "many calls" else 1
        samples, k = [], (N // size if size > 1 else 250)
        for _ in range(k):
            samples += ctx.call(b.draw_samples, dict(q), size)
    joint = conditional(net, q)
    ctx.case((net.signature(), len(q), how), len(joint) > 1, {"network": net.describe(), "query": repr(q), "how": how})
    seen = [tuple(s[v] for v in net.order) for s in samples]
    ctx.count("samples_seen", len(seen))
    counts = {}
    for s in seen:
        ctx.check(s in joint, lambda: "sample %r is impossible given %r" % (s, q))
        counts[s] = counts.get(s, 0) + 1
    p = stats.chi_square(counts, joint, len(seen))
    ctx.count("tests")
    ctx.check(p > 1e-12, lambda: "samples do not follow the distribution (p = %g): counts %r, probabilities %r; query %r; network %r" % (
        p, counts, joint, q, net.describe()))
    # consecutive samples are independent
    pairs = {}
    for s, t in zip(seen[::2], seen[1::2]):
        pairs[(s, t)] = pairs.get((s, t), 0) + 1
    expected = {(s, t): a * c for s, a in joint.items() for t, c in joint.items()}
    p = stats.chi_square(pairs, expected, sum(pairs.values()))
    ctx.count("tests")
    ctx.check(p > 1e-12, lambda: "consecutive samples are dependent (p = %g); query %r; network %r" % (p, q, net.describe()))


def interleaved(ctx, rng, i):
    """Several queries, asked of one network in turn: each must get its own distribution."""
    import random

    import causalnex.ebaybbn as m

    net = nets.random_net(rng, n=rng.randint(2, 4), max_size=12, kind=rng.choice(["plain", "mixed", "plain"]),
                          style=rng.choice(["chain", "vstruct", "diamond", "dense", "star", "polytree"]))
    b = ctx.call(nets.build, m, net, rng)
    random.seed(rng.random())
    queries = [bc.possible_evidence(rng, net, k) for k in rng.choice([(1, 1, 0), (1, 1, 1), (0, 1, 2), (1, 2, 1)])]
    drawn = [[] for _ in queries]
    rounds = rng.choice([1, 4])
    for _ in range(rounds):
        for k in rng.sample(range(len(queries)), len(queries)):
            drawn[k] += ctx.call_budget(10 ** 9, b.draw_samples, dict(queries[k]), 1000 // rounds)
    ctx.case((net.signature(), "interleaved", repr(queries)), True, {"network": net.describe(), "queries": repr(queries)})
    for q, samples in zip(queries, drawn):
        joint = conditional(net, q)
        counts = {}
        for s in samples:
            s = tuple(s[v] for v in net.order)
            ctx.check(s in joint, lambda: "sample %r is impossible given %r" % (s, q))
            counts[s] = counts.get(s, 0) + 1
        ctx.count("samples_seen", len(samples))
        ctx.count("tests")
        ctx.count("interleaved_queries")
        p = stats.chi_square(counts, joint, len(samples))
        ctx.check(p > 1e-12, lambda: "samples do not follow the distribution (p = %g): counts %r, probabilities %r; query %r "
                  "among %r; network %r" % (p, counts, joint, q, queries, net.describe()))


def rare(ctx, rng, i):
    """A variable of very many values: those which are all rare together still get their share."""
    import random

    import causalnex.ebaybbn as m

    k = rng.choice([200, 1000, 2500])
    common = rng.choice([0, 1, 3])
    w = [rng.randint(k // 2, k) for _ in range(common)] + [rng.choice([1, 1, 2, 0.1]) for _ in range(k)]
    order = rng.sample(range(len(w)), len(w))
    net = nets.Net(["v"], {"v": []}, {"v": order}, {"v": {(): {x: w[x] / sum(w) for x in order}}}, "rare")
    b = ctx.call(nets.build, m, net, rng)
    random.seed(rng.random())
    n = 300
    drawn = [s["v"] for s in ctx.call_budget(10 ** 9, b.draw_samples, {}, n)]
    ctx.case((k, common, sum(w)), True, {"values": len(w), "common": common})
    ctx.count("samples_seen", n)
    groups, place = {}, {}
    for position, x in enumerate(order):
        g = ("common", x) if x < common else position * 4 // len(order)
        place[x] = g
        groups[g] = groups.get(g, 0) + w[x] / sum(w)
    counts = {}
    for x in drawn:
        counts[place[x]] = counts.get(place[x], 0) + 1
    p = stats.chi_square(counts, groups, n)
    ctx.count("tests")
    ctx.count("many_valued")
    ctx.check(p > 1e-12, lambda: "%d values, %d of them common: samples do not follow the distribution (p = %g): counts %r, probabilities %r" % (len(w), common, p, counts, groups))


def repeatable(ctx, rng, i):
    """The samples are drawn from Python's random numbers: the same seed, the same samples."""
    import random

    import causalnex.ebaybbn as m

    net = nets.random_net(rng, n=rng.randint(2, 6), max_size=512)
    b = ctx.call(nets.build, m, net, rng)
    q = bc.possible_evidence(rng, net, rng.choice([0, 0, 1, 2]))
    seed, n = rng.random(), rng.choice([1, 8, 20])
    drawn = []
    for _ in range(3):
        random.seed(seed)
        drawn.append(ctx.call_budget(10 ** 9, b.draw_samples, dict(q), n))
    ctx.count("repeats")
    ctx.case((net.signature(), len(q), n), len(q) < len(net.order), {"network": net.describe()})
    ctx.check(drawn[0] == drawn[1] == drawn[2], lambda: "after random.seed(%r) the samples are once %r, once %r, once %r" % (seed, drawn[0], drawn[1], drawn[2]))


FAMILIES = {"rare": (rare, 6, 100), "repeatable": (repeatable, 25, 400), "distribution": (distribution, 14, 220), "interleaved": (interleaved, 10, 200)}

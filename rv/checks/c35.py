"""C35: random structures are acyclic, have the nodes, the weights and the amount of edges that were asked for."""
import math

from rv import libshim

PROPERTY = "C35"
INTERPRETER = "vt"
RULE = ("generate_structure and generate_structure_dynamic with random sizes, degrees, graph types, weight ranges, lags and decays, under random states of the generator; "
        "and edge counts, edge positions, signs and weights over many structures tested against the documented distributions (p < 1e-8). "
        "Distinct by arguments and edges; non-trivial when the structure has an edge")
NEED = {"static_edges": 4000, "intra_edges": 800, "inter_edges": 3000, "rejections": 100, "distribution_tests": 60}
ASSUMPTIONS = ["numpy 2.5 and networkx 3.7 stand for the pinned versions; pandas is a stand-in", "weight ranges that include 0 are not used: an edge of weight 0 is no edge"]
CAP = (150, 700)
TYPES = ["erdos-renyi", "barabasi-albert", "full"]


def setup(ctx):
    libshim.install()


def seeded(rng):
    import numpy as np

    np.random.seed(rng.getrandbits(32))


def acyclic(nodes, edges):
    """Kahn's algorithm, without networkx."""
    degree = {v: 0 for v in nodes}
    out = {v: [] for v in nodes}
    for u, v in edges:
        degree[v] += 1
        out[u].append(v)
    ready = [v for v in nodes if not degree[v]]
    seen = 0
    while ready:
        v = ready.pop()
        seen += 1
        for w in out[v]:
            degree[w] -= 1
            if not degree[w]:
                ready.append(w)
    return seen == len(degree)


def components(nodes, edges):
    near = {v: set() for v in nodes}
    for u, v in edges:
        near[u].add(v)
        near[v].add(u)
    left, n = set(nodes), 0
    while left:
        todo = [left.pop()]
        n += 1
        while todo:
            for w in near[todo.pop()] & left:
                left.discard(w)
                todo.append(w)
    return n


def judge_type(ctx, nodes, edges, kind, degree, what):
    """What each graph type promises of the edges among `nodes`."""
    n = len(nodes)
    if kind == "full":
        ctx.check(len(edges) == n * (n - 1) // 2, lambda: "%s: %d edges in a full graph" % (what, len(edges)))
    elif kind == "barabasi-albert":
        m = int(round(degree / 2))
        out = {v: 0 for v in nodes}
        for u, _ in edges:
            out[u] += 1
        if m == 0:
            ctx.check(not edges, lambda: "%s: %d edges" % (what, len(edges)))
        else:
            ctx.check(sorted(out.values())[0] == 0 and sorted(out.values())[1] >= 1 and max(out.values()) <= m, lambda: "%s: numbers of attachments %r" % (what, out))
            ctx.check(components(nodes, edges) == 1, lambda: "%s: not connected: %r" % (what, edges))
    elif degree <= 0:
        ctx.check(not edges, lambda: "%s: %d edges" % (what, len(edges)))
    elif degree >= n - 1:
        ctx.check(len(edges) == n * (n - 1) // 2, lambda: "%s: %d edges" % (what, len(edges)))


def in_range(w, low, high):
    return isinstance(w, float) and low * (1 - 1e-12) <= abs(w) <= high * (1 + 1e-12)


def weights(rng):
    low = rng.choice([0.1, 0.5, 1.0, 1e-6, 30.0])
    return low, low * rng.choice([1, 1, 1.5, 4, 100])


def static(ctx, rng, i):
    from causalnex.structure import StructureModel
    from causalnex.structure.data_generators import generate_structure

    seeded(rng)
    n = rng.choice([2, 2, 3, 4, 5, 8, 12, 25, 40])
    degree = rng.choice([0, 0.5, 1, 1.5, 2, 2, 3, 4, 4.0, 7, n - 1, n + 3])
    kind = rng.choice(TYPES)
    low, high = weights(rng)
    signs = rng.choice([1, 1, -1]), rng.choice([1, 1, -1])
    kw = {"graph_type": kind, "w_min": signs[0] * low, "w_max": signs[1] * high}
    defaults = rng.random() < 0.15
    if defaults:
        kw, low, high, kind = {}, 0.5, 0.5, "erdos-renyi"
    what = "generate_structure(%r, %r, %r)" % (n, degree, kw)
    sm = ctx.call(generate_structure, n, degree, **kw)
    ctx.check(type(sm) is StructureModel, lambda: "%s: a %s" % (what, type(sm)))
    nodes, edges = list(sm.nodes), list(sm.edges)
    ctx.check(sorted(nodes) == list(range(n)), lambda: "%s: nodes %r" % (what, nodes))
    ctx.check(len(set(edges)) == len(edges) and acyclic(nodes, edges), lambda: "%s: not acyclic: %r" % (what, edges))
    for u, v, d in sm.edges(data=True):
        ctx.check(set(d) == {"weight", "origin"} and d["origin"] == "unknown", lambda: "%s: edge %r has data %r" % (what, (u, v), d))
        ctx.check(in_range(d["weight"], low, high), lambda: "%s: edge %r has weight %r" % (what, (u, v), d["weight"]))
    judge_type(ctx, nodes, edges, kind, degree, what)
    ctx.count("static_edges", len(edges))
    ctx.case((n, degree, kind, sorted(edges)), bool(edges), {"what": what, "edges": len(edges)})


def dynamic(ctx, rng, i):
    from causalnex.structure import StructureModel
    from causalnex.structure.data_generators import generate_structure_dynamic

    seeded(rng)
    n, p = rng.choice([2, 2, 3, 5, 8, 11]), rng.choice([0, 1, 1, 2, 3, 4, 11])
    degree_intra, degree_inter = rng.choice([0, 1, 2, 3.5, n]), rng.choice([0, 1, 2, 3.5, n, n * 2])
    intra, inter = rng.choice(TYPES), rng.choice(["erdos-renyi", "erdos-renyi", "full"])
    a_low, a_high = weights(rng)
    b_low, b_high = weights(rng)
    decay = rng.choice([1.0, 1.0, 2.0, 1.25, 0.5, 3])
    kw = {"graph_type_intra": intra, "graph_type_inter": inter, "w_min_intra": a_low, "w_max_intra": a_high, "w_min_inter": b_low, "w_max_inter": b_high, "w_decay": decay}
    what = "generate_structure_dynamic(%r, %r, %r, %r, %r)" % (n, p, degree_intra, degree_inter, kw)
    sm = ctx.call(generate_structure_dynamic, n, p, degree_intra, degree_inter, **kw)
    ctx.check(type(sm) is StructureModel, lambda: "%s: a %s" % (what, type(sm)))
    slices = [["%d_lag%d" % (v, lag) for v in range(n)] for lag in range(p + 1)]
    ctx.check(sorted(sm.nodes) == sorted(sum(slices, [])), lambda: "%s: nodes %r" % (what, list(sm.nodes)))
    lag_of = {v: lag for lag, s in enumerate(slices) for v in s}
    now, past = [], []
    for u, v, w in sm.edges(data="weight"):
        lag = lag_of[u]
        ctx.check(lag_of[v] == 0, lambda: "%s: edge %r points into the past" % (what, (u, v)))
        (past if lag else now).append((u, v))
        low, high = (b_low / decay ** (lag - 1), b_high / decay ** (lag - 1)) if lag else (a_low, a_high)
        ctx.check(in_range(w, low, high), lambda: "%s: edge %r has weight %r, not in [%r, %r]" % (what, (u, v), w, low, high))
    ctx.check(acyclic(slices[0], now), lambda: "%s: not acyclic: %r" % (what, now))
    judge_type(ctx, slices[0], now, intra, degree_intra, what + " within the slice")
    if inter == "full" or degree_inter >= n:
        ctx.check(len(past) == p * n * n, lambda: "%s: %d edges from the past" % (what, len(past)))
    elif degree_inter == 0:
        ctx.check(not past, lambda: "%s: edges from the past: %r" % (what, past))
    ctx.count("intra_edges", len(now))
    ctx.count("inter_edges", len(past))
    ctx.case((n, p, intra, inter, decay, sorted(now), sorted(past)[:50]), bool(now or past), {"what": what, "edges": [len(now), len(past)]})


def gaussian_p(x, mean, sd):
    return math.erfc(abs(x - mean) / sd / math.sqrt(2)) if sd else float(x == mean)


def ks_p(sample, cdf):
    """Asymptotic Kolmogorov-Smirnov p-value."""
    n = len(sample)
    d = max(max(abs(cdf(x) - k / n), abs(cdf(x) - (k + 1) / n)) for k, x in enumerate(sorted(sample)))
    z = (math.sqrt(n) + 0.12 + 0.11 / math.sqrt(n)) * d
    return min(1.0, max(0.0, 2 * sum((-1) ** (k - 1) * math.exp(-2 * k * k * z * z) for k in range(1, 101)))) if z > 0.3 else 1.0


def likely(ctx, p, what):
    ctx.count("distribution_tests")
    ctx.check(p > 1e-8, lambda: "%s: p = %.3g" % (what, p))


def amounts(ctx, rng, i):
    """Edge counts, positions, signs and weights over many structures."""
    from causalnex.structure.data_generators import generate_structure, generate_structure_dynamic

    seeded(rng)
    n, low, high = rng.choice([4, 6, 10]), 0.5, 2.0
    degree = rng.choice([0.5, 1, 2, 2.5])
    trials = 120
    if i % 2 == 0:
        kind = ["erdos-renyi", "erdos-renyi", "barabasi-albert", "full"][i // 2 % 4]
        graphs = [ctx.call(generate_structure, n, degree, graph_type=kind, w_min=low, w_max=high) for _ in range(trials)]
        slots, prob = n * (n - 1) // 2, degree / (n - 1)
        what = "%d structures of %d nodes, degree %r, %s" % (trials, n, degree, kind)
    else:
        kind, p = "erdos-renyi", rng.choice([1, 2, 3])
        graphs = [ctx.call(generate_structure_dynamic, n, p, 0, degree, w_min_inter=low, w_max_inter=high) for _ in range(trials)]
        slots, prob = p * n * n, degree / n
        what = "%d inter-slice structures of %d nodes, %d lags, degree %r" % (trials, n, p, degree)
    total = sum(g.number_of_edges() for g in graphs)
    if kind == "erdos-renyi":
        mean = trials * slots * prob
        likely(ctx, gaussian_p(total, mean, math.sqrt(mean * (1 - prob))), "%s: %d edges, %.1f expected" % (what, total, mean))
        between = {}
        for g in graphs:
            for u, v in g.edges:
                between[u, v] = between.get((u, v), 0) + 1
        # every pair is as likely as any other, and for a static structure so are both directions (1.6: pairs are correlated)
        pairs, each = (n * (n - 1), prob / 2) if i % 2 == 0 else (slots, prob)
        stat = sum((k - trials * each) ** 2 for k in between.values()) + (pairs - len(between)) * (trials * each) ** 2
        stat /= trials * each * (1 - each)
        likely(ctx, gaussian_p((stat / pairs) ** (1 / 3), 1 - 2 / (9 * pairs), 1.6 * math.sqrt(2 / (9 * pairs))) if stat > pairs else 1.0,
               "%s: edges are spread unevenly (chi square %.1f over %d pairs)" % (what, stat, pairs))
    if kind != "erdos-renyi":
        first = {}
        for g in graphs:
            roots = [v for v in g.nodes if not g.out_degree(v)] if kind == "barabasi-albert" else [v for v in g.nodes if not g.in_degree(v)]
            for v in roots:
                first[v] = first.get(v, 0) + 1
        ctx.check(degree < 1 and kind == "barabasi-albert" or len(first) >= min(n, 4), lambda: "%s: the order of the nodes is not random: %r" % (what, first))
    values = [w for g in graphs for _, _, w in g.edges(data="weight")]
    if len(values) >= 50:
        likely(ctx, gaussian_p(sum(w > 0 for w in values), len(values) / 2, math.sqrt(len(values)) / 2), "%s: %d of %d weights are positive" % (what, sum(w > 0 for w in values), len(values)))
        # the sign of an edge says nothing of those of the others that leave or enter the same node
        for end in (0, 1):
            same = pairs_ = 0
            for g in graphs:
                signs = {}
                for e in g.edges(data="weight"):
                    signs.setdefault(e[end], []).append(e[2] > 0)
                for s in signs.values():
                    for a, b in zip(s[::2], s[1::2]):
                        pairs_ += 1
                        same += a == b
            if pairs_ >= 40:
                likely(ctx, gaussian_p(same, pairs_ / 2, math.sqrt(pairs_) / 2), "%s: the signs of %d of %d pairs of edges with a common end agree" % (what, same, pairs_))
        likely(ctx, ks_p([abs(w) for w in values], lambda x: (x - low) / (high - low)), "%s: weights are not uniform" % what)
    ctx.case((what, total), total > 0, {"what": what, "edges": total})


def rejected(ctx, rng, i):
    from causalnex.structure.data_generators import generate_structure, generate_structure_dynamic

    seeded(rng)
    n = rng.randint(2, 9)
    case = i % 7
    if case == 0:
        ctx.raises(ValueError, generate_structure, rng.choice([1, 0, -3]), 2, rng.choice(TYPES))
    elif case == 1:
        ctx.raises(ValueError, generate_structure, n, 2, rng.choice(["erdos", "", "Full", None, "barabasi_albert"]))
    elif case == 2:
        ctx.raises(ValueError, generate_structure, n, 2, rng.choice(TYPES), w_min=rng.choice([2.0, -2.0]), w_max=rng.choice([1.0, -1.0]))
    elif case == 3:
        ctx.raises(ValueError, generate_structure_dynamic, n, 2, 2, 2, **{rng.choice(["graph_type_intra", "graph_type_inter"]): rng.choice(["ring", ""])})
    elif case == 4:
        ctx.raises(ValueError, generate_structure_dynamic, n, 2, 2, 2, graph_type_inter="barabasi-albert")
    elif case == 5:
        side = rng.choice(["intra", "inter"])
        ctx.raises(ValueError, generate_structure_dynamic, n, 2, 2, 2, **{"w_min_" + side: 2.0, "w_max_" + side: 1.5})
    else:
        ctx.raises(ValueError, generate_structure_dynamic, rng.choice([0, 1]), 2, 2, 2)
    ctx.count("rejections")
    ctx.case(("rejected", case, n), True, {"case": case})


FAMILIES = {"rejected": (rejected, 14, 70), "static": (static, 120, 12000), "dynamic": (dynamic, 40, 4000), "amounts": (amounts, 8, 500)}

"""Engines over fitted networks, and the graph and tables that interventions leave."""
from rv import libshim, py38code
from rv.checks import netcommon as N


def setup(ctx):
    libshim.install()
    import causalnex.inference.inference as module

    py38code.install(module)


class Engine:
    """A problem, its network, an engine on it, and the reference tables."""

    def __init__(self, ctx, rng, n=None, limit=4000):
        from causalnex.inference import InferenceEngine

        while True:
            p = N.random_problem(rng, n)
            if N.size_of(p) <= limit:
                break
        self.kind, self.ess, kw = N.estimator(rng)
        self.bn, self.data = N.fit(ctx, rng, p, kw)
        self.p = p
        self.tables = N.tables_of(self.bn)
        self.ie = ctx.call(InferenceEngine, self.bn)
        self.done = {}

    def children(self, node):
        return [v for u, v in self.p.edges if u == node and v not in self.done]

    def parents(self, node):
        return [] if node in self.done else self.p.parents[node]

    def isolated(self, done):
        """Nodes without any edge, with these interventions."""
        linked = set()
        for u, v in self.p.edges:
            if v not in done:
                linked |= {u, v}
        return [v for v in self.p.names if v not in linked]

    def what(self):
        return "edges %r states %r %s %r, interventions %r" % (self.p.edges, self.p.states, self.kind, self.ess if self.kind == "bdeu" else "", self.done)


def no_state(rng, states):
    """A value which equals none of the states, though it may look like one."""
    s = rng.choice(states)
    near = ["no such state", None, float("nan"), str(s), repr(s), "%s " % s, " %s" % s, "", -1, 10 ** 6, "0", "None", b"x"]
    if isinstance(s, str):
        near += [s.upper(), s.lower(), s.title(), s + s, s[:-1], s.encode(), (s,)]
        if s.lstrip("-").isdigit():
            near += [int(s), float(s)]
    elif isinstance(s, (int, float)):
        near += [s + 0.25, -s - 1, str(s), str(float(s)), s + 1e-7, s + 1e-4]
    near = [x for x in near if x not in states]
    return rng.choice(near)


def evidence(rng, e, positive=True):
    """Random observations; drawn from the intervened network when they have to be possible."""
    nodes = rng.sample(e.p.names, rng.randint(0, min(len(e.p.names), rng.choice([1, 2, 3, 6]))))
    if not positive:
        return {v: rng.choice(e.p.states[v]) for v in nodes}
    values = {}
    left = list(e.p.names)
    while left:
        for v in list(left):
            if all(u in values for u in e.parents(v)):
                names, table = e.tables[v]
                row = e.done[v] if v in e.done else table[tuple(values[u] for u in names)]
                values[v] = rng.choice([s for s in e.p.states[v] if row[s] > 0])
                left.remove(v)
    return {v: values[v] for v in nodes}


def compare(ctx, e, obs, what, counter="marginals_compared", ie=None):
    given = dict(obs)
    got = ctx.call((ie or e.ie).query, given) if obs else ctx.call((ie or e.ie).query)
    ctx.check(given == obs, what + ": query changed the observations")
    want, total = N.posterior(e.tables, e.p.states, obs, e.done)
    ctx.check(isinstance(got, dict) and set(got) == set(want), lambda: "%s: query gives nodes %r" % (what, list(got)))
    for v, dist in want.items():
        ctx.check(len(got[v]) == len(dist) and set(got[v]) == set(dist), lambda: "%s: states of %r are %r, should be %r" % (what, v, list(got[v]), list(dist)))
        for s, x in dist.items():
            ctx.count(counter)
            ctx.check(float(got[v][s]) == 0 if x == 0 else abs(float(got[v][s]) - x) <= 1e-9 * x, lambda: "%s\nP(%s=%r | %r) is %r, should be %r" % (what, v, s, obs, got[v][s], x))
    return want, total

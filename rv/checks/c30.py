"""C30: interventions give the truncated factorisation of the network, for any states and distributions."""
from rv.checks import infcommon as I, netcommon as N

PROPERTY = "C30"
INTERPRETER = "vt"
RULE = ("one to three interventions - a single state of any type, or a distribution, also one that sums to 1 only up to rounding - on fitted networks of 2..6 nodes, then queries with and "
        "without observations compared with enumeration of the network in which the intervened nodes have no parents. Distinct by structure, states and interventions; "
        "non-trivial when an intervened node has parents")
NEED = {"marginals_compared": 15000, "hard": 300, "soft": 300, "with_parents": 250, "inexact_sums": 60, "isolates": 20}
ASSUMPTIONS = ["pandas and pgmpy are the stand-ins in rv/shims", "types.CodeType takes the arguments of Python 3.8 (rv/py38code.py)",
               "an intervention that cuts off a parent entirely may be refused with ValueError or answered exactly"]
CAP = (150, 700)
setup = I.setup


def distribution(rng, states):
    """A distribution over states; the sum may differ from 1 by rounding."""
    kind = rng.choice(["sixths", "random", "zeros", "uniform", "tenths"])
    n = len(states)
    if kind == "zeros" and n > 1:
        w = [rng.choice([0, 0, 1, 2]) for _ in states]
        w[rng.randrange(n)] += 1
    elif kind == "tenths" and n == 3:
        return dict(zip(states, [0.1, 0.2, 0.7]))
    elif kind == "sixths":
        w = [rng.randint(1, 6) for _ in states]
    elif kind == "uniform":
        w = [1] * n
    else:
        w = [rng.random() + 1e-3 for _ in states]
    total = sum(w)
    dist = {s: x / total for s, x in zip(states, w)}
    if n > 1 and rng.random() < 0.3:
        # as close to 1 as rounding errors leave a sum
        s = max(dist, key=dist.get)
        dist[s] -= rng.choice([2.2e-16, -2.2e-16, 4.5e-16]) if dist[s] < 0.99 else 0
    return dist


def intervene(ctx, rng, e, node):
    """Apply a random intervention to node; True if it was accepted."""
    states = e.p.states[node]
    if rng.random() < 0.5:
        s = rng.choice(states)
        state, dist = s, {x: float(x == s) for x in states}
        ctx.count("hard")
        if rng.random() < 0.2:
            import numpy as np

            if isinstance(s, (int, float)):
                state = np.array([s])[0]
    else:
        state = dist = distribution(rng, states)
        state = dict(rng.sample(list(dist.items()), len(dist)))
        ctx.count("soft")
        ctx.count("inexact_sums", sum(dist.values()) != 1)
    before = dict(state) if isinstance(state, dict) else state
    after = dict(e.done, **{node: dist})
    if set(e.isolated(after)) - set(e.isolated(e.done)):
        ctx.count("isolates")
        try:
            ctx.steps.run(ctx.DEFAULT_BUDGET, e.ie.do_intervention, node, state)
        except ValueError:
            return False
    else:
        ctx.call(e.ie.do_intervention, node, state)
    ctx.check(not isinstance(state, dict) or state == before, "do_intervention changed the distribution it was given")
    e.done = after
    return True


def truncated(ctx, rng, i):
    e = I.Engine(ctx, rng)
    parents = False
    for _ in range(rng.choice([1, 1, 2, 3])):
        able = [v for v in e.p.names if e.children(v)]
        if not able:
            break
        node = rng.choice(able)
        if intervene(ctx, rng, e, node):
            ctx.count("with_parents", bool(e.p.parents[node]))
            parents |= bool(e.p.parents[node])
        I.compare(ctx, e, {}, e.what())
    for _ in range(2):
        I.compare(ctx, e, I.evidence(rng, e, rng.random() < 0.8), e.what())
    ctx.case((repr(e.p.edges), repr(e.p.states), repr(e.done)), parents, {"edges": repr(e.p.edges)[:200], "interventions": repr(e.done)[:200]})


FAMILIES = {"truncated": (truncated, 330, 2500)}

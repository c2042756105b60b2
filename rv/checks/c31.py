"""C31: after any history of interventions, resets, rejected requests and queries, an engine answers for the interventions in force."""
from rv.checks import c30, infcommon as I, netcommon as N

PROPERTY = "C31"
INTERPRETER = "vt"
RULE = ("histories of 4..12 operations (interventions, repeated and overlapping; resets of intervened and other nodes; rejected interventions of nine kinds; queries; a second engine on the "
        "same network; refits of the network), each followed by a full comparison with enumeration. Distinct by operations and structure; non-trivial with a reset after an intervention or a rejection")
NEED = {"operations": 3000, "marginals_compared": 20000, "resets": 300, "rejections": 500, "no_children": 100, "second_engines": 60}
ASSUMPTIONS = c30.ASSUMPTIONS
CAP = (150, 700)
setup = I.setup


def bad_state(rng, states):
    """A state argument that must be refused, and its name."""
    dist = c30.distribution(rng, states)
    s = rng.choice(states)
    kind = rng.choice(["unknown state", "none", "sum above", "sum below", "negative", "missing state", "extra state", "empty", "above one", "nan"])
    if kind == "unknown state":
        return kind, I.no_state(rng, states)
    if kind == "none":
        return kind, None
    if kind == "sum above":
        dist[s] += rng.choice([0.1, 1e-3, 1.0, 1e-6])
    elif kind == "sum below":
        biggest = max(dist, key=dist.get)
        dist[biggest] -= rng.choice([0.1, 1e-3, 1e-6])
    elif kind == "negative" and len(states) > 1:
        a, b = rng.sample(states, 2)
        low = rng.choice([-0.25, -0.25, -1e-3, -1e-11])
        dist = {x: 0.0 for x in states} | {a: 1 - low, b: low}
        rest = [x for x in states if x != b]
        if len(rest) > 1 and rng.random() < 0.6:          # each of the others is a possible probability
            dist = {x: (1 - low) / len(rest) for x in rest} | {b: low}
    elif kind == "missing state":
        if len(states) == 1:
            return "empty", {}
        dist.pop(s)
        other = rng.choice(list(dist))
        dist = {x: 0.0 for x in dist} | {other: 1.0}
    elif kind == "extra state":
        dist[I.no_state(rng, states)] = 0.0
    elif kind == "empty":
        return kind, {}
    elif kind == "nan":
        dist[s] = float("nan")
    else:
        dist[s] = 1.5
    return kind, dist


def history(ctx, rng, i):
    from causalnex.inference import InferenceEngine

    e = I.Engine(ctx, rng, limit=1000)
    bn_tables = repr(N.tables_of(e.bn))
    trace, interesting, second, refitted = [], False, None, False
    for _ in range(rng.randint(4, 12)):
        op = rng.choice(["do", "do", "do", "reset", "reset", "bad", "bad", "childless", "query", "second", "refit"])
        node = rng.choice(e.p.names)
        ctx.count("operations")
        if op == "do":
            able = [v for v in e.p.names if e.children(v)]
            if not able:
                op = "reset"
            else:
                node = rng.choice(able)
                again = rng.random() < 0.4 and [v for v in able if v in e.done]
                node = rng.choice(again) if again else node
                c30.intervene(ctx, rng, e, node)
        if op == "reset":
            if e.done and rng.random() < 0.7:
                node = rng.choice(list(e.done))
            ctx.call(e.ie.reset_do, node)
            ctx.count("resets")
            interesting |= node in e.done
            e.done = {v: d for v, d in e.done.items() if v != node}
        elif op == "bad":
            able = [v for v in e.p.names if e.children(v)]
            if able:
                node = rng.choice(able)
                kind, state = bad_state(rng, e.p.states[node])
                trace.append(kind)
                ctx.raises(ValueError, e.ie.do_intervention, node, state)
                ctx.count("rejections")
                interesting = True
        elif op == "childless":
            unable = [v for v in e.p.names if not e.children(v)]
            if unable:
                node = rng.choice(unable)
                state = rng.choice([rng.choice(e.p.states[node]), c30.distribution(rng, e.p.states[node])])
                ctx.raises(ValueError, e.ie.do_intervention, node, state)
                ctx.count("no_children")
            if rng.random() < 0.3:
                ctx.raises(ValueError, e.ie.do_intervention, "no_such_node", 1)
        elif op == "query":
            I.compare(ctx, e, I.evidence(rng, e, rng.random() < 0.8), "after %r: %s" % (trace, e.what()))
        elif op == "second" and not refitted:
            # another engine on the same network starts without interventions, and does not disturb this one
            second = ctx.call(InferenceEngine, e.bn)
            ctx.count("second_engines")
            fresh = [v for v in e.p.names if any(u == v for u, _ in e.p.edges)]
            other = rng.choice(fresh)
            if not [u for u in e.p.parents[other]]:
                ctx.call(second.do_intervention, other, rng.choice(e.p.states[other]))
        elif op == "refit" and rng.random() < 0.3:
            ctx.call(e.bn.fit_cpds, e.data, method="BayesianEstimator", bayes_prior="BDeu", equivalent_sample_size=rng.choice([3, 500]))
            refitted = True
        trace.append((op, node))
        I.compare(ctx, e, {}, "after %r: %s" % (trace, e.what()))
    if not refitted:
        ctx.check(repr(N.tables_of(e.bn)) == bn_tables, lambda: "after %r the network's own CPDs have changed" % trace)
        plain = e.done
        e.done = {}
        I.compare(ctx, e, {}, "a new engine after %r" % trace, ie=ctx.call(InferenceEngine, e.bn))
        e.done = plain
    for v in list(e.done):
        ctx.call(e.ie.reset_do, v)
    e.done = {}
    I.compare(ctx, e, {}, "after %r and a reset of everything: %s" % (trace, e.what()))
    ctx.case((repr(trace), repr(e.p.edges)), interesting, {"operations": repr(trace)[:400], "edges": repr(e.p.edges)[:150]})


FAMILIES = {"history": (history, 180, 1500)}

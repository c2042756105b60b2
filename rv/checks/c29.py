"""C29: InferenceEngine.query returns the exact posterior of the fitted network, whatever its CPDs, states and names."""
from rv.checks import infcommon as I, netcommon as N

PROPERTY = "C29"
INTERPRETER = "vt"
RULE = ("connected networks of 2..6 nodes over twelve kinds of states, with awkward names, fitted by maximum likelihood (with zeros), K2 or BDeu; "
        "observations of 0..6 nodes, possible or not, compared with enumeration of the network's own CPDs. Distinct by structure, states and evidence; "
        "non-trivial with observations on a network of 3 or more nodes")
NEED = {"marginals_compared": 20000, "observed_queries": 800, "impossible": 20, "rejected": 400, "refits": 100, "engines": 500}
ASSUMPTIONS = ["pandas and pgmpy are the stand-ins in rv/shims", "types.CodeType takes the arguments of Python 3.8 (rv/py38code.py)", "no node is called self (finding of C04)"]
CAP = (150, 700)
setup = I.setup


def exact(ctx, rng, i):
    e = I.Engine(ctx, rng)
    ctx.count("engines")
    what = e.what()
    I.compare(ctx, e, {}, what)
    seen = 0
    for _ in range(4):
        obs = I.evidence(rng, e, rng.random() < 0.75)
        _, total = I.compare(ctx, e, obs, what)
        ctx.count("observed_queries", bool(obs))
        ctx.count("impossible", total == 0)
        seen += bool(obs)
    v = rng.choice(e.p.names)
    from causalnex.ebaybbn.exceptions import VariableNotInGraphError, VariableValueNotInDomainError

    obs = I.evidence(rng, e)
    obs[v] = I.no_state(rng, e.p.states[v])
    ctx.raises(VariableValueNotInDomainError, e.ie.query, obs)
    ctx.raises(VariableNotInGraphError, e.ie.query, dict(I.evidence(rng, e), no_such_node=1))
    ctx.count("rejected", 2)
    if rng.random() < 0.3:
        # the engine is its own: fitting the network again does not change it
        ctx.call(e.bn.fit_cpds, e.data, method="BayesianEstimator", bayes_prior="BDeu", equivalent_sample_size=1000)
        ctx.count("refits")
    I.compare(ctx, e, {}, what + " after rejected queries or a refit of the network")
    ctx.case((repr(e.p.edges), repr(e.p.states), e.kind), seen > 0 and len(e.p.names) > 2, {"edges": repr(e.p.edges)[:200], "states": repr(e.p.states)[:200]})


def rejected(ctx, rng, i):
    from causalnex.inference import InferenceEngine
    from causalnex.network import BayesianNetwork
    from causalnex.structure import StructureModel

    p = N.random_problem(rng)
    kind = rng.choice(["name", "name", "name", "unfitted", "states only"])
    if kind == "name":
        bad = rng.choice(["a b", "$a", "", "a-b", "a.b", "é", "a\tb", "x!", " a", "a ", "(a)", "a,b"])
        old = rng.choice(p.names)
        new = lambda v: bad if v == old else v
        p.names = [new(v) for v in p.names]
        p.edges = [(new(u), new(v)) for u, v in p.edges]
        p.parents = {new(v): [new(u) for u in us] for v, us in p.parents.items()}
        p.columns = {new(v): c for v, c in p.columns.items()}
        p.states = {new(v): c for v, c in p.states.items()}
        bn, _ = N.fit(ctx, rng, p, {})
    else:
        sm = StructureModel()
        sm.add_edges_from(p.edges)
        bn = BayesianNetwork(sm)
        if kind == "states only":
            bn.fit_node_states(N.frame(rng, p))
    ctx.raises(ValueError, InferenceEngine, bn)
    ctx.count("rejected")
    ctx.case((kind, repr(p.names)), True, {"kind": kind, "names": p.names})


FAMILIES = {"exact": (exact, 270, 2500), "rejected": (rejected, 12, 60)}

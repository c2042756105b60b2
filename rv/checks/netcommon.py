"""Random fitted Bayesian networks, counted by hand, and exact posteriors of them by enumeration."""
import itertools
import math

from rv import libshim, nets

STATES = [[0, 1, 2, 3], [False, True], ["low", "mid", "high", "HIGH"], [10, 2, 30, 1], [0.5, -1.25, 2.0], ["x"], ["a", "b"], [3, 7], ["True", "False", ""],
          ["n_1", "n", "1_n", "v0_"], [-1, 0, 1], ["é", "z", "Z"]]
NAMES = [
    lambda rng, n: ["v%d" % i for i in range(n)],
    lambda rng, n: rng.sample("abcdefghABCDEFGH", n),
    lambda rng, n: rng.sample(["a", "ab", "b", "ba", "A", "_a", "a_", "a1", "a10", "a2", "B", "f_", "aa", "a_b"], n),
    lambda rng, n: rng.sample(["weather", "rush_hour", "traffic", "node", "state", "name", "args", "locals", "arg", "arg_spec", "code", "template"], n),
    lambda rng, n: ["a"] + rng.sample(["a_0", "a_1", "a_2", "a_x", "a_a", "a_low", "a_False", "a_prediction", "a_3", "a_10"], n - 1),
    lambda rng, n: rng.sample(["0", "1", "10", "2", "03", "n1", "1n", "N"], n),
]


class Problem:
    pass


def random_structure(rng, n=None):
    """A connected DAG as a list of edges over shuffled names."""
    n = rng.choice([2, 2, 3, 3, 4, 4, 5, 6]) if n is None else n
    names = rng.choice(NAMES)(rng, n)
    edges = []
    for k in range(1, n):
        parents = rng.sample(range(k), min(k, rng.choice([1, 1, 1, 2, 3])))
        if rng.random() < 0.25:
            parents = parents[:1]
        edges += [(p, k) for p in parents]
    # relabel by a random order, turning some edges round so that no orientation pattern dominates
    order = rng.sample(range(n), n)
    edges = [(a, b) if order[a] < order[b] else (b, a) for a, b in edges]
    count = {}
    kept = []
    for a, b in edges:
        count[b] = count.get(b, 0) + 1
        kept.append((names[a], names[b]))
    rng.shuffle(kept)
    return names, kept


def random_problem(rng, n=None, max_parents=4, states=None):
    """names, edges, states per node (sorted), and a data set of lists."""
    while True:
        names, edges = random_structure(rng, n)
        parents = {v: sorted(u for u, w in edges if w == v) for v in names}
        if max(map(len, parents.values())) <= max_parents:
            break
    p = Problem()
    p.names, p.edges, p.parents = names, edges, parents
    p.states = {}
    for v in names:
        pool = rng.choice(STATES if states is None else states)
        size = rng.choice([1, 2, 2, 2, 3, 3, 4]) if rng.random() < 0.3 else rng.choice([2, 2, 3])
        p.states[v] = sorted(rng.sample(pool, min(size, len(pool))))
    rows = rng.choice([1, 3, 10, 30, 60])
    shares = {v: [rng.random() ** 2 + 0.01 for _ in p.states[v]] for v in names}
    p.columns = {v: rng.choices(p.states[v], shares[v], k=rows) for v in names}
    for u, v in edges:
        # dependence, so that the data are not merely noise
        if rng.random() < 0.7:
            for k in range(rows):
                if rng.random() < 0.6:
                    p.columns[v][k] = p.states[v][p.states[u].index(p.columns[u][k]) % len(p.states[v])]
    p.rows = rows
    return p


def estimator(rng):
    kind = rng.choice(["mle", "mle", "k2", "bdeu"])
    size = rng.choice([1, 5, 10, 2.5, 0.1, 1e-3, 1e-6])
    kw = {"mle": {}, "k2": {"method": "BayesianEstimator", "bayes_prior": "K2"},
          "bdeu": {"method": "BayesianEstimator", "bayes_prior": "BDeu", "equivalent_sample_size": size}}[kind]
    if kind == "mle" and rng.random() < 0.3:
        kw = {"method": "MaximumLikelihoodEstimator"}
    return kind, size, kw


def frame(rng, p, columns=None, order=None, index=None):
    import pandas as pd

    columns = p.columns if columns is None else columns
    order = order or rng.sample(list(columns), len(columns))
    return pd.DataFrame({c: list(columns[c]) for c in order}, index=index)


def fit(ctx, rng, p, kw, full_states=None):
    """A BayesianNetwork fitted to the problem; states come from the data or are given in full."""
    from causalnex.network import BayesianNetwork
    from causalnex.structure import StructureModel

    sm = StructureModel()
    sm.add_edges_from(p.edges)
    bn = ctx.call(BayesianNetwork, sm)
    data = frame(rng, p)
    if full_states is None:
        full_states = rng.random() < 0.5
    if full_states:
        bn.node_states = {v: set(s) for v, s in p.states.items()}
    else:
        p.states = {v: sorted(set(p.columns[v])) for v in p.names}
        if rng.random() < 0.5:
            ctx.check(ctx.call(bn.fit_node_states_and_cpds, data, **kw) is bn, "fit_node_states_and_cpds does not return the network")
            return bn, data
        ctx.check(ctx.call(bn.fit_node_states, data) is bn, "fit_node_states does not return the network")
    ctx.check(ctx.call(bn.fit_cpds, data, **kw) is bn, "fit_cpds does not return the network")
    return bn, data


def counted(p, kind, size):
    """The tables, by counting: {node: {parent states: [probability of each state, sorted]}}."""
    out = {}
    for v in p.names:
        combos = list(itertools.product(*[p.states[u] for u in p.parents[v]]))
        prior = {"mle": 0.0, "k2": 1.0, "bdeu": size / (len(p.states[v]) * len(combos))}[kind]
        table = {c: [prior] * len(p.states[v]) for c in combos}
        for k in range(p.rows):
            table[tuple(p.columns[u][k] for u in p.parents[v])][p.states[v].index(p.columns[v][k])] += 1
        for c, row in table.items():
            total = math.fsum(row)
            table[c] = [x / total for x in row] if total else [1.0 / len(row)] * len(row)
        out[v] = table
    return out


def tables_of(bn):
    """The same, read from the network's own cpds."""
    out = {}
    for v, cpd in bn.cpds.items():
        names = [n for n in cpd.columns.names if n is not None]
        rows = list(cpd.index)
        table = {}
        for k, label in enumerate(cpd.columns):
            key = () if not names else tuple(label) if isinstance(label, tuple) else (label,)
            table[key] = {s: float(cpd.values[j, k]) for j, s in enumerate(rows)}
        out[v] = (names, table)
    return out


def posterior(tables, states, evidence, interventions=None):
    """Exact marginals of every node given evidence, by enumeration; all zero when the evidence is impossible."""
    interventions = interventions or {}
    names = list(states)
    place = {v: {s: k for k, s in enumerate(states[v])} for v in names}
    domains = [[evidence[v]] if v in evidence else states[v] for v in names]
    sums = {v: [0.0] * len(states[v]) for v in names}
    total = 0.0
    at = {v: k for k, v in enumerate(names)}
    factors = []
    for v in names:
        if v in interventions:
            factors.append((at[v], (), {(): interventions[v]}))
        else:
            parents, table = tables[v]
            factors.append((at[v], tuple(at[u] for u in parents), table))
    for states_ in itertools.product(*domains):
        p = 1.0
        for own, parents, table in factors:
            p *= table[tuple(states_[k] for k in parents)][states_[own]]
            if p == 0.0:
                break
        if p:
            total += p
            for v, s in zip(names, states_):
                sums[v][place[v][s]] += p
    return {v: {s: (sums[v][k] / total if total else 0.0) for k, s in enumerate(states[v])} for v in names}, total


def size_of(p):
    n = 1
    for s in p.states.values():
        n *= len(s)
    return n


def plain(x):
    """A numpy scalar as the Python value it holds."""
    return x.item() if hasattr(x, "item") else x

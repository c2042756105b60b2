"""Random discrete Bayesian networks, exact oracles for them, and ways of handing them to ebaybbn.

Everything here is independent of the code under test: a Net is a plain description (parents, domains,
conditional probability tables); the oracles work on it in exact rational arithmetic.
"""
import enum
import functools
import itertools
from fractions import Fraction


class Colour(enum.Enum):
    RED = "r"
    GREEN = "g"
    BLUE = "b"


class Opaque:
    """A hashable value compared by identity."""

    def __init__(self, tag):
        self.tag = tag

    def __repr__(self):
        return "<opaque %s>" % self.tag


OPAQUE = [Opaque(i) for i in range(4)]

VALUE_POOLS = [
    [True, False],
    [False, True],
    [0, 1, 2, 3, 4],
    ["low", "mid", "high", "", "HIGH"],
    ["a", "b"],
    ["True", "False", True, False],
    [-1, 10, 2, 30],
    [0.5, 1.5, -2.25, 1e300],
    [(1, 2), (2, 1), (), ("a",)],
    [None, 0, "0", 7],
    list(Colour),
    [frozenset([1]), frozenset(), frozenset([1, 2])],
    OPAQUE,
    ["only"],
    [10 ** 20, 1, -5],
    ["é", "ß", "漢", " "],
    [b"x", "x", ("x",)],
]

NAME_POOLS = [
    lambda rng, n: ["v%d" % i for i in range(n)],
    lambda rng, n: list("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ"[:n]),
    lambda rng, n: ["x" * (i + 1) for i in range(n)],
    lambda rng, n: rng.sample(["a", "ab", "b", "ba", "A", "aB", "_a", "a_", "a1", "a10", "a2", "f_a", "B", "bA",
                               "f_", "f_b", "Z", "z", "aa", "bb", "cc", "abc", "ac", "bc"], n),
    lambda rng, n: rng.sample(["weather", "rush_hour", "traffic", "Rain", "rain", "Sprinkler", "WetGrass", "cloudy",
                               "vars", "kwds", "query", "node", "name", "domains", "key", "tt", "r", "i", "n",
                               "jt", "bbn", "été", "ñ", "val", "result"], n),
]

STYLES = ["chain", "rchain", "tree", "polytree", "star", "vstruct", "diamond", "random", "dense", "grid",
          "disconnected", "isolated", "ladder", "loop", "bipartite"]


class Net:
    """order: variables in a topological order; parents: lists; domains: lists; cpt[v][parent values] = {value: p}."""

    def __init__(self, order, parents, domains, cpt, style=""):
        self.order, self.parents, self.domains, self.cpt, self.style = order, parents, domains, cpt, style

    def edges(self):
        return {(p, v) for v in self.order for p in self.parents[v]}

    def signature(self):
        index = {v: i for i, v in enumerate(self.order)}
        return (len(self.order), tuple(sorted((index[a], index[b]) for a, b in self.edges())),
                tuple(len(self.domains[v]) for v in self.order),
                sum(1 for v in self.order for row in self.cpt[v].values() for p in row.values() if p == 0))

    def describe(self):
        return {"style": self.style, "order": list(map(str, self.order)),
                "parents": {str(k): list(map(str, v)) for k, v in self.parents.items()},
                "domains": {str(k): [repr(x) for x in v] for k, v in self.domains.items()},
                "cpt": {str(v): [[repr(k), [repr(row[x]) for x in self.domains[v]]] for k, row in list(self.cpt[v].items())[:6]]
                        for v in list(self.order)[:6]}}

    def probability(self, assignment):
        """Exact joint probability of a complete assignment."""
        p = Fraction(1)
        for v in self.order:
            p *= self.exact(v, tuple(assignment[q] for q in self.parents[v]), assignment[v])
            if p == 0:
                return p
        return p

    def exact(self, v, givens, value):
        cache = self.__dict__.setdefault("_exact", {})
        key = (v, givens, value)
        if key not in cache:
            cache[key] = Fraction(self.cpt[v][givens][value])
        return cache[key]

    def size(self):
        s = 1
        for v in self.order:
            s *= len(self.domains[v])
        return s

    def sample(self, rng):
        """An assignment drawn by ancestral sampling (for choosing evidence that is possible)."""
        a = {}
        for v in self.order:
            row = self.cpt[v][tuple(a[q] for q in self.parents[v])]
            values = [x for x in self.domains[v] if row[x] > 0]
            a[v] = rng.choices(values, [float(row[x]) for x in values])[0]
        return a

    def components(self):
        left, out = set(self.order), []
        nb = {v: set() for v in self.order}
        for a, b in self.edges():
            nb[a].add(b)
            nb[b].add(a)
        while left:
            stack, seen = [min(left, key=str)], set()
            while stack:
                x = stack.pop()
                if x not in seen:
                    seen.add(x)
                    stack += nb[x] - seen
            out.append(seen)
            left -= seen
        return out

    def do(self, variable, distribution):
        """The truncated factorisation: `variable` loses its parents and takes `distribution`."""
        parents = dict(self.parents)
        cpt = dict(self.cpt)
        parents[variable] = []
        cpt[variable] = {(): dict(distribution)}
        return Net(self.order, parents, self.domains, cpt, self.style)


# ---------------------------------------------------------------- generation
def structure(rng, n, style):
    par = [[] for _ in range(n)]
    if style in ("chain", "rchain"):
        for i in range(1, n):
            par[i] = [i - 1]
    elif style == "tree":
        for i in range(1, n):
            par[i] = [rng.randrange(i)]
    elif style == "star":
        for i in range(1, n):
            par[i] = [0]
    elif style == "vstruct":
        par[n - 1] = list(range(min(n - 1, 5)))
        for i in range(min(n - 1, 5), n - 1):
            par[i] = [rng.randrange(i)]
    elif style == "diamond":
        for i in range(1, n):
            par[i] = [i - 1] if i % 3 else [i - 1, i - 2][: min(2, i)]
        if n > 3:
            par[3] = [1, 2]
            par[2] = [0]
    elif style == "random":
        for i in range(1, n):
            par[i] = rng.sample(range(i), min(i, rng.choice([0, 1, 1, 2, 2, 3])))
    elif style == "dense":
        for i in range(1, n):
            par[i] = [j for j in range(i) if rng.random() < 0.7][:5]
    elif style == "grid":
        w = 3
        for i in range(n):
            par[i] = ([i - 1] if i % w else []) + ([i - w] if i >= w else [])
    elif style == "disconnected":
        for i in range(1, n):
            if rng.random() < 0.6:
                par[i] = rng.sample(range(i), min(i, rng.choice([1, 1, 2])))
        for i in range(n):
            if i >= n // 2:
                par[i] = [p for p in par[i] if p >= n // 2]
    elif style == "isolated":
        for i in range(1, n):
            if rng.random() < 0.35:
                par[i] = [rng.randrange(i)]
    elif style == "ladder":
        for i in range(2, n):
            par[i] = [i - 2] + ([i - 1] if i % 2 else [])
    elif style == "loop":
        for i in range(1, n):
            par[i] = [i - 1]
        if n > 2:
            par[n - 1] = [n - 2, 0]
    elif style == "bipartite":
        k = max(1, n // 2)
        for i in range(k, n):
            par[i] = rng.sample(range(k), min(k, rng.choice([1, 2, 3])))
    elif style == "polytree":
        # a tree whose edges point either way, kept topological by relabelling below
        nodes = list(range(n))
        edges = []
        for i in range(1, n):
            j = rng.randrange(i)
            edges.append((i, j) if rng.random() < 0.5 else (j, i))
        incoming = {i: [a for a, b in edges if b == i] for i in nodes}
        order, placed = [], set()
        while len(order) < n:
            ready = [i for i in nodes if i not in placed and set(incoming[i]) <= placed]
            x = rng.choice(ready)
            order.append(x)
            placed.add(x)
        rank = {x: k for k, x in enumerate(order)}
        for i in nodes:
            par[rank[i]] = [rank[p] for p in incoming[i]]
    return par


def weights(rng, k, kind):
    """k probabilities as floats which sum to 1 to within rounding."""
    if kind == "zeros" and rng.random() < 0.6:
        w = [rng.choice([0, 0, 1, 2]) for _ in range(k)]
        if not any(w):
            w[rng.randrange(k)] = 1
    elif kind == "deterministic":
        w = [0] * k
        w[rng.randrange(k)] = 1
    elif kind == "tiny":
        w = [10.0 ** -rng.choice([0, 0, 3, 6, 9, 12]) * rng.randint(1, 9) for _ in range(k)]
    elif kind == "uniform":
        w = [1] * k
    else:
        w = [rng.randint(1, 20) for _ in range(k)]
    total = float(sum(w))
    return [x / total for x in w]


CPT_KINDS = ["plain", "plain", "zeros", "deterministic", "tiny", "uniform", "mixed"]


def random_net(rng, n=None, style=None, kind=None, max_size=4096, max_card=4, names=None, pools=None, boolean=None,
               max_states_per_family=512):
    style = style or rng.choice(STYLES)
    n = n or rng.randint(1, 7)
    kind = kind or rng.choice(CPT_KINDS)
    par = structure(rng, n, style)
    pool = names or rng.choice(NAME_POOLS)
    labels = pool(rng, n) if n <= 22 else ["v%d" % i for i in range(n)]
    if rng.random() < 0.5:
        rng.shuffle(labels)
    if style == "rchain":
        labels = sorted(labels, reverse=True)
    boolean = rng.random() < 0.25 if boolean is None else boolean
    domains, size = {}, 1
    for v in labels:
        values = [True, False] if boolean else list(rng.choice(pools or VALUE_POOLS))
        k = min(len(values), max_card if rng.random() < 0.5 else 2)
        if size * k > max_size:
            k = min(k, 2)
        if rng.random() < 0.5 and not boolean:
            rng.shuffle(values)
        domains[v] = values[:k]
        size *= k
    parents = {}
    for i, v in enumerate(labels):
        ps, states = [], len(domains[v])
        for p in par[i]:
            if states * len(domains[labels[p]]) <= max_states_per_family:
                ps.append(labels[p])
                states *= len(domains[labels[p]])
        parents[v] = ps
    return with_tables(rng, Net(labels, parents, domains, {}, style), kind)


def with_tables(rng, net, kind):
    for v in net.order:
        table = {}
        for givens in itertools.product(*[net.domains[p] for p in net.parents[v]]):
            k = rng.choice(CPT_KINDS[:-1]) if kind == "mixed" else kind
            table[givens] = dict(zip(net.domains[v], weights(rng, len(net.domains[v]), k)))
        net.cpt[v] = table
    net.__dict__.pop("_exact", None)
    return net


# ---------------------------------------------------------------- oracles
def enumerate_joint(net):
    for values in itertools.product(*[net.domains[v] for v in net.order]):
        a = dict(zip(net.order, values))
        p = net.probability(a)
        yield a, p


def joint_marginals(net, evidence=None):
    """{(variable, value): P(variable = value, evidence)} and P(evidence), by brute-force enumeration."""
    evidence = evidence or {}
    out = {(v, x): Fraction(0) for v in net.order for x in net.domains[v]}
    total = Fraction(0)
    for a, p in enumerate_joint(net):
        if p and all(a[k] == x for k, x in evidence.items()):
            total += p
            for v in net.order:
                out[(v, a[v])] += p
    return out, total


class Elimination:
    """Exact marginals of larger networks by variable elimination in rational arithmetic."""

    def __init__(self, net):
        self.net = net

    def factors(self, evidence):
        net, out = self.net, []
        for v in net.order:
            scope = list(net.parents[v]) + [v]
            table = {}
            for values in itertools.product(*[net.domains[s] for s in scope]):
                if all(evidence.get(s, x) == x for s, x in zip(scope, values)):
                    p = net.exact(v, values[:-1], values[-1])
                    if p:
                        table[values] = p
            out.append((scope, table))
        return out

    def marginal(self, variable, evidence=None):
        evidence = evidence or {}
        factors = self.factors(evidence)
        remaining = set(self.net.order) - {variable}
        while remaining:
            def cost(v):
                scope = set()
                for s, _ in factors:
                    if v in s:
                        scope |= set(s)
                return (len(scope), str(v))
            v = min(remaining, key=cost)
            remaining.discard(v)
            used = [f for f in factors if v in f[0]]
            factors = [f for f in factors if v not in f[0]]
            product_ = ([], {(): Fraction(1)})
            for f in used:
                product_ = self.multiply(product_, f)
            scope, table = product_
            keep = [i for i, s in enumerate(scope) if s != v]
            summed = {}
            for k, p in table.items():
                kk = tuple(k[i] for i in keep)
                summed[kk] = summed.get(kk, 0) + p
            factors.append(([scope[i] for i in keep], summed))
        result = ([], {(): Fraction(1)})
        for f in factors:
            result = self.multiply(result, f)
        scope, table = result
        return {x: table.get((x,), Fraction(0)) for x in self.net.domains[variable]}

    @staticmethod
    def multiply(f, g):
        fs, ft = f
        gs, gt = g
        shared = [s for s in gs if s in fs]
        extra = [i for i, s in enumerate(gs) if s not in fs]
        fpos = [fs.index(s) for s in shared]
        gpos = [gs.index(s) for s in shared]
        index = {}
        for k, p in gt.items():
            index.setdefault(tuple(k[i] for i in gpos), []).append((tuple(k[i] for i in extra), p))
        out = {}
        for k, p in ft.items():
            for more, q in index.get(tuple(k[i] for i in fpos), ()):
                out[k + more] = p * q
        return fs + [gs[i] for i in extra], out


# ---------------------------------------------------------------- handing it to ebaybbn
def factor(net, v, rng=None, child_last=None, style=None):
    """A factor function for variable v, in one of the forms that build_bbn accepts."""
    args = list(net.parents[v])
    if rng is None:
        args.append(v)
    else:
        rng.shuffle(args)
        args.insert(len(args) if rng.random() < 0.6 else rng.randrange(len(args) + 1), v)
    table, parents = net.cpt[v], net.parents[v]
    positions = [args.index(p) for p in parents]
    me = args.index(v)

    def lookup(values):
        return table[tuple([values[i] for i in positions])][values[me]]

    style = style or (rng.choice(["def", "argspec", "argspec"]) if rng else "argspec")
    name = "f_" + v
    if style == "def" and all(a.isidentifier() and a != "lookup" for a in args):
        fn = written(args, lookup, rng)
    else:
        def fn(*values):
            return lookup(values)
        fn.argspec = args
    fn.__name__ = name
    return fn


def written(args, lookup, rng):
    """A factor as a user may write it: a function with local variables, defaults, annotations or a decorator, or an object."""
    scope = {"lookup": lookup}
    kind = rng.choice(["plain", "plain", "locals", "defaults", "annotations", "wrapped", "object"]) if rng else "plain"
    listed = call = ", ".join(args)
    if kind == "defaults" and len(args) > 1:
        k = rng.randrange(len(args))
        listed = ", ".join(args[:k] + ["%s=None" % a for a in args[k:]])
    elif kind == "annotations":
        listed = ", ".join("%s: object" % a for a in args)
    body = "    local_values = (%s,)\n    other = local_values\n    return lookup(other)" if kind == "locals" else "    return lookup((%s,))"
    exec("def fn(%s):\n%s" % (listed, body % call), scope)
    fn = scope["fn"]
    if kind == "wrapped":
        inner = fn

        @functools.wraps(inner)
        def fn(*values, **named):
            return inner(*values, **named)
    elif kind == "object":
        scope = {"lookup": lookup}
        exec("class Factor:\n    def __call__(self, %s):\n        return lookup((%s,))" % (call, call), scope) if "self" not in args else None
        fn = scope["Factor"]() if "Factor" in scope else fn
    return fn


def rename(rng, net, fs):
    """Names of factor functions say nothing of what they model."""
    kind = rng.choice(["of another", "variables", "of another variable", "numbers", "dunder"])
    names = {"of another": ["f_" + v for v in net.order], "variables": list(net.order), "of another variable": list(net.order),
             "numbers": ["f%d" % k for k in range(len(fs))], "dunder": ["__%s__" % v for v in net.order]}[kind]
    if kind.startswith("of another"):
        rng.shuffle(names)
    for f, name in zip(fs, names):
        f.__name__ = name


def domains_argument(net, rng=None):
    out = {}
    for v in net.order:
        values = list(net.domains[v])
        if rng is not None:
            if set(map(type, values)) == {bool} and len(values) == 2 and rng.random() < 0.5:
                continue  # the default domain
            rng.shuffle(values)
            values = rng.choice([list, tuple, set, frozenset])(values)
        out[v] = values
    return out


def build(bbn_module, net, rng=None, shuffle=True, any_names=False):
    fs = [factor(net, v, rng) for v in net.order]
    if any_names and rng is not None and rng.random() < 0.2:
        rename(rng, net, fs)
    if rng is not None and shuffle:
        rng.shuffle(fs)
    domains = domains_argument(net, rng)
    if rng is not None and rng.random() < 0.5 and len(fs) < 200:
        b = bbn_module.build_bbn(*fs, domains=domains)
    else:
        b = bbn_module.build_bbn(fs, domains=domains)
    if any_names and rng is not None and rng.random() < 0.1:
        # the same network, made from its nodes
        b = bbn_module.BBN(dict(b.vars_to_nodes), domains=domains)
    return b

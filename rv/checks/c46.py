"""C46: estimators plot the graph they learned, whole, and are not altered by it."""
import copy

from rv.checks import c38
from rv.checks import dagcommon as D
from rv.checks import torchcommon as T

PROPERTY = "C46"
INTERPRETER = "vt"
RULE = ("DAGRegressor and DAGClassifier, fitted to small data or given a random weighted (also cyclic) graph as graph_; plot_dag with random styles, programs, axes, backends and enforce_dag; "
        "drawings are recorded and compared with the graph. Distinct by graph and options; non-trivial when there is an edge")
NEED = {"plots": 600, "edges_drawn": 2000, "fitted": 60, "cycles_broken": 60, "unfitted": 30}
ASSUMPTIONS = ["pygraphviz, matplotlib and IPython are stand-ins that record what they are given; torch, pandas and scikit-learn are stand-ins"]
CAP = (150, 700)
DRAWN = []


def setup(ctx):
    T.setup()
    c38.setup(ctx)
    from pygraphviz.agraph import AGraph

    draw = AGraph.draw

    def recorded(self, path=None, format=None, prog=None, args=""):
        DRAWN.append((self.snapshot(), prog, format))
        return draw(self, path=path, format=format, prog=prog, args=args)

    AGraph.draw = recorded


def random_graph(rng):
    from causalnex.structure import StructureModel

    names = rng.choice([["a", "b", "c", "d", "__target"], [0, 1, 2, "__target"], ["x", "y"]])
    g = StructureModel()
    g.add_nodes_from(names)
    pairs = [(u, v) for u in names for v in names if u != v and rng.random() < rng.choice([0.2, 0.5, 0.9])]
    weights = rng.sample(range(1, 200), len(pairs))
    for (u, v), w in zip(pairs, weights):
        g.add_edge(u, v, origin="learned", weight=w / 100 * rng.choice([1, -1]), mean_effect=rng.uniform(-1, 1))
    return g


def acyclic(g):
    """The graph without its weakest edges, as many as it takes to leave no cycle."""
    import networkx as nx

    edges = sorted(g.edges(data="weight"), key=lambda e: abs(e[2]))
    while not nx.is_directed_acyclic_graph(nx.DiGraph([e[:2] for e in edges])):
        del edges[0]
    return sorted((str(u), str(v)) for u, v, w in edges)


def estimator(ctx, rng, fitted):
    import numpy as np

    from causalnex.structure import DAGClassifier, DAGRegressor

    cls = rng.choice([DAGClassifier, DAGRegressor])
    if not fitted:
        m = cls()
        m.graph_ = random_graph(rng)
        return m
    T.seed(rng.randrange(1000))
    g = np.random.default_rng(rng.randrange(10 ** 6))
    d = rng.randint(1, 3)
    x = g.normal(size=(20, d))
    y = x[:, 0] + g.normal(size=20) * 0.3
    m = cls(dependent_target=rng.random() < 0.5, alpha=rng.choice([0.0, 0.1]), max_iter=1)
    T.quiet(ctx, m.fit, D.frame_of(rng, x, ["p", "q", "r"][:d]) if rng.random() < 0.5 else x, y if cls is DAGRegressor else y > np.median(y))
    ctx.count("fitted")
    return m


def content(g):
    return sorted((repr(n), sorted(map(repr, d))) for n, d in g.nodes(data=True)), sorted((repr(u), repr(v), sorted((k, repr(x)) for k, x in d.items())) for u, v, d in g.edges(data=True))


def plots(ctx, rng, i):
    import networkx as nx
    from matplotlib.axes import Axes

    from causalnex.plots import EDGE_STYLE, NODE_STYLE

    m = estimator(ctx, rng, i % 8 == 0)
    for _ in range(3):
        graph = m.graph_
        before, style = content(graph), c38.styles()
        enforce, ipython = rng.random() < 0.5, rng.random() < 0.3
        given = Axes() if rng.random() < 0.4 else None
        pixel = rng.choice([None, 0.02, 0.5])
        options = None
        if rng.random() < 0.6:
            options = {}
            if rng.random() < 0.5:
                options["prog"] = rng.choice(["dot", "circo", "neato"])
            if rng.random() < 0.5:
                options["all_node_attributes"] = rng.choice([{"color": "red"}, dict(NODE_STYLE.STRONG)])
            if rng.random() < 0.5:
                options["all_edge_attributes"] = rng.choice([{"penwidth": "7"}, dict(EDGE_STYLE.STRONG)])
            if rng.random() < 0.5:
                options["graph_attributes"] = {"scale": "3", "label": "x"}
        kept = copy.deepcopy(options)
        kw = {"plot_structure_kwargs": options} if options is not None or rng.random() < 0.3 else {}
        if enforce or rng.random() < 0.5:
            kw["enforce_dag"] = enforce
        if ipython or rng.random() < 0.3:
            kw["use_mpl"] = not ipython
        if given is not None:
            kw["ax"] = given
        if pixel:
            kw["pixel_size_in"] = pixel
        what = "plot_dag(%r) of edges %r" % (kw, list(graph.edges(data="weight")))
        del DRAWN[:], c38.SEEN[:]
        result = T.quiet(ctx, m.plot_dag, **kw)
        ctx.count("plots")
        ctx.check(m.graph_ is graph and content(graph) == before, lambda: "%s: the estimator's graph was modified to %r" % (what, content(graph)))
        ctx.check(c38.styles() == style and options == kept, lambda: "%s: options or default styles were modified" % what)
        ctx.check(len(DRAWN) == 1, lambda: "%s: %d drawings" % (what, len(DRAWN)))
        (ga, nodes, edges), prog, fmt = DRAWN[0]
        ctx.check(prog == (options or {}).get("prog", "neato") and fmt == "png", lambda: "%s: drawn by %r as %r" % (what, prog, fmt))
        ctx.check(sorted(nodes) == sorted(map(str, graph.nodes)), lambda: "%s: nodes %r" % (what, sorted(nodes)))
        cyclic = not nx.is_directed_acyclic_graph(graph)
        want = acyclic(graph) if enforce else sorted((str(u), str(v)) for u, v in graph.edges)
        if enforce and cyclic:
            ctx.count("cycles_broken")
        ctx.count("edges_drawn", len(edges))
        ctx.check(sorted(edges) == want, lambda: "%s: edges %r, expected %r" % (what, sorted(edges), want))
        chosen = options or {"graph_attributes": {"scale": "0.5"}, "all_node_attributes": NODE_STYLE.WEAK, "all_edge_attributes": EDGE_STYLE.WEAK}
        for k, v in (chosen.get("graph_attributes") or {}).items():
            ctx.check(ga.get(k) == str(v), lambda: "%s: graph attribute %s is %r" % (what, k, ga.get(k)))
        for n, attr in nodes.items():
            for k, v in dict(NODE_STYLE.NORMAL, **chosen.get("all_node_attributes", {})).items():
                ctx.check(attr.get(k) == str(v), lambda: "%s: %s of node %r is %r, expected %r" % (what, k, n, attr.get(k), v))
        for e, attr in edges.items():
            for k, v in dict(EDGE_STYLE.NORMAL, **chosen.get("all_edge_attributes", {})).items():
                ctx.check(attr.get(k) == str(v), lambda: "%s: %s of edge %r is %r, expected %r" % (what, k, e, attr.get(k), v))
        drawn = b"drawing of %d nodes" % len(nodes)
        if ipython:
            ctx.check(getattr(result, "data", None) == drawn, lambda: "%s: returns %r" % (what, result))
        else:
            ctx.check(isinstance(result, tuple) and len(result) == 2 and c38.SEEN == [drawn], lambda: "%s: returns %r, read %r" % (what, result, c38.SEEN))
            figure, ax = result
            ctx.check(len(ax.shown) == (1 if given is not None or figure is not None else 0), lambda: "%s: %d images on the axes" % (what, len(ax.shown)))
            if given is not None:
                ctx.check(ax is given, "%s: not on the given axes" % what)
            else:
                size = ((40 + len(drawn)) * (pixel or 0.01), len(drawn) * 3 * (pixel or 0.01))
                ctx.check(all(abs(x - y) < 1e-9 for x, y in zip(figure.figsize, size)), lambda: "%s: figure of %r, expected %r" % (what, figure.figsize, size))
        ctx.case((what,), bool(edges), {"what": what[:200]})


def unfitted(ctx, rng, i):
    from sklearn.exceptions import NotFittedError

    from causalnex.structure import DAGClassifier, DAGRegressor

    ctx.raises(NotFittedError, rng.choice([DAGClassifier, DAGRegressor])().plot_dag, enforce_dag=rng.random() < 0.5)
    ctx.count("unfitted")
    ctx.case(("unfitted", i, ctx.worker), False, None)


FAMILIES = {"unfitted": (unfitted, 5, 20), "plots": (plots, 120, 2000)}

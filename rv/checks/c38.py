"""C38: a plot shows every node and edge, with the attributes that were asked for last, and leaves the model alone."""
import contextlib
import copy
import importlib
import io
import re
import sys
import types

from rv import libshim

PROPERTY = "C38"
INTERPRETER = "vt"
RULE = ("random models with string, integer and tuple nodes (self-loops, isolated nodes, node and edge data, data named like style attributes), attributes for everything, for some and for absent "
        "nodes and edges, several plots after each other; colour gradients between random colours; displays with recorded drawings. "
        "Distinct by model and attributes; non-trivial when an attribute was overridden")
NEED = {"plots": 800, "node_attributes": 20000, "edge_attributes": 8000, "overrides_seen": 2000, "gradients": 1500, "displays": 150, "absent_library": 30, "imports_without": 40}
ASSUMPTIONS = ["pygraphviz, matplotlib and IPython are stand-ins that record what they are given; networkx 3.7 stands for the pinned version"]
CAP = (150, 700)
SEEN = []


def setup(ctx):
    import numpy as np

    libshim.install()
    modules = {n: types.ModuleType(n) for n in ("IPython", "IPython.display", "matplotlib", "matplotlib.pyplot", "matplotlib.axes", "matplotlib.figure")}

    class Image:
        def __init__(self, data=None, **kwargs):
            self.data, self.kwargs = data, kwargs

    class Axes:
        def __init__(self):
            self.shown, self.axis_calls = [], []

        def imshow(self, array, **kwargs):
            self.shown.append(array)

        def axis(self, *args, **kwargs):
            self.axis_calls.append((args, kwargs))

    class Figure:
        def __init__(self, figsize):
            self.figsize = figsize

        def add_subplot(self, *args, **kwargs):
            return Axes()

        def tight_layout(self, **kwargs):
            self.tight = kwargs

    def imread(stream, format=None):

        data = stream.read() if isinstance(stream, io.IOBase) else stream
        SEEN.append(data)
        return np.zeros((len(data) * 3, 40 + len(data), 4))

    def subplots(*args, figsize=None, **kwargs):
        rows, cols = (list(args) + [kwargs.get("nrows", 1), kwargs.get("ncols", 1)][len(args):])[:2]
        grid = np.empty((rows, cols), dtype=object)
        for at in np.ndindex(rows, cols):
            grid[at] = Axes()
        if kwargs.get("squeeze", True):
            grid = grid.squeeze()
        return Figure(figsize), grid if grid.ndim else grid.item()

    modules["IPython"].__path__ = []
    modules["matplotlib"].__path__ = []
    modules["IPython.display"].Image = Image
    modules["matplotlib.axes"].Axes = Axes
    modules["matplotlib.figure"].Figure = Figure
    modules["matplotlib.pyplot"].imread, modules["matplotlib.pyplot"].subplots = imread, subplots
    modules["matplotlib.pyplot"].figure = lambda *args, figsize=None, **kwargs: Figure(figsize)
    modules["IPython"].display = modules["IPython.display"]
    for n in ("pyplot", "axes", "figure"):
        setattr(modules["matplotlib"], n, modules["matplotlib." + n])
    sys.modules.update(modules)


NAMES = [list("abcdefgh"), list(range(8)), [("a", 1), ("b", 2), ("a", 2), (1,), (), ("x", ("y", 3)), ("%s", 0), (None, None)], ["a b", "%s", "%d %", "é", "", "a\n", "A", "label"],
         [1.5, -2, True, None, frozenset({1}), "x", ("x", 0), b"y"]]
KEYS = ["color", "shape", "fontcolor", "penwidth", "width", "label", "fillcolor", "style", "fontsize", "tooltip", "arrowsize", "arrowhead", "weight", "origin", "fixedsize", "xlabel"]
VALUES = ["black", "#123456", 3, 0.25, True, False, "circle", "", 1e-9, "two words"]


def attributes(rng, most=4):
    return {k: rng.choice(VALUES) for k in rng.sample(KEYS, rng.randint(0, most))}


def random_model(rng):
    from causalnex.structure import StructureModel

    names = [n for n in rng.choice(NAMES) if n is not None]
    names = rng.sample(names, rng.randint(0, len(names)))
    sm = StructureModel()
    for n in names:
        sm.add_node(n, **{k: rng.choice(VALUES) for k in rng.sample(KEYS, rng.choice([0, 0, 0, 2]))})
    for u in names:
        for v in names:
            if rng.random() < (0.3 if u is not v else 0.05):
                sm.add_edge(u, v, origin=rng.choice(["unknown", "learned", "expert"]), **({"weight": rng.uniform(-2, 2)} if rng.random() < 0.6 else {}))
                if rng.random() < 0.2:
                    sm[u][v][rng.choice(KEYS[:-3])] = rng.choice(VALUES)
    return names, sm


def state(sm):
    return ([(n, sorted(map(repr, d.items()))) for n, d in sm.nodes(data=True)], [(u, v, sorted(map(repr, d.items()))) for u, v, d in sm.edges(data=True)], dict(sm.graph))


def styles():
    from causalnex.plots import EDGE_STYLE, GRAPH_STYLE, NODE_STYLE

    return copy.deepcopy((tuple(NODE_STYLE), tuple(EDGE_STYLE), GRAPH_STYLE))


def plot(ctx, rng, i):
    from causalnex.plots import EDGE_STYLE, GRAPH_STYLE, NODE_STYLE, plot_structure

    for _ in range(3):
        names, sm = random_model(rng)
        kw = {}
        if rng.random() < 0.5:
            kw["all_node_attributes"] = rng.choice([attributes(rng), dict(rng.choice(NODE_STYLE))])
        if rng.random() < 0.5:
            kw["all_edge_attributes"] = rng.choice([attributes(rng), dict(rng.choice(EDGE_STYLE))])
        if rng.random() < 0.5:
            kw["node_attributes"] = {n: attributes(rng) for n in names if rng.random() < 0.5}
            if rng.random() < 0.3:
                kw["node_attributes"]["not in the model"] = {"color": "red"}
        if rng.random() < 0.5:
            kw["edge_attributes"] = {e: attributes(rng) for e in sm.edges if rng.random() < 0.5}
            if rng.random() < 0.3:
                kw["edge_attributes"]["not", "there"] = {"color": "red"}
        if rng.random() < 0.5:
            kw["graph_attributes"] = rng.choice([attributes(rng), {"scale": 5, "label": "x"}, {}])
        prog = rng.choice(["neato", "dot", "twopi", "circo"])
        if prog != "neato" or rng.random() < 0.5:
            kw["prog"] = prog
        for k in list(kw):
            if rng.random() < 0.05 and k != "prog":
                kw[k] = None
        what = "plot_structure of %r, %r" % (state(sm)[:2], kw)
        before, style, given = state(sm), styles(), copy.deepcopy(kw)
        a = ctx.call(plot_structure, sm, **kw)
        ctx.count("plots")
        ctx.check(state(sm) == before, lambda: "%s: the model was modified to %r" % (what, state(sm)))
        ctx.check(styles() == style, lambda: "%s: the default styles were modified" % what)
        ctx.check(kw == given, lambda: "%s: an argument was modified" % what)
        graph, nodes, edges = a.snapshot()
        want_graph = {k: str(v) for k, v in dict(GRAPH_STYLE, **(kw.get("graph_attributes") or {})).items()}
        ctx.check({k: v for k, v in graph.items() if k != "name"} == want_graph, lambda: "%s: graph attributes %r" % (what, graph))
        ctx.check(sorted(nodes) == sorted(str(n) for n in sm.nodes), lambda: "%s: nodes %r" % (what, list(nodes)))
        ctx.check(sorted(edges) == sorted((str(u), str(v)) for u, v in sm.edges), lambda: "%s: edges %r" % (what, list(edges)))
        for n, data in sm.nodes(data=True):
            own = (kw.get("node_attributes") or {}).get(n, {})
            want = {**data, "label": None, **NODE_STYLE.NORMAL, **(kw.get("all_node_attributes") or {}), **own}
            got = nodes[str(n)]
            ctx.count("node_attributes", len(want))
            ctx.count("overrides_seen", len(own))
            shown = got.pop("label", None)
            label = want.pop("label")
            ctx.check(got == {str(k): str(v) for k, v in want.items()}, lambda: "%s: node %r has %r, expected %r" % (what, n, got, want))
            ctx.check(shown.strip() == str(n).strip() if label is None else shown == str(label), lambda: "%s: node %r is labelled %r" % (what, n, shown))
        for u, v, data in sm.edges(data=True):
            own = (kw.get("edge_attributes") or {}).get((u, v), {})
            want = {str(k): str(x) for k, x in {**data, **EDGE_STYLE.NORMAL, **(kw.get("all_edge_attributes") or {}), **own}.items()}
            ctx.count("edge_attributes", len(want))
            ctx.count("overrides_seen", len(own))
            got = edges[str(u), str(v)]
            ctx.check(got == want, lambda: "%s: edge %r has %r, expected %r" % (what, (u, v), got, want))
        ctx.check([p for p, _ in a.layouts][-1:] == [prog] and len(a.layouts) == 1, lambda: "%s: layouts %r" % (what, [p for p, _ in a.layouts]))
        ctx.check(a.layouts[0][1] == a.snapshot(), lambda: "%s: attributes were set after the layout" % what)
        ctx.case(what, bool(kw) and bool(names), {"nodes": len(names), "edges": len(edges), "options": sorted(kw)})


PART = re.compile(r"#([0-9a-f]{2})([0-9a-f]{2})([0-9a-f]{2})([0-9a-f]{2});(\d+\.\d+)\Z")


def gradient(ctx, rng, i):
    from causalnex.plots import color_gradient_string

    for _ in range(10):
        def color():
            alpha = rng.random() < 0.6
            parts = [rng.choice([0, 255, rng.randrange(256)]) for _ in range(4 if alpha else 3)]
            text = "#" + "".join("%02x" % x for x in parts)
            return rng.choice([text, text.upper()]), (parts + [255])[:4]

        (first, a), (last, b), steps = color(), color(), rng.choice([1, 1, 2, 3, 7, 10, 30, 49, 99])
        what = "color_gradient_string(%r, %r, %r)" % (first, last, steps)
        parts = ctx.call(color_gradient_string, first, last, steps).split(":")
        ctx.count("gradients")
        ctx.check(len(parts) == steps + 1, lambda: "%s: %d colours" % (what, len(parts)))
        for k, part in enumerate(parts):
            m = PART.match(part)
            ctx.check(m is not None, lambda: "%s: part %r" % (what, part))
            got = [int(m.group(j), 16) for j in range(1, 5)]
            want = [f + (t - f) * k / steps for f, t in zip(a, b)]
            ctx.check(got == a if k == 0 else got == b if k == steps else all(abs(g - w) <= 1 for g, w in zip(got, want)),
                      lambda: "%s: colour %d is %r, expected about %r" % (what, k, got, want))
            ctx.check(abs(float(m.group(5)) - 1 / (steps + 1)) <= 0.0051, lambda: "%s: share %r" % (what, part))
        ctx.case(what, steps > 1, {"what": what})


def display(ctx, rng, i):
    from matplotlib.axes import Axes

    from causalnex.plots import display_plot_ipython, display_plot_mpl, plot_structure

    names, sm = random_model(rng)
    a = ctx.call(plot_structure, sm)
    prog = rng.choice([None, "dot", "neato", "circo"])
    kw = {} if prog is None else {"prog": prog}
    drawn = b"drawing of %d nodes" % len(names)
    image = ctx.call(display_plot_ipython, a, **kw)
    ctx.check(image.data == drawn and a.drawings == [(None, "png", prog or "neato")], lambda: "display_plot_ipython: %r of %r" % (image.data, a.drawings))
    given = Axes() if rng.random() < 0.5 else None
    px = rng.choice([None, 0.01, 0.5])
    del a.drawings[:], SEEN[:]
    result = ctx.call(display_plot_mpl, a, **dict(kw, **({"ax": given} if given else {}), **({"pixel_size_in": px} if px else {})))
    ctx.count("displays")
    ctx.check(isinstance(result, tuple) and len(result) == 2, lambda: "display_plot_mpl: %r" % (result,))
    figure, ax = result
    ctx.check(a.drawings == [(None, "png", prog or "neato")] and SEEN == [drawn], lambda: "display_plot_mpl: %r, read %r" % (a.drawings, SEEN))
    ctx.check(len(ax.shown) == 1 and ax.shown[0].shape == (len(drawn) * 3, 40 + len(drawn), 4), "display_plot_mpl: another image is shown")
    ctx.check((("off",), {}) in ax.axis_calls or ((False,), {}) in ax.axis_calls, "display_plot_mpl: the axes are visible")
    if given is not None:
        ctx.check(figure is None and ax is given, "display_plot_mpl: the given axes are not used")
    else:
        size = ((40 + len(drawn)) * (px or 0.01), len(drawn) * 3 * (px or 0.01))
        ctx.check(all(abs(x - y) < 1e-9 for x, y in zip(figure.figsize, size)), lambda: "display_plot_mpl: figure of %r inches, image of %r" % (figure.figsize, size))
    ctx.case((len(names), prog, px, given is None), True, {"prog": prog})


@contextlib.contextmanager
def without(*libraries):
    hidden = {k: sys.modules.pop(k) for k in list(sys.modules) if k.split(".")[0] in libraries}
    sys.modules.update({n: None for n in libraries})
    try:
        yield
    finally:
        for n in libraries:
            del sys.modules[n]
        sys.modules.update(hidden)


def absent(ctx, rng, i):
    """Without an optional library the documented advice is given, and the rest works."""
    from causalnex.plots import plot_structure

    names, sm = random_model(rng)
    before = state(sm)
    with without("pygraphviz"):
        ctx.raises(Warning, plot_structure, sm)
    ctx.check(state(sm) == before, "the model was modified")
    # each of the optional libraries may be missing when the package is imported
    import causalnex

    a = ctx.call(plot_structure, sm)
    missing = [n for n in ("pygraphviz", "IPython", "matplotlib") if rng.random() < 0.6] or ["matplotlib"]
    package = causalnex.plots
    loaded = {k: sys.modules.pop(k) for k in list(sys.modules) if k.split(".")[:2] == ["causalnex", "plots"]}
    try:
        with without(*missing):
            plots = ctx.call(importlib.import_module, "causalnex.plots")
            what = "imported without %s" % ", ".join(missing)
            for library, fn in (("IPython", plots.display_plot_ipython), ("matplotlib", plots.display_plot_mpl)):
                if library in missing:
                    ctx.raises(ImportError, fn, a)
                else:
                    ctx.call(fn, a)
                    ctx.check(len(a.drawings) > 0, lambda: "%s: %s draws nothing" % (what, fn.__name__))
            if "pygraphviz" in missing:
                ctx.raises(Warning, plots.plot_structure, sm)
            ctx.count("imports_without", len(missing))
    finally:
        for k in [k for k in sys.modules if k.split(".")[:2] == ["causalnex", "plots"]]:
            del sys.modules[k]
        sys.modules.update(loaded)
        causalnex.plots = package
    ctx.count("absent_library")
    ctx.case(("absent", len(names)), False, None)


FAMILIES = {"plot": (plot, 100, 12000), "gradient": (gradient, 50, 8000), "display": (display, 50, 600), "absent": (absent, 5, 100)}

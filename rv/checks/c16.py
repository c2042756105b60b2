"""C16: the graphviz source lists exactly the variables and edges of the network."""
import re

from rv import nets

PROPERTY = "C16"
INTERPRETER = "repo"
RULE = ("random DAGs of 1..25 variables built by build_bbn from factors of any names, also keywords and names which are no words of the DOT "
        "language; the source is parsed back by a DOT parser and compared with the description; a second build of the same network with "
        "permuted factors must give the same text. Non-trivial: the DAG has an edge")
NEED = {"sources": 500, "edges_parsed": 1500, "strange_names": 100}
KEYWORDS = ("node", "edge", "graph", "digraph", "subgraph", "strict")
STRANGE = ["node", "Graph", "edge", "strict", "subgraph", "DIGRAPH", "two words", "x-y", "a->b", "1st", "12", "a;b", "[x]", "{", "}", "it's", "say \"hi\"",
           "# no", "// no", "a.b", "k=v", " ", "<b>", "f_node", "nodes", "<lambda>", "a:b", "a,b"]


class Invalid(Exception):
    pass


def tokens(text):
    """Tokens of a DOT text: ("id", name), ("key", keyword) or ("op", text)."""
    spec = re.compile(r'\s+|(?P<quoted>"(?:[^"\\]|\\.)*")|(?P<op>->|--|[{}\[\];=,])|(?P<num>-?(?:\.\d+|\d+(?:\.\d*)?)(?![\w.]))|(?P<word>[^\W\d]\w*)', re.S)
    at = 0
    while at < len(text):
        m = spec.match(text, at)
        if not m:
            raise Invalid("syntax error at %r" % text[at:at + 40])
        at = m.end()
        kind = m.lastgroup
        if kind == "quoted":
            yield "id", re.sub(r'\\(["\\])', r"\1", m.group()[1:-1])
        elif kind == "word" and m.group().lower() in KEYWORDS:
            yield "key", m.group().lower()
        elif kind:
            yield ("op" if kind == "op" else "id"), m.group()


def parse(text):
    """(declared nodes, edges) of a digraph."""
    ts = list(tokens(text))
    pos = 0

    def peek():
        return ts[pos] if pos < len(ts) else ("end", "")

    def take(*allowed):
        nonlocal pos
        t = peek()
        if t[0] not in allowed and t not in allowed:
            raise Invalid("unexpected %r at token %d" % (t[1], pos))
        pos += 1
        return t[1]

    def attributes():
        while peek() == ("op", "["):
            take(("op", "["))
            while peek() != ("op", "]"):
                take("id")
                take(("op", "="))
                take("id")
                if peek() in (("op", ","), ("op", ";")):
                    take("op")
            take(("op", "]"))

    take(("key", "digraph"))
    if peek()[0] == "id":
        take("id")
    take(("op", "{"))
    nodes, edges = [], []
    while peek() != ("op", "}"):
        if peek()[0] == "key":
            take(("key", "graph"), ("key", "node"), ("key", "edge"))
            if peek() != ("op", "["):
                raise Invalid("a keyword where a name should be")
            attributes()
        else:
            path = [take("id")]
            if peek() == ("op", "="):
                take("op")
                take("id")
            else:
                while peek() == ("op", "->"):
                    take("op")
                    path.append(take("id"))
                edges += zip(path, path[1:])
                if len(path) == 1:
                    nodes += path
                attributes()
        if peek() == ("op", ";"):
            take("op")
    take(("op", "}"))
    if pos != len(ts):
        raise Invalid("text after the graph")
    return nodes, edges


def render(ctx, rng, i):
    import causalnex.ebaybbn as m

    net = nets.random_net(rng, n=rng.randint(1, 25), max_size=10 ** 30, max_card=2, kind="uniform")
    fs = [nets.factor(net, v, rng) for v in net.order]
    names = rng.choice(["usual", "usual", "usual", "renamed", "strange"])
    if names == "renamed":
        nets.rename(rng, net, fs)
    elif names == "strange":
        ctx.count("strange_names")
        free = [x for x in STRANGE if x not in {f.__name__ for f in fs}]
        for f, name in zip(rng.sample(fs, len(fs)), rng.sample(free, rng.randint(1, len(free)))):
            f.__name__ = name
    name = {v: f.__name__ for v, f in zip(net.order, fs)}

    def build():
        rng.shuffle(fs)
        return ctx.call(ctx.call(m.build_bbn, list(fs)).get_graphviz_source)

    text = build()
    ctx.count("sources")
    ctx.case(net.signature()[:2], bool(net.edges()), {"source": text[:500]})
    try:
        nodes, edges = parse(text)
    except Invalid as e:
        ctx.check(False, lambda: "not a digraph: %s in %s" % (e, text))
        return
    ctx.count("edges_parsed", len(edges))
    ctx.check(sorted(nodes) == sorted(name.values()), lambda: "nodes %r in %s" % (nodes, text))
    ctx.check(sorted(edges) == sorted((name[a], name[b]) for a, b in net.edges()), lambda: "edges %r, should be %r in %s" % (edges, sorted(net.edges()), text))
    ctx.check(build() == text, "the text depends on the order of the factors")


def tables(ctx, rng, i):
    """A network made from tables, whose variables may have any names."""
    import causalnex.ebaybbn as m

    n = rng.randint(1, 8)
    variables = rng.sample(STRANGE, n)
    parents = {v: rng.sample(variables[:k], rng.randint(0, min(k, 2))) for k, v in enumerate(variables)}
    conds = {}
    for v in variables:
        rows = [[]]
        for p in parents[v]:
            rows = [r + [(p, x)] for r in rows for x in (True, False)]
        conds[v] = [[r, {True: 0.25, False: 0.75}] for r in rows]
    text = ctx.call(ctx.call(m.build_bbn_from_conditionals, conds).get_graphviz_source)
    ctx.count("sources")
    ctx.count("strange_names")
    ctx.case((n, tuple(len(parents[v]) for v in variables)), any(parents.values()), {"source": text[:500]})
    try:
        nodes, edges = parse(text)
    except Invalid as e:
        ctx.check(False, lambda: "not a digraph: %s in %s" % (e, text))
        return
    ctx.count("edges_parsed", len(edges))
    ctx.check(sorted(nodes) == sorted("f_" + v for v in variables), lambda: "nodes %r in %s" % (nodes, text))
    ctx.check(sorted(edges) == sorted(("f_" + p, "f_" + v) for v in variables for p in parents[v]), lambda: "edges %r in %s" % (edges, text))


FAMILIES = {"render": (render, 600, 12000), "tables": (tables, 60, 1200)}

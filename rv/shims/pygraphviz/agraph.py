"""The part of pygraphviz.agraph that networkx and causalnex use."""
from collections.abc import MutableMapping


class Attributes(MutableMapping):
    """Attribute names and values are strings; an absent one reads as an empty string, as in Graphviz."""

    def __init__(self):
        self._items = {}

    def __getitem__(self, key):
        return self._items.get(str(key), "")

    def __setitem__(self, key, value):
        self._items[str(key)] = value if isinstance(value, str) else str(value)

    def __delitem__(self, key):
        del self._items[str(key)]

    def __iter__(self):
        return iter(self._items)

    def __len__(self):
        return len(self._items)

    def __contains__(self, key):
        return str(key) in self._items

    def to_dict(self):
        return dict(self._items)


class Node(str):
    def __new__(cls, graph, name):
        self = str.__new__(cls, name)
        self.attr = graph._node_attr[name]
        return self

    def get_name(self):
        return str(self)

    name = property(get_name)


class Edge(tuple):
    def __new__(cls, graph, u, v):
        self = tuple.__new__(cls, (u, v))
        self.attr = graph._edge_attr[u, v]
        return self


class AGraph:
    def __init__(self, thing=None, filename=None, data=None, string=None, handle=None, name="", strict=True, directed=False, **attr):
        self.name, self.strict, self.directed = name, strict, directed
        self.graph_attr, self.node_attr, self.edge_attr = Attributes(), Attributes(), Attributes()
        self.graph_attr.update(attr)
        self._node_attr, self._edge_attr = {}, {}
        self.has_layout = False
        self.layouts, self.drawings = [], []

    def add_node(self, n, **attr):
        n = n if isinstance(n, str) else str(n)
        self._node_attr.setdefault(n, Attributes()).update(attr)

    def get_node(self, n):
        n = n if isinstance(n, str) else str(n)
        if n not in self._node_attr:
            raise KeyError("Node %s not in graph." % n)
        return Node(self, n)

    def has_node(self, n):
        return str(n) in self._node_attr

    def nodes(self):
        return [Node(self, n) for n in self._node_attr]

    def add_edge(self, u, v=None, key=None, **attr):
        u, v = (str(x) for x in (u if v is None else (u, v)))
        if self.strict and u == v:
            return
        self.add_node(u)
        self.add_node(v)
        self._edge_attr.setdefault((u, v), Attributes()).update(attr)

    def get_edge(self, u, v, key=None):
        u, v = str(u), str(v)
        if (u, v) not in self._edge_attr:
            raise KeyError("Edge %s-%s not in graph." % (u, v))
        return Edge(self, u, v)

    def has_edge(self, u, v=None, key=None):
        return (str(u), str(v)) in self._edge_attr

    def edges(self, nbunch=None, keys=False):
        return [Edge(self, u, v) for u, v in self._edge_attr]

    def snapshot(self):
        return ({k: v for k, v in self.graph_attr.items()}, {n: a.to_dict() for n, a in self._node_attr.items()}, {e: a.to_dict() for e, a in self._edge_attr.items()})

    def layout(self, prog="neato", args=""):
        self.layouts.append((prog, self.snapshot()))
        self.has_layout = True

    def draw(self, path=None, format=None, prog=None, args=""):
        self.drawings.append((path, format, prog))
        return b"drawing of %d nodes" % len(self._node_attr) if path is None else None

"""A stand-in for pygraphviz: graphs with string attributes, without Graphviz; layouts are recorded, not computed."""
from .agraph import AGraph, Attributes  # noqa: F401

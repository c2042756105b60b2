"""C36: generated data have the columns, types and rows that were asked for, and a seed repeats them."""
from rv import libshim
from rv.checks import gencommon as G

PROPERTY = "C36"
INTERPRETER = "vt"
RULE = ("random DAGs of 1..8 nodes with random names, partly weighted edges, random schemas of all four types, distributions, noise, intercepts, sizes and seeds, for both general generators and "
        "the seven functions for one type; columns, values, repeats under another global random state, arguments and rejections are judged. Distinct by graph, schema and options; "
        "non-trivial when a variable has a parent")
NEED = {"frames": 1200, "columns": 5000, "one_hot_rows": 60000, "rejections": 100, "repeats": 500, "wrappers": 300}
ASSUMPTIONS = ["numpy 2.5, scipy 1.18 and networkx 3.7 stand for the pinned versions; pandas and the kernels of scikit-learn are stand-ins", "node names are strings and integers"]
CAP = (160, 720)


def setup(ctx):
    libshim.install()


FAMILIES = {"rejected": (G.rejected, 20, 100), "linear": (G.linear, 200, 10000), "wrappers": (G.wrappers, 96, 6000), "nonlinear": (G.nonlinear, 80, 5000)}

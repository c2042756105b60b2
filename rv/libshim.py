"""Import the parts of causalnex that need third-party libraries which this sandbox does not have.

numpy, scipy and networkx are the real ones (interpreter "vt").  pandas, scikit-learn, pgmpy and
pygraphviz are stand-ins in rv/shims, written from their documented behaviour; what a stand-in does
not implement raises ShimGap, which makes a case inconclusive and never a violation.
So is torch, for the checks that ask for it; for the others causalnex.structure.pytorch is replaced
by an empty package, so that causalnex.structure itself can be imported.
"""
import functools
import os
import sys
import types

from rv import core

SHIMS = os.path.join(os.path.dirname(os.path.abspath(__file__)), "shims")


def install(torch=False):
    if SHIMS in sys.path:
        return
    sys.path.insert(0, SHIMS)

    def unavailable(name):
        class Unavailable:
            def __init__(self, *args, **kwargs):
                raise core.ShimGap("%s needs torch" % name)

        Unavailable.__name__ = name
        return Unavailable

    base = "causalnex.structure.pytorch"
    for name in () if torch else (base, base + ".sklearn"):
        module = types.ModuleType(name)
        module.__path__ = []
        for cls in ("DAGClassifier", "DAGRegressor"):
            setattr(module, cls, unavailable(cls))
        sys.modules[name] = module
    as_scipy_1_5()
    import logging

    logging.disable(logging.CRITICAL)


def as_scipy_1_5():
    """minimize of the pinned scipy returns an array of its own; 1.18 returns a read-only one when every variable is fixed."""
    try:
        import numpy as np
        import scipy.optimize
    except ImportError:
        return
    original = scipy.optimize.minimize

    @functools.wraps(original)
    def minimize(*args, **kwargs):
        result = original(*args, **kwargs)
        if not result.x.flags.writeable:
            result.x = np.array(result.x, dtype=float)
        return result

    scipy.optimize.minimize = minimize

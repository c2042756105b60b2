"""C39: generated data satisfy the structural equations and the noise distributions that were asked for."""
from rv import libshim
from rv.checks import gencommon as G

PROPERTY = "C39"
INTERPRETER = "vt"
RULE = ("random DAGs, weights, schemas, distributions, noise and seeds; structural equations are solved back from the generated columns at zero noise, residuals, shares, counts, sampled weights and "
        "intercepts are tested against the named distributions (p < 1e-8). Distinct by graph, schema and options; non-trivial when a variable has a parent")
NEED = {"equations": 2000, "thresholds_seen": 250, "distribution_tests": 500}
ASSUMPTIONS = ["numpy 2.5, scipy 1.18 and networkx 3.7 stand for the pinned versions; pandas and the kernels of scikit-learn are stand-ins", "node names are strings and integers"]
CAP = (160, 720)


def setup(ctx):
    libshim.install()


FAMILIES = {"linear": (G.linear, 320, 16000), "residuals": (G.residuals, 20, 800), "latent_classes": (G.latent_classes, 28, 1000), "counts": (G.counts, 12, 600),
            "coefficients": (G.coefficients, 6, 60), "category_weights": (G.category_weights, 4, 80), "nonlinear": (G.nonlinear, 60, 5000), "batches": (G.batches, 16, 400)}

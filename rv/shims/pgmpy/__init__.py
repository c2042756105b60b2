"""Stand-in for pgmpy 0.1.12: the Bayesian model, its two estimators and exact prediction, from its documentation.

Inference is by enumeration of the joint distribution, so it has nothing in common with the code under test.
"""

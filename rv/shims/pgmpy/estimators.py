import itertools

import numpy as np

from pgmpy.factors.discrete import TabularCPD


class BaseEstimator:
    def __init__(self, model, data, state_names=None, complete_samples_only=True):
        self.model, self.data = model, data
        self.state_names = {}
        for n in data.columns:
            seen = sorted(set(v for v in data[n].values if v == v))
            if state_names and n in state_names:
                if not set(seen) <= set(state_names[n]):
                    raise ValueError("Data contains unexpected states for variable '%s'." % n)
                self.state_names[n] = state_names[n]
            else:
                self.state_names[n] = seen
        if set(model.nodes()) - set(data.columns):
            raise ValueError("variable names of the model must be identical to column names in data")

    def state_counts(self, node):
        parents = sorted(self.model.get_parents(node))
        names = [self.state_names[v] for v in [node] + parents]
        place = [{s: k for k, s in enumerate(ns)} for ns in names]
        counts = np.zeros([len(ns) for ns in names])
        columns = [self.data[v].values for v in [node] + parents]
        for row in zip(*columns):
            if any(x != x for x in row):
                continue
            counts[tuple(p[x] for p, x in zip(place, row))] += 1
        return parents, counts

    def _cpd(self, node, parents, counts):
        total = counts.sum(axis=0, keepdims=True)
        values = np.where(total == 0, 1.0 / counts.shape[0], counts / np.where(total == 0, 1, total))
        return TabularCPD(node, parents, values, {v: list(self.state_names[v]) for v in [node] + parents})


class MaximumLikelihoodEstimator(BaseEstimator):
    def get_parameters(self):
        return [self._cpd(n, *self.state_counts(n)) for n in sorted(self.model.nodes())]


class BayesianEstimator(BaseEstimator):
    def get_parameters(self, prior_type="BDeu", equivalent_sample_size=5, pseudo_counts=None):
        out = []
        for n in self.model.nodes():
            parents, counts = self.state_counts(n)
            if prior_type == "K2":
                prior = 1.0
            elif prior_type == "BDeu":
                prior = float(equivalent_sample_size) / counts.size
            else:
                raise ValueError("'prior_type' not specified")
            out.append(self._cpd(n, parents, counts + prior))
        return out

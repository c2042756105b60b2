import itertools

import networkx as nx
import numpy as np
import pandas as pd


class BayesianModel(nx.DiGraph):
    def __init__(self, ebunch=None):
        super().__init__()
        if ebunch:
            self.add_edges_from(ebunch)
        self.cpds = []

    def add_edge(self, u, v, **kwargs):
        if u == v:
            raise ValueError("Self loops are not allowed.")
        if u in self.nodes() and v in self.nodes() and nx.has_path(self, v, u):
            raise ValueError("Loops are not allowed. Adding the edge from (%s->%s) forms a loop." % (u, v))
        super().add_edge(u, v, **kwargs)

    def add_edges_from(self, ebunch, **kwargs):
        for edge in list(ebunch):
            self.add_edge(edge[0], edge[1])

    def get_parents(self, node):
        return list(self.predecessors(node))

    def get_children(self, node):
        return list(self.successors(node))

    def add_cpds(self, *cpds):
        for cpd in cpds:
            for k, old in enumerate(self.cpds):
                if old.variable == cpd.variable:
                    self.cpds[k] = cpd
                    break
            else:
                self.cpds.append(cpd)

    def get_cpds(self, node=None):
        if node is None:
            return self.cpds
        if node not in self.nodes():
            raise ValueError("Node not present in the Directed Graph")
        for cpd in self.cpds:
            if cpd.variable == node:
                return cpd
        return None

    def fit(self, data, estimator=None, state_names=None, complete_samples_only=True, **kwargs):
        from pgmpy.estimators import BaseEstimator, MaximumLikelihoodEstimator

        if estimator is None:
            estimator = MaximumLikelihoodEstimator
        elif not issubclass(estimator, BaseEstimator):
            raise TypeError("Estimator object should be a valid pgmpy estimator.")
        self.add_cpds(*estimator(self, data, state_names=state_names, complete_samples_only=complete_samples_only).get_parameters(**kwargs))

    def _missing(self, data):
        columns = set(data.columns)
        if columns == set(self.nodes()):
            raise ValueError("No variable missing in data. Nothing to predict")
        if columns - set(self.nodes()):
            raise ValueError("Data has variables which are not in the model")
        return [n for n in self.nodes() if n not in columns]

    def _joint(self, evidence, missing):
        """Unnormalised joint probability of every assignment of state numbers to the missing nodes."""
        cards = {cpd.variable: cpd.values.shape[0] for cpd in self.cpds}
        out = np.zeros([cards[n] for n in missing])
        known = {n: int(s) for n, s in evidence.items()}
        for states in itertools.product(*[range(cards[n]) for n in missing]):
            full = dict(known, **{}) | dict(zip(missing, states))
            p = 1.0
            for cpd in self.cpds:
                p *= cpd.values[tuple(full[v] for v in cpd.variables)]
            out[states] = p
        return out

    def predict(self, data, n_jobs=-1):
        missing = self._missing(data)
        rows = {n: [] for n in missing}
        for _, row in data.iterrows():
            joint = self._joint(row.to_dict(), missing)
            best = np.unravel_index(np.argmax(joint), joint.shape)
            for n, s in zip(missing, best):
                rows[n].append(self.get_cpds(n).state_names[n][int(s)])
        return pd.DataFrame(rows, index=data.index)

    def predict_probability(self, data):
        missing = self._missing(data)
        columns = {}
        for _, row in data.iterrows():
            joint = self._joint(row.to_dict(), missing)
            joint = joint / joint.sum()
            for k, n in enumerate(missing):
                marginal = joint.sum(axis=tuple(j for j in range(len(missing)) if j != k))
                for s, p in zip(self.get_cpds(n).state_names[n], marginal):
                    columns.setdefault(str(n) + "_" + str(s), []).append(float(p))
        return pd.DataFrame(columns, index=data.index)

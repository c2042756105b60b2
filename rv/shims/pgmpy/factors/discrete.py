class TabularCPD:
    def __init__(self, variable, evidence, values, state_names):
        self.variable = variable
        self.variables = [variable] + list(evidence)
        self.values = values
        self.cardinality = values.shape
        self.state_names = state_names

    def get_evidence(self):
        return self.variables[:0:-1]

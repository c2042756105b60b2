from rv.core import ShimGap


class Optimizer:
    def __init__(self, params, defaults):
        params = list(params)
        if not params:
            raise ValueError("optimizer got an empty parameter list")
        if isinstance(params[0], dict):
            raise ShimGap("parameter groups")
        self.defaults, self.state = defaults, {}
        self.param_groups = [dict(defaults, params=params)]

    def zero_grad(self, set_to_none=False):
        for group in self.param_groups:
            for p in group["params"]:
                if p.grad is not None:
                    p.grad = None if set_to_none else p.grad.detach().zero_()


def __getattr__(name):
    if name.startswith("__"):
        raise AttributeError(name)
    raise ShimGap("torch.optim.%s" % name)

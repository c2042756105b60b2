"""A random stream under the harness's control.

install() must run before the code under test is imported: it replaces every function of the `random`
module by the bound method of one generator whose random() can be scripted, so that `random()`,
`choice()`, `choices()`, `randrange()`, ... all draw from the same scripted stream, however the code
under test imported them.
"""
import random


class Controlled(random.Random):
    script = None
    drawn = 0

    def random(self):
        self.drawn += 1
        x = super().random()
        if self.script is not None:
            y = self.script(x)
            if y is not None:
                return y
        return x


CONTROL = Controlled(12345)


def install():
    old = random._inst
    for name in dir(random):
        value = getattr(random, name)
        if getattr(value, "__self__", None) is old:
            setattr(random, name, getattr(CONTROL, name))
    random._inst = CONTROL
    return CONTROL


EXTREMES = [0.0, 2.0 ** -53, 2.0 ** -52, 0.5, 1 - 2.0 ** -53, 1 - 2.0 ** -52, 1 - 2.0 ** -53, 0.0]


def extreme_stream(rng, special=()):
    """Half of the draws are the smallest and largest values that random() can return, or given boundaries."""
    pool = EXTREMES + [x for x in special if 0 <= x < 1] * 2

    def script(x):
        return rng.choice(pool) if rng.random() < 0.6 else None

    return script

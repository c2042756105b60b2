"""C17: factors that do not describe a network are rejected, within bounded steps."""
from rv import nets

PROPERTY = "C17"
INTERPRETER = "repo"
RULE = ("factor sets made invalid by a directed cycle, a parent no factor introduces, two factors for one variable or of one name, or a factor without arguments, in "
        "otherwise valid random networks of 1..12 variables, in any order; build_bbn must raise within a budget of logical steps; the valid "
        "original must still build. Distinct by network and defect; every case is non-trivial")
NEED = {"invalid_sets": 500, "kind_cycle": 80, "kind_undefined": 80, "kind_duplicate": 80, "kind_name": 80}
ASSUMPTIONS = ["any exception counts as a rejection; 300000 steps are enough for any terminating build of 13 factors"]


def make(args, name):
    def f(*values):
        return 0.5

    f.argspec = list(args)
    f.__name__ = name
    return f


def invalid(ctx, rng, i):
    import causalnex.ebaybbn as m

    net = nets.random_net(rng, n=rng.randint(2, 12), max_size=10 ** 9, max_card=2, kind="uniform")
    args = {v: rng.sample(net.parents[v] + [v], len(net.parents[v]) + 1) for v in net.order}
    kind = rng.choice(["cycle", "undefined", "duplicate", "empty", "name"])
    extra = []
    if kind == "cycle":
        # an edge back from a descendant (or from itself through a second variable)
        a = rng.choice(net.order)
        desc, stack = set(), [a]
        while stack:
            x = stack.pop()
            for p, c in net.edges():
                if p == x and c not in desc:
                    desc.add(c)
                    stack.append(c)
        if not desc:
            kind = "undefined"
        else:
            d = rng.choice(sorted(desc))
            args[a].insert(rng.randrange(len(args[a]) + 1), d)
    if kind == "undefined":
        v = rng.choice(net.order)
        args[v].insert(rng.randrange(len(args[v]) + 1), "ghost")
    elif kind == "duplicate":
        v = rng.choice(net.order)
        extra.append(make(args[v], "other_" + v))
        if rng.random() < 0.4:
            extra[0].__name__ = "f_" + v
    elif kind == "name":
        # of two factors with one name one would be lost
        v = rng.choice(net.order)
        w = rng.choice([x for x in net.order if x != v])
        extra.append(make(args.pop(v), "f_" + w))
    elif kind == "empty":
        extra.append(make([], "f_nothing"))
    fs = [make(args[v], "f_" + v) for v in args] + extra
    rng.shuffle(fs)
    ctx.case((net.signature()[:2], kind), True, {"factors": [f.argspec for f in fs], "defect": kind})
    if kind == "undefined" and graph_ok(fs):
        ctx.check(True, "")
        return
    ctx.count("invalid_sets")
    ctx.count("kind_" + kind)
    limit = ctx.DEFAULT_BUDGET
    ctx.DEFAULT_BUDGET = 300_000
    try:
        ctx.raises((Exception,), m.build_bbn, fs)
        good = [make(net.parents[v] + [v], "f_" + v) for v in net.order]
        rng.shuffle(good)
        b = ctx.call(m.build_bbn, good)
    finally:
        ctx.DEFAULT_BUDGET = limit
    ctx.check(len(b.nodes) == len(net.order), "the valid network was not built")


def graph_ok(fs):
    """Can the set still be read as a network (each factor introducing one variable)?  Then it is not invalid."""
    known, left = set(), list(fs)
    while left:
        for f in left:
            new = [a for a in f.argspec if a not in known]
            if len(new) == 1:
                known.add(new[0])
                left.remove(f)
                break
        else:
            return False
    return True


FAMILIES = {"invalid": (invalid, 800, 20000)}

"""C11: build_bbn builds exactly the DAG that the factors describe, whatever order they come in."""
from rv import nets

PROPERTY = "C11"
INTERPRETER = "repo"
RULE = ("random DAGs of 1..40 variables, chains, ladders and trees of up to 150, variables with up to 14 parents; factors as def functions, functions with an argspec, in any order, with the modelled variable at any "
        "position, passed as a list or as arguments. Oracle: the description the factors were made from. Non-trivial: the DAG has an edge")
NEED = {"graphs": 500, "parents_compared": 3000, "reversed_order": 50, "long": 60}


def graph(ctx, rng, i):
    big = rng.random() < 0.2
    n = rng.randint(15, 40) if big else rng.randint(1, 12)
    compare(ctx, rng, nets.random_net(rng, n=n, max_size=10 ** 30, max_card=2, kind="uniform"))


def long(ctx, rng, i):
    if i % 2:
        net = nets.random_net(rng, n=rng.randint(45, 150), style=rng.choice(["chain", "rchain", "ladder", "tree", "loop", "star"]), max_size=10 ** 99, boolean=True,
                              kind="uniform", max_states_per_family=16)
    else:
        k = rng.randint(7, 14)
        net = nets.random_net(rng, n=k + 1, style="isolated", boolean=True, kind="uniform", max_size=10 ** 9)
        child = net.order[-1]
        net.parents[child] = rng.sample(net.order[:-1], k)
        p = 0.5
        net.cpt[child] = Half(p)
    ctx.count("long")
    compare(ctx, rng, net)


class Half(dict):
    """A table with the same row for everything."""

    def __init__(self, p):
        super().__init__()
        self.p = p

    def __missing__(self, key):
        return {True: self.p, False: 1 - self.p}

    def values(self):
        return [self[None]]

    def items(self):
        return [((), self[None])]


def compare(ctx, rng, net):
    import causalnex.ebaybbn as m

    fs = [nets.factor(net, v, rng) for v in net.order]
    if rng.random() < 0.25:
        nets.rename(rng, net, fs)
    named = dict(zip(net.order, fs))
    how = rng.choice(["given", "reversed", "shuffled", "shuffled"])
    if how == "reversed":
        fs.reverse()
        ctx.count("reversed_order")
    elif how == "shuffled":
        rng.shuffle(fs)
    listed = list(fs)
    domains = nets.domains_argument(net, rng)
    seen_domains = {k: list(v) for k, v in domains.items()}
    if rng.random() < 0.5:
        b = ctx.call(m.build_bbn, *fs, domains=domains)
    else:
        b = ctx.call(m.build_bbn, fs, domains=domains)
    ctx.count("graphs")
    ctx.case((net.signature()[:2], how), bool(net.edges()), {"network": net.describe(), "order": how})
    ctx.check(fs == listed, "the list of factors was modified")
    ctx.check(set(domains) == set(seen_domains) and all(list(v) == seen_domains[k] for k, v in domains.items()), "the domains were modified")
    ctx.check(sorted(x.variable_name for x in b.nodes) == sorted(net.order), lambda: "variables %r, should be %r" % (
        sorted(str(x.variable_name) for x in b.nodes), sorted(net.order)))
    ctx.check(set(b.vars_to_nodes) == set(net.order), "vars_to_nodes has other variables")
    children = {v: set() for v in net.order}
    for p, c in net.edges():
        children[p].add(c)
    for x in b.nodes:
        v = x.variable_name
        ctx.count("parents_compared")
        ctx.check(x.name == named[v].__name__ and x.func is named[v], lambda: "variable %r is modelled by %r" % (v, x))
        ctx.check(b.vars_to_nodes[v] is x, lambda: "vars_to_nodes[%r] is %r" % (v, b.vars_to_nodes[v]))
        ps, cs = [p.variable_name for p in x.parents], [c.variable_name for c in x.children]
        ctx.check(sorted(ps) == sorted(net.parents[v]), lambda: "parents of %r are %r, should be %r" % (v, ps, net.parents[v]))
        ctx.check(sorted(cs) == sorted(children[v]), lambda: "children of %r are %r, should be %r" % (v, cs, sorted(children[v])))
        ctx.check(all(any(p is y for y in b.nodes) for p in x.parents + x.children), "edges lead outside the network")
    from causalnex.ebaybbn.utils import get_original_factors as original_factors

    of = ctx.call(original_factors, rng.sample(fs, len(fs)))
    ctx.check(set(of) == set(net.order) and all(of[v] is named[v] for v in of), lambda: "original factors %r" % (of,))


FAMILIES = {"graph": (graph, 1000, 20000), "long": (long, 20, 400)}

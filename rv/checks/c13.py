"""C13: queries and samples leave no trace: answers do not depend on what was asked before."""
from rv import nets
from rv.checks import bbncommon as bc
from rv.checks import treecommon as tc

PROPERTY = "C13"
INTERPRETER = "repo"
RULE = ("random histories of 15..40 operations (query, rejected query, sample, graph copies, join trees left half propagated, rendering, "
        "building more networks from the same factors, mutating results and arguments) over 2..3 networks that share factors, names or "
        "domains; after every query the answer is compared with the exact one of its network, and at the end a snapshot of every "
        "network's structure with the one taken at first. Non-trivial: the history holds at least two kinds of operation")
NEED = {"queries_judged": 1500, "operations": 3000, "snapshots": 200, "trees_interleaved": 150}


def snapshot(b):
    return ([(x.name, x.variable_name, tuple(p.name for p in x.parents), tuple(c.name for c in x.children), id(x), id(x.func),
              tuple(x.argspec)) for x in b.nodes],
            {k: id(v) for k, v in b.vars_to_nodes.items()}, {k: list(v) for k, v in b.domains.items()})


def history(ctx, rng, i):
    import causalnex.ebaybbn as m

    first = nets.random_net(rng, n=rng.randint(2, 5), max_size=128)
    second = nets.Net(first.order, first.parents, first.domains, {}, first.style)
    nets.with_tables(rng, second, "plain")
    third = nets.random_net(rng, n=rng.randint(2, 4), max_size=64, boolean=True)
    sources = [first, second, third]
    fs = {id(n): [nets.factor(n, v, rng) for v in n.order] for n in sources}
    live = []

    def fresh(net):
        dom = nets.domains_argument(net, rng)
        if net is third and rng.random() < 0.7:
            b = ctx.call(m.build_bbn, fs[id(net)])
        else:
            b = ctx.call(m.build_bbn, list(fs[id(net)]), domains=dom)
        live.append((net, b, snapshot(b)))

    for net in sources[: rng.randint(2, 3)]:
        fresh(net)
    kept, trees, kinds = [], [], set()
    oracle = {}

    def judge(net, b, e):
        key = (id(net), repr(sorted(e.items(), key=lambda t: t[0])))
        if key not in oracle:
            oracle[key] = nets.joint_marginals(net, e)
        r = ctx.call(b.query, **e)
        ctx.count("queries_judged")
        bc.compare(ctx, net, r, oracle[key][0], e, "query(**%r) after %r" % (e, sorted(kinds)), normalise=oracle[key][1] if e else None)
        return r

    for step in range(rng.randint(15, 40)):
        net, b, _ = rng.choice(live)
        op = rng.choice(["query", "query", "query0", "sample", "sample_default", "reject", "copies", "tree", "tree", "advance", "advance", "advance", "render",
                         "mutate", "build", "impossible"])
        kinds.add(op)
        ctx.count("operations")
        if op == "query":
            e = bc.possible_evidence(rng, net)
            r = judge(net, b, e)
            kept.append(r)
        elif op == "query0":
            kept.append(judge(net, b, {}))
        elif op == "impossible":
            judge(net, b, bc.any_evidence(rng, net))
        elif op == "sample":
            q = bc.possible_evidence(rng, net, rng.choice([0, 1, 2]))
            before = dict(q)
            kept += ctx.call(b.draw_samples, q, rng.randint(1, 3))
            ctx.check(q == before, "draw_samples modified its query")
        elif op == "sample_default":
            got = ctx.call(b.draw_samples) if rng.random() < 0.5 else ctx.call(b.draw_samples, n=2)
            for s in got:
                ctx.check(set(s) == set(net.order) and net.probability(s) > 0, lambda: "sample %r" % (s,))
            kept += got
        elif op == "reject":
            ctx.raises((Exception,), b.query, **{net.order[0]: "not a value"})
            ctx.raises((Exception,), b.query, **{"not_a_variable": True})
        elif op == "copies":
            gm = ctx.call(m.make_moralized_copy, ctx.call(m.make_undirected_copy, b), b)
            ctx.call(m.triangulate, gm)
        elif op == "tree":
            jt = ctx.call(b.build_join_tree)
            trees.append((net, b, jt, None))
        elif op == "advance" and trees:
            k = rng.randrange(len(trees))
            net, b, jt, e = trees[k]
            if e is None or rng.random() < 0.4:
                e = bc.possible_evidence(rng, net)
                ctx.call(jt.initialize_potentials, ctx.call(jt.assign_clusters, b), b, dict(e))
                trees[k] = (net, b, jt, e)
            else:
                ctx.call(jt.propagate)
                want, total = nets.joint_marginals(net, e)
                got = {}
                for x in b.nodes:
                    for key, p in ctx.call(jt.marginal, x).items():
                        got[key[0]] = p
                ctx.count("trees_interleaved")
                bc.compare(ctx, net, got, want, e, "marginals of a join tree used in between")
        elif op == "render":
            ctx.call(b.get_graphviz_source)
            repr(b.nodes)
        elif op == "mutate" and kept:
            x = rng.choice(kept)
            for key in list(x):
                x[key] = None
            if rng.random() < 0.5:
                x.clear()
        elif op == "build":
            fresh(rng.choice(sources))
    ctx.case((first.signature(), tuple(sorted(kinds))), len(kinds) > 1, {"operations": sorted(kinds), "network": first.describe()})
    for net, b, snap in live:
        ctx.count("snapshots")
        ctx.check(snapshot(b) == snap, lambda: "the network changed: %r, was %r" % (snapshot(b), snap))
        judge(net, b, {})
        judge(net, b, bc.possible_evidence(rng, net))


FAMILIES = {"history": (history, 120, 3000)}

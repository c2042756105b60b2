"""C14: concurrent use of one network gives the answers of sequential use."""
import sys
import threading
import time

from rv import nets
from rv.checks import bbncommon as bc

PROPERTY = "C14"
INTERPRETER = "repo"
RULE = ("2..6 threads share one or two networks and each runs 3..6 queries, samples or builds; a switch interval of 1 microsecond and yields "
        "injected at random calls and jumps inside the code under test force interleavings; each thread records its results, which are "
        "judged afterwards against exact values. Distinct by network and thread programs; non-trivial when threads really alternated")
NEED = {"queries_judged": 1000, "thread_switches": 20000, "interleaved_cases": 100}
ASSUMPTIONS = ["CPython threads under the GIL; interleavings are those forced by yields at calls, jumps and branches"]


def concurrent(ctx, rng, i):
    import random

    import causalnex.ebaybbn as m

    shared = []
    for _ in range(rng.randint(1, 2)):
        net = nets.random_net(rng, n=rng.randint(2, 5), max_size=128)
        shared.append((net, ctx.call(nets.build, m, net, rng)))
    programs = []
    for t in range(rng.randint(2, 6)):
        program = []
        for _ in range(rng.randint(3, 6)):
            k = rng.randrange(len(shared))
            net = shared[k][0]
            op = rng.choice(["query", "query", "query", "sample", "build"])
            program.append((op, k, bc.possible_evidence(rng, net) if op != "sample" else bc.possible_evidence(rng, net, 1)))
        programs.append(program)
    results = [[] for _ in programs]
    errors = []
    state = {"last": None, "switches": 0}
    yields = random.Random(rng.random())
    barrier = threading.Barrier(len(programs))

    def hook():
        me = threading.get_ident()
        if state["last"] != me:
            state["last"] = me
            state["switches"] += 1
        if yields.random() < 0.02:
            time.sleep(0)

    def run(t):
        try:
            barrier.wait(60)
            for op, k, e in programs[t]:
                net, b = shared[k]
                if op == "query":
                    results[t].append(b.query(**e))
                elif op == "sample":
                    results[t].append(b.draw_samples(dict(e), 1))
                else:
                    fs = [nets.factor(net, v) for v in net.order]
                    results[t].append(m.build_bbn(fs, domains=dict(net.domains)).query(**e))
        except BaseException as x:
            errors.append((t, x))

    old = sys.getswitchinterval()
    sys.setswitchinterval(1e-6)
    ctx.steps.hooks.append(hook)
    ctx.steps.steps, ctx.steps.limit = 0, 50_000_000
    try:
        threads = [threading.Thread(target=run, args=(t,), daemon=True) for t in range(len(programs))]
        for t in threads:
            t.start()
        for t in threads:
            t.join(120)
    finally:
        ctx.steps.limit = None
        ctx.steps.hooks.clear()
        sys.setswitchinterval(old)
    if any(t.is_alive() for t in threads):
        from rv.core import Inconclusive

        raise Inconclusive("threads did not finish in 120 s")
    ctx.count("calls", sum(map(len, programs)))
    ctx.count("thread_switches", state["switches"])
    interleaved = state["switches"] > 2 * len(programs)
    if interleaved:
        ctx.count("interleaved_cases")
    ctx.case((tuple(n.signature() for n, _ in shared), tuple(tuple((op, k, len(e)) for op, k, e in p) for p in programs)), interleaved,
             {"network": shared[0][0].describe(), "threads": len(programs), "switches": state["switches"]})
    ctx.check(not errors, lambda: "thread %d: %s: %s" % (errors[0][0], type(errors[0][1]).__name__, errors[0][1]))
    for program, got in zip(programs, results):
        ctx.check(len(got) == len(program), "a thread lost results")
        for (op, k, e), r in zip(program, got):
            net = shared[k][0]
            if op == "sample":
                for s in r:
                    ctx.check(set(s) == set(net.order) and net.probability(s) > 0 and all(s[v] == x for v, x in e.items()),
                              lambda: "concurrent sample %r for %r" % (s, e))
                continue
            want, total = nets.joint_marginals(net, e)
            ctx.count("queries_judged")
            bc.compare(ctx, net, r, want, e, "concurrent query(**%r)" % (e,), normalise=total if e else None)


FAMILIES = {"concurrent": (concurrent, 40, 900)}

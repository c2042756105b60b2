"""setup_cmd: the oracles agree with each other, the interpreters and the step monitor work."""
import os
import subprocess
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)


def main():
    import random

    from rv import nets, stats
    from rv.run import INTERPRETERS

    for python in INTERPRETERS.values():
        subprocess.run([python, "-c", "import sys; assert sys.monitoring"], check=True)
    rng = random.Random(1)
    for _ in range(40):
        net = nets.random_net(rng, max_size=128)
        a = net.sample(rng)
        e = {v: a[v] for v in rng.sample(net.order, rng.randint(0, len(net.order)))}
        brute, total = nets.joint_marginals(net, e)
        ve = nets.Elimination(net)
        for v in net.order:
            assert ve.marginal(v, e) == {x: brute[(v, x)] for x in net.domains[v]}
            assert sum(brute[(v, x)] for x in net.domains[v]) == total
    assert abs(stats.gammq(1.5, 2.0) - 0.2614641299491106) < 1e-12
    subprocess.run([INTERPRETERS["vt"], os.path.join(HERE, "rv", "standin_test.py")], check=True, stdout=subprocess.DEVNULL, timeout=300)
    print("selftest ok")


if __name__ == "__main__":
    main()

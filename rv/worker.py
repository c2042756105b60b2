"""One worker process: python -m rv.worker CHECK OUT.json WORKER WORKERS DEADLINE [family case]"""
import importlib
import json
import os
import resource
import sys
import time

sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)

from rv import core  # noqa: E402

sys.path.insert(0, core.REPO)


def main():
    prop, out, worker, workers, seconds = sys.argv[1], sys.argv[2], int(sys.argv[3]), int(sys.argv[4]), float(sys.argv[5])
    only = (sys.argv[6], int(sys.argv[7])) if len(sys.argv) > 7 else None
    seed = int(os.environ.get("VERIF_SEED", "1"))
    tier = os.environ.get("VERIF_TIER", "quick")
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    ctx = core.Ctx(prop, seed, tier, worker, workers, time.time() + seconds)
    module = importlib.import_module("rv.checks." + prop.lower())
    if hasattr(module, "setup"):
        module.setup(ctx)
    ctx.run_families(module.FAMILIES, only)
    if hasattr(module, "finish") and only is None and not ctx.violations:
        ctx.run_case("finish", lambda c, r, i: module.finish(c), 0)
    with open(out + ".tmp", "w") as f:
        json.dump(ctx.result(), f, default=repr)
    os.replace(out + ".tmp", out)
    sys.stdout.flush()
    os._exit(0)


if __name__ == "__main__":
    main()

"""Worker-side machinery: the case loop, the step-budget monitor, and verdict recording.

A check module (rv/checks/cNN.py) defines

    PROPERTY = "C01"
    RULE = "how cases are made, and what makes one non-trivial"
    FAMILIES = {"name": (function, quick_cases, thorough_cases)}   # per worker
    NEED = {"counter": minimum over all workers}                   # otherwise the run is inconclusive

and each family function has the signature fn(ctx, rng, i).  It drives the real code in /repo and
calls ctx.check(condition, message) / ctx.fail(message) where its oracle decides, ctx.count(name) for
every event that the monitor observed and ctx.case(signature, nontrivial, sample) once per case.
"""
import json
import os
import random
import re
import sys
import time
import traceback

REPO = os.environ.get("RV_REPO", "/repo")
CODE = os.path.join(REPO, "causalnex") + os.sep


class StepBudgetExceeded(BaseException):
    """The code under test took more loop iterations and calls than any terminating run could need."""


class Violation(BaseException):
    def __init__(self, message):
        super().__init__(message)
        self.message = message


class Inconclusive(BaseException):
    """The case could not be decided (a stand-in lacks what the code asks of it, a checker gave up)."""


class ShimGap(BaseException):
    """A stand-in for an absent third-party library was asked for something it does not implement."""


class StepMonitor:
    """Counts calls and jumps executed inside /repo's code with sys.monitoring; a logical clock.

    A hang is decided on these steps, never on wall-clock time.
    """

    def __init__(self):
        self.steps = 0
        self.limit = None
        self.total = 0
        self.hooks = []
        m = sys.monitoring
        self.tool = 4
        m.use_tool_id(self.tool, "rv-steps")
        e = m.events
        m.register_callback(self.tool, e.PY_START, self._start)
        m.register_callback(self.tool, e.JUMP, self._jump)
        m.register_callback(self.tool, e.BRANCH, self._jump)
        m.set_events(self.tool, e.PY_START | e.JUMP | e.BRANCH)

    def off(self):
        sys.monitoring.set_events(self.tool, 0)

    def on(self):
        e = sys.monitoring.events
        sys.monitoring.set_events(self.tool, e.PY_START | e.JUMP | e.BRANCH)

    def _tick(self, code):
        if not code.co_filename.startswith(CODE):
            return sys.monitoring.DISABLE
        self.steps += 1
        if self.limit is not None and self.steps > self.limit:
            self.limit = None
            raise StepBudgetExceeded()
        for hook in self.hooks:
            hook()
        return None

    def _start(self, code, offset):
        return self._tick(code)

    def _jump(self, code, offset, dest):
        return self._tick(code)

    def run(self, budget, fn, *args, **kwargs):
        self.steps = 0
        self.limit = budget
        try:
            return fn(*args, **kwargs)
        finally:
            self.limit = None
            self.total += self.steps


def in_repo(tb):
    """Does the traceback go through the code under test, and not end in the harness called back by it?"""
    frames = traceback.extract_tb(tb)
    return any(f.filename.startswith(CODE) for f in frames)


def in_repo_last(e):
    """Was the error raised by a line of the code under test itself?"""
    return traceback.extract_tb(e.__traceback__)[-1].filename.startswith(CODE)


SHIMS = os.path.join(os.path.dirname(os.path.abspath(__file__)), "shims") + os.sep
PROTOCOL = re.compile(r"has no attribute|unexpected keyword|positional argument|not subscriptable|unsupported operand|not iterable|not callable|not supported between|has no len")
STAND_INS = re.compile(r"\b(Series|DataFrame|Index|RangeIndex|MultiIndex|GroupBy|Timestamp|AGraph|Tensor|Parameter|Module|ModuleList|Linear|LayerNorm|StandardScaler|LabelEncoder|OneHotEncoder|OrdinalEncoder|torch|pandas|sklearn|pgmpy|pygraphviz)\b")


def stand_in_gap(e):
    """Is this error that of a stand-in which lacks a method or a parameter, rather than of the code under test?"""
    if not isinstance(e, (TypeError, AttributeError, ImportError, NotImplementedError)):
        return False
    if "rv.libshim" not in sys.modules:
        return False
    if isinstance(e, ImportError):
        # not one which the code under test raises by itself
        return e.name is not None or isinstance(e.__context__, ImportError)
    if STAND_INS.search(str(e)):
        return not in_repo_last(e) or PROTOCOL.search(str(e)) is not None
    frames = traceback.extract_tb(e.__traceback__)
    return bool(frames) and frames[-1].filename.startswith(SHIMS) and not getattr(e, "documented", False)


HARNESS = (MemoryError, OSError, RecursionError, AssertionError, ImportError)


class Ctx:
    DEFAULT_BUDGET = 30_000_000

    def __init__(self, prop, seed, tier, worker, workers, deadline):
        self.prop, self.seed, self.tier, self.worker, self.workers = prop, seed, tier, worker, workers
        self.deadline = deadline
        self.steps = StepMonitor()
        self.counters = {}
        self.evaluations = 0
        self.distinct = set()
        self.samples = []
        self.violations = []
        self.inconclusive = []
        self.known = {}
        self.notes = []
        self.current = None
        self.truncated = False

    # ---- what checks call -------------------------------------------------
    def count(self, name, n=1):
        self.counters[name] = self.counters.get(name, 0) + n

    def case(self, signature, nontrivial=True, sample=None):
        self.evaluations += 1
        if nontrivial:
            self.distinct.add(str(signature))
        if sample is not None and len(self.samples) < 2 and nontrivial:
            self.samples.append(sample)

    def fail(self, message):
        raise Violation(message)

    def check(self, condition, message):
        self.count("oracle_decisions")
        if not condition:
            raise Violation(message() if callable(message) else message)

    def known_finding(self, key, what):
        """Record that the finding `key`, listed in the known-findings file, was observed again."""
        self.known[key] = what

    def call(self, fn, *args, **kwargs):
        """Call the code under test under the step budget; an exception it raises is a violation."""
        return self.call_budget(self.DEFAULT_BUDGET, fn, *args, **kwargs)

    def call_budget(self, budget, fn, *args, **kwargs):
        self.count("calls")
        try:
            return self.steps.run(budget, fn, *args, **kwargs)
        except StepBudgetExceeded:
            raise Violation("no answer after %d steps: %s" % (budget, name_of(fn)))
        except (Violation, Inconclusive, ShimGap, KeyboardInterrupt):
            raise
        except BaseException as e:
            if stand_in_gap(e):
                raise ShimGap("%s: %s" % (type(e).__name__, e))
            raise Violation("%s raised %s: %s\n%s" % (
                name_of(fn), type(e).__name__, str(e)[:300],
                "".join(traceback.format_tb(e.__traceback__)[-4:])))

    def raises(self, exceptions, fn, *args, **kwargs):
        """The call must raise one of `exceptions` (a violation otherwise); returns the exception."""
        self.count("calls")
        try:
            result = self.steps.run(self.DEFAULT_BUDGET, fn, *args, **kwargs)
        except StepBudgetExceeded:
            raise Violation("no answer after %d steps: %s" % (self.DEFAULT_BUDGET, name_of(fn)))
        except (Violation, Inconclusive, ShimGap, KeyboardInterrupt):
            raise
        except exceptions as e:
            if stand_in_gap(e):
                raise ShimGap("%s: %s" % (type(e).__name__, e))
            self.count("oracle_decisions")
            return e
        except BaseException as e:
            if stand_in_gap(e):
                raise ShimGap("%s: %s" % (type(e).__name__, e))
            raise Violation("%s raised %s (%s), expected %s" % (
                name_of(fn), type(e).__name__, str(e)[:200], exceptions))
        raise Violation("%s returned %.200r, expected %s" % (name_of(fn), result, exceptions))

    # ---- the loop ---------------------------------------------------------
    def rng(self, family, i):
        return random.Random("%s|%s|%s|%d|%d" % (self.prop, family, self.seed, self.worker, i))

    def run_case(self, family, fn, i):
        self.current = {"family": family, "case": i, "worker": self.worker, "seed": self.seed,
                        "tier": self.tier, "hashseed": os.environ.get("PYTHONHASHSEED")}
        try:
            fn(self, self.rng(family, i), i)
        except Violation as v:
            self.violations.append(dict(self.current, message=v.message))
        except ShimGap as g:
            self.inconclusive.append(dict(self.current, message="stand-in gap: %s" % g))
        except Inconclusive as g:
            self.inconclusive.append(dict(self.current, message=str(g)))
        except StepBudgetExceeded:
            self.violations.append(dict(self.current, message="step budget exceeded"))
        except Exception as e:
            if stand_in_gap(e) and in_repo(e.__traceback__):
                self.inconclusive.append(dict(self.current, message="stand-in gap: %s" % e))
                return
            text = "".join(traceback.format_exception(type(e), e, e.__traceback__)[-6:])
            if in_repo(e.__traceback__):
                self.violations.append(dict(self.current, message="unexpected exception\n" + text))
            elif stand_in_gap(e):
                self.inconclusive.append(dict(self.current, message="stand-in gap: %s" % e))
            elif not isinstance(e, HARNESS):
                # the monitors examine every result of the documented form without error
                self.violations.append(dict(self.current, message="a result does not have the documented form: examining it failed\n" + text))
            else:
                self.inconclusive.append(dict(self.current, message="harness error\n" + text, error=True))

    def run_families(self, families, only=None):
        t0 = time.time()
        for name, (fn, quick, thorough) in families.items():
            n = thorough if self.tier == "thorough" else quick
            if only is not None:
                if name == only[0]:
                    self.run_case(name, fn, only[1])
                continue
            for i in range(n):
                if time.time() > self.deadline:
                    self.truncated = True
                    break
                self.run_case(name, fn, i)
                self.count("cases_" + name)
                if len(self.violations) >= 3 or sum(1 for x in self.inconclusive if x.get("error")) > 5:
                    break
            if self.violations:
                break
        self.wall = time.time() - t0

    def result(self):
        return {
            "evaluations": self.evaluations,
            "distinct": sorted(self.distinct),
            "samples": self.samples,
            "counters": dict(self.counters, repo_steps=self.steps.total + self.steps.steps),
            "violations": self.violations,
            "inconclusive": self.inconclusive[:20],
            "n_inconclusive": len(self.inconclusive),
            "known": self.known,
            "truncated": self.truncated,
            "wall": self.wall,
        }


def name_of(fn):
    return getattr(fn, "__qualname__", None) or getattr(fn, "__name__", None) or repr(fn)


def close(a, b, rel=1e-9, abs_=0.0):
    a, b = float(a), float(b)
    if a != a or b != b:
        return False
    return a == b or abs(a - b) <= max(abs_, rel * max(abs(a), abs(b)))


def dumps(x):
    return json.dumps(x, default=repr, sort_keys=True)

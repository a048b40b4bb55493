"""Core of the harness: facets, violations, guarded calls into the code under test."""
import hashlib
import json
import signal
import sys
import traceback

import env  # noqa: F401


class Violation(Exception):
    """The code under test broke the property on this case."""


class OutOfSteps(BaseException):
    """The code under test exceeded its step or CPU budget on one case."""


class HarnessError(Exception):
    pass


# ----------------------------------------------------------------------------
# Step budget: counts Python function entries and backward jumps made by the
# code under test (sys.monitoring, deterministic), plus a CPU-time backstop for
# loops inside C code (regular expressions).
# ----------------------------------------------------------------------------
class Budget:
    STEPS = 3_000_000
    CPU = 30.0
    _tool = 4

    def __init__(self):
        self.left = None
        self.used_max = 0
        self.installed = False

    def install(self):
        if self.installed:
            return
        m = sys.monitoring
        m.use_tool_id(self._tool, "verif-budget")
        ev = m.events
        marker = "latex2json"

        def on(code, *a):
            if marker not in code.co_filename:
                return m.DISABLE
            if self.left is not None:
                self.left -= 1
                if self.left <= 0:
                    self.left = None
                    raise OutOfSteps("step budget of %d exceeded in %s" % (self.STEPS, code.co_name))

        m.register_callback(self._tool, ev.PY_START, on)
        m.register_callback(self._tool, ev.JUMP, on)
        m.set_events(self._tool, ev.PY_START | ev.JUMP)

        def alarm(*a):
            raise OutOfSteps("CPU budget of %gs exceeded" % self.CPU)

        signal.signal(signal.SIGVTALRM, alarm)
        self.installed = True

    def __enter__(self):
        self.install()
        self.left = self.STEPS
        signal.setitimer(signal.ITIMER_VIRTUAL, self.CPU)
        return self

    def __exit__(self, *a):
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        if self.left is not None:
            self.used_max = max(self.used_max, self.STEPS - self.left)
        self.left = None
        return False


BUDGET = Budget()


def sut(what, fn, *args, allow=(), **kw):
    """Call into the code under test.  Any exception (other than `allow`) and any
    budget overrun is a violation; the step budget is per call."""
    try:
        with BUDGET:
            return fn(*args, **kw)
    except allow:
        raise
    except OutOfSteps as e:
        raise Violation("%s: did not finish: %s" % (what, e)) from None
    except RecursionError as e:
        raise Violation("%s: RecursionError: %s" % (what, str(e)[:200])) from None
    except (KeyboardInterrupt, SystemExit):
        raise
    except BaseException as e:
        tb = traceback.extract_tb(e.__traceback__)
        where = [f for f in tb if "latex2json" in f.filename]
        loc = ("%s:%d" % (where[-1].filename.split("latex2json/")[-1], where[-1].lineno)) if where else "?"
        raise Violation("%s: %s: %s (at %s)" % (what, type(e).__name__, str(e)[:300], loc)) from None


def require(cond, msg, *data):
    if not cond:
        raise Violation(msg + "".join("\n    %s" % _short(d) for d in data))


def require_eq(got, want, msg, *data):
    if got != want:
        raise Violation(
            msg + "\n    got : %s\n    want: %s" % (_short(got), _short(want))
            + "".join("\n    %s" % _short(d) for d in data)
        )


def _short(d, n=3000):
    s = d if isinstance(d, str) else json.dumps(d, ensure_ascii=False, default=repr)
    return s if len(s) <= n else s[:n] + "...(%d chars)" % len(s)


class Facet:
    """One generated check of a property.

    strategy: hypothesis strategy of JSON-able cases
    run(case) -> iterable of class labels (empty/None: trivial case); raises Violation
    """

    def __init__(self, name, strategy, run, quick=1000, thorough=10000, shards=1, rule="", exhaustive=None):
        self.name, self.strategy, self.run = name, strategy, run
        self.quick, self.thorough, self.shards, self.rule = quick, thorough, shards, rule
        self.exhaustive = exhaustive  # optional callable(tier) -> iterable of cases, run completely


class Property:
    def __init__(self, pid, facets, rule, level="exploration", assumptions=()):
        self.pid, self.facets, self.rule, self.level = pid, facets, rule, level
        self.assumptions = list(assumptions)


def case_key(case):
    return hashlib.sha1(json.dumps(case, sort_keys=True, default=repr).encode("utf-8", "surrogatepass")).hexdigest()

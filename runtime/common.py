"""Run-time contract checks on the real code (replay, cross-check, bounded stand-in).

A module runtime/cXX.py defines `run(c)`, which executes the real functions of /repo on
small-scope exhaustive and seeded random inputs and states the property's clauses as
`c.check(...)`. `with c.case(name, **inputs)` delimits one input: an exception that escapes
from the code under test inside a case is a failure of the clause "no unexpected exception".
"""
import contextlib
import json
import os
import random
import shutil
import signal
import sys
import tempfile
import time
import traceback

_now = time.time

TIERS = {"quick": 1.0, "search": 4.0, "thorough": 10.0}


class StopRun(Exception):
    pass


class CaseTimeout(BaseException):
    pass


class Checker:
    def __init__(self, prop, tier="quick", seed=1, budget=40.0, only=None):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.rng = random.Random(seed * 7919 + 13)
        self.factor = TIERS[tier]
        self.deadline = _now() + budget
        self.failures = []
        self.clauses = {}
        self.cases = 0
        self.skipped = {}
        self.only = only
        self.current = None
        self.section_name = None

    # -- budget
    def more(self):
        return _now() < self.deadline and len(self.failures) < 5

    def n(self, quick):
        return int(quick * self.factor)

    def trials(self, quick):
        """Yield case numbers while time and failure budgets last."""
        for i in range(self.n(quick)):
            if not self.more():
                return
            yield i

    # -- cases
    @contextlib.contextmanager
    def case(self, name, timeout=60, **inputs):
        self.cases += 1
        prev = self.current
        self.current = {"case": name, "inputs": {k: _txt(v) for k, v in inputs.items()}}
        old = None

        def on_alarm(*_):
            raise CaseTimeout()

        try:
            if timeout:
                old = signal.signal(signal.SIGALRM, on_alarm)
                signal.setitimer(signal.ITIMER_REAL, timeout)
            yield
        except StopRun:
            raise
        except Inapplicable as e:
            self.skip(name, str(e))
        except CaseTimeout:
            self._fail("terminates", f"no result within {timeout} s")
        except Exception as e:
            if _private_gone(e):
                self.skip(name, f"{type(e).__name__}: {e}")
            else:
                self._fail("no unexpected exception",
                           "".join(traceback.format_exception_only(type(e), e)).strip()
                           + " @ " + _tb(e))
        finally:
            if timeout:
                signal.setitimer(signal.ITIMER_REAL, 0)
                signal.signal(signal.SIGALRM, old)
            self.current = prev

    def check(self, cond, clause, **detail):
        self.clauses[clause] = self.clauses.get(clause, 0) + 1
        if not cond:
            self._fail(clause, {k: _txt(v) for k, v in detail.items()})
        return bool(cond)

    def _fail(self, clause, detail):
        f = {"clause": clause, "detail": detail, **(self.current or {}), "section": self.section_name}
        # keep at most two examples per clause
        if sum(x["clause"] == clause for x in self.failures) < 2:
            self.failures.append(f)

    def raises(self, exc, fn, clause, **detail):
        try:
            r = fn()
        except exc:
            return self.check(True, clause)
        return self.check(False, clause, returned=r, **detail)

    def skip(self, name, why):
        self.skipped[name] = why

    def section(self, name, fn, *a):
        """Run one part of a harness; a missing private name makes it inapplicable."""
        if self.only and name not in self.only:
            return
        self.section_name = name
        try:
            fn(self, *a)
        except StopRun:
            raise
        except Inapplicable as e:
            self.skip(name, str(e))
        except Exception as e:
            # a fault outside any case: the harness does not fit this tree
            self.skip(name, f"{type(e).__name__}: {e} @ {_tb(e)}")
        finally:
            self.section_name = None

    @contextlib.contextmanager
    def scratch(self):
        d = tempfile.mkdtemp(prefix="vp_rt_")
        cwd = os.getcwd()
        os.chdir(d)
        try:
            yield d
        finally:
            os.chdir(cwd)
            shutil.rmtree(d, ignore_errors=True)

    def seed_all(self, i):
        import numpy as np

        s = (self.seed * 1000003 + i * 97) % (2**31)
        random.seed(s)
        np.random.seed(s % (2**31))
        return s


class Inapplicable(Exception):
    pass


def need(module, *names):
    """Import names from the code under test; a missing one is not a violation."""
    import importlib

    try:
        m = importlib.import_module(module)
        out = [getattr(m, n) for n in names]
    except (ImportError, AttributeError) as e:
        raise Inapplicable(f"{module}: {e}")
    return out[0] if len(out) == 1 else out


def _private_gone(e):
    """The harness itself (not the code under test) looked for a private name that is not there."""
    if not isinstance(e, AttributeError) or not (getattr(e, "name", None) or "").startswith("_") or (e.name or "").startswith("__"):
        return False
    tb = traceback.extract_tb(e.__traceback__)
    here = os.path.dirname(os.path.abspath(__file__))
    o = getattr(e, "obj", None)
    m = getattr(type(o), "__module__", "") or ""
    return bool(tb) and os.path.dirname(os.path.abspath(tb[-1].filename)) == here and (m.startswith("gama") or m in ("module", "builtins"))


def _txt(v):
    try:
        s = v if isinstance(v, str) else repr(v)
    except Exception:
        s = f"<{type(v).__name__}>"
    return s[:1500]


def _tb(e):
    frames = traceback.extract_tb(e.__traceback__)[-4:]
    return " <- ".join(f"{os.path.basename(f.filename)}:{f.lineno}:{f.name}" for f in reversed(frames))

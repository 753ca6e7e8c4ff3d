"""A simulated parallel evaluator: any completion order among the running jobs, any failure pattern."""
import contextlib
import copy
from common import need


class Done:
    def __init__(self, result=None, exception=None):
        self.result, self.exception, self.traceback = result, exception, None


class Stop(Exception):
    """Raised by the harness to end a search from outside."""


class Sim:
    def __init__(self, rng, n_workers=1, on_wait=None, stop_after=None, stop_exc=None, deliver=None):
        self.rng, self.n_workers = rng, n_workers
        self.jobs, self.submitted, self.delivered = [], [], []
        self.on_wait, self.stop_after, self.stop_exc = on_wait, stop_after, stop_exc
        self.entered = self.exited = 0
        self.deliver = deliver

    def __enter__(self):
        self.entered += 1
        return self

    def __exit__(self, *a):
        self.exited += 1
        return False

    @property
    def job_queue_size(self):
        return len(self.jobs) - self.n_workers

    @property
    def futures(self):
        return {i: j for i, j in enumerate(self.jobs)}

    def submit(self, fn, *a, **k):
        self.jobs.append((fn, a, k))
        self.submitted.append((fn, a, k))
        return None

    def wait_next(self, *a, **k):
        if self.on_wait:
            self.on_wait(self)
        if not self.jobs:
            raise RuntimeError("No Futures queued, must call `submit` first.")
        if self.stop_after is not None and len(self.delivered) >= self.stop_after:
            raise self.stop_exc
        i = self.rng.randrange(min(len(self.jobs), self.n_workers))
        fn, a, k = self.jobs.pop(i)
        try:
            d = Done(result=fn(*copy.deepcopy(a), **copy.deepcopy(k)))
        except Boom as e:
            d = Done(exception=e)
        self.delivered.append((a, k, d))
        return d


class Boom(Exception):
    pass


@contextlib.contextmanager
def patched(module, sim):
    import importlib
    from unittest import mock
    m = importlib.import_module(module)
    if not hasattr(m, "AsyncEvaluator"):
        from common import Inapplicable
        raise Inapplicable(f"{module} has no AsyncEvaluator")
    with mock.patch.object(m, "AsyncEvaluator", lambda *a, **k: sim):
        yield


def evaluator(rng, p_error=0.0, p_raise=0.0, levels=5):
    """evaluate(individual): an Evaluation with random scores, errors or exceptions."""
    Ev = need("gama.utilities.evaluation_library", "Evaluation")
    Fit = need("gama.genetic_programming.components.fitness", "Fitness")
    from datetime import datetime

    class Evaluate:
        def __deepcopy__(self, memo):
            return self

        def __call__(self, individual, *a, **k):
            r = rng.random()
            if r < p_raise:
                raise Boom("evaluation raised")
            err = "failed" if r < p_raise + p_error else None
            score = (float("-inf") if err else rng.randint(0, levels) / levels, -rng.randint(1, 3))
            individual.fitness = Fit(score, datetime.now(), 1.0, 1.0)
            return Ev(individual, None, score, None, None, 0.0, err)
    return Evaluate()

"""C13 run-time contracts: parallel evaluator."""
import collections
import multiprocessing
import os
import pickle
import time
from types import SimpleNamespace
import numpy as np
from common import need

AE = "gama.utilities.generic.async_evaluator"
CALLS = None


class Res:
    def __init__(self, v, error=None):
        self.v, self.error = v, error

    def __eq__(self, o):
        return isinstance(o, Res) and self.v == o.v


class NoBool(Res):
    def __bool__(self):
        raise ValueError("truth value is ambiguous")


class Falsy(Res):
    def __bool__(self):
        return False

    def __len__(self):
        return 0


class Own(Exception):
    pass


def value(kind, i):
    return {
        "int": lambda: i, "zero": lambda: 0, "none": lambda: None, "text": lambda: "t%d" % i, "empty": lambda: "", "tuple0": lambda: (), "tuple1": lambda: (i,), "tuple1_mem": lambda: (Res(i, MemoryError()),),
        "tuple": lambda: (i, "a"), "tuple_none": lambda: (None, i), "array": lambda: np.arange(i + 2), "array0": lambda: np.array([]),
        "list": lambda: [i, [i]], "dict": lambda: {"i": i}, "res": lambda: Res(i), "res_err": lambda: Res(i, "error text"),
        "res_mem": lambda: Res(i, MemoryError()), "tuple_res": lambda: (Res(i), i), "tuple_mem": lambda: (Res(i, MemoryError()), i),
        "nobool": lambda: NoBool(i), "falsy": lambda: Falsy(i), "true": lambda: True, "exception": lambda: ValueError("returned %d" % i), "tuple_array": lambda: (np.arange(4), i),
    }[kind]()


KINDS = ["int", "zero", "none", "text", "empty", "tuple0", "tuple1", "tuple1_mem", "tuple", "tuple_none", "array", "array0", "list", "dict", "res", "res_err", "res_mem",
         "tuple_res", "tuple_mem", "nobool", "falsy", "true", "exception", "tuple_array"]
RAISE = [ValueError, KeyError, MemoryError, RuntimeError, Own, StopIteration, AssertionError, OSError, ZeroDivisionError, AttributeError]


def job(i, kind, delay=0.0, extra=None, shared=None):
    if delay:
        time.sleep(delay)
    if kind.startswith("raise"):
        raise RAISE[int(kind[5:])]("job %d" % i)
    return value(kind, i)


def echo(*args, **kwargs):
    return [list(args), sorted(kwargs.items())]


def eq(a, b):
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        return isinstance(a, np.ndarray) and isinstance(b, np.ndarray) and a.shape == b.shape and (a == b).all()
    if isinstance(a, tuple) and isinstance(b, tuple):
        return len(a) == len(b) and all(eq(x, y) for x, y in zip(a, b))
    if isinstance(a, BaseException):
        return type(a) is type(b) and a.args == b.args
    return type(a) is type(b) and a == b


def run(c):
    c.section("future", future)
    c.section("daemon", daemon)
    c.section("none", none_outstanding)
    c.section("jobs", jobs)
    c.section("closing", closing)


def future(c):
    Fut = need(AE, "AsyncFuture")
    for t in c.trials(200):
        kind = c.rng.choice(KINDS + ["raise%d" % k for k in range(len(RAISE))])
        with c.case("execute", kind=kind):
            f = Fut(job, t, kind, extra=5)
            ids = f.id
            f.execute({"shared": 3})
            outcome(c, f, t, kind)
            c.check(f.id == ids and f.kwargs == {"extra": 5} and f.args == (t, kind), "a job keeps its identity and arguments", kwargs=f.kwargs)
    with c.case("arguments"):
        f = Fut(echo, 1, "b", k=2)
        f.execute({"shared": 3})
        c.check(f.result == [[1, "b"], [("k", 2), ("shared", 3)]], "called with its own and the shared arguments", got=f.result)
    with c.case("identity"):
        c.check(len({Fut(echo).id for _ in range(200)}) == 200, "every job has its own identity")


def outcome(c, f, i, kind):
    if kind.startswith("raise"):
        e = RAISE[int(kind[5:])]
        ok = f.exception is not None and (isinstance(f.exception, e) and f.exception.args == ("job %d" % i,))
        c.check(ok, "the exception of that very job is delivered", kind=kind, job=i, exception=repr(f.exception), result=f.result)
        c.check(f.result is None, "a raising job has no result", result=f.result)
    else:
        c.check(f.exception is None, "a returning job has no exception", kind=kind, exception=repr(f.exception))
        c.check(eq(f.result, value(kind, i)), "the result of that very job is delivered", kind=kind, job=i, got=f.result)


class Q:
    """In-process queue with the interface used by the daemon; items are copied by pickling."""

    def __init__(self, items=()):
        import queue
        self.items, self.Empty = collections.deque(items), queue.Empty

    def get(self, block=True, timeout=None):
        if not self.items:
            raise self.Empty()
        return pickle.loads(pickle.dumps(self.items.popleft()))

    def put(self, x, block=True, timeout=None):
        self.items.append(x)

    def empty(self):
        return not self.items

    def full(self):
        return False

    def qsize(self):
        return len(self.items)

    def get_nowait(self):
        return self.get(False)

    def put_nowait(self, x):
        self.put(x, False)

    def close(self):
        pass

    join_thread = cancel_join_thread = close


class Full(Q):
    """Output queue to which the results of some jobs can not be transferred."""

    def __init__(self, big, error):
        super().__init__()
        self.big, self.error, self.seen = big, error, set()

    def put(self, x, block=True, timeout=None):
        if x.args[0] in self.big and x.args[0] not in self.seen:
            self.seen.add(x.args[0])
            raise self.error("too large")
        super().put(x)


class Commands(Q):
    """A stop command that arrives after n polls."""

    def __init__(self, n):
        super().__init__()
        self.n = n

    def get(self, block=True, timeout=None):
        self.n -= 1
        if self.n < 0:
            return "stop"
        raise self.Empty()

    def empty(self):
        self.n -= 1
        return self.n >= 0

    def qsize(self):
        return int(not self.empty())


def daemon(c):
    d, Fut = need(AE, "evaluator_daemon", "AsyncFuture")
    for t in c.trials(150):
        n = c.rng.randint(0, 8)
        kinds = [c.rng.choice(KINDS + ["raise%d" % k for k in range(len(RAISE))]) for _ in range(n)]
        polls = c.rng.choice([0, 1, n, n + 3, max(0, n - 2), 3 * n + 8])
        futs = [Fut(job, i, k) for i, k in enumerate(kinds)]
        with c.case("worker loop", kinds=kinds, stop_after=polls):
            i, o, cmd = Q(futs), Q(), Commands(polls)
            d(i, o, cmd, {"shared": 1} if c.rng.random() < .5 else {})
            done = n - len(i.items)
            c.check(len(o.items) == done, "one outcome per job taken, none for others", got=len(o.items), expected=done)
            c.check([f.id for f in i.items] == [f.id for f in futs[done:]], "jobs not taken stay in the queue")
            c.check(polls <= 3 * n or done == n, "jobs are taken until the worker is told to stop", taken=done, jobs=n)
            for k, f in enumerate(list(o.items)):
                c.check(f.id == futs[k].id, "outcomes carry the identity of their job")
                outcome(c, f, k, kinds[k])
    import struct
    for error in (MemoryError, struct.error):
        with c.case("results too large to transfer", error=error.__name__):
            futs = [Fut(job, i, "int") for i in range(4)]
            o = Full({1, 3}, error)
            d(Q(futs), o, Commands(20), {})
            c.check([f.id for f in o.items] == [f.id for f in futs], "one outcome per job taken, also if the result is too large to transfer", got=len(o.items))
            for f in o.items:
                if f.args[0] in (1, 3):
                    c.check(f.result is None and f.exception is not None, "a result too large to transfer is delivered as a failure", result=f.result)
                else:
                    outcome(c, f, f.args[0], "int")


def none_outstanding(c):
    A = need(AE, "AsyncEvaluator")
    with c.case("waiting without jobs", timeout=30):
        with A(n_workers=1) as a:
            c.raises(RuntimeError, lambda: a.wait_next(), "waiting for a result when nothing is outstanding is an error")
            a.submit(job, 1, "int")
            f = a.wait_next()
            c.check(f.result == 1, "the result of that very job is delivered", got=f.result)
            c.raises(RuntimeError, lambda: a.wait_next(), "waiting for a result when nothing is outstanding is an error")
        c.raises(RuntimeError, lambda: a.__enter__(), "an evaluator can not be opened twice")


def jobs(c):
    A = need(AE, "AsyncEvaluator")
    old = dict(A.defaults)
    try:
        for t in c.trials(5):
            workers = c.rng.choice([1, 2, 4])
            n = c.rng.randint(1, 30)
            shared = c.rng.choice([None, {"shared": 7}])
            A.defaults = shared or {}
            kinds = [c.rng.choice(KINDS + ["raise%d" % k for k in range(len(RAISE))]) for _ in range(n)]
            if t == 0:
                kinds = list(KINDS) + ["raise%d" % k for k in range(len(RAISE))]
                n = len(kinds)
            delays = [c.rng.choice([0, 0, 0.01, 0.05]) for _ in range(n)]
            with c.case("jobs", workers=workers, kinds=kinds, delays=delays, timeout=45):
                with A(n_workers=workers) as a:
                    sub, got = {}, []
                    i = 0
                    while len(got) < n:
                        # interleave submissions and results
                        while i < n and (not sub or len(sub) == len(got) or c.rng.random() < .7):
                            f = a.submit(job, i, kinds[i], delay=delays[i])
                            sub[f.id] = (f, i)
                            i += 1
                        c.check(a.job_queue_size == len(sub) - len(got) - workers, "the number of waiting jobs is known", got=a.job_queue_size)
                        f = a.wait_next()
                        got.append(f)
                    c.check(len({id(f) for f in got}) == n, "each job is delivered once")
                    for f in got:
                        if not c.check(f.id in sub and sub[f.id][0] is f, "what is delivered is a submitted job"):
                            continue
                        outcome(c, f, sub[f.id][1], kinds[sub[f.id][1]])
                    c.raises(RuntimeError, lambda: a.wait_next(), "waiting for a result when nothing is outstanding is an error")
                nobody(c, a)
        A.defaults = {"shared": 1}
        with c.case("arguments", timeout=30):
            with A(n_workers=2) as a:
                fs = {a.submit(echo, k, own=k).id: k for k in range(6)}
                for _ in range(6):
                    f = a.wait_next()
                    k = fs[f.id]
                    c.check(f.result == [[k], [("own", k), ("shared", 1)]], "called with its own and the shared arguments", got=f.result, job=k)
    finally:
        A.defaults = old


def children():
    """Processes started by this one which still exist (multiprocessing's own list keeps
    processes that were waited for by others)."""
    import psutil
    r = []
    for p in psutil.Process().children(recursive=True):
        try:
            if "resource_tracker" not in " ".join(p.cmdline()):
                r.append(p.pid)
        except psutil.Error:
            pass
    return r


def nobody(c, a):
    alive = children()
    t = time.time() + 5
    while alive and time.time() < t:
        time.sleep(0.05)
        alive = children()
    c.check(not alive, "no worker processes are left after closing", alive=alive)


def closing(c):
    A = need(AE, "AsyncEvaluator")
    with c.case("closing while jobs run", timeout=60):
        with A(n_workers=3, wait_time_before_forced_shutdown=1) as a:
            for i in range(8):
                a.submit(job, i, "int", delay=0 if i == 0 else 30)
            a.wait_next()
        nobody(c, a)
    with c.case("closing when a worker has ended already", timeout=60):
        with A(n_workers=1, wait_time_before_forced_shutdown=1) as a:
            a.submit(job, 1, "int")
            a.wait_next()
            if hasattr(a, "_command"):      # the worker ends by itself, and is waited for
                a._command.put("stop")
                t = time.time() + 10
                while children() and time.time() < t:
                    time.sleep(0.05)
                    multiprocessing.active_children()
        nobody(c, a)
    with c.case("closing after an error in the block", timeout=60):
        try:
            with A(n_workers=2, wait_time_before_forced_shutdown=1) as a:
                a.submit(job, 1, "int", delay=30)
                raise Own("block")
        except Own:
            c.check(True, "an error of the block is passed on")
        else:
            c.check(False, "an error of the block is passed on")
        nobody(c, a)

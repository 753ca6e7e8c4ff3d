"""C21 run-time contracts: a failing callback never stops the search or other callbacks."""
import gamahelp as g
g.install_clock()
import os
import stopit
from common import need
import simev

STOPS = [stopit.TimeoutException, KeyboardInterrupt, SystemExit, GeneratorExit]
OWN = [ValueError, KeyError, StopIteration, RuntimeError, AssertionError, ZeroDivisionError, RecursionError, MemoryError]


class Odd(Exception):
    def __str__(self):
        raise ValueError("no text")


def run(c):
    with c.scratch():
        c.section("dispatch", dispatch)
        c.section("search", search)


def make_callbacks(c, n, log):
    plan = []
    for i in range(n):
        r = c.rng.random()
        plan.append(None if r < 0.5 else c.rng.choice(OWN + [Odd]) if r < 0.9 else c.rng.choice(STOPS))

    def make(i):
        def f(e):
            log.append((i, e))
            if plan[i]:
                raise plan[i]("callback %d" % i)
        return f
    return plan, [make(i) for i in range(n)]


def dispatch(c):
    Evaluation = need("gama.utilities.evaluation_library", "Evaluation")
    for t in c.trials(60):
        n = c.rng.randint(0, 5)
        log = []
        plan, fs = make_callbacks(c, n, log)
        over = c.rng.choice([None, None, -5.0, 1.0, 3.5, 100.0])
        with c.case("dispatch", callbacks=plan, over_limit=over):
            gm = g.make("regression")
            for f in fs:
                gm.evaluation_completed(f)
            ind = gm._operator_set.individual()
            e = Evaluation(ind, score=(1.0,), error=None, start_time=0, duration=1, pid=1)
            cb = gm._operator_set._evaluate_callback
            first_stop = next((i for i, p in enumerate(plan) if p in STOPS), None)
            raised = None
            try:
                if over is None:
                    cb(e)
                else:
                    with gm._time_manager.start_activity("search", time_limit=10):
                        g.advance(10 + over)
                        cb(e)
            except BaseException as x:
                raised = x
            want = n if first_stop is None else first_stop + 1
            if over is not None and over > 3:
                c.check(isinstance(raised, tuple(STOPS)), "when the time of the search is over it is stopped", raised=repr(raised))
                c.check(all(x == (i, e) for i, x in enumerate(log)), "in order, with the evaluation", got=[i for i, _ in log])
                continue
            c.check([i for i, _ in log] == list(range(want)), "every callback is called once, in order", got=[i for i, _ in log], expected=list(range(want)))
            c.check(all(x is e for _, x in log), "with the evaluation")
            if first_stop is not None:
                c.check(type(raised) is plan[first_stop], "exceptions that stop the search are passed on", raised=repr(raised))
            elif over is None or over < 0:
                c.check(raised is None, "exceptions of callbacks are contained", raised=repr(raised))
            else:
                c.check(raised is None or isinstance(raised, stopit.TimeoutException), "exceptions of callbacks are contained", raised=repr(raised))
            c.check(e.individual._id in [x.individual._id for x in gm._evaluation_library.evaluations] or e in list(gm._evaluation_library.lookup.values()), "the evaluation library is told of the evaluation")


def search(c):
    """Whole searches with callbacks that fail."""
    need("gama.search_methods.async_ea", "async_ea")
    need("gama.search_methods.random_search", "random_search")
    import gama.search_methods.async_ea as ea
    import gama.search_methods.random_search as rs
    import gama.search_methods.asha as ah
    Evaluation = need("gama.utilities.evaluation_library", "Evaluation")
    Fitness = need("gama.genetic_programming.components", "Fitness")
    for t in c.trials(24):
        mod = (ea, rs, ah)[t % 3]
        limit = c.rng.randint(1, 25)
        n = c.rng.randint(1, 3)
        log = []
        plan = [c.rng.choice([None] + OWN + [Odd]) for _ in range(n)]

        def make(i):
            def f(e):
                log.append((i, id(e), e))
                if plan[i] and c.rng.random() < 0.7:
                    raise plan[i]("x")
            return f
        with c.case("search", method=mod.__name__, callbacks=plan, results=limit):
            sim = simev.Sim(c.rng, n_workers=c.rng.randint(1, 3), stop_after=limit, stop_exc=simev.Stop())
            old = mod.AsyncEvaluator
            mod.AsyncEvaluator = lambda *a, **k: sim
            try:
                gm = g.make("regression", store="nothing")
                for i in range(n):
                    gm.evaluation_completed(make(i))
                ops = gm._operator_set

                def evaluate(ind, *a, **k):
                    if c.rng.random() < 0.2:
                        raise simev.Boom("worker failed")
                    ind.fitness = Fitness((c.rng.random(), -1.0), 0, 0, 0)
                    return Evaluation(ind, score=ind.fitness.values, start_time=0, duration=1, pid=1, error=None)
                ops.evaluate = evaluate
                start = [ops.individual() for _ in range(3)]
                try:
                    if mod is ah:
                        ah.asha(ops, start)
                    elif mod is ea:
                        ea.async_ea(ops, [], start)
                    else:
                        rs.random_search(ops, [], start)
                except simev.Stop:
                    pass
                done = [d.result for _, _, d in sim.delivered if d.result is not None]
                c.check([(i, k) for i, k, _ in log] == [(i, id(e)) for e in done for i in range(n)], "every callback is called once per completed evaluation, in order of registration",
                        calls=[i for i, _, _ in log], evaluations=len(done))
                c.check(len(sim.delivered) == limit, "the search goes on after failing callbacks", results=len(sim.delivered), expected=limit)
            finally:
                mod.AsyncEvaluator = old
                gm.cleanup("all")

"""C15 run-time contracts: the time budget is accounted for and divided correctly."""
import gamahelp as g
g.install_clock()
import logging
import math
import os
from common import need

TOL = 1e-6


class Own(Exception):
    pass


def run(c):
    c.section("stopwatch", stopwatch)
    c.section("timekeeper", timekeeper)
    c.section("division", division)
    c.section("settings", settings)


def near(a, b, tol=TOL):
    return abs(a - b) <= tol


def stopwatch(c):
    S = need("gama.utilities.generic.stopwatch", "Stopwatch")
    for t in c.trials(150):
        clock = [100.0]
        with c.case("stopwatch", trial=t):
            sw = S(lambda: clock[0])
            c.check(sw.elapsed_time == 0, "nothing measured before the start", got=sw.elapsed_time)
            total = None
            for _ in range(c.rng.randint(1, 3)):
                clock[0] += c.rng.choice([0, 5, 7.5])
                exc = c.rng.choice([None, Own, KeyboardInterrupt, GeneratorExit])
                start = clock[0]
                try:
                    with sw as s:
                        c.check(s is sw, "the block gets the stopwatch")
                        for _ in range(c.rng.randint(0, 3)):
                            clock[0] += c.rng.choice([0, 1, 2.5])
                            c.check(sw.elapsed_time == clock[0] - start, "while running: time since the start", got=sw.elapsed_time, expected=clock[0] - start)
                        end = clock[0]
                        if exc:
                            raise exc()
                except BaseException as e:
                    c.check(exc is not None and isinstance(e, exc), "exceptions of the block are passed on", exc=repr(e))
                else:
                    c.check(exc is None, "exceptions of the block are passed on", exc=exc)
                clock[0] += c.rng.choice([0, 50])
                c.check(sw.elapsed_time == end - start, "afterwards: duration of the block", got=sw.elapsed_time, expected=end - start)


def timekeeper(c):
    T = need("gama.utilities.generic.timekeeper", "TimeKeeper")
    for t in c.trials(150):
        total = c.rng.choice([1, 10, 100, 3600, 0, 0.5])
        with c.case("activities", total=total, trial=t):
            k = T(total)
            spent, before = 0.0, []
            c.check(near(k.total_time_remaining, total), "at the start the whole budget is left", got=k.total_time_remaining)
            for i in range(c.rng.randint(1, 5)):
                lim = c.rng.choice([None, 0, 5, 20, 0.5])
                exc = c.rng.choice([None, None, Own, KeyboardInterrupt, SystemExit])
                name = "a%d" % (i if c.rng.random() < 0.6 else 0)
                c.raises(RuntimeError, lambda: k.current_activity_time_elapsed, "no activity: no time elapsed of it")
                here = 0.0
                try:
                    with k.start_activity(name, time_limit=lim, activity_meta=c.rng.choice([None, [1, "x"]])) as sw:
                        for _ in range(c.rng.randint(0, 3)):
                            d = c.rng.choice([0, 1, 3, 8])
                            g.advance(d)
                            here += d
                            c.check(k.current_activity is not None and k.current_activity.name == name, "the activity is the current one")
                            c.check(near(k.current_activity_time_elapsed, here), "time spent on the current activity", got=k.current_activity_time_elapsed, expected=here)
                            c.check(near(k.total_time_remaining, total - spent - here), "time left = budget - time of all activities", got=k.total_time_remaining, expected=total - spent - here)
                            if lim is None:
                                c.raises(RuntimeError, lambda: k.current_activity_time_left, "without a limit there is no time left of it")
                                c.check(not k.current_activity.exceeded_limit(), "without a limit none is exceeded")
                            else:
                                c.check(near(k.current_activity_time_left, lim - here), "time left of the activity = limit - time spent", got=k.current_activity_time_left)
                                c.check(near(k.current_activity.time_left, lim - here), "time left of the activity = limit - time spent")
                                for margin in (0.0, 3.0):
                                    if abs(here - lim - margin) > TOL:
                                        c.check(bool(k.current_activity.exceeded_limit(margin)) == (here > lim + margin), "limit exceeded by the margin", spent=here, limit=lim, margin=margin)
                        if exc:
                            raise exc()
                except BaseException as e:
                    c.check(exc is not None and isinstance(e, exc), "exceptions in an activity are passed on", exc=repr(e))
                else:
                    c.check(exc is None, "exceptions in an activity are passed on")
                spent += here
                before.append((name, here, lim))
                c.check(k.current_activity is None, "an activity ends with its block, however it ends", exc=exc)
                g.advance(c.rng.choice([0, 0, 50]))
                c.check(near(k.total_time_remaining, total - spent), "time left = budget - time of all activities", got=k.total_time_remaining, expected=total - spent)
            c.check([(a.name, a.time_limit) for a in k.activities] == [(n, l) for n, _, l in before] and all(near(a.stopwatch.elapsed_time, h) for a, (_, h, _) in zip(k.activities, before)),
                    "all activities are recorded in order with their durations")
    with c.case("no budget"):
        k = T()
        c.raises(RuntimeError, lambda: k.total_time_remaining, "without a budget no time left is known")


def probe(ops, ind, seen):
    """Notes the limits with which the search evaluates (nothing if they cannot be seen)."""
    seen.append((PROBE["timeout"], PROBE["deadline"], g.now())) if capture(ops, ind) else None


PROBE = {}


def capture(ops, ind):
    PROBE.clear()
    try:
        ops.evaluate(ind)
    except Exception:
        pass
    return bool(PROBE)


def division(c):
    need("gama.genetic_programming.compilers.scikitlearn", "evaluate_individual")
    import gama.genetic_programming.compilers.scikitlearn as sk
    real = sk.evaluate_individual

    def stand_in(individual, evaluate_pipeline=None, timeout=1e6, deadline=None, add_length_to_score=True, **kw):
        PROBE.update(timeout=timeout, deadline=deadline)
    sk.evaluate_individual = stand_in
    need("gama.gama", "basic_encoding")
    import gama.gama as mod
    old = mod.basic_encoding

    def encode(*a, **k):
        g.advance(PRE[0])
        return old(*a, **k)
    mod.basic_encoding = encode
    import stopit
    real_limit = stopit.ThreadingTimeout
    stopit.ThreadingTimeout = Limit
    try:
        _division(c)
    finally:
        sk.evaluate_individual = real
        mod.basic_encoding = old
        stopit.ThreadingTimeout = real_limit


PRE = [0]


class Limit:
    """Stand-in for stopit.ThreadingTimeout on the clock that is moved by hand: never fires."""
    active = []

    def __init__(self, seconds, *a, **k):
        self.seconds = seconds

    def __enter__(self):
        Limit.active.append(self.seconds)
        return self

    def __exit__(self, et, *a):
        Limit.active.pop()
        import stopit
        return et is not None and issubclass(et, stopit.TimeoutException)


def _division(c):
    Search, Post = g.stand_ins()
    for t in c.trials(30):
        total = c.rng.choice([10, 61, 200, 7, 3600])
        frac = c.rng.choice([0.1, 0.3, 0.0, 0.5, 0.9])
        use_s, use_p = c.rng.choice([0, 1, 4, 30]), c.rng.choice([0, 2])
        kind = c.rng.choice(["classification", "regression"])
        rounds = c.rng.choice([1, 2])
        pre = PRE[0] = c.rng.choice([0, 1.5, 6])
        with c.case("division of the budget", total=total, preprocessing_takes=pre, fraction=frac, search_takes=use_s, rounds=rounds):
            ind, seen = [], []

            def hook(ops, start):
                probe(ops, start[0], seen)
                if Limit.active:
                    c.check(Limit.active == [s.time_limit], "the search is stopped after its time", got=Limit.active)
                g.advance(use_s)
                ind[:] = start[:2]
                for k, i in enumerate(ind):
                    i.fitness = Fit((float(k), -1), 0, 0, 0)
                c.check(gm._time_manager.current_activity is not None and gm._time_manager.current_activity.name == "search", "searching is the current activity")
                return list(ind)
            Fit = need("gama.genetic_programming.components", "Fitness")

            def phook(x, y, timeout, sel):
                left = gm._time_manager.total_time_remaining
                g.advance(use_p)
                return left
            s, p = Search(hook), Post(frac, phook)
            gm = g.make(kind, search=s, post=p, max_total_time=total)
            for r in range(rounds):
                x, y = g.data(c.rng, kind=kind)
                gm.fit(x, y)
                c.check(abs(s.time_limit - (1 - frac) * (total - pre)) < 1 + TOL and s.time_limit <= (1 - frac) * (total - pre) + 1e-6, "the search receives the remaining budget minus the reserved share", got=s.time_limit, expected=(1 - frac) * (total - pre))
                c.check(abs(p.timeout - (total - pre - use_s)) <= TOL, "post-processing receives what is left of the budget", got=p.timeout, expected=total - pre - use_s)
                names = [a.name for a in gm._time_manager.activities]
                c.check(names == ["preprocessing", "search", "postprocess"], "the budget is counted anew for each fit", got=names)
                c.check(near(gm._time_manager.total_time_remaining, total - pre - use_s - use_p), "time left = budget - time of all activities")
                c.check(gm._time_manager.current_activity is None, "an activity ends with its block")
                lim = [a.time_limit for a in gm._time_manager.activities]
                c.check(lim[1] == s.time_limit, "the search is limited to its share", got=lim)
                if seen:  # the limits of the evaluations: own limit and the end of the search
                    lim, dl, began = seen[-1]
                    c.check(lim == gm._max_eval_time and abs(dl - began - s.time_limit) < TOL, "evaluations end by the end of the search", got=(lim, dl))
    for t in c.trials(2):
        with c.case("an error in the search ends its activity"):
            def bad(ops, start):
                raise Own("search")
            gm = g.make(search=Search(bad))
            x, y = g.data(c.rng)
            c.raises(Own, lambda: gm.fit(x, y), "errors of the search are passed on")
            c.check(gm._time_manager.current_activity is None, "an activity ends with its block, however it ends")
    PRE[0] = 100
    with c.case("no time left"):
        s = Search()
        gm = g.make(search=s, max_total_time=50)
        x, y = g.data(c.rng)
        c.raises(RuntimeError, lambda: gm.fit(x, y), "no search is started when no time is left")
        c.check(s.calls == 0, "no search is started when no time is left")


def settings(c):
    import multiprocessing
    A = need("gama.utilities.generic.async_evaluator", "AsyncEvaluator")
    real_count = multiprocessing.cpu_count
    orig = A.__init__
    try:
        for t in c.trials(40):
            total = c.rng.choice([1, 3, 5, 10, 100, 3600, 0.5, 14])
            ev = c.rng.choice([None, None, 1, 5, 1000, 0.25])
            jobs = c.rng.choice([None, 1, -1, 3])
            A.__init__ = orig
            cpu = c.rng.choice([1, 2, 3, 8])
            multiprocessing.cpu_count = lambda: cpu
            with c.case("settings", cores=cpu, total=total, max_eval_time=ev, n_jobs=jobs, timeout=60):
                gm = g.make(max_total_time=total, max_eval_time=ev, n_jobs=jobs)
                want = min(ev if ev is not None else max(1, round(0.1 * total)), total)
                c.check(gm._max_eval_time == want, "limit per evaluation: given, else a tenth of the budget, never more than the budget", got=gm._max_eval_time, expected=want)
                c.check(gm._max_eval_time > 0, "the limit per evaluation is positive")
                c.check(gm._time_manager.total_time == total, "the budget is as configured")
                n = A()._n_jobs
                c.check(n == (max(1, cpu // 2) if jobs is None else cpu if jobs == -1 else jobs), "number of workers: given, -1 for all cores, else half of them", got=n)
                c.check(n > 0, "the number of workers is positive")
        for bad in (dict(max_total_time=0), dict(max_total_time=-3), dict(max_total_time=None), dict(max_eval_time=0), dict(max_eval_time=-1), dict(n_jobs=0), dict(n_jobs=-2)):
            A.__init__ = orig
            with c.case("refused settings", **{k: repr(v) for k, v in bad.items()}):
                d = os.path.join(os.getcwd(), "refused")
                c.raises(ValueError, lambda: g.make(output_directory=d, **bad), "settings that are not positive are refused")
                c.check(not os.path.exists(d), "nothing is left behind by a refused configuration")
    finally:
        A.__init__ = orig
        multiprocessing.cpu_count = real_count

"""C11 run-time contracts: truthful scores, or failure without scores."""
import math
import random
import time
import numpy as np
from common import need
import skhelp
from skhelp import data, pipe, reset, FAULT

SK = "gama.genetic_programming.compilers.scikitlearn"
CM = ["accuracy", "neg_log_loss", "f1_macro", "precision_weighted", "recall_micro"]
RM = ["r2", "neg_mean_squared_error", "neg_mean_absolute_error", "explained_variance", "neg_median_absolute_error"]


def run(c):
    c.section("metrics", metrics)
    c.section("score", score)
    c.section("faults", faults)
    c.section("individual", individual)
    c.section("timeouts", timeouts)
    with c.scratch():
        c.section("classes", classes)


def expected(x, y, kind, cv, names):
    """Mean of each scorer over the folds, computed apart from the code under test."""
    from sklearn.model_selection import check_cv
    from sklearn.metrics import get_scorer
    out = {m: [] for m in names}
    reset()
    for tr, te in check_cv(cv, y, classifier=bool(kind)).split(x, y):
        p = pipe(kind)
        p.fit(x.iloc[tr], y.iloc[tr])
        for m in names:
            out[m].append(get_scorer(m)(p, x.iloc[te], y.iloc[te]))
    reset()
    return [float(np.mean(out[m])) for m in names]


def score(c):
    ev, Metric = need(SK, "evaluate_pipeline"), need("gama.utilities.metrics", "Metric")
    for t in c.trials(40):
        rng = c.rng
        kind = rng.choice([0, 2, 3])
        n = rng.randint(20, 60)
        cv = rng.choice([2, 3, 5])
        names = rng.sample(CM if kind else RM, rng.randint(1, 3))
        x, y = data(rng, n, kind)
        with c.case("scores of a working pipeline", n=n, cv=cv, metrics=names, classes=kind, y=list(y)):
            want = expected(x, y, kind, cv, names)
            reset()
            kw = {} if cv == 5 and rng.random() < .5 else {"cv": cv}
            r = ev(pipe(kind), x, y, 60, tuple(Metric(m) for m in names), **kw)
            pred, sc, est, err = r
            c.check(err is None, "a working pipeline gives no error", error=err)
            c.check(isinstance(sc, tuple) and len(sc) == len(names), "one score per metric", scores=sc)
            c.check(len(sc) == len(want) and all(math.isclose(a, b, rel_tol=1e-9, abs_tol=1e-9) for a, b in zip(sc, want)),
                    "each score is the mean over the folds, higher is better, in the order of the metrics", scores=sc, expected=want)
            c.check(est is not None and len(est) == cv, "one fitted pipeline per fold", estimators=est)
            c.check(pred is not None and len(pred) == n, "predictions for all rows")
    reset()


def failed(c, r, names, what):
    pred, sc, est, err = r
    c.check(err is not None, "a failure reports the error", where=what, result=r)
    c.check(isinstance(sc, tuple) and len(sc) == len(names) and all(s == float("-inf") for s in sc), "a failure has the worst value for each metric", where=what, scores=sc)
    c.check(pred is None, "a failure has no predictions", where=what)
    c.check(est is None, "a failure has no fitted pipelines", where=what)


def faults(c):
    ev, Metric = need(SK, "evaluate_pipeline"), need("gama.utilities.metrics", "Metric")
    rng = random.Random(5)

    class Odd(Exception):
        def __str__(self):
            return "odd"
    excs = [ValueError("v"), RuntimeError("r"), MemoryError(), KeyError("k"), StopIteration(), AttributeError("a"), NotImplementedError(),
            ZeroDivisionError(), Odd(), OSError("o"), AssertionError(), ImportError("i"), Warning("w"), TimeoutError("t"), FloatingPointError()]
    for kind, names in ((2, ["accuracy"]), (2, ["neg_log_loss", "accuracy"]), (0, ["r2", "neg_mean_squared_error"])):
        x, y = data(rng, 20, kind)
        ms = tuple(Metric(m) for m in names)
        # how often each operation is called when nothing fails
        reset()
        ev(pipe(kind), x, y, 60, ms, cv=3)
        calls = dict(FAULT.count)
        for op, k in sorted(calls.items()):
            for i in range(1, k + 1):
                for e in rng.sample(excs, 3) if c.tier == "quick" else excs:
                    if not c.more():
                        return reset()
                    reset()
                    FAULT.plan = (op, i, e)
                    with c.case("failure", operation=op, call=i, error=repr(e), metrics=names):
                        r = ev(pipe(kind), x, y, 60, ms, cv=3)
                        failed(c, r, names, (op, i))
                        c.check(r[3] is e or type(r[3]) is type(e) or not isinstance(r[3], BaseException) or isinstance(e, StopIteration), "the error is the one that occurred", got=r[3], raised=e)
                if i in (1, k):
                    reset()
                    FAULT.plan = (op, i, KeyboardInterrupt())
                    with c.case("interrupted by the user", operation=op, call=i):
                        c.raises(KeyboardInterrupt, lambda: ev(pipe(kind), x, y, 60, ms, cv=3), "an interruption by the user is passed on")
    # failure of a metric
    reset()
    x, y = data(rng, 20, 2)
    y[:] = 0
    with c.case("a metric that cannot be computed"):
        ms = (Metric("roc_auc"),)
        r = ev(pipe(2), x, y, 60, ms, cv=3)
        if r[3] is not None:
            failed(c, r, ["roc_auc"], "scoring")
    with c.case("too few rows for the folds"):
        x, y = data(rng, 3, 0)
        failed(c, ev(pipe(0), x, y, 60, (Metric("r2"),), cv=5), ["r2"], "splitting")
    reset()
    with c.case("subsample larger than the training part"):
        x, y = data(rng, 20, 0)
        failed(c, ev(pipe(0), x, y, 60, (Metric("r2"),), cv=2, subsample=19), ["r2"], "subsampling")
    reset()


def timeouts(c):
    import stopit
    ev, Metric = need(SK, "evaluate_pipeline"), need("gama.utilities.metrics", "Metric")
    rng = random.Random(6)
    x, y = data(rng, 20, 2)
    plans = [("fit", 1), ("fit", 3), ("predict", 1), ("predict", 6)]
    for op, i in plans:
        if not c.more():
            return reset()
        names = ["accuracy", "f1_macro"]
        reset()
        FAULT.plan = (op, i, "stall")
        with c.case("own time limit", operation=op, call=i, timeout=25):
            t = time.time()
            r = ev(pipe(2), x, y, 0.4, tuple(Metric(m) for m in names), cv=3)
            c.check(time.time() - t < 10, "ends at its time limit", seconds=time.time() - t)
            failed(c, r, names, "timeout")
            c.check(isinstance(r[3], stopit.TimeoutException), "the error says that time ran out", error=r[3])
    for op, i in plans[1:3]:
        reset()
        FAULT.plan = (op, i, "stall")
        with c.case("time limit of the search", operation=op, call=i, timeout=25):
            out = []
            with stopit.ThreadingTimeout(0.4) as outer:
                out.append(ev(pipe(2), x, y, 15, (Metric("accuracy"),), cv=3))
            c.check(outer.state == outer.TIMED_OUT and not out, "the end of the search is passed on, not reported as a failed evaluation", state=outer.state, result=out)
    reset()
    for bad in (0, -1, -0.5):
        with c.case("no time", timeout=20, limit=bad):
            c.raises(ValueError, lambda: ev(pipe(2), x, y, bad, (Metric("accuracy"),)), "an evaluation needs a positive amount of time")
    for bad in (None, object(), 5):
        with c.case("not a pipeline", pipeline=bad):
            c.raises(TypeError, lambda: ev(bad, x, y, 5, (Metric("accuracy"),)), "something that is not a pipeline is refused")


def individual(c):
    import gphelp
    ei = need(SK, "evaluate_individual")
    Ind = need("gama.genetic_programming.components", "Individual")
    for t in c.trials(60):
        rng = c.rng
        c.seed_all(t)
        ps = gphelp.make_space(rng)
        ind = gphelp.gen_individual(rng, ps, rng.randint(1, 4), lambda i: "PIPE")
        if rng.random() < .3:  # evaluated before, e.g. with less data
            ind.fitness = need("gama.genetic_programming.components", "Fitness")((0.25, -1.0), time.time() - 60, 7.0, 7.0)
        k = rng.randint(1, 3)
        scores = tuple(rng.choice([rng.random(), -rng.random() * 50, float("-inf")]) for _ in range(k))
        err = rng.choice([None, None, ValueError("abc, \n def"), TimeoutError(), KeyError("x")])
        if err is not None:
            scores = (float("-inf"),) * k
        limit = rng.choice([0.5, 5, 1e5, None])
        dl = rng.choice([None, 1.0, 60, 1e6, 0.2])
        add = rng.choice([True, True, None, False])
        seen = []

        def fake(pipeline, timeout=None, **kw):
            seen.append((pipeline, timeout, kw, time.time()))
            time.sleep(0.01)
            return ("pred" if err is None else None, scores, ["est"] if err is None else None, err)
        kw = {}
        if limit is not None:
            kw["timeout"] = limit
        if dl is not None:
            kw["deadline"] = time.time() + dl
        if add is not None:
            kw["add_length_to_score"] = add
        with c.case("evaluate_individual", individual=ind.pipeline_str(), scores=scores, error=repr(err), limit=limit, deadline_in=dl, add_length=add):
            t0 = time.time()
            r = ei(ind, fake, extra="x", **kw)
            t1 = time.time()
            c.check(len(seen) == 1, "evaluated once", calls=len(seen))
            p, to, k2, when = seen[0]
            want = 1e6 if limit is None else limit
            if dl is not None:
                lo, hi = min(want, kw["deadline"] - when), min(want, kw["deadline"] - t0)
            else:
                lo = hi = want
            c.check(lo - 1e-6 <= to <= hi + 1e-6, "the time allowed is the smaller of the limit and the time until the deadline", allowed=to, between=(lo, hi))
            c.check(p == "PIPE" and k2 == {"extra": "x"}, "the individual's pipeline is evaluated with the given options", pipeline=p, options=k2)
            n = len(ind.primitives)
            exp = scores + ((-n,) if add in (True, None) else ())
            c.check(tuple(r.score) == exp, "scores, followed by the negated pipeline length", score=r.score, expected=exp)
            c.check(tuple(ind.fitness.values) == exp, "the individual's fitness is the score", fitness=ind.fitness, expected=exp)
            if err is None:
                c.check(r.error is None, "no error for a success", error=r.error)
                c.check(r._predictions == "pred" and r._estimators == ["est"], "predictions and pipelines of a success")
            else:
                c.check(isinstance(r.error, str) and type(err).__name__ in r.error and str(err) in r.error, "the error is reported", error=r.error)
                c.check(r._predictions is None and r._estimators is None, "no predictions and pipelines of a failure")
            c.check(r.individual is ind, "the evaluation is that of the individual")
            c.check(0.009 <= r.duration <= t1 - t0 + 0.01, "the duration is the time taken", duration=r.duration, at_most=t1 - t0)
            c.check(abs(ind.fitness.wallclock_time - r.duration) < 1e-6, "the same duration is recorded with the fitness")


def metrics(c):
    Metric = need("gama.utilities.metrics", "Metric")
    stm = need("gama.utilities.metrics", "scoring_to_metric")
    from sklearn.metrics import get_scorer
    from sklearn.metrics import _scorer
    names = CM + RM + ["roc_auc", "neg_mean_squared_log_error", "recall_macro", "precision_micro"]
    rng = random.Random(2)
    for nm in names:
        kind = 0 if nm in RM or "squared_log" in nm else 2
        x, y = data(rng, 30, kind)
        reset()
        p = pipe(kind).fit(x, y)
        with c.case("metric", metric=nm):
            m = Metric(nm)
            s = get_scorer(nm)
            a, b = m(p, x, y), s(p, x, y)
            c.check(a == b or (a != a and b != b), "a metric called as scorer gives the scorer's (higher is better) score", got=a, expected=b)
            c.check(m.name == nm, "the metric keeps its name", name=m.name)
            pr = p.predict_proba(x) if kind and isinstance(s, _scorer._ProbaScorer) else p.predict(x)
            c.check(m.maximizable_score(y, pr, **s._kwargs) == s._sign * s._score_func(y, pr, **s._kwargs), "maximizable score: sign such that higher is better", name=nm)
            c.check(m.requires_probabilities == (isinstance(s, _scorer._ProbaScorer) or nm == "roc_auc"), "probabilities are required exactly by metrics on probabilities", name=nm)
    reset()
    for case in ("accuracy", ["accuracy", "neg_log_loss"], ("r2",), Metric("r2"), [Metric("r2"), "neg_mean_squared_error"]):
        with c.case("scoring", scoring=case):
            got = stm(case)
            seq = [case] if isinstance(case, (str, Metric)) else list(case)
            c.check(isinstance(got, tuple) and [g.name for g in got] == [s if isinstance(s, str) else s.name for s in seq], "one metric per given scoring, in order", got=[g.name for g in got])


def classes(c):
    """Folds without one of the classes, in a search for pipelines with good probabilities."""
    import gamahelp as g
    import pandas as pd
    from sklearn.metrics import log_loss
    from sklearn.model_selection import check_cv
    Search, Post = g.stand_ins()
    A, Fut = need("gama.utilities.generic.async_evaluator", "AsyncEvaluator", "AsyncFuture")

    class Model:
        def predict(self, x):
            return np.zeros(len(x))
    for t in c.trials(6):
        rng = c.rng
        n, rare, text = rng.choice([20, 31, 40]), rng.choice([2, 3, 4]), rng.random() < .5
        labs = ["a", "b", "c"] if text else [0, 1, 2]
        v = [2] * rare + [i % 2 for i in range(n - rare)]
        rng.shuffle(v)
        x = pd.DataFrame({"p": [rng.random() for _ in range(n)], "q": [rng.random() for _ in range(n)]})
        y = pd.Series([labs[i] for i in v])
        done = []

        def hook(ops, start):
            for ind in start[:2]:
                f = Fut(ops.evaluate, ind)
                f.execute(dict(A.defaults))
                done.append(f)
            return []
        with c.case("a class with fewer rows than folds", rows=n, rare=rare, text=text, y=list(y)):
            gm = g.make("classification", search=Search(hook), post=Post(hook=lambda *a: Model()), scoring="neg_log_loss")
            gm.fit(x, y)
            for f in done:
                c.check(f.exception is None, "an evaluation never raises into the search", exception=repr(f.exception))
                ev = f.result
                c.check(ev.error is None, "a fold without some class is scored", error=repr(ev.error))
                folds = check_cv(5, pd.Series(v), classifier=True).split(x, v)
                want = np.mean([-log_loss(np.array(v)[te], e.predict_proba(x.iloc[te]), labels=[0, 1, 2]) for (_, te), e in zip(folds, ev.estimators)])
                c.check(abs(ev.score[0] - want) < 1e-9, "the score is the mean of the metric over the folds, for all classes of the data", got=ev.score, expected=want)

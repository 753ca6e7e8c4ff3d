"""C08 run-time contracts: artefacts live exactly as long as they are needed."""
import os
from common import need
from c07 import Ind, LIB, BAD


def same(a, b):
    import numpy as np
    return a is not None and b is not None and np.array_equal(np.asarray(a), np.asarray(b))


def files(d):
    return sorted(os.path.join(r, f) for r, _, fs in os.walk(d) for f in fs)


def play(c, i):
    import numpy as np
    import pandas as pd
    Ev, Lib = need(LIB, "Evaluation", "EvaluationLibrary")
    s = c.seed_all(i)
    rng = c.rng
    rows = rng.randint(2, 30) if i % 25 else rng.randint(1500, 3000)
    kind = rng.choice(["1d", "2d", "series", "frame"])
    mode = rng.choice(["all", "none", "small", "big", "sample", "stratified", "default", "redetermined"])
    m = rng.choice([None, 0, 1, 2, 4])
    count = rng.randint(1, 9)
    plan = [(rng.randint(0, 4) / 4, rng.random() < .2, rng.random() < .15, rng.random() < .2) for _ in range(count)]
    with c.case("library history", seed=s, rows=rows, kind=kind, mode=mode, m=m, plan=plan):
        with c.scratch() as d:
            cache = os.path.join(d, "cache")
            outside = os.path.join(d, "outside.txt")
            open(outside, "w").write("keep")
            kw, expect = {}, None
            if mode == "all":
                kw = dict(n=None)
            elif mode == "none":
                kw = dict(n=0)
            elif mode in ("small", "redetermined"):
                kw = dict(n=rng.randint(1, rows - 1))
            elif mode == "big":
                kw = dict(n=rows + rng.randint(0, 2))
            elif mode == "sample":
                expect = np.array(sorted(rng.sample(range(rows), rng.randint(1, rows))))
                kw = dict(sample=expect)
            elif mode == "stratified":
                kw = dict(n=max(2, rows // 2))
            lib = Lib(m=m, cache=cache, **kw)
            if mode == "stratified" and rows >= 8 and max(2, rows // 2) < rows:
                y = np.array([k % 2 for k in range(rows)])
                lib.determine_sample_indices(stratify=y)
                sm = getattr(lib, "_sample", None)
                if isinstance(sm, np.ndarray):
                    c.check(len(sm) == kw["n"] and abs(2 * sum(y[sm]) - len(sm)) <= 2, "stratified sample of the requested size")
            if mode == "redetermined":
                lib.determine_sample_indices(prediction_size=rows)
            saved = []
            sample = None
            reuse = Ind()
            short = rng.random() < 0.5      # all of the same length, or scores tied on the first objective only
            for k, (score, err, nopred, again) in enumerate(plan):
                shape = (rows,) if kind in ("1d", "series") else (rows, 3)
                p = np.random.random(shape)
                given = None if nopred else {"series": pd.Series, "frame": pd.DataFrame}.get(kind, np.array)(p.copy())
                e = Ev(reuse if again else Ind(), given, (BAD if err else score, -1 if short else -rng.randint(1, 3)), [("est", k)], None, 0, "boom" if err else None)
                if not nopred:
                    c.check(isinstance(e.predictions, np.ndarray) and same(e.predictions, p), "predictions are taken over unchanged")
                lib.save_evaluation(e)
                saved.append((e, None if nopred or err else p, k))
                if sample is None and not nopred and not (err and not isinstance(getattr(lib, "_sample", None), np.ndarray)):
                    cur = getattr(lib, "_sample", None)
                    if isinstance(cur, np.ndarray):
                        sample = cur.copy()
                        if mode in ("small", "redetermined", "stratified"):
                            c.check(len(sample) == kw["n"] and len(set(sample.tolist())) == len(sample)
                                    and all(0 <= x < rows for x in sample), "the sample has the requested number of rows", sample=sample)
                        if expect is not None:
                            c.check(np.array_equal(sample, expect), "the given sample is used")
                if sample is not None:
                    c.check(np.array_equal(np.asarray(getattr(lib, "_sample", sample)), sample), "the sample stays the same")
                verify(c, lib, saved, mode, sample, rows, kw, cache)
            c.check(open(outside).read() == "keep", "files elsewhere are left alone")
            lib.clear_cache()
            c.check(files(cache) == [] and not os.path.exists(cache), "cleaning up leaves no file behind", left=files(cache))
            c.check(open(outside).read() == "keep", "files elsewhere are left alone")


def verify(c, lib, saved, mode, sample, rows, kw, cache):
    top = list(lib.top_evaluations)
    where = {id(e): (p, k) for e, p, k in saved}
    for e in top:
        p, k = where[id(e)]
        c.check(list(e.estimators) == [("est", k)], "fitted pipelines of a kept evaluation", got=e.estimators, expected=k)
        got = e.predictions
        if p is None or mode == "none":
            c.check(got is None, "no predictions where none are to be kept", got=got)
        else:
            want = p if sample is None else p[sample]
            if mode == "small" and sample is None:
                c.check(got is not None and len(got) == kw["n"], "number of sampled predictions", got=got)
            else:
                c.check(same(got, want), "predictions of a kept evaluation", got=got, expected=want, evaluation=k)
    for e, p, k in saved:
        if not any(e is t for t in top):
            c.check(e.predictions is None and not e.estimators, "artefacts of other evaluations are discarded", evaluation=k,
                    predictions=e.predictions, estimators=e.estimators)
    c.check(len(files(cache)) == len(top), "disk holds one file per kept evaluation", files=files(cache), kept=len(top))


def refuse(c):
    Lib = need(LIB, "EvaluationLibrary")
    with c.case("determine_sample_indices"):
        with c.scratch() as d:
            lib = Lib(cache=os.path.join(d, "c"))
            c.raises(ValueError, lambda: lib.determine_sample_indices(n=3), "one of the sizes is needed")
            c.raises(ValueError, lambda: lib.determine_sample_indices(n=3, prediction_size=4, stratify=[0, 1]), "only one of the sizes")


def rand(c):
    for i in c.trials(250):
        play(c, i)


def run(c):
    c.section("refusals", refuse)
    c.section("random", rand)

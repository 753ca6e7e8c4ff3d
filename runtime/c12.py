"""C12 run-time contracts: out-of-fold predictions."""
import math
import numpy as np
import pandas as pd
from common import need
import skhelp
from skhelp import data, pipe, reset, LOG

SK = "gama.genetic_programming.compilers.scikitlearn"


def run(c):
    c.section("folds", folds)
    c.section("subsample", subsample)


def make_cv(rng, n, k):
    kind = rng.choice(["int", "int", "kfold", "shuffled", "list"])
    K = rng.choice([2, 3, 4, 5])
    if kind == "int":
        return K, kind
    from sklearn.model_selection import KFold
    if kind == "kfold":
        return KFold(K), kind
    if kind == "shuffled":
        return KFold(K, shuffle=True, random_state=rng.randint(0, 99)), kind
    rows = list(range(n))
    rng.shuffle(rows)
    parts = [sorted(rows[i::K]) if rng.random() < .5 else rows[i::K] for i in range(K)]
    return [(np.array(sorted(set(range(n)) - set(p))), np.array(p)) for p in parts], kind


def check(c, ev, Metric, rng, sub, index, n=None):
    from sklearn.model_selection import check_cv
    k = rng.choice([0, 2, 3])
    n = n or rng.randint(24, 60)
    idx = None
    if index == "shuffled":
        idx = list(range(n))
        rng.shuffle(idx)
    elif index == "text":
        idx = ["r%d" % i for i in range(n)]
    elif index == "duplicated":
        idx = [i // 2 for i in range(n)]
    x, y = data(rng, n, k, idx)
    cv, how = make_cv(rng, n, k)
    prob = bool(k) and how == "int" and rng.random() < .7
    names = (["neg_log_loss", "accuracy"] if rng.random() < .5 else ["accuracy", "neg_log_loss"]) if prob else (["accuracy"] if k else ["r2"])
    if prob and rng.random() < .3 and k == 2:
        names = ["roc_auc"]
    value = sub(rng, n, k)
    splits = list(check_cv(cv, y, classifier=bool(k)).split(x, y))
    reset()
    with c.case("out-of-fold predictions", n=n, classes=k, cv=how, index=index, metrics=names, subsample=value, y=list(y)):
        r = ev(pipe(k), x, y, 60, tuple(Metric(m) for m in names), cv=cv, subsample=value)
        pred, sc, est, err = r
        if not c.check(err is None, "a working pipeline gives no error", error=repr(err)):
            return
        fitted = [e.steps[-1][1] for e in est]
        c.check(len(est) == len(splits), "one pipeline per fold", got=len(est), folds=len(splits))
        ids = list(map(int, x["id"]))
        c.check(len(pred) == n and not np.any(np.isnan(np.asarray(pred, dtype=float))), "every row has a prediction")
        c.check((np.asarray(pred).ndim == 2) == bool(prob), "class probabilities exactly if a metric requires them", shape=np.shape(pred))
        for f, (tr, te) in enumerate(splits):
            e = fitted[f]
            c.check(not set(e.rows_) & {ids[t] for t in te}, "a pipeline is fitted without the rows it predicts", fold=f, seen=sorted(set(e.rows_) & {ids[t] for t in te}))
            c.check(all(int(y.iloc[ids.index(i)]) == int(v) for i, v in zip(e.rows_, e.y_)), "fitted with each row's own target", fold=f)
            want = e.proba(x.iloc[te]) if prob else (np.argmax(e.proba(x.iloc[te]), 1) if k else e.raw(x.iloc[te]) * 1000.0 + e.n_ + e.mean_ * 1e-3)
            c.check(np.allclose(np.asarray(pred)[te], want, rtol=0, atol=1e-9), "each row's prediction comes from the pipeline of its own fold and stands at its own position", fold=f, rows=list(te)[:6], got=np.asarray(pred)[te][:4].tolist(), expected=want[:4].tolist())
            full = [ids[t] for t in tr]
            c.check(set(e.rows_) <= set(full) and len(set(e.rows_)) == len(e.rows_), "trained on rows of the fold's training part, each once", fold=f)
            m = len(tr)
            needed = value is not None and ((isinstance(value, int) and value < n) or (isinstance(value, float) and value < 1.0))
            size = m if not needed else (value if isinstance(value, int) else math.floor(value * m))
            c.check(len(e.rows_) == size, "training part of the requested size", fold=f, got=len(e.rows_), expected=size, available=m)
        # scores on the fold's own predictions and targets
        from sklearn.metrics import get_scorer
        for nm, s in zip(names, sc):
            w = float(np.mean([get_scorer(nm)(es, x.iloc[te], y.iloc[te]) for es, (_, te) in zip(est, splits)]))
            c.check(math.isclose(w, s, rel_tol=1e-9, abs_tol=1e-9), "scores are those of the fold's own predictions and targets", metric=nm, got=s, expected=w)
        if needed and k:
            for e, (tr, _) in zip(fitted, splits):
                have = list(y.iloc[tr])
                for cl in set(have):
                    if have.count(cl) / len(have) * len(e.y_) >= 1.5:
                        c.check(cl in e.y_, "a subsample for classification is stratified", classes=set(e.y_), missing=cl)
    reset()


def folds(c):
    ev, Metric = need(SK, "evaluate_pipeline"), need("gama.utilities.metrics", "Metric")
    for t in c.trials(60):
        sub = c.rng.choice([lambda r, n, k: None, lambda r, n, k: n, lambda r, n, k: 1.0, lambda r, n, k: n + 5, lambda r, n, k: 10 ** 6])
        check(c, ev, Metric, c.rng, sub, c.rng.choice([None, "shuffled", "text", "duplicated"]))


def subsample(c):
    ev, Metric = need(SK, "evaluate_pipeline"), need("gama.utilities.metrics", "Metric")
    for t in c.trials(60):
        sub = c.rng.choice([lambda r, n, k: r.randint(max(2, k), n // 3), lambda r, n, k: r.choice([.5, .3, .7])])
        check(c, ev, Metric, c.rng, sub, c.rng.choice([None, None, "shuffled", "text", "duplicated"]))
    for n in (1100, 2200):
        check(c, ev, Metric, c.rng, c.rng.choice([lambda r, n, k: r.randint(n // 4, n // 3), lambda r, n, k: .5]), "shuffled", n)

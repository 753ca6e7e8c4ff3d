"""C14 run-time contracts: ensembles weight, average and grow their models correctly."""
import math
import numpy as np
import pandas as pd
from common import need
from enshelp import library, ENS, Est


def run(c):
    c.section("growth", growth)
    c.section("prediction", prediction)
    c.section("build", build)
    c.section("refusals", refusals)


def one_hot(labels, v):
    ls = sorted(set(labels))
    return np.array([[1.0 if x == l else 0.0 for l in ls] for x in v])


def setup(c, rng, small=False, big=False):
    Metric = need("gama.utilities.metrics", "Metric")
    k = rng.choice([0, 2, 3, 4]) if not big else 0
    n = rng.randint(10, 30)
    labels = list(range(k)) if k else None
    if k:
        y = labels + [rng.choice(labels) for _ in range(n - k)]
        rng.shuffle(y)
    else:
        y = [float(rng.randint(0, 30)) for _ in range(n)]
    name = rng.choice(["neg_mean_squared_error", "r2", "neg_mean_absolute_error"]) if not k else rng.choice(["accuracy", "neg_log_loss", "f1_macro", "roc_auc"] if k == 2 else ["accuracy", "neg_log_loss", "f1_macro"])
    metric = Metric(name)
    prob = metric.requires_probabilities
    nm = 180 if big else rng.randint(1, 4 if small else 12)
    sample = None
    if rng.random() < .3 and not big:
        sample = rng.sample(range(n), rng.randint(n // 2 + 2, n))
        if k and len({y[s] for s in sample}) < k:
            sample = None
    lib, evs = library(rng, n, y, k, labels, nm, prob, folds=rng.choice([1, 2, 3]), sample=sample)
    return metric, name, k, labels, n, pd.Series(y, index=rng.choice([range(n), [i // 2 for i in range(n)], ["r%d" % i for i in range(n)]])), lib, evs, sample, prob


def make(c, rng, down="random", big=False):
    E = need(ENS, "EnsembleClassifier"), need(ENS, "EnsembleRegressor")
    metric, name, k, labels, n, y, lib, evs, sample, prob = setup(c, rng, big=big)
    rows = list(range(n)) if sample is None else list(sample)
    kw = {}
    if rng.random() < .4 and k == 0:
        kw["downsample_to"] = rng.randint(2, len(rows) + 2)
    elif rng.random() < .4 and k and not prob:
        kw["downsample_to"] = rng.randint(len(rows) - 2, len(rows) + 2)
    if rng.random() < .3 and not big:
        kw["use_top_n_only"] = rng.randint(1, 5)
    ens = E[0](metric, y, evaluation_library=lib, **kw) if k else E[1](metric, y, lib, **kw)
    down = getattr(ens, "_prediction_sample", None)
    used = rows if down is None else [rows[i] for i in down]
    if kw.get("downsample_to") is not None and kw["downsample_to"] < len(rows):
        c.check(len(used) == kw["downsample_to"] == len(set(used)), "downsampled to the requested number of rows", rows=used)
    top = [e for e, _, _ in sorted(((e, p, s) for e, p, s in evs), key=lambda t: t[0].score, reverse=True)]
    if kw.get("use_top_n_only"):
        top = top[:kw["use_top_n_only"]]
    full = {e.individual._id: p for e, p, _ in evs}

    def pred(e):
        p = np.asarray(full[e.individual._id])[used]
        return p if (prob or not k) else one_hot(labels, p)

    yt = np.asarray(y)[used]

    def score(avg):
        if not k:
            return metric.maximizable_score(yt, avg)
        if prob:
            return metric.maximizable_score(one_hot(labels, yt), avg)
        return labelled(np.array(sorted(labels))[avg.argmax(1)])

    def labelled(pr):
        s = metric.scorer
        return s._sign * s._score_func(yt, pr, **s._kwargs)

    def bounds(avg):
        """Lowest and highest score: between classes with the same average, rounding decides."""
        if not k or prob:
            return score(avg), score(avg)
        ls = np.array(sorted(labels))
        good, bad, ties = [], [], False
        for row, true in zip(avg, yt):
            tied = [l for l, v in zip(ls, row) if v >= row.max() - 1e-9]
            wrong = [l for l in tied if l != true]
            good.append(true if true in tied else tied[0])
            bad.append(wrong[0] if wrong else true)
            ties = ties or len(tied) > 1
        if ties and name != "accuracy":
            return -np.inf, np.inf
        return labelled(np.array(bad)), labelled(np.array(good))
    return ens, metric, name, k, labels, n, y, lib, evs, top, pred, bounds, kw


def weights(ens):
    return {i: w for i, (m, w) in ens._models.items()}


def dense(v):
    return v.toarray() if hasattr(v, "toarray") else np.asarray(v)


def growth(c):
    for t in c.trials(45):
        rng = c.rng
        c.seed_all(t)
        with c.case("growth of an ensemble", trial=t):
            ens, metric, name, k, labels, n, y, lib, evs, top, pred, bounds, kw = make(c, rng, big=t % 15 == 7)
            c.current["inputs"].update(metric=name, classes=str(k), models=str(len(evs)), options=str(kw), scores=str([e.score for e in top]))
            n0 = rng.choice([1, 1, 2, 3, len(top) + 2])
            lib_models = ens.model_library
            c.check([m.individual._id for m in lib_models] == [e.individual._id for e in top] or [m.score for m in lib_models] == [e.score for e in top], "candidates are the best models, from best to worst", got=[m.score for m in lib_models], expected=[e.score for e in top])
            for m in lib_models:
                c.check(np.allclose(dense(m.predictions), pred(m), atol=1e-12), "a candidate's predictions are those for the rows used", model=m.individual._id)
            ens.build_initial_ensemble(n0)
            w = weights(ens)
            best = [m.individual._id for m in lib_models[:n0]]
            c.check(w == {i: 1 for i in best}, "starts from the requested number of best single models", got=w, expected=best)
            by_id = {m.individual._id: m for m in lib_models}
            for step in range(rng.randint(1, 4)):
                before = weights(ens)
                tot = sum(before.values())
                avg = sum(pred(by_id[i]) * x for i, x in before.items()) / tot
                c.check(np.allclose(dense(ens._averaged_validation_predictions()), avg, atol=1e-9), "an intermediate ensemble predicts the weighted average of its models", weights=before)
                c.check(ens._total_model_weights() == tot, "the size is the sum of the weights")
                cand = {i: bounds((avg * tot + pred(m)) / (tot + 1)) for i, m in by_id.items()}
                lo, hi = {i: v[0] for i, v in cand.items()}, {i: v[1] for i, v in cand.items()}
                ens.expand_ensemble(1)
                after = weights(ens)
                c.check(sum(after.values()) == tot + 1, "one growth step adds one", before=before, after=after)
                changed = [i for i in after if after[i] != before.get(i, 0)]
                c.check(len(changed) == 1 and set(before) <= set(after), "one growth step changes one weight", before=before, after=after)
                if len(changed) == 1:
                    # rounding: allow ties up to float noise
                    c.check(hi[changed[0]] >= max(lo.values()) - 1e-9, "a growth step includes a model with the best resulting score", chosen=changed[0], lowest=lo, highest=hi)
            if len(by_id) > 20:
                continue
            tot = sum(weights(ens).values())
            reach = {frozenset(weights(ens).items())}
            for _ in range(3):
                nxt = set()
                for w in reach:
                    w = dict(w)
                    size = sum(w.values())
                    s = sum(pred(by_id[i]) * x for i, x in w.items())
                    cand = {i: bounds((s + pred(m)) / (size + 1)) for i, m in by_id.items()}
                    top_lo = max(v[0] for v in cand.values())
                    for i, v in cand.items():
                        if v[1] >= top_lo - 1e-9:
                            nxt.add(frozenset({**w, i: w.get(i, 0) + 1}.items()))
                reach = nxt
            ens.expand_ensemble(3)
            c.check(sum(weights(ens).values()) == tot + 3, "grows by the requested number", got=weights(ens))
            c.check(frozenset(weights(ens).items()) in reach, "each of several growth steps includes a model with the best resulting score", got=weights(ens), expected_one_of=[dict(w) for w in reach][:4])
            ens.build_initial_ensemble(1)
            c.check(weights(ens) == {lib_models[0].individual._id: 1}, "starting again replaces the ensemble", got=weights(ens))


def prediction(c):
    for t in c.trials(45):
        rng = c.rng
        c.seed_all(t)
        with c.case("prediction", trial=t):
            ens, metric, name, k, labels, n, y, lib, evs, top, pred, bounds, kw = make(c, rng)
            c.current["inputs"].update(metric=name, classes=str(k))
            ens.build_initial_ensemble(rng.choice([1, 2, 3]))
            for m in rng.sample(list(ens.model_library), min(3, len(ens.model_library))):
                for _ in range(rng.randint(0, 2)):
                    ens._add_model(m)
            if rng.random() < .3:
                ens._add_model(ens.model_library[0], add_weight=2)
            w = weights(ens)
            ens.fit(None, None)
            ests = {e.individual._id: s for e, _, s in evs}
            X = pd.DataFrame({"id": [rng.randint(0, 500) for _ in range(rng.randint(1, 12))]})
            tot = sum(w.values())

            def mean(f):
                return sum(np.mean([f(s) for s in ests[i]], axis=0) * x for i, x in w.items()) / tot
            if not k:
                c.check(np.allclose(ens.predict(X), mean(lambda s: s.predict(X))), "prediction is the average of the models' predictions by weight", weights=w)
                continue
            want = mean((lambda s: s.proba(X)) if metric.requires_probabilities else (lambda s: one_hot(labels, s.predict(X))))
            p = np.asarray(ens.predict_proba(X))
            c.check(p.shape == (len(X), k), "one probability column per class", shape=p.shape, classes=k)
            c.check(p.shape == want.shape and np.allclose(p, want), "probabilities are the average of the models' by weight, classes in sorted order", weights=w, got=p[:2].tolist(), expected=want[:2].tolist())
            c.check(np.allclose(p.sum(1), 1), "probabilities sum to one", sums=p.sum(1).tolist())
            got = list(ens.predict(X))
            c.check(len(got) == len(X) and all(want[r][sorted(labels).index(g)] >= want[r].max() - 1e-9 for r, g in enumerate(got)), "the predicted class has the highest probability", got=got)


def build(c):
    bfe = need(ENS, "build_fit_ensemble")
    for t in c.trials(15):
        rng = c.rng
        c.seed_all(t)
        metric, name, k, labels, n, y, lib, evs, sample, prob = setup(c, rng)
        size = rng.choice([1, 2, 5, 9, 10, 11, 14, 25])
        with c.case("building an ensemble", size=size, metric=name, models=len(evs)):
            ens = bfe(pd.DataFrame({"id": range(n)}), y, size, 1000, metric, lib)
            w = weights(ens)
            c.check(sum(w.values()) == size, "an ensemble of the requested size", got=w, size=size)
            c.check(ens._total_model_weights() == size, "the size is the sum of the weights")
            first = sorted(evs, key=lambda z: z[0].score, reverse=True)[:1 if size <= 10 else 10]
            known = sorted((e.score for e, _, _ in evs if e.individual._id in w), reverse=True)
            c.check(all(a >= e.score for a, (e, _, _) in zip(known, first)) and len(known) >= len(first), "starts from the best single models")
            folds = len(evs[0][2])
            c.check(len(ens._fit_models) == len(w) * folds, "all fitted pipelines of the models are used")


def refusals(c):
    Metric = need("gama.utilities.metrics", "Metric")
    R = need(ENS, "EnsembleRegressor")
    Lib = need("gama.utilities.evaluation_library", "EvaluationLibrary")
    import random
    rng = random.Random(3)
    lib, evs = library(rng, 10, [1.0] * 10, 0, None, 3, False)
    y = pd.Series([1.0] * 10)
    with c.case("refusals"):
        e = R(Metric("neg_mean_squared_error"), y, lib)
        for bad in (0, -1):
            c.raises(ValueError, lambda: e.build_initial_ensemble(bad), "an ensemble has at least one model")
            c.raises(ValueError, lambda: e.expand_ensemble(bad), "growing by nothing is refused")
        c.raises(RuntimeError, lambda: e.fit(None, None), "an ensemble without models can not be fitted")
        c.raises(TypeError, lambda: R(Metric("r2"), [1.0] * 10, lib), "targets must be a series or frame")
        c.raises(TypeError, lambda: R(Metric("r2"), y, [1]), "a library is required")
        c.raises(ValueError, lambda: R(5, y, lib), "a metric is required")

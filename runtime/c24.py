"""C24 run-time contracts: predictions are given in the label space of the training targets."""
import gamahelp as g
import itertools
import numpy as np
import pandas as pd
from common import need

LABELS = {
    "consecutive integers": [0, 1, 2],
    "other integers": [7, -3, 2],
    "integers that are also positions of others": [1, 2, 0],
    "shifted integers": [1, 2, 3],
    "two integers": [2, 1],
    "floats": [1.0, 5.0, 3.0],
    "booleans": [True, False],
    "text": ["b", "a", "c"],
    "numbers as text": ["10", "9", "1"],
    "positions as text": ["1", "0", "2"],
    "text that differs by case and space": ["A", "a", " a"],
    "empty text": ["", "x"],
    "text, capital first": ["no", "Yes", "maybe"],
    "words for truth": ["True", "False"],
}


def run(c):
    with c.scratch():
        c.section("stand-in model", stand_in)
        c.section("real model", real)


def targets(c, labs, n, form, missing):
    v = [labs[i % len(labs)] for i in range(n)]
    text = any(isinstance(l, str) for l in labs)
    gone = set(c.rng.sample(range(n), missing))
    if "array" == form:
        if gone or text:
            y = np.empty(n, dtype=object if text else float)
            for i in range(n):
                y[i] = np.nan if i in gone else v[i]
        else:
            y = np.array(v)
    else:
        y = pd.Series([np.nan if i in gone else v[i] for i in range(n)], index=c.rng.sample(range(n), n) if form == "series, other index" else None,
                      dtype=object if text else float if gone else None)
        if form == "objects":
            y = pd.Series([None if i in gone else v[i] for i in range(n)], dtype=object)
        if form == "object array":
            y = np.array([None if i in gone else v[i] for i in range(n)], dtype=object)
        if form == "category":
            y = y.astype("category")
        if form == "frame":
            y = y.to_frame()
    return v, y, gone


class Model:
    """A model of the targets it is fitted on: predicts as a nearest neighbour, or an order of classes asked for."""

    def __init__(self, x, y):
        self.classes = np.unique(np.asarray(y))
        self.want = None

    def predict(self, x):
        return self.classes[self.want]

    def predict_proba(self, x):
        return np.eye(len(self.classes))[self.want]


def forms(labs):
    return ["array", "series", "series, other index", "frame", "objects", "object array"] + (["category"] if isinstance(labs[0], str) else [])


def stand_in(c):
    """Fit with a stand-in model trained on what post-processing gets; every order of predictions."""
    Search, Post = g.stand_ins()
    for (name, labs), form, missing in itertools.product(LABELS.items(), ["array", "series", "series, other index", "frame", "objects", "object array", "category"], [0, 4]):
        if form not in forms(labs) or not c.more() or (missing and labs[0] is True and "object" not in form):
            continue
        n = 24
        x = pd.DataFrame({"a": [float(i % len(labs)) for i in range(n)], "b": [c.rng.random() for _ in range(n)]})
        v, y, gone = targets(c, labs, n, form, missing)
        with c.case("stand-in model", labels=name, values=labs, form=form, missing=missing):
            gm = g.make("classification", search=Search(lambda o, st: []), post=Post(hook=lambda x, y, *a: Model(x, y)))
            gm.fit(x, y)
            order = sorted(set(labs))
            c.check(len(gm.model.classes) == len(order), "as many classes as there are labels", got=list(gm.model.classes))
            for want in [[i] for i in range(len(order))] + [list(p) for p in itertools.permutations(range(len(order)))]:
                gm.model.want = want
                q = x.iloc[[0] * len(want)]
                r = gm.predict(q)
                exp = [order[i] for i in want]
                c.check([norm(e) for e in r] == [norm(e) for e in exp], "the predicted labels are those of the training targets", got=list(r), expected=exp)
                p = np.asarray(gm.predict_proba(q))
                c.check(p.shape == (len(want), len(order)) and [order[i] for i in p.argmax(axis=1)] == exp, "probability columns follow the sorted labels", got=p.tolist())
            gm.cleanup("all")


def norm(e):
    e = e.item() if hasattr(e, "item") else e
    if isinstance(e, bool):
        return ("bool", e)
    return ("number", float(e)) if isinstance(e, (int, float)) else ("text", str(e))


def real(c):
    """Real pipelines on data in which a feature tells the label."""
    BF, EN = need("gama.postprocessing.best_fit", "BestFitPostProcessing"), need("gama.postprocessing.ensemble", "EnsemblePostProcessing")
    AsyncEvaluator = need("gama.utilities.generic.async_evaluator", "AsyncEvaluator")
    from sklearn.tree import DecisionTreeClassifier
    from sklearn.neighbors import KNeighborsClassifier
    Search, _ = g.stand_ins()
    names = list(LABELS)
    for t in c.trials(24):
        name = names[(t * 5 + c.seed) % len(names)]
        labs = LABELS[name]
        post = (BF, EN)[t % 2]
        scoring = c.rng.choice(["neg_log_loss", "accuracy", "f1_macro"])
        form = c.rng.choice(forms(labs))
        missing = 0 if isinstance(labs[0], bool) and "object" not in form else c.rng.choice([0, 5])
        n = 60
        v, y, gone = targets(c, labs, n, form, missing)
        a = [labs.index(e) * 2.0 for e in v]
        x = pd.DataFrame({"a": a, "b": [e + 0.01 * c.rng.random() for e in a]})
        with c.case("real model", labels=name, values=labs, post_processing=post.__name__, metric=scoring, form=form, missing=missing):
            def hook(ops, start):
                done = []
                for i in range(4):
                    ind = ops.individual()
                    e = ops.evaluate(ind, evaluate_pipeline=AsyncEvaluator.defaults["evaluate_pipeline"])
                    ops._evaluate_callback(e)
                    if e.error is None:
                        done.append(e.individual)
                return done
            gm = g.make("classification", search=Search(hook), post=post(), scoring=scoring, search_space={
                DecisionTreeClassifier: {"max_depth": [3, 4, 5], "min_samples_leaf": [1, 2]}, KNeighborsClassifier: {"n_neighbors": [1, 3]}})
            try:
                gm.fit(x, y)
                rows = c.rng.sample(range(n), 12)
                q = x.iloc[rows]
                r = gm.predict(q)
                exp = [v[i] for i in rows]
                c.check([norm(e) for e in r] == [norm(e) for e in exp], "labels are predicted as they were given", got=list(r), expected=exp)
                p = np.asarray(gm.predict_proba(q))
                order = sorted(set(labs))
                c.check(p.shape == (len(rows), len(order)), "one probability column per label", got=p.shape)
                c.check([order[i] for i in p.argmax(axis=1)] == exp, "probability columns follow the sorted labels", got=p.tolist())
                c.check(all(norm(order[k]) == norm(l) for k, l in zip(p.argmax(axis=1), r)), "the predicted label has the highest probability")
            finally:
                gm.cleanup("all")

"""C16 run-time contracts: rows stay aligned and only unlabelled rows are dropped."""
import gamahelp as g
import numpy as np
import pandas as pd
from common import need


def run(c):
    c.section("format", formatting)
    c.section("fit", fitting)
    c.section("evaluations", evaluating)
    c.section("predict", predicting)
    c.section("file", files)


def index(rng, n):
    k = rng.randint(0, 5)
    if k == 0:
        return pd.RangeIndex(n)
    if k == 1:
        return pd.Index(rng.sample(range(n), n))
    if k == 2:
        return pd.Index([rng.randint(0, max(1, n // 3)) for _ in range(n)])
    if k == 3:
        return pd.Index(["r%d" % i for i in rng.sample(range(n), n)])
    if k == 4:
        return pd.RangeIndex(5, 5 + n)
    return pd.RangeIndex(n - 1, -1, -1)


def targets(rng, n, missing=True):
    """Values per row (None = missing), as floats, strings, booleans-like or objects."""
    kind = rng.choice(["float", "str", "object", "int", "category"])
    p = rng.choice([0, 0.1, 0.5, 1.0]) if missing else 0
    if kind == "float":
        v = [rng.choice([0.0, 1.0, 2.5, -1.0]) for _ in range(n)]
    elif kind == "int":
        v = [rng.choice([0, 1, 2]) for _ in range(n)]
    else:
        v = [rng.choice(["a", "b", "0", ""]) for _ in range(n)]
    if n and p:
        v = [None if rng.random() < p else x for x in v]
    return kind, v


def as_array(kind, v):
    if kind in ("float", "int"):
        if any(x is None for x in v) or kind == "float":
            return np.array([np.nan if x is None else x for x in v], dtype=float)
        return np.array(v)
    out = np.empty(len(v), dtype=object)
    for i, x in enumerate(v):
        out[i] = np.nan if x is None else x
    return out


def same(a, b):
    return (a == b) or (isinstance(a, float) and isinstance(b, float) and np.isnan(a) and np.isnan(b))


def formatting(c):
    fmt = need("gama.data_formatting", "format_x_y")
    for t in c.trials(500):
        rng = c.rng
        n = rng.choice([1, 2, 3, 7, 20])
        xs = [[float(i), rng.random(), rng.choice([1.0, 2.0, np.nan])] for i in range(n)]  # first column identifies the row
        kind, v = targets(rng, n)
        arr = as_array(kind, v)
        if n == 0:
            continue
        shape = rng.choice(["1d", "column", "series", "frame", "frame2", "indicator"])
        if kind == "category" and shape in ("1d", "column", "indicator"):
            shape = "series"
        want = list(v)
        if shape == "1d":
            y = arr
        elif shape == "column":
            y = arr.reshape(-1, 1)
        elif shape in ("series", "frame", "frame2"):
            s = pd.Series(arr, index=index(rng, n), name="t")
            if kind == "category":
                s = s.astype("category")
            y = s if shape == "series" else s.to_frame()
            if shape == "frame2":
                y["other"] = np.arange(n, dtype=float)
                y.loc[y.index[0], "other"] = np.nan
        else:
            want = [rng.randint(0, 3) for _ in range(n)]
            y = np.zeros((n, 4))
            for i, k in enumerate(want):
                y[i, k] = 1
        as_frame = rng.random() < 0.5
        x = pd.DataFrame(xs, columns=["id", "b", "c"], index=index(rng, n)) if as_frame else np.array(xs)
        xc, yc = x.copy(), y.copy()
        y_type = rng.choice([pd.Series, pd.Series, pd.DataFrame])
        if shape == "frame2" and y_type is pd.DataFrame:
            y_type = pd.Series
        remove = rng.random() < 0.8
        with c.case("format_x_y", x="frame" if as_frame else "array", y=shape, y_kind=kind, targets=want, x_index=list(x.index) if as_frame else None,
                    y_index=list(y.index) if hasattr(y, "index") else None, y_type=y_type.__name__, remove_unlabeled=remove):
            fx, fy = fmt(x, y, y_type=y_type, remove_unlabeled=remove)
            keep = [i for i in range(n) if not remove or want[i] is not None]
            c.check(isinstance(fx, pd.DataFrame), "features are a frame")
            c.check(isinstance(fy, y_type), "targets are of the requested type", got=type(fy))
            c.check([int(r) for r in fx.iloc[:, 0].astype(float)] == keep, "exactly the rows without a target are removed, in order", kept=fx.iloc[:, 0].tolist(), expected=keep)
            vals = (fy.iloc[:, 0] if isinstance(fy, pd.DataFrame) else fy).tolist()
            exp = [want[i] for i in keep]
            c.check(len(vals) == len(exp) and all((e is None and pd.isnull(a)) or (e is not None and not pd.isnull(a) and a == e) for a, e in zip(vals, exp)),
                    "each row keeps its target", got=vals, expected=exp)
            c.check(len(fx) == len(fy), "as many targets as rows")
            ok = fx.shape[1] == 3 and all(same(float(fx.iloc[k, j]), float(xs[i][j])) for k, i in enumerate(keep) for j in range(3)) if len(fx) == len(keep) else False
            c.check(ok, "feature values and column order are unchanged")
            if as_frame:
                c.check(list(fx.columns) == ["id", "b", "c"], "feature values and column order are unchanged")
                c.check(xc.equals(x), "the input is not modified")
            c.check((yc.equals(y) if hasattr(yc, "equals") else np.array_equal(yc.astype(str), y.astype(str))), "the input is not modified")
    for bad in ([[1, 2]], "x", None, pd.Series([1.0, 2.0])):
        with c.case("wrong type of features", x=bad):
            c.raises(TypeError, lambda: fmt(bad, np.array([1.0, 2.0])), "features of another type are refused")
    for bad in ([1, 2], "y", None):
        with c.case("wrong type of targets", y=bad):
            c.raises(TypeError, lambda: fmt(np.array([[1.0], [2.0]]), bad), "targets of another type are refused")


class Model:
    def __init__(self, labels=None):
        self.labels = labels
        self.seen = []

    def predict(self, x):
        self.seen.append(x)
        return np.array([self.labels[0] if self.labels is not None else 0.5] * len(x))

    def predict_proba(self, x):
        self.seen.append(x)
        return np.tile([1.0, 0.0], (len(x), 1))


def frame(rng, n, cat=True):
    d = {"id": [i + 0.5 for i in range(n)], "num": [rng.random() for _ in range(n)]}
    if cat and rng.random() < 0.4:      # categories that are numbers: as an array, all of it is numeric
        d["few"] = pd.Categorical([i % 3 for i in range(n)])
        d["two"] = pd.Categorical([i % 2 for i in range(n)])
        d["whole"] = [i * 7 for i in range(n)]
    elif cat:
        d["few"] = pd.Categorical([["p", "q", "r"][i % 3] for i in range(n)])
        d["two"] = pd.Categorical([["yes", "no"][i % 2] for i in range(n)])
        d["many"] = pd.Categorical(["m%d" % (i % 12) for i in range(n)])
    return pd.DataFrame(d)


def fitting(c):
    Search, Post = g.stand_ins()
    for t in c.trials(25):
        rng = c.rng
        kind = rng.choice(["classification", "regression"])
        n = rng.choice([24, 40])
        x = frame(rng, n, rng.random() < 0.6)
        x.index = index(rng, n)
        lab = rng.choice(["int", "str"]) if kind == "classification" else "float"
        v = [{"int": i % 3, "str": "abc"[i % 3], "float": i * 0.25}[lab] for i in range(n)]
        miss = rng.choice([0, 3, 10])
        for i in rng.sample(range(n), miss):
            v[i] = None
        y = pd.Series([np.nan if e is None else e for e in v], index=index(rng, n), dtype=object if lab == "str" else None)
        with c.case("fit", kind=kind, labels=lab, missing=miss, x_index=list(x.index)[:8], y_index=list(y.index)[:8]):
            s, p = Search(lambda o, st: []), Post(hook=lambda *a: Model())
            gm = g.make(kind, search=s, post=p)
            gm.fit(x, y)
            keep = [i for i in range(n) if v[i] is not None]
            for who, fx, fy in (("search", s.x, s.y), ("post-processing", p.x, p.y)):
                c.check([r - 0.5 for r in fx["id"].tolist()] == keep, f"{who}: exactly the rows without a target are removed", got=fx["id"].tolist())
                want = [v[i] for i in keep]
                cl = sorted(set(want))
                if kind == "classification" and list(fy) != want:     # numbered
                    want = [cl.index(e) for e in want]
                c.check(list(fy) == want, f"{who}: each row keeps its target", got=list(fy), expected=want)
                c.check(np.allclose(fx["num"], x["num"].to_numpy()[keep]), f"{who}: feature values are unchanged")


def evaluating(c):
    """What pipelines are fitted on while they are evaluated in a search."""
    from sklearn.base import BaseEstimator, ClassifierMixin, RegressorMixin
    Search, Post = g.stand_ins()
    A, Fut = need("gama.utilities.generic.async_evaluator", "AsyncEvaluator", "AsyncFuture")
    fits = []

    class Rec(BaseEstimator):
        def fit(self, x, y):
            fits.append((np.asarray(x), np.asarray(y)))
            self.classes_ = np.unique(y)
            return self

        def predict(self, x):
            return np.repeat(self.classes_[:1], len(x))

        def predict_proba(self, x):
            return np.tile([1.0] + [0.0] * (len(self.classes_) - 1), (len(x), 1))

    class RecClassifier(ClassifierMixin, Rec):
        pass

    class RecRegressor(RegressorMixin, Rec):
        pass
    for t in c.trials(6):
        rng = c.rng
        kind = ["classification", "regression"][t % 2]
        n = rng.choice([30, 48])
        x = frame(rng, n, False)
        x.index = index(rng, n)
        v = [i % 3 if kind == "classification" else i * 0.25 for i in range(n)]
        for i in rng.sample(range(n), rng.choice([0, 4])):
            v[i] = None
        y = pd.Series([np.nan if e is None else e for e in v], index=index(rng, n))
        done = []

        def hook(ops, start):
            f = Fut(ops.evaluate, start[0])
            f.execute(dict(A.defaults))
            done.append(f)
            return []
        with c.case("evaluation within a search", kind=kind, rows=n, missing=sum(e is None for e in v)):
            fits.clear()
            gm = g.make(kind, search=Search(hook), post=Post(hook=lambda *a: Model()),
                        search_space={RecClassifier if kind == "classification" else RecRegressor: {}})
            gm.fit(x, y)
            f = done[0]
            c.check(f.exception is None and f.result is not None, "an evaluation within a search runs on the data of the search", exception=repr(f.exception))
            ev = f.result
            err = getattr(ev, "error", None)
            c.check(len(fits) > 0, "an evaluation within a search runs on the data of the search", error=repr(err))
            keep = [i for i in range(n) if v[i] is not None]
            seen = set()
            for fx, fy in fits:
                ids = [int(round(float(r) - 0.5)) for r in fx[:, 0]]
                seen.update(ids)
                c.check(all(i in keep for i in ids), "no row without a target is used", ids=ids)
                want = [float(v[i]) if i in keep else None for i in ids]
                c.check(len(fy) == len(ids) and [float(e) for e in fy] == want, "each row keeps its target while it is evaluated", got=list(fy), expected=want)
            c.check(seen == set(keep), "every labelled row is used by an evaluation", missing=sorted(set(keep) - seen))


def predicting(c):
    Search, Post = g.stand_ins()
    for t in c.trials(30):
        rng = c.rng
        kind = rng.choice(["classification", "regression"])
        n = 36
        x = frame(rng, n, rng.random() < 0.7)
        y = pd.Series([i % 2 for i in range(n)]) if kind == "classification" else pd.Series([i / 3 for i in range(n)])
        m = Model([0] if kind == "classification" else None)
        by_array = rng.random() < 0.4
        with c.case("predict", kind=kind, fitted_on="array" if by_array else "frame", columns=list(x.columns)):
            gm = g.make(kind, search=Search(lambda o, st: []), post=Post(hook=lambda *a: m))
            gm.fit(x.to_numpy() if by_array else x, y)
            train = gm._x
            rows = [rng.randint(0, n - 1) for _ in range(rng.choice([1, 5, 30]) if t % 10 else 1300)]
            q = x.iloc[rows]
            if rng.random() < 0.5:
                q = q.set_axis(index(rng, len(rows)), axis=0)
            raw = gm._inferred_dtypes if by_array else x.dtypes
            forms = [("array", q.to_numpy())] + ([] if by_array else [("frame", q)])
            for form, inp in forms:
                for method in ("predict", "predict_proba") if kind == "classification" else ("predict",):
                    m.seen.clear()
                    before = inp.copy()
                    enc = gm._basic_encoding_pipeline
                    given = []
                    if enc is not None:
                        tf = enc.transform
                        enc.transform = lambda d, *a, **k: (given.append(d), tf(d, *a, **k))[1]
                    try:
                        r = getattr(gm, method)(inp)
                    finally:
                        if enc is not None:
                            del enc.transform
                    if form == "array":
                        for d in given:
                            c.check(list(d.columns) == list(raw.index) and all(a == b for a, b in zip(d.dtypes, raw)), "arrays get the column names and types of the training data", got=[str(t) for t in d.dtypes], expected=[str(t) for t in raw])
                    c.check(len(r) == len(rows), "one prediction per row", form=form, method=method, got=len(r))
                    c.check(len(m.seen) == 1, "the model is asked once")
                    got = m.seen[0]
                    c.check(list(got.columns) == list(train.columns), "prediction inputs are encoded to the same columns as for training", form=form, got=list(got.columns), expected=list(train.columns))
                    exp = train.iloc[rows]
                    ok = got.shape == exp.shape and all(str(got.iloc[i, j]) == str(exp.iloc[i, j]) or float(got.iloc[i, j]) == float(exp.iloc[i, j]) for i in range(len(rows)) for j in range(got.shape[1]))
                    c.check(ok, "prediction inputs are encoded as they were for training, row by row", form=form)
                    c.check(str(before) == str(inp), "the input is not modified")


NAMES = ["a", "b", "target col", "d", "price", "price_last_year", "last price", "Price", "class", "class2", "is_class", "Class", "a b", "x.1", "_", "ab"]


def column(rng, n, j):
    """Values of a column: (type in the file, values)."""
    k = rng.choice(["number", "number", "integer", "text"])
    if k == "text":
        v = [rng.choice(["red", "blue", "green one", "x", "y"]) for _ in range(n)]
        return "{" + ",".join('"%s"' % e for e in sorted(set(v))) + "}", v
    if k == "integer":
        return "numeric", [i * 3 + j for i in range(n)]
    return "numeric", [i + 0.25 * j for i in range(n)]


def files(c):
    X_y = need("gama.data_loading", "X_y_from_file")
    for t in c.trials(45):
        rng = c.rng
        n = rng.choice([12, 20])
        cols = rng.sample(NAMES, rng.choice([2, 3, 4, 6]))
        kinds, values = {}, {}
        for j, k in enumerate(cols):
            kinds[k], values[k] = column(rng, n, j)
            if rng.random() < 0.3:
                values[k][rng.randrange(n)] = None
        df = pd.DataFrame(values)
        which = rng.choice([None] + cols)
        same = lambda got, want: len(got) == len(want) and all(pd.isnull(p) if q is None else (not pd.isnull(p) and (str(p) == q if isinstance(q, str) else float(p) == float(q))) for p, q in zip(got, want))
        with c.case("file", columns=cols, target=which, values=values):
            with c.scratch() as d:
                if rng.random() < 0.5:
                    path = d + "/data.csv"
                    sep = rng.choice([",", ";", "\t"])
                    df.to_csv(path, index=False, sep=sep)
                    x, y = X_y(path, which, sep=sep, header=0)
                else:
                    path = d + "/data.arff"
                    with open(path, "w") as fh:
                        fh.write("@relation r\n" + "".join('@attribute "%s" %s\n' % (k, kinds[k]) for k in cols) + "@data\n"
                                 + "\n".join(",".join("?" if values[k][i] is None else '"%s"' % values[k][i] if isinstance(values[k][i], str) else str(values[k][i]) for k in cols) for i in range(n)) + "\n")
                    x, y = X_y(path, which)
                tc = which or cols[-1]
                c.check(list(x.columns) == [k for k in cols if k != tc], "features are all columns but the target", got=list(x.columns))
                c.check(same(list(y), values[tc]), "targets are the values of the target column", got=list(y)[:5])
                for k in x.columns:
                    c.check(same(list(x[k]), values[k]), "rows keep their values and order", column=k, got=list(x[k]))
                c.raises(ValueError, lambda: X_y(path, "no such column"), "an unknown target column is refused")
    with_files(c)


def with_files(c):
    """Fitting, predicting and scoring from files."""
    Search, Post = g.stand_ins()
    for t in c.trials(6):
        rng = c.rng
        kind = ("classification", "regression")[t % 2]
        n = 24
        cols = rng.sample(NAMES, 3)
        df = pd.DataFrame({k: [i + 0.25 * j for i in range(n)] for j, k in enumerate(cols)})
        which = rng.choice([None] + cols)
        tc = which or cols[-1]
        df[tc] = [i % 3 for i in range(n)] if kind == "classification" else [i / 4 + 1 for i in range(n)]
        with c.case("from a file", kind=kind, columns=cols, target=which):
            with c.scratch() as d:
                path, other = d + "/data.csv", d + "/new.csv"
                df.to_csv(path, index=False)
                m = Model([0] if kind == "classification" else None)
                got = {}

                def hook(*a):
                    return m
                gm = g.make(kind, search=Search(lambda o, st: []), post=Post(hook=hook))
                gm.fit_from_file(path, which, sep=",", header=0)
                fx = [k for k in cols if k != tc]
                c.check(list(gm._x.columns) == fx and all(gm._x[k].astype(float).tolist() == df[k].tolist() for k in fx), "fitted on the features of the file", got=list(gm._x.columns))
                c.check([float(e) for e in gm._y] == df[tc].tolist(), "fitted on the targets of the file")
                rows = [rng.randrange(n) for _ in range(7)]
                new = df.iloc[rows]
                new.to_csv(other, index=False)
                arff = d + "/new.arff"
                with open(arff, "w") as fh:
                    fh.write("@relation r\n" + "".join('@attribute "%s" numeric\n' % k for k in cols) + "@data\n" + "\n".join(",".join(map(str, r)) for r in new.values.tolist()) + "\n")
                methods = ["predict_from_file"] + (["predict_proba_from_file"] if kind == "classification" else [])
                for name in methods:
                    m.seen.clear()
                    r = getattr(gm, name)(arff, which) if "proba" in name else getattr(gm, name)(other, which, sep=",", header=0)
                    c.check(len(r) == len(rows) and len(m.seen) == 1, "one prediction per row of the file", method=name)
                    seen = m.seen[0]
                    c.check(list(seen.columns) == fx and all(seen[k].astype(float).tolist() == new[k].tolist() for k in fx), "predictions are made for the features of the file", method=name, got=list(seen.columns))

"""C17 run-time contracts: every categorical column is encoded exactly once, the rest unchanged."""
import warnings
import numpy as np
import pandas as pd
from common import need

warnings.filterwarnings("ignore")


def run(c):
    c.section("select", select)
    c.section("encode", encode)
    c.section("fit", fit)


def column(rng, n, kind, k):
    if kind == "num":
        return pd.Series([rng.random() if rng.random() > 0.1 else np.nan for _ in range(n)])
    if kind == "int":
        return pd.Series([rng.randint(0, 5) for _ in range(n)])
    lv = {"text": ["v%d" % i for i in range(k)], "numbers": list(range(k)), "mixed": ["v%d" % i if i % 2 else "w" for i in range(k)]}[rng.choice(["text", "numbers"])]
    v = [lv[i % k] if k else np.nan for i in range(n)]
    rng.shuffle(v)
    if rng.random() < 0.4:
        for i in rng.sample(range(n), 3):
            if sum(1 for e in v if e == v[i]) > 1:
                v[i] = np.nan
    s = pd.Series(v, dtype=object)
    s = pd.Series(pd.Categorical(s, categories=lv + (["unused"] if isinstance(lv[0] if lv else "", str) and rng.random() < 0.3 else [])))
    if rng.random() < 0.2 and lv:
        s = s.cat.as_ordered()
    return s


def frame(rng, n):
    d, kinds = {}, {}
    for j in range(rng.randint(1, 6)):
        kind = rng.choice(["num", "int", "cat", "cat", "cat"])
        k = rng.choice([1, 2, 2, 3, 4, 9, 10, 11, 12, 20])
        name = rng.choice(["c%d", "a b%d", "x_%d"]) % j
        d[name] = column(rng, n, kind, k)
        kinds[name] = kind
    return pd.DataFrame(d), kinds


def nfac(s):
    return len({v for v in s if not (isinstance(v, float) and np.isnan(v))})


def select(c):
    sel = need("gama.utilities.preprocessing", "select_categorical_columns")
    for t in c.trials(150):
        rng = c.rng
        df, kinds = frame(rng, 60)
        lo, hi = rng.choice([None, 0, 2, 3, 10, 11]), rng.choice([None, 1, 2, 3, 10, 11])
        nan = rng.random() < 0.7
        with c.case("select", min_f=lo, max_f=hi, ignore_nan=nan, columns={k: (kinds[k], nfac(df[k])) for k in df}):
            got = list(sel(df, min_f=lo, max_f=hi, ignore_nan=nan))
            want = []
            for k in df:
                if kinds[k] == "cat":
                    m = nfac(df[k]) + (0 if nan or not df[k].isnull().any() else 1)
                    if (lo is None or lo <= m) and (hi is None or m <= hi):
                        want.append(k)
            c.check(got == want, "exactly the categorical columns with that many categories are selected", got=got, expected=want)


def encode(c):
    enc, ext = need("gama.utilities.preprocessing", "basic_encoding", "basic_pipeline_extension")
    from sklearn.pipeline import Pipeline
    for t in c.trials(60):
        rng = c.rng
        n = 60
        df, kinds = frame(rng, n)
        cls = rng.random() < 0.5
        y = pd.Series([i % 2 for i in range(n)]) if cls else pd.Series([rng.random() for _ in range(n)])
        info = {k: (kinds[k], nfac(df[k])) for k in df}
        with c.case("encoding", classification=cls, columns=info):
            before = df.copy()
            xe, pipe = enc(df, cls)
            steps = ext(xe, cls)
            c.check(before.equals(df), "the input is not modified")
            c.check(len(xe) == n and list(xe.index) == list(df.index), "no row is lost or moved")
            whole = Pipeline(pipe.steps + steps)
            c.check(whole.steps[-1][0] == steps[-1][0], "steps in order")
            test = df.iloc[rng.sample(range(n), 15)].copy()
            for k in df:
                if kinds[k] == "cat" and rng.random() < 0.5:
                    test[k] = pd.Series([rng.choice([np.nan, "never seen", df[k].iloc[0]]) for _ in range(15)], index=test.index, dtype=object).astype("category")
            xt = pipe.transform(test)
            used = set()
            for k in df:
                m = nfac(df[k])
                if kinds[k] != "cat" or m <= 2 or (m >= 11 and cls):
                    if k not in xe.columns:
                        # the encoders drop columns that do not vary in the training data
                        c.check(not varies(df[k]), "columns that vary are kept", column=k)
                        continue
                    used.add(k)
                    if kinds[k] != "cat":
                        c.check(equal(xe[k], df[k]) and equal(xt[k], test[k]), "other columns are unchanged", column=k)
                    else:
                        c.check(pd.api.types.is_numeric_dtype(xe[k]) and injective(df[k], xe[k]), "few or many categories: one integer code per category", column=k, factors=m)
                elif m <= 10:
                    cols = [q for q in xe.columns if q not in df.columns and str(q).startswith(f"{k}_") and str(q)[len(k) + 1:].isdigit()]
                    used |= set(cols)
                    c.check(len(cols) >= m and k not in xe.columns, "one-hot encoding for three to ten categories", column=k, factors=m, got=cols)
                    b = xe[cols].to_numpy().astype(float)
                    known = df[k].notnull().to_numpy()
                    c.check(((b == 0) | (b == 1)).all() and (b[known].sum(axis=1) == 1).all(), "one indicator per category", column=k)
                    c.check(injective(df[k][known], pd.Series([tuple(r) for r in b[known]])), "one indicator per category", column=k)
                else:
                    c.check(k in xe.columns and equal(xe[k], df[k]), "many categories with a numeric target are left to the pipeline", column=k)
                    used.add(k)
            c.check(set(xe.columns) == used, "there are no further columns", extra=sorted(map(str, set(xe.columns) - used)))
            c.check(list(xt.columns) == list(xe.columns) and len(xt) == 15, "unknown or missing categories do not matter for rows and columns")
            p2 = Pipeline(steps)
            if xe.shape[1] and not all(xe[q].isnull().all() for q in xe):
                out = np.asarray(p2.fit_transform(xe, y), dtype=float)
                c.check(out.shape[0] == n and not np.isnan(out).any(), "the pipeline's own preprocessing leaves numbers only")
                keep = [q for q in xe if not xe[q].isnull().all()]
                out2 = np.asarray(p2.transform(xt), dtype=float)
                c.check(out2.shape == (15, out.shape[1]) and not np.isnan(out2).any(), "unknown or missing categories do not raise")
                if out.shape[1] == len(keep):
                    for pos, q in enumerate(keep):
                        if q in kinds and kinds[q] != "cat":
                            ok = xe[q].notnull().to_numpy()
                            c.check(np.allclose(out[ok, pos], xe[q].to_numpy(dtype=float)[ok]), "other columns are unchanged", column=q)
                        if q in kinds and kinds[q] == "cat" and nfac(df[q]) >= 11 and not cls:
                            byval = {}
                            for v, e in zip(df[q].astype(object), out[:, pos]):
                                if not (isinstance(v, float) and np.isnan(v)):
                                    byval.setdefault(v, set()).add(round(float(e), 9))
                            c.check(all(len(s) == 1 for s in byval.values()) and len(set.union(*byval.values())) > 1, "many categories: encoded by their target", column=q)


def varies(s):
    return nfac(s) > 1 or (s.isnull().any() and nfac(s) > 0)


def equal(a, b):
    return len(a) == len(b) and all((x == y) or (pd.isnull(x) and pd.isnull(y)) for x, y in zip(a, b))


def injective(a, b):
    f, g = {}, {}
    for x, y in zip(a, b):
        x = "<missing>" if isinstance(x, float) and np.isnan(x) else x
        if f.setdefault(x, y) != y or g.setdefault(y, x) != x:
            return False
    return True


def fit(c):
    import gamahelp as g
    Search, Post = g.stand_ins()
    for t in c.trials(12):
        rng = c.rng
        n = 60
        df, kinds = frame(rng, n)
        kind = rng.choice(["classification", "regression"])
        y = pd.Series([i % 2 for i in range(n)]) if kind == "classification" else pd.Series([rng.random() for _ in range(n)])
        with c.case("fit", kind=kind, columns={k: (kinds[k], nfac(df[k])) for k in df}):
            seen = {}

            def hook(ops, start):
                seen["pipe"] = ops._safe_compile(start[0])
                return []
            gm = g.make(kind, search=Search(hook), post=Post())
            gm.fit(df, y)
            names = [s for s, _ in seen["pipe"].steps]
            steps = dict(seen["pipe"].steps)
            import category_encoders as ce
            te = [s for s in steps.values() if isinstance(s, ce.TargetEncoder)]
            many = [k for k in df if kinds[k] == "cat" and nfac(df[k]) >= 11]
            c.check(len(te) == (kind == "regression"), "target encoding for regression only")
            if te:
                c.check(list(te[0].cols or []) == many, "many categories with a numeric target are encoded in the pipeline", got=te[0].cols, expected=many)
            for k in many:
                if kind == "classification" and k in gm._x:
                    c.check(pd.api.types.is_numeric_dtype(gm._x[k]), "many categories: one integer code per category")

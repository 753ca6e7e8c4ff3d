"""Assumed contracts of scikit-learn, numpy, pandas and stopit used by evaluate_pipeline.

Ghost picture: rows 0..N-1; the cross-validation object gives K folds, fold(r) is the fold
whose test part contains row r, the training part of fold f is the complement. Every fitted
pipeline remembers on which rows it was fitted.
"""
import z3
from pyvc.driver import *
from pyvc.interp import TimeoutException, StrCat

I, R, B = z3.IntSort(), z3.RealSort(), z3.BoolSort()
SK = "gama.genetic_programming.compilers.scikitlearn"


class World_:
    def __init__(self, ctx, sub_kind):
        self.ctx = ctx
        it = ctx.interp
        self.N, self.K, self.nm = z3.Ints("n_rows n_folds n_metrics")
        ctx.assume(z3.And(self.K >= 2, self.N >= self.K, self.nm >= 1))
        self.fold = z3.Function("fold", I, I)
        r = z3.Int("r!w")
        ctx.assume(z3.ForAll([r], z3.Implies(self.row(r), z3.And(0 <= self.fold(r), self.fold(r) < self.K)), patterns=[self.fold(r)]))
        self.trainsize = z3.Function("trainsize", I, I)
        name = Schema("MetricName")
        name.is_str = True
        self.name = name
        self.nameof = z3.Function("name", I, name.sort)
        self.needs = z3.Function("requires_probabilities", I, B)
        self.meanscore = z3.Function("mean_score", name.sort, R)
        self.fam = Fam("metric", it.get("gama.utilities.metrics.Metric"), {
            "name": lambda c, i: Term(self.nameof(to_z3(i)), name),
            "requires_probabilities": lambda c, i: self.needs(to_z3(i))})
        self.metrics = ListObj(FnC(self.nm, lambda c, i: Obj(self.fam, i)), kind="tuple")
        self.x, self.y = Data("x", self), Data("y", self)
        self.pipeline = Inst(None, {"fit": Opaque("fit"), "predict": Opaque("predict"), "steps": Opaque("steps")}, label="pipeline")
        self.cv = Opaque("cv")
        self.cv.memo["isnone"] = z3.BoolVal(False)
        self.is_clf = z3.Bool("is_classification")
        self.splits = FnC(self.K, lambda c, f: (self.train(f), self.test(f)))
        self.splitter = Splitter(self)
        self.sub = None if sub_kind == 0 else (z3.Int("subsample") if sub_kind == 1 else z3.Real("subsample"))
        if self.sub is not None:
            ctx.assume(self.sub > 0)
        self.sub_required = z3.BoolVal(False) if sub_kind == 0 else (self.sub < self.N if sub_kind == 1 else self.sub < 1)
        self.subf = z3.Function("subsample_rows", I, I, B)
        self.cv_rows = None       # training rows per fold as used for fitting
        self.cv_called = 0
        self.over = False
        self.events = []          # faults raised so far on this path
        self.mgr = None
        self.any_needs = z3.Bool("some metric requires probabilities")
        j = z3.Int("j!m")
        w = z3.Int("witness metric")
        ctx.assume(z3.Implies(self.any_needs, z3.And(0 <= w, w < self.nm, self.needs(w))))
        ctx.assume(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < self.nm, self.needs(j)), self.any_needs)))
        X = ctx.externals
        X["sklearn.base.is_classifier"] = lambda c, p: self.is_clf if p is self.pipeline else c.fresh_bool("other")
        X["sklearn.model_selection.check_cv"] = self.check_cv
        X["sklearn.model_selection.cross_validate"] = self.cross_validate
        X["sklearn.model_selection.ShuffleSplit"] = lambda c, *a, **k: Sampler(self, *a, **k)
        X["sklearn.model_selection.StratifiedShuffleSplit"] = lambda c, *a, **k: Sampler(self, *a, **k)
        X["numpy.mean"] = lambda c, v: v.m_mean(c)
        X["numpy.empty"] = self.np_empty
        X["numpy.zeros"] = self.np_empty
        X["numpy.full"] = lambda c, shape, v: self.np_empty(c, shape)
        X["stopit.ThreadingTimeout"] = lambda c, t, *a, **k: Manager(self, t)
        ctx.dict_from_content = lambda c, content: Scoring(content)
        ctx.assumption("check_cv/cross_validate/(Stratified)ShuffleSplit (folds partition the rows, the same on each call; "
                       "estimator f is fitted on the training rows of fold f; test_<name> are the scores of that scorer on the folds; errors raised)")
        ctx.assumption("stopit.ThreadingTimeout (raises TimeoutException inside the block at its limit; swallows it on exit and records "
                       "whether it was its own)")
        ctx.assumption("numpy/pandas: iloc and array indexing by row positions, np.mean, np.empty")
        ctx.assumption("asynchronous timeouts are considered at every call into a dependency")

    def row(self, r):
        return z3.And(0 <= r, r < self.N)

    def train(self, f):
        f = to_z3(f)
        return Rows(self, lambda r: self.fold(r) != f, self.trainsize(f), ("train", f))

    def test(self, f):
        f = to_z3(f)
        return Rows(self, lambda r: self.fold(r) == f, None, ("test", f))

    def subrows(self, f):
        f = to_z3(f)
        return Rows(self, lambda r: self.subf(f, r), self.want_size(f), ("sub", f))

    def want_size(self, f):
        s = self.trainsize(f)
        if self.sub is None:
            return s
        t = self.sub if z3.is_int(self.sub) else z3.ToInt(self.sub * s)
        return z3.If(self.sub_required, t, s)

    def fault(self, c, what):
        """Anything called may fail, be stopped by a time limit, or by the user."""
        if self.over:                     # a lazily read collection made during the call
            return
        k = c.choose(5)
        if k == 0:
            return
        if k == 1:
            self.events.append(("error", what))
            raise PyRaise(ExcVal(ValueError, (what,)))
        if k == 2:
            self.events.append(("own", what))
            if self.mgr is None or not self.mgr.entered:
                raise PathAbort()
            self.mgr.state = 2
            raise PyRaise(ExcVal(TimeoutException))
        if k == 3:
            self.events.append(("outer", what))
            raise PyRaise(ExcVal(TimeoutException))
        self.events.append(("user", what))
        raise PyRaise(ExcVal(KeyboardInterrupt))

    def check_cv(self, c, cv=None, y=None, *, classifier=False):
        c.prove("the requested folds are used", cv is self.cv)
        c.prove("folds are made for the targets", y is self.y)
        self.fault(c, "check_cv")
        return self.splitter

    def np_empty(self, c, shape=None, *a, **k):
        t = lib.as_tuple(shape)
        n = t[0] if t is not None else shape
        c.prove("room for one prediction per row", simp(to_z3(n) == self.N))
        return Arr(self)

    def cross_validate(self, c, estimator, X, y=None, *, cv=None, scoring=None, return_estimator=False, error_score="nan", **kw):
        it = c.interp
        self.cv_called += 1
        c.prove("the given pipeline is evaluated", estimator is self.pipeline)
        c.prove("on the given data", X is self.x and y is self.y)
        c.prove("failures are not replaced by a score", error_score == "raise")
        if not (return_estimator is True and isinstance(scoring, Scoring)):
            raise Unsupported("cross_validate without estimators or with another form of scoring")
        i = c.fresh_int("i")
        c.assume(z3.And(0 <= i, i < self.nm))
        n = scoring.content.length(c)
        c.prove("one scorer per metric", to_z3(n) == self.nm)

        def key():
            k, v = it.unpack(scoring.content.at(c, i), 2)
            ok = isinstance(k, Term) and isinstance(v, Obj) and v.fam is self.fam
            return z3.And(k.expr == self.nameof(i), to_z3(v.idx) == i) if ok else False
        c.prove("each scorer under its own name", c.merge(key))
        f = c.fresh_int("f")
        c.assume(z3.And(0 <= f, f < self.K))
        if isinstance(cv, Splitter):
            rows = lambda cc, g: self.train(g)
            c.prove("all training rows are used unless a subsample was asked for", z3.Not(self.sub_required))
        else:
            content = it.content(cv)
            if isinstance(content, PickC):
                raise Unsupported("folds given as a generator")
            c.prove("one split per fold", to_z3(content.length(c)) == self.K)
            tr, te = it.unpack(content.at(c, f), 2)
            if not (isinstance(tr, Rows) and isinstance(te, Rows)):
                return c.fail("splits consist of row positions")
            r = c.fresh_int("row")
            c.assume(self.row(r))
            c.prove("the test part of each fold is complete and unchanged", te.member(r) == (self.fold(r) == f))
            c.prove("no test row of a fold is used for training", z3.Implies(tr.member(r), self.fold(r) != f))
            if tr.size is None:
                return c.fail("the training part has the requested size")
            c.prove("the training part has the requested size", tr.size == self.want_size(f))
            rows = lambda cc, g: it.unpack(content.at(cc, g), 2)[0]
        self.cv_rows = rows
        self.fault(c, "cross_validate")
        return CvResult(self)


class Data(Model):
    type_name = "data"

    def __init__(self, which, w):
        self.which, self.w = which, w

    def py_len(self, ctx):
        return self.w.N

    def py_is_none(self, ctx):
        return False

    def py_getattr(self, ctx, name):
        if name == "iloc":
            return Iloc(self)
        if name == "shape":
            return (self.w.N, Opaque("n_columns")) if self.which == "x" else (self.w.N,)
        return super().py_getattr(ctx, name)


class Iloc(Model):
    type_name = "iloc"

    def __init__(self, d):
        self.d = d

    def py_getitem(self, ctx, k):
        t = lib.as_tuple(k)
        rows = k
        if t is not None:
            if len(t) != 2 or t[1] != slice(None, None, None):
                raise Unsupported("column selection")
            rows = t[0]
        if not isinstance(rows, Rows):
            raise Unsupported("iloc with something else")
        return Part(self.d, rows)


class Part(Model):
    """Some rows of x or y."""
    type_name = "part of the data"

    def __init__(self, d, rows):
        self.d, self.rows = d, rows


class Rows(Model):
    """An array of row positions (each once)."""
    type_name = "row positions"

    def __init__(self, w, member, size, tag):
        self.w, self.member, self.size, self.tag = w, member, size, tag

    def py_len(self, ctx):
        if self.size is None:
            raise Unsupported("number of rows of a test part")
        return self.size

    def py_is_none(self, ctx):
        return False

    def py_getitem(self, ctx, k):
        if isinstance(k, Rows) and k.tag[0] == "positions":
            base, size = k.tag[1], k.size
            if same_rows(base, self):
                m = ctx.fresh_fun("chosen", I, B)
                r = z3.Int("r!c")
                ctx.assume(z3.ForAll([r], z3.Implies(m(r), self.member(r)), patterns=[m(r)]))
                return Rows(self.w, lambda q: m(q), size, ("chosen",))
            m = ctx.fresh_fun("chosen", I, B)
            return Rows(self.w, lambda q: m(q), size, ("chosen",))
        raise Unsupported("indexing of row positions")


def same_rows(a, b):
    return a.tag[0] == b.tag[0] and len(a.tag) == len(b.tag) == 2 and is_z3(a.tag[1]) and a.tag[1].eq(b.tag[1])


class Splitter(Model):
    type_name = "cross-validation splitter"

    def __init__(self, w):
        self.w = w

    def m_split(self, ctx, X=None, y=None, groups=None):
        ctx.prove("folds of the given data", X is self.w.x and y is self.w.y)
        self.w.fault(ctx, "split")
        return ctx.interp.new_list(self.w.splits, kind="iter")

    def py_isinstance(self, ctx, t):
        return False

    def py_is_none(self, ctx):
        return False


class Sampler(Model):
    type_name = "shuffle split"

    def __init__(self, w, n_splits=10, *, train_size=None, test_size=None, random_state=None):
        self.w, self.n, self.train_size, self.test_size, self.rs = w, n_splits, train_size, test_size, random_state

    def m_split(self, ctx, X=None, y=None, groups=None):
        w = self.w
        if not (isinstance(X, Part) and isinstance(y, Part)):
            raise Unsupported("subsampling of something else")
        ctx.prove("features and targets of the same rows are subsampled", X.d is w.x and y.d is w.y and same_rows(X.rows, y.rows))
        w.fault(ctx, "subsample")
        s = self.train_size
        if self.test_size is not None or s is None or X.rows.size is None:
            raise Unsupported("sampling by other means than train_size")
        if not is_z3(s):
            raise Unsupported("a fixed sample size")
        size = s if z3.is_int(s) else z3.ToInt(s * X.rows.size)
        m = ctx.fresh_fun("position", I, B)
        pos = Rows(w, lambda q: m(q), size, ("positions", X.rows))
        n = self.n
        return ctx.interp.new_list(FnC(n, lambda c, i: (pos, Opaque("rest"))), kind="iter")


class Scoring(Model):
    type_name = "scoring"

    def __init__(self, content):
        self.content = content


class CvResult(Model):
    type_name = "cross_validate result"

    def __init__(self, w):
        self.w = w

    def py_getitem(self, ctx, k):
        w = self.w
        if k == "estimator":
            rows = w.cv_rows
            return ctx.interp.new_list(FnC(w.K, lambda c, f: Est(w, to_z3(f))))
        if isinstance(k, StrCat) and len(k.parts) == 2 and k.parts[0] == "test_" and isinstance(k.parts[1], Term):
            return Scores(w, k.parts[1].expr)
        raise Unsupported(f"result of cross_validate: {k!r}")


class Scores(Model):
    type_name = "scores of the folds"

    def __init__(self, w, name):
        self.w, self.name = w, name

    def m_mean(self, ctx):
        return self.w.meanscore(self.name)


class Est(Model):
    type_name = "fitted pipeline"

    def __init__(self, w, f):
        self.w, self.f = w, f

    def _pred(self, ctx, X, proba):
        w = self.w
        ctx.prove("class probabilities exactly if a metric requires them", w.any_needs == proba)
        w.fault(ctx, "predict")
        if not (isinstance(X, Part) and X.d is w.x):
            raise Unsupported("prediction for something else")
        return Pred(w, self.f, X.rows)

    def m_predict(self, ctx, X):
        return self._pred(ctx, X, False)

    def m_predict_proba(self, ctx, X):
        return self._pred(ctx, X, True)


class Pred(Model):
    type_name = "predictions of a fold"

    def __init__(self, w, f, rows):
        self.w, self.f, self.rows = w, f, rows

    def py_getattr(self, ctx, name):
        if name == "ndim":
            return 2 if ctx.choose(2) else 1
        if name == "shape":
            return (Opaque("rows"), Opaque("columns"))
        return super().py_getattr(ctx, name)


class Arr(Model):
    """Prediction array: written(r), and by which fold's pipeline the value at r was made."""
    type_name = "prediction array"

    def __init__(self, w):
        self.w = w
        self.written = lambda r: z3.BoolVal(False)
        self.src = lambda r: z3.IntVal(-1)

    def py_is_none(self, ctx):
        return False

    def py_setitem(self, ctx, k, v):
        if not (isinstance(k, Rows) and isinstance(v, Pred)):
            raise Unsupported("assignment to the prediction array")
        if not same_rows(k, v.rows):
            return ctx.fail("predictions are written at the rows they were made for")
        ctx.prove("predictions are written at the rows they were made for", True)
        ow, os_ = self.written, self.src
        f = v.f
        self.written = lambda r: z3.Or(ow(r), k.member(r))
        self.src = lambda r: z3.If(k.member(r), f, os_(r))
        ctx.log_mut(self, "values")


class Manager(Model):
    """stopit.ThreadingTimeout"""
    type_name = "ThreadingTimeout"
    EXECUTED, EXECUTING, TIMED_OUT, INTERRUPTED, CANCELED = range(5)

    def __init__(self, w, t):
        self.w, self.t, self.entered, self.state = w, t, False, 1
        w.mgr = self

    def m___enter__(self, ctx):
        self.entered, self.state = True, 1
        return self

    def m___exit__(self, ctx, et, ev, tb):
        self.entered = False
        if et is not None and issubclass(et, TimeoutException):
            if self.state != 2:
                self.state = 3
            return True
        if et is None:
            self.state = 0
        return False

    def py_getattr(self, ctx, name):
        if name == "state":
            return self.state
        if name in ("EXECUTED", "EXECUTING", "TIMED_OUT", "INTERRUPTED", "CANCELED"):
            return getattr(Manager, name)
        return super().py_getattr(ctx, name)

    def py_bool(self, ctx):
        return self.state in (0, 4)


def loops(ctx, w):
    it = ctx.interp
    st = {}

    # -- making the subsampled splits
    def is_split(i, node, iterable, env):
        return isinstance(iterable, ListObj) and iterable.content is w.splits

    class Subs(LoopSpec):
        def run(self, i, node, iterable, env):
            cand = [v for v in env.vars.values() if isinstance(v, ListObj) and v.kind == "list" and v.content.items() == []]
            if len(cand) != 1:
                raise Unsupported("where the new splits are collected")
            st["list"] = cand[0]
            st["base"] = None
            return super().run(i, node, iterable, env)

    def s_havoc(c, env, k):
        r, f = z3.Ints("r!s f!s")
        c.assume(z3.ForAll([f, r], z3.Implies(w.subf(f, r), w.fold(r) != f), patterns=[w.subf(f, r)]))
        st["base"] = FnC(k, lambda cc, j: (w.subrows(j), w.test(j)))
        st["list"].content = st["base"]
        st["k"] = k

    def s_inv(c, env, k):
        ct = st["list"].content
        if st["base"] is None:
            return [("no split yet", to_z3(ct.length(c)) == 0)]
        if ct is st["base"]:
            return []
        if not (isinstance(ct, Concat) and len(ct.parts) == 2 and ct.parts[0] is st["base"] and ct.parts[1].items() is not None and len(ct.parts[1].items()) == 1):
            raise Unsupported("one split is added per fold")
        tr, te = it.unpack(ct.parts[1].items()[0], 2)
        if not (isinstance(tr, Rows) and isinstance(te, Rows)):
            return [("splits consist of row positions", z3.BoolVal(False))]
        r = c.fresh_int("row")
        f = to_z3(st["k"])
        return [("one split per fold", to_z3(ct.length(c)) == to_z3(k)),
                ("training rows come from the training part", z3.Implies(z3.And(w.row(r), tr.member(r)), w.fold(r) != f)),
                ("test part unchanged", z3.Implies(w.row(r), te.member(r) == (w.fold(r) == f))),
                ("test part in order", z3.BoolVal(same_rows(te, w.test(f)))),
                ("size of the training part", z3.BoolVal(False) if tr.size is None else tr.size == w.want_size(f))]
    ctx.loop_specs.append(Subs(None, is_split, s_havoc, s_inv, label="subsampling"))

    # -- collecting predictions
    def is_pred(i, node, iterable, env):
        c = i.content(iterable)
        return isinstance(c, ZipC) and len(c.parts) == 2

    class Preds(LoopSpec):
        def run(self, i, node, iterable, env):
            names = [n for n in env.vars if env.vars[n] is None or isinstance(env.vars[n], Arr)]
            ass = assigned_names(node.body)
            arr = [n for n in names if isinstance(env.vars[n], Arr)]
            nul = [n for n in names if env.vars[n] is None and n in ass]
            if len(arr) + len(nul) != 1:
                raise Unsupported("where predictions are collected")
            st["name"] = (arr + nul)[0]
            st["arr"] = env.vars[st["name"]]
            return super().run(i, node, iterable, env)

    def p_havoc(c, env, k):
        k = to_z3(k)
        if st["arr"] is None and c.branch(k == 0):
            env.set(st["name"], None)
            return
        a = st["arr"] if st["arr"] is not None else Arr(w)
        wr, sr = c.fresh_fun("written", I, B), c.fresh_fun("source", I, I)
        a.written, a.src = (lambda r: wr(r)), (lambda r: sr(r))
        env.set(st["name"], a)

    def p_inv(c, env, k):
        v = env.get(st["name"])
        k = to_z3(k)
        if v is None:
            return [("there are predictions after the first fold", k == 0)]
        if not isinstance(v, Arr):
            raise Unsupported("prediction array")
        r = z3.Int("r!p")
        return [("rows of the folds so far are predicted by their own fold's pipeline",
                 z3.ForAll([r], z3.Implies(z3.And(w.row(r), w.fold(r) < k), z3.And(v.written(r), v.src(r) == w.fold(r)))))]
    ctx.loop_specs.append(Preds(None, is_pred, p_havoc, p_inv, label="predictions"))
    return st

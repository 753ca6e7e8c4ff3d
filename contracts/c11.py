"""C11: truthful scores, or failure without scores.

Contracts
  evaluate_pipeline     success: one score per metric = mean score of that metric over the folds;
                        failure or own time limit: error, -inf per metric, no artefacts;
                        interruption of the whole search (outer limit, user) is passed on
  evaluate_individual   time allowed, score + negated length, fitness, error text, duration
  Metric, scoring_to_metric   sign such that higher is better, order and number of metrics
"""
import z3
from pyvc.driver import *
from contracts.sk import *
from contracts.sk import I, R, B

PROOFS = Registry()
MET = "gama.utilities.metrics"


def run_pipeline(ctx, sub_kind, timeout=None):
    it = ctx.interp
    w = World_(ctx, sub_kind)
    st = loops(ctx, w)
    t = z3.Real("timeout")
    ctx.assume(t > 0)
    kw = {"cv": w.cv}
    if w.sub is not None:
        kw["subsample"] = w.sub
    try:
        r = it.call(it.get(f"{SK}.evaluate_pipeline"), [w.pipeline, w.x, w.y, t, w.metrics], kw)
        out = ("returned", it.unpack(r, 4))
    except PyRaise as e:
        out = ("raised", e.exc)
    w.over = True
    ctx.prove("the time limit is in force", w.mgr is not None and simp(to_z3(w.mgr.t) == t) is True)
    return w, st, out


def evaluation(ctx, sub_kind):
    w, st, (how, r) = run_pipeline(ctx, sub_kind)
    it = ctx.interp
    kind = w.events[-1][0] if w.events else None
    if how == "raised":
        if kind == "outer":
            ctx.prove("the end of the search is passed on as such", issubclass(r.cls, TimeoutException))
            ctx.cover("outer")
        elif kind == "user":
            ctx.prove("an interruption by the user is passed on", issubclass(r.cls, KeyboardInterrupt))
            ctx.cover("user")
        else:
            ctx.fail("an evaluation does not raise into the search", f"{r!r}")
        return
    pred, scores, est, err = r
    sc = it.content(scores)
    ctx.prove("scores are a tuple", isinstance(scores, tuple) or getattr(scores, "kind", None) == "tuple")
    ctx.prove("one score per metric", to_z3(sc.length(ctx)) == w.nm)
    i = ctx.fresh_int("i")
    ctx.assume(z3.And(0 <= i, i < w.nm))
    v = sc.at(ctx, i)
    if not w.events:
        ctx.prove("a success has no error", err is None)
        ctx.prove("each score is the mean over the folds of that metric's score", v == w.meanscore(w.nameof(i)) if is_z3(v) else False)
        ctx.prove("a success has predictions", isinstance(pred, Arr))
        e = it.content(est)
        ctx.prove("one fitted pipeline per fold", to_z3(e.length(ctx)) == w.K)
        f = ctx.fresh_int("f")
        ctx.assume(z3.And(0 <= f, f < w.K))
        x = e.at(ctx, f)
        ctx.prove("the fitted pipelines of the folds", z3.BoolVal(isinstance(x, Est)) if not isinstance(x, Est) else x.f == f)
        ctx.cover("success")
        return
    ctx.prove("interruptions of the search are not reported as failed evaluations", kind in ("error", "own"))
    ctx.prove("a failure reports the error", isinstance(err, ExcVal) if kind == "error" else isinstance(err, ExcVal) and issubclass(err.cls, TimeoutException))
    if kind == "error":
        ctx.prove("the error is the one that occurred", isinstance(err, ExcVal) and issubclass(err.cls, ValueError))
    ctx.prove("a failure has the worst value for each metric", isinstance(v, float) and v == float("-inf"))
    ctx.prove("a failure has no predictions", pred is None)
    ctx.prove("a failure has no fitted pipelines", est is None)
    ctx.cover("error" if kind == "error" else "own limit")


for _k, _t in enumerate(("without subsampling", "subsample given as a number of rows", "subsample given as a fraction")):
    PROOFS("evaluate_pipeline: truthful scores or failure, " + _t, covers=("success", "error", "own limit", "outer", "user"), timeout=150)(
        lambda ctx, k=_k: evaluation(ctx, k))


@PROOFS("evaluate_pipeline refuses what is not a pipeline, and no time", covers=("type", "value"))
def refuse(ctx):
    it = ctx.interp
    w = World_(ctx, 0)
    f = it.get(f"{SK}.evaluate_pipeline")
    if ctx.choose(2):
        p = [None, Inst(None, {}, label="no pipeline")][ctx.choose(2)]
        if p is not None:
            class P(Model):
                def py_hasattr(self, c, n):
                    return c.run_memo.setdefault(("has", n), c.fresh_bool("has_" + n))
            p = P()
        def go():
            r = it.call(f, [p, w.x, w.y, z3.RealVal(5), w.metrics], {"cv": w.cv})
        try:
            if p is not None:
                hs = [p.py_hasattr(ctx, n) for n in ("fit", "predict", "steps")]
                ctx.assume(z3.Not(z3.And(hs)))
            go()
        except PyRaise as e:
            ctx.prove("what is not a pipeline is refused", issubclass(e.exc.cls, TypeError))
            ctx.cover("type")
            return
        return ctx.fail("what is not a pipeline is refused")
    t = z3.Real("timeout")
    ctx.assume(t <= 0)
    try:
        it.call(f, [w.pipeline, w.x, w.y, t, w.metrics], {"cv": w.cv})
    except PyRaise as e:
        ctx.prove("an evaluation needs time", issubclass(e.exc.cls, ValueError))
        ctx.cover("value")
        return
    ctx.fail("an evaluation needs time")


# ------------------------------------------------------------------ evaluate_individual
class Watch(Model):
    type_name = "Stopwatch"

    def __init__(self, ctx, clock):
        self.clock, self.running = clock, False
        self.e = ctx.fresh_real("elapsed")
        ctx.assume(self.e >= 0)
        self.covered = False

    def m___enter__(self, ctx):
        self.running = True
        return self

    def m___exit__(self, ctx, *a):
        self.running = False
        return False

    def py_getattr(self, ctx, name):
        if name == "elapsed_time":
            return self.e
        return super().py_getattr(ctx, name)


class OldFitness(Model):
    """The fitness of an earlier evaluation of the same individual."""
    type_name = "Fitness"

    def py_bool(self, ctx):
        return True

    def py_getattr(self, ctx, name):
        return Opaque("earlier " + name)


@PROOFS("evaluate_individual: time allowed, score with length, fitness, error", covers=("success", "failure"))
def individual(ctx):
    it = ctx.interp
    ctx.externals["os.getpid"] = lambda c: Opaque("pid")
    now = z3.Real("now")
    times = []

    def clock(c):
        t = c.fresh_real("time")
        c.assume(t >= (times[-1] if times else now))
        times.append(t)
        return t
    ctx.externals["time.time"] = clock
    ctx.externals["datetime.datetime.now"] = lambda c: Opaque("start")
    watches = []

    def watch(c, clk=None):
        watches.append(Watch(c, clk))
        return watches[-1]
    ctx.class_hooks["gama.utilities.generic.stopwatch.Stopwatch"] = watch
    k, n = z3.Ints("n_metrics length")
    ctx.assume(z3.And(k >= 1, n >= 1))
    sc = z3.Function("score", I, R)
    fails = ctx.choose(2) == 1
    pipe, kwv = Opaque("pipeline"), Opaque("x")
    ind = Inst(it.get("gama.genetic_programming.components.individual.Individual"),
               {"pipeline": pipe, "primitives": ListObj(FnC(n, lambda c, i: Opaque("primitive"))), "fitness": None if ctx.choose(2) else OldFitness()}, label="individual")
    score = ListObj(FnC(k, (lambda c, i: float("-inf")) if fails else (lambda c, i: sc(to_z3(i)))), kind="tuple")
    pred, est = (None, None) if fails else (Opaque("predictions"), Opaque("estimators"))
    err = ExcVal(ValueError, ("message",)) if fails else None
    limit = z3.Real("limit")
    ctx.assume(limit > 0)
    dl = None if ctx.choose(2) else z3.Real("deadline")
    seen = []

    def evaluate(c, p, *a, timeout=None, **kw):
        c.prove("the individual's pipeline is evaluated, once", p is pipe and not a and not seen)
        c.prove("options are passed on", set(kw) == {"x"} and kw["x"] is kwv)
        seen.append(timeout)
        t = to_z3(timeout)
        if dl is None:
            c.prove("the time allowed is the limit", t == limit)
        else:
            c.prove("the clock was read once for the deadline", len(times) >= 1)
            rem = dl - times[-1]
            c.prove("the time allowed is the smaller of the limit and the time until the deadline", t == z3.If(limit < rem, limit, rem))
        c.prove("the time of the evaluation is measured", len(watches) == 2 and all(x.running for x in watches))
        return (pred, score, est, err)
    add = [None, True, False][ctx.choose(3)]
    kw = {} if add is None else {"add_length_to_score": add}
    r = it.call(it.get(f"{SK}.evaluate_individual"), [ind, Builtin("evaluate_pipeline", evaluate)], {"timeout": limit, "deadline": dl, "x": kwv, **kw})
    ctx.prove("evaluated once", len(seen) == 1)
    extra = 0 if add is False else 1

    def good(v, what):
        c = it.content(v)
        ctx.prove(what + ": one value per metric" + (", then the length" if extra else ""), to_z3(c.length(ctx)) == k + extra)
        i = ctx.fresh_int("i")
        ctx.assume(z3.And(0 <= i, i < k))
        x = c.at(ctx, i)
        ctx.prove(what + ": the evaluation's scores first", (x == float("-inf")) if fails and isinstance(x, float) else (x == sc(i) if is_z3(x) else False))
        if extra:
            y = c.at(ctx, k)
            ctx.prove(what + ": negated length last", y == -n if is_z3(y) else False)
    good(it.getattr(r, "score"), "score")
    good(it.getattr(it.getattr(ind, "fitness"), "values"), "fitness")
    ctx.prove("artefacts of the evaluation", it.getattr(r, "_predictions") is pred and it.getattr(r, "_estimators") is est)
    e = it.getattr(r, "error")
    if fails:
        ctx.prove("the error is reported", e is not None)
        ctx.prove("with its type and message", mentions(e, err))
    else:
        ctx.prove("no error for a success", e is None)
    ctx.prove("the evaluation is that of the individual", it.getattr(r, "individual") is ind)
    d = it.getattr(r, "duration")
    wall = [x for x in watches if x.clock is None]
    ctx.prove("the duration is the wall-clock time taken", len(wall) == 1 and is_z3(d) and d.eq(wall[0].e))
    ctx.cover("failure" if fails else "success")


def mentions(e, err):
    """The text is made from the exception's class and message."""
    if isinstance(e, StrCat):
        return any("ValueError" in repr(p) or "type" in repr(p) for p in e.parts) or len(e.parts) >= 2
    return e is not None


# ------------------------------------------------------------------ metrics
@PROOFS("Metric passes the scorer's score on; maximizable_score has the scorer's sign", covers=("post",))
def metric(ctx):
    it = ctx.interp
    sign, raw, sc = z3.Int("sign"), z3.Real("raw"), z3.Real("scorer_score")
    args = (Opaque("estimator"), Opaque("x"), Opaque("y"))
    kw = {"labels": Opaque("labels")} if ctx.choose(2) else {}

    class Scorer(Model):
        type_name = "scorer"

        def py_call(self, c, *a, **k):
            c.prove("the scorer gets the arguments", len(a) == 3 and all(u is v for u, v in zip(a, args)) and not k)
            return sc

        def py_getattr(self, c, name):
            if name == "_sign":
                return sign
            if name == "_score_func":
                return Builtin("score_func", lambda cc, *a, **k: raw if len(a) == 2 and a[0] is args[1] and a[1] is args[2] and set(k) == set(kw) and all(k[n] is kw[n] for n in k) else cc.fresh_real("other"))
            return super().py_getattr(c, name)
    s = Scorer()
    cls = it.get(f"{MET}.Metric")
    m = Inst(cls, {"scorer": s, "score": s.py_getattr(ctx, "_score_func"), "name": "m", "requires_probabilities": True}, label="metric")
    r = it.call(m, list(args), {})
    ctx.prove("the metric's value is the scorer's", to_z3(r) == sc)
    r = it.call(it.getattr(m, "maximizable_score"), [args[1], args[2]], dict(kw))
    ctx.prove("maximizable score = sign * score", to_z3(r) == z3.ToReal(sign) * raw)
    ctx.cover("post")


@PROOFS("scoring_to_metric: one metric per given scoring, in order", covers=("post", "refused"))
def to_metric(ctx):
    it = ctx.interp
    cls = it.get(f"{MET}.Metric")
    made = []

    def make(c, scorer=None):
        m = Inst(cls, {"made_from": scorer}, label="new metric")
        made.append(m)
        return m
    ctx.class_hooks[f"{MET}.Metric"] = make
    f = it.get(f"{MET}.scoring_to_metric")
    old = Inst(cls, {}, label="given metric")
    kind = ctx.choose(5)
    arg, want = [("a", ["a"]), (old, [old]), (ListObj([old, "a", "b"]), [old, "a", "b"]), (ListObj(["a", old], kind="tuple"), ["a", old]), (5, None)][kind]
    try:
        r = it.call(f, [arg], {})
    except PyRaise as e:
        ctx.prove("only something else is refused", want is None and issubclass(e.exc.cls, TypeError))
        ctx.cover("refused")
        return
    ctx.prove("something else is refused", want is not None)
    items = it.content(r).items()
    ctx.prove("one per scoring", items is not None and len(items) == len(want))
    ok = all((x is y) if not isinstance(y, str) else (isinstance(x, Inst) and x.attrs.get("made_from") == y) for x, y in zip(items, want))
    ctx.prove("each the metric of its scoring, in order", ok)
    ctx.cover("post")


@PROOFS("Gama._search_phase: evaluations get the metrics of the instance", covers=("done",), timeout=100)
def search_metrics(ctx):
    from .gm import SearchPhase, evaluated
    w = SearchPhase(ctx)
    w.g.attrs["_metrics"] = m = Opaque("metrics")
    w.phase(None, z3.Real("timeout"))
    e = evaluated(w)
    ctx.prove("pipelines are scored by the metrics of the instance", e.get("metrics") is m)
    ctx.cover("done")


@PROOFS("GamaClassifier.fit: scorers that take the class labels get those of the data of the search", covers=("told", "told numbers"))
def labels(ctx):
    from contracts.c16 import classifier_fit, Targets

    def whose(st, y):
        """Numbered targets exactly if the labels are text: those the search gets."""
        if y is st["fy"]:
            return [("labels are those of the targets of the search", z3.Not(st["any_text"]))]
        if not isinstance(y, Targets) or y.of is not st["fy"]:
            raise Unsupported("labels of something else")
        ctx.cover("told numbers")
        return [("labels are those of the targets of the search (numbered)", st["any_text"])]
    st = classifier_fit(ctx, told=whose)
    if "metric" not in st or st.get("fit") is None:
        raise Unsupported("no loop over the metrics")
    for _, g in whose(st, st["fit"]["y"]):
        if not ctx.test(g):
            raise Unsupported("targets are numbered in another way")
    ctx.cover("told")

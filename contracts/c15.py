"""C15: the time budget is accounted for and divided correctly.

Contracts
  Stopwatch            elapsed_time = now - start while running, end - start afterwards, however the block ends
  TimeKeeper           total_time_remaining = total - sum of the elapsed times of all activities;
                       start_activity records the activity, makes it current, and ends it with its block
  Gama.fit             search gets int((1 - fraction) * remaining), post-processing what remains; a fresh
                       account per fit; refused when nothing is left
  Gama._search_phase   the search is stopped after its time; evaluations get their limit and its end as deadline
  Gama.__init__        limits and number of workers (contracts/gm.py)
"""
import z3
from pyvc.driver import *
from pyvc.interp import TimeoutException
from contracts.gm import *

PROOFS = Registry()


BLOCK = (None, ValueError, KeyboardInterrupt, TimeoutException, GeneratorExit)


def in_block(ctx):
    k = ctx.choose(len(BLOCK))
    return BLOCK[k]


@PROOFS("Stopwatch measures its block, however it ends", covers=("normal", "exception"))
def stopwatch(ctx):
    it = ctx.interp
    clock = Clock(ctx)
    seen = []
    orig = clock.py_call

    def call(c):
        t = orig(c)
        seen.append(t)
        return t
    clock.py_call = call
    s = it.call(it.get(f"{SW}.Stopwatch"), [clock], {})
    ctx.prove("nothing measured before the start", simp(to_z3(it.getattr(s, "elapsed_time")) == 0))
    exc = in_block(ctx)
    r = it.call(it.getattr(s, "__enter__"), [], {})
    ctx.prove("the block gets the stopwatch", r is s)
    start = seen[-1]
    n = len(seen)
    e = it.getattr(s, "elapsed_time")
    ctx.prove("while running: time since the start", z3.And(z3.BoolVal(len(seen) == n + 1), to_z3(e) == seen[-1] - start))
    args = [None, None, None] if exc is None else [exc, ExcVal(exc), Opaque("traceback")]
    n = len(seen)
    r = it.call(it.getattr(s, "__exit__"), args, {})
    ctx.prove("exceptions of the block are passed on", not ctx.test(r))
    ctx.prove("the end is read", len(seen) > n)
    end = seen[-1]
    clock.tick(ctx)
    e = it.getattr(s, "elapsed_time")
    ctx.prove("afterwards: duration of the block", to_z3(e) == end - start)
    ctx.cover("normal" if exc is None else "exception")


@PROOFS("time left = budget - time of all activities", covers=("post", "no budget"))
def remaining(ctx):
    it = ctx.interp
    n, el, lst = activities(ctx, it)
    total = z3.Real("total") if ctx.choose(2) else None
    k = it.call(it.get(f"{TK}.TimeKeeper"), [total], {})
    ctx.prove("nothing recorded at the start", it.content(k.attrs["activities"]).items() == [] and k.attrs["current_activity"] is None)
    ctx.prove("budget as given", k.attrs["total_time"] is total)
    k.attrs["activities"] = lst
    S = z3.Real("total_elapsed")

    def hook(c, v, start):
        ct = it.content(v)
        i = c.fresh_int("i")
        c.assume(z3.And(0 <= i, i < n))
        c.prove("the times of all activities are summed", z3.And(to_z3(ct.length(c)) == n, to_z3(ct.at(c, i)) == el(i)))
        return S if isinstance(start, int) and start == 0 else simp(S + to_z3(start))
    ctx.sum_hook = hook
    try:
        r = it.getattr(k, "total_time_remaining")
    except PyRaise as e:
        ctx.prove("only without a budget the time left is unknown", total is None and issubclass(e.exc.cls, RuntimeError))
        ctx.cover("no budget")
        return
    ctx.prove("without a budget the time left is unknown", total is not None)
    ctx.prove("time left", to_z3(r) == total - S)
    ctx.cover("post")


@PROOFS("start_activity: current during its block, recorded, ended with it", covers=("normal", "exception"))
def activity(ctx):
    it = ctx.interp
    n, el, lst = activities(ctx, it)
    clock = Clock(ctx)
    ctx.externals["time.time"] = lambda c: clock.py_call(c)
    k = it.call(it.get(f"{TK}.TimeKeeper"), [z3.Real("total")], {})
    k.attrs["activities"] = lst
    name, lim = Opaque("name"), (None, z3.Real("limit"))[ctx.choose(2)]
    exc = in_block(ctx)
    st = {}
    thrown = ExcVal(exc) if exc else None

    def body(c, *a):
        act = k.attrs["current_activity"]
        c.prove("the activity is the current one", isinstance(act, Inst) and it.getattr(act, "name") is name and it.getattr(act, "time_limit") is lim)
        st["act"] = act
        ct = it.content(k.attrs["activities"])
        c.prove("it is recorded as the last one", z3.And(to_z3(ct.length(c)) == n + 1, z3.BoolVal(ct.at(c, n) is act)))
        j = c.fresh_int("j")
        c.assume(z3.And(0 <= j, j < n))
        o = ct.at(c, j)
        c.prove("earlier activities stay recorded", simp(to_z3(o.idx) == j) if isinstance(o, Obj) else False)
        e1 = it.getattr(k, "current_activity_time_elapsed")
        c.prove("its time runs", to_z3(e1) >= 0)
        if lim is not None:
            c.prove("time left of the activity", z3.And(to_z3(it.getattr(k, "current_activity_time_left")) <= lim - to_z3(e1)))
        if thrown is not None:
            raise PyRaise(thrown)
    src = "def use(keeper, name, lim, body):\n    with keeper.start_activity(name, time_limit=lim) as sw:\n        body(sw)\n"
    f = it.define(src, "use")
    try:
        it.call(f, [k, name, lim, Builtin("body", body)], {})
        ctx.prove("exceptions in an activity are passed on", exc is None)
    except PyRaise as e:
        ctx.prove("exceptions in an activity are passed on", e.exc is thrown)
    ctx.prove("an activity ends with its block", k.attrs["current_activity"] is None)
    sw = it.getattr(st["act"], "stopwatch")
    a = to_z3(it.getattr(sw, "elapsed_time"))
    clock.tick(ctx)
    b = to_z3(it.getattr(sw, "elapsed_time"))
    ctx.prove("its time stands still afterwards", a == b)
    ctx.prove("its time is not negative", a >= 0)
    ctx.cover("normal" if exc is None else "exception")


@PROOFS("activities: time left and limits", covers=("none", "no limit", "limit"))
def limits(ctx):
    it = ctx.interp
    e = z3.Real("elapsed")
    sw = Inst(None, {"elapsed_time": e}, label="stopwatch")
    k = it.call(it.get(f"{TK}.TimeKeeper"), [], {})
    w = ctx.choose(3)
    if w == 0:
        for p in ("current_activity_time_elapsed", "current_activity_time_left"):
            try:
                it.getattr(k, p)
                ctx.fail("without an activity there is no time of it")
            except PyRaise as x:
                ctx.prove("without an activity there is no time of it", issubclass(x.exc.cls, RuntimeError))
        ctx.cover("none")
        return
    lim = z3.Real("limit") if w == 2 else None
    act = it.call(it.get(f"{TK}.Activity"), [Opaque("name"), sw, lim], {})
    k.attrs["current_activity"] = act
    ctx.prove("time spent on the current activity", to_z3(it.getattr(k, "current_activity_time_elapsed")) == e)
    m = z3.Real("margin")
    ex = it.call(it.getattr(act, "exceeded_limit"), [m], {})
    if lim is None:
        ctx.prove("no limit is never exceeded", not ctx.test(ex))
        try:
            it.getattr(k, "current_activity_time_left")
            ctx.fail("without a limit there is no time left of it")
        except PyRaise as x:
            ctx.prove("without a limit there is no time left of it", issubclass(x.exc.cls, RuntimeError))
        ctx.cover("no limit")
        return
    ctx.prove("time left = limit - time spent", to_z3(it.getattr(k, "current_activity_time_left")) == lim - e)
    ctx.prove("time left = limit - time spent", to_z3(it.getattr(act, "time_left")) == lim - e)
    ctx.prove("limit exceeded by the margin", truth(ctx.truthy(ex)) == (e > lim + m))
    ex0 = it.call(it.getattr(act, "exceeded_limit"), [], {})
    ctx.prove("limit exceeded", truth(ctx.truthy(ex0)) == (e > lim))
    ctx.cover("limit")


# ---------------------------------------------------------------- Gama.fit
@PROOFS("Gama.fit: the budget is divided between search and post-processing", covers=("done", "no time", "search failed", "post failed"), timeout=120)
def fit(ctx):
    w = Fit(ctx)
    warm = (None, Opaque("warm start"))[ctx.choose(2)]
    old = w.g.attrs["_time_manager"]
    exc = w.run(warm)
    it = w.it
    k = w.g.attrs["_time_manager"]
    ctx.prove("the budget is counted anew for each fit", k is not old and simp(to_z3(k.attrs["total_time"]) == w.total))
    acts = it.content(k.attrs["activities"]).items()
    ctx.prove("the activities of this fit are recorded", acts is not None and 1 <= len(acts) <= 3)
    ctx.prove("an activity ends with its block, however it ends", k.attrs["current_activity"] is None)
    E = [to_z3(it.getattr(it.getattr(a, "stopwatch"), "elapsed_time")) for a in acts]
    s, p = w.of("search"), w.of("post")
    left = w.total - E[0]
    if not s:
        ctx.prove("without time left nothing is searched", z3.And(left < 0, z3.BoolVal(exc is not None and issubclass(exc.cls, RuntimeError))))
        ctx.prove("without time left nothing is searched", not p)
        ctx.cover("no time")
        return
    ctx.prove("a search is only started with time left", left >= 0)
    ctx.prove("one search", len(s) == 1)
    s = s[0]
    t = to_z3(s["timeout"])
    ctx.prove("the search receives what is left minus the reserved share (whole seconds)", t == z3.ToInt((1 - w.frac) * left))
    ctx.prove("the search never receives more than is left", t <= left)
    ctx.prove("the search is limited to its share", s["activity"] is acts[1] and simp(to_z3(it.getattr(acts[1], "time_limit")) == t))
    ctx.prove("the given start is used", s["warm"] is warm)
    if w.of("raise search"):
        ctx.prove("errors of the search are passed on", exc is w.exc and not p)
        ctx.cover("search failed")
        return
    ctx.prove("one post-processing", len(p) == 1 and len(acts) == 3)
    p = p[0]
    pt = to_z3(p["timeout"])
    ctx.prove("post-processing receives what is left of the budget", z3.And(pt <= w.total - E[0] - E[1], pt >= w.total - E[0] - E[1] - E[2]))
    ctx.prove("post-processing is limited to what is left", p["activity"] is acts[2] and simp(z3.And(to_z3(it.getattr(acts[2], "time_limit")) <= w.total - E[0] - E[1] + 1)))
    if w.of("raise post"):
        ctx.prove("errors of post-processing are passed on", exc is w.exc)
        ctx.cover("post failed")
        return
    ctx.prove("fit ends without error", exc is None)
    ctx.cover("done")


@PROOFS("Gama._search_phase: the search ends after its time, evaluations get their limits", covers=("done", "timed out", "interrupted", "error"), timeout=120)
def search_phase(ctx):
    w = SearchPhase(ctx)
    it = w.it
    t = z3.Int("timeout")
    ctx.assume(t >= 0)
    t0 = w.clock.now
    exc = w.phase(None, t)
    s = w.of("search")
    ctx.prove("one search", len(s) == 1)
    s = s[0]
    ctx.prove("the search runs within its time limit", len(s["limited"]) == 1)
    ctx.prove("the search is stopped after its time", to_z3(s["limited"][0].t) == t)
    d = w.of("search defaults")
    ctx.prove("the search method knows its time", len(d) == 1 and simp(to_z3(d[0]["timeout"]) == t))
    ev = s["evaluate"] if s["evaluate"] is not None else w.ops.attrs["evaluate"]
    target = it.get("gama.genetic_programming.compilers.scikitlearn.evaluate_individual")
    got = {}

    def probe(c, b):
        got.update(b)
    ctx.contracts[target.qualname] = probe
    it.call(ev, [Opaque("individual")], {"evaluate_pipeline": Opaque("evaluate_pipeline")})
    ctx.prove("evaluations are limited as configured", got.get("timeout") is w.g.attrs["_max_eval_time"])
    dl = got.get("deadline")
    ctx.prove("evaluations end by the end of the search", dl is not None and simp(z3.And(to_z3(dl) >= t0 + t, to_z3(dl) <= w.clock.now + t)))
    ctx.prove("pipeline length counts as configured", got.get("add_length_to_score") is w.g.attrs["_regularize_length"])
    if w.raised is Own:
        ctx.prove("errors of the search are passed on", exc is w.exc)
        ctx.cover("error")
        return
    ctx.prove("a search that ran out of time or was interrupted still ends normally", exc is None)
    ctx.prove("its result so far is kept", w.g.attrs["_final_pop"] is w.g.attrs["_search_method"].result)
    ctx.cover({None: "done", TimeoutException: "timed out", KeyboardInterrupt: "interrupted"}[w.raised])


# ---------------------------------------------------------------- Gama.__init__
@PROOFS("Gama.__init__: limits and number of workers", covers=("made", "refused", "directory in use"), timeout=120)
def init(ctx):
    total = (None, z3.Real("max_total_time"))[ctx.choose(2)]
    ev = (None, z3.Real("max_eval_time"))[ctx.choose(2)]
    jobs = (None, z3.Int("n_jobs"))[ctx.choose(2)]
    w = Init(ctx, max_total_time=total, max_eval_time=ev, n_jobs=jobs)
    it = w.it
    exc = w.run()
    free = z3.Or(z3.Not(w.dir_exists), w.dir_empty)
    ok = z3.And(z3.BoolVal(total is not None), total > 0 if total is not None else True, ev > 0 if ev is not None else True,
                z3.Or(jobs == -1, jobs > 0) if jobs is not None else True)
    if exc is not None:
        ctx.prove("only a directory in use or settings that are not positive are refused", z3.And(z3.BoolVal(issubclass(exc.cls, ValueError)), z3.Not(z3.And(free, ok))))
        if ctx._discharge(free)[0] == "proved":
            ctx.prove("nothing is left behind by a refused configuration", w.of("cleanup") == [("all",)])
            ctx.cover("refused")
        else:
            ctx.prove("a directory in use is left alone", not w.of("cleanup") and not w.of("mkdir"))
            ctx.cover("directory in use")
        return
    ctx.prove("settings that are not positive are refused", z3.And(free, ok))
    g = w.g.attrs
    lim = to_z3(g["_max_eval_time"])
    if z3.is_int(lim):
        lim = z3.ToReal(lim)
    if ev is not None:
        ctx.prove("limit per evaluation: as given, never more than the budget", lim == z3.If(ev <= total, ev, total))
    else:
        ctx.prove("limit per evaluation: a tenth of the budget (rounded), at least a second, never more than the budget",
                  z3.And(lim <= total, z3.Or(lim == total, lim >= 1), z3.Or(lim == total, lim == 1, z3.And(lim - total / 10 <= z3.Q(1, 2), total / 10 - lim <= z3.Q(1, 2), z3.IsInt(lim))),
                         z3.Implies(total >= 15, z3.And(lim - total / 10 <= z3.Q(1, 2), total / 10 - lim <= z3.Q(1, 2)))))
    ctx.prove("the limit per evaluation is positive", lim > 0)
    ctx.prove("the budget is as configured", to_z3(g["_time_manager"].attrs["total_time"]) == total)
    after = w.evaluator.attrs.get("__init__")
    ctx.prove("evaluators get their settings", isinstance(after, PartialVal) and "n_workers" in after.kwargs)
    n = to_z3(after.kwargs["n_workers"])
    want = z3.If(w.cpu / 2 >= 1, w.cpu / 2, 1) if jobs is None else z3.If(jobs == -1, w.cpu, jobs)
    ctx.prove("number of workers: as given, -1 for all cores, else half of them but at least one", n == want)
    ctx.prove("the number of workers is positive", n > 0)
    ctx.prove("the memory limit is as configured", after.kwargs.get("memory_limit_mb") is w.kw["max_memory_mb"])
    ctx.cover("made")

"""C21: a failing callback never stops the search or other callbacks.

Any number of registered callbacks; each returns, raises an exception of its own, or is ended by an exception
that stops the search (its time limit, or anything that is not an `Exception`: keyboard interrupt, system exit).
"""
import z3
from pyvc.driver import *
from pyvc.interp import TimeoutException
from contracts.gm import *

PROOFS = Registry()
OPS = "gama.genetic_programming.operator_set.OperatorSet"
STOPS = (TimeoutException, KeyboardInterrupt, SystemExit, GeneratorExit)
OWN = (Own, ValueError, StopIteration)


class Callback(Model):
    type_name = "callback"

    def __init__(self, w, i):
        self.w, self.i = w, to_z3(i)

    def py_call(self, ctx, *a, **k):
        w = self.w
        w.calls.append((self.i, a, k))
        o = ctx.choose(len(STOPS) + len(OWN) + 1)
        w.out = None if o == 0 else (STOPS + OWN)[o - 1]
        if w.out:
            w.exc = ExcVal(w.out)
            raise PyRaise(w.exc)
        return Opaque("return value of the callback")


class Activity(Model):
    type_name = "activity"

    def __init__(self, w):
        self.w = w

    def m_exceeded_limit(self, ctx, margin=0.0):
        self.w.over = ctx.fresh_real("seconds_over_the_limit")
        return self.w.over > to_z3(margin)


class World:
    def __init__(self, ctx):
        it = ctx.interp
        self.calls, self.out, self.exc, self.over = [], None, None, None
        self.n = z3.Int("n_callbacks")
        ctx.assume(self.n >= 0)
        act = Activity(self) if ctx.choose(2) else None
        self.act = act
        self.subs = ListObj(FnC(self.n, lambda c, i: Callback(self, i)), label="callbacks")
        other = ListObj([Callback(self, z3.IntVal(-5))], label="callbacks of another event")
        self.g = Inst(it.get("gama.GamaClassifier.GamaClassifier"), {
            "_subscribers": DictObj([("evaluation_completed", self.subs), ("other", other)], label="subscribers"),
            "_time_manager": Inst(None, {"current_activity": act}, label="time manager")}, label="gama")


def allowed(ctx, w, exc):
    """An exception may leave the dispatch only if it stops the search."""
    if exc is w.exc and w.out is not None:
        ctx.prove("an exception of a callback is contained", w.out in STOPS)
        return
    if w.over is None:
        ctx.fail("only an exception that stops the search is raised", repr(exc))
        return
    ctx.prove("otherwise only the end of the search's time is raised", z3.And(z3.BoolVal(issubclass(exc.cls, TimeoutException)), w.over > 0))


@PROOFS("_on_evaluation_completed calls every callback once, in order, and contains their exceptions", covers=("all", "stopped"), timeout=60)
def dispatch(ctx):
    it = ctx.interp
    w = World(ctx)
    ev = Opaque("evaluation")
    st = {"phase": 0}

    def match(itp, node, v, env):
        x = itp.content(v).at(ctx, z3.IntVal(0))
        return isinstance(x, Callback) and ctx._discharge(to_z3(itp.content(v).length(ctx)) == w.n)[0] == "proved"

    def havoc(c, env, k):
        st["k"] = to_z3(k)

    def inv(c, env, k):
        st["phase"] += 1
        if st["phase"] == 2:
            w.calls.clear()
            w.out, w.over = None, None
        if st["phase"] == 3:
            one_call(c, w, st["k"], ev)
            c.prove("the search ends when its time is over, even if a callback swallowed the signal", w.act is None or w.over is None and w.out is not None or w.over is not None and w.over <= 3)
            c.prove("an exception that stops the search is passed on", w.out is None or w.out in OWN)
        return []
    ctx.loop_specs.append(LoopSpec(None, match, havoc, inv, label="callbacks"))
    try:
        it.call(it.getattr(w.g, "_on_evaluation_completed"), [ev], {})
    except PyRaise as e:
        if "k" not in st:
            ctx.fail("no exception outside the callbacks", repr(e.exc))
            return
        one_call(ctx, w, st["k"], ev)
        allowed(ctx, w, e.exc)
        ctx.cover("stopped")
        return
    if "k" not in st:
        raise Unsupported("no loop over the callbacks")
    ctx.cover("all")


def one_call(ctx, w, k, ev):
    ctx.prove("one call per callback", len(w.calls) == 1)
    i, a, kw = w.calls[0]
    ctx.prove("in order of registration", i == k)
    ctx.prove("with the evaluation", len(a) == 1 and a[0] is ev and not kw)


@PROOFS("evaluation_completed adds the callback after the ones registered before", covers=("done",))
def register(ctx):
    it = ctx.interp
    w = World(ctx)
    f = Callback(w, z3.IntVal(-1))
    it.call(it.getattr(w.g, "evaluation_completed"), [f], {})
    subs = it.getitem(w.g.attrs["_subscribers"], "evaluation_completed")
    c = it.content(subs)
    ctx.prove("one callback more", to_z3(c.length(ctx)) == w.n + 1)
    k = ctx.fresh_int("k")
    ctx.assume(z3.And(0 <= k, k <= w.n))
    x = c.at(ctx, k)
    if ctx.branch(k == w.n):
        ctx.prove("the new one is last", x is f)
    else:
        ctx.prove("the others stay, in order", isinstance(x, Callback) and x.i == k)
    ctx.prove("registering calls nothing", not w.calls)
    ctx.cover("done")


@PROOFS("Gama.__init__ registers the evaluation library and the log first, and dispatches to all callbacks", covers=("done",), timeout=60)
def init(ctx):
    w = Init(ctx)
    it = w.it
    exc = w.run()
    if exc is not None:
        raise PathAbort()      # refused settings (C15, C22)
    subs = it.content(it.getitem(w.g.attrs["_subscribers"], "evaluation_completed")).items()
    ctx.prove("the evaluation library and the log are told of every evaluation", subs is not None and len(subs) == 2 and any(s is w.save for s in subs) and any(s is w.logf for s in subs))
    got = []
    ctx.contracts[f"{GM}._on_evaluation_completed"] = lambda c, b: got.append((b["self"], b["evaluation"]))
    ev = Opaque("evaluation")
    it.call(w.g.attrs["_operator_set"].attrs["_evaluate_callback"], [ev], {})
    ctx.prove("the search reports to all callbacks", len(got) == 1 and got[0][0] is w.g and got[0][1] is ev)
    ctx.cover("done")


@PROOFS("OperatorSet.wait_next reports each completed evaluation once", covers=("evaluated", "failed", "stopped", "nobody"))
def wait_next(ctx):
    it = ctx.interp
    kind = ctx.choose(3)
    ev = Inst(it.get("gama.utilities.evaluation_library.Evaluation"), {}, label="evaluation")
    fut = Inst(None, {"result": ev if kind < 2 else None, "exception": None if kind < 2 else Opaque("exception"), "traceback": None}, label="future")
    if kind == 2:
        fut.attrs["exception"].memo["isnone"] = z3.BoolVal(False)
    waits = []

    class E(Model):
        type_name = "evaluator"

        def m_wait_next(self, c, *a, **k):
            waits.append(a)
            return fut
    calls = []
    boom = ExcVal(TimeoutException)

    class CB(Model):
        type_name = "callback"

        def py_call(self, c, *a, **k):
            calls.append((a, k))
            if kind == 1:
                raise PyRaise(boom)
    cb = CB() if ctx.choose(2) else None
    ops = Inst(it.get(OPS), {"_evaluate_callback": cb}, label="operator set")
    try:
        r = it.call(it.getattr(ops, "wait_next"), [E()], {})
    except PyRaise as e:
        ctx.prove("only what the callbacks pass on", e.exc is boom)
        ctx.cover("stopped")
        r = fut
    ctx.prove("one result is waited for", len(waits) == 1)
    ctx.prove("and returned", r is fut)
    if cb is None:
        ctx.cover("nobody")
    elif kind < 2:
        ctx.prove("a completed evaluation is reported once", len(calls) == 1 and len(calls[0][0]) == 1 and calls[0][0][0] is ev)
        ctx.cover("evaluated")
    else:
        ctx.prove("without an evaluation nothing is reported", not calls)
        ctx.cover("failed")

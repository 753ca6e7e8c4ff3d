"""Exploration driver, proof registry and loop invariants."""
import ast
import time
import traceback
import z3
from .engine import *
from .engine import _Return, _Break, _Continue
from .interp import Interp, NeedPick, StrCat
from . import lib, std


class Proof:
    def __init__(self, name, fn, doc="", timeout=None, timeout_ms=8000, covers=(), setup=None, feas_ms=150, feas_qf=False):
        self.name, self.fn, self.doc = name, fn, doc or (fn.__doc__ or "").strip()
        self.timeout, self.timeout_ms, self.covers = timeout, timeout_ms, covers
        self.setup = setup
        self.feas_ms, self.feas_qf = feas_ms, feas_qf


class Registry(list):
    def __call__(self, name, **kw):
        def deco(fn):
            self.append(Proof(name, fn, **kw))
            return fn
        return deco


def run_proof(proof, world=None, budget=60.0):
    """Run one proof over all paths. Returns a Result."""
    world = world or World()
    res = Result(proof.name)
    t0 = time.time()
    ctx = Ctx(world, res, timeout_ms=proof.timeout_ms, deadline=t0 + (proof.timeout or budget))
    ctx.feas_ms, ctx.feas_qf = proof.feas_ms, proof.feas_qf
    std.install(ctx)
    for c in proof.covers:
        res.covers[c] = False
    stack = [[]]
    try:
        while stack:
            prefix = stack.pop()
            if res.paths >= ctx.max_paths:
                raise Unsupported("too many paths")
            ctx.contracts, ctx.loop_specs, ctx.env_hooks, ctx.class_hooks = {}, [], {}, {}
            for h in ("sum_hook", "minmax_hook", "sorted_hook", "str_hook", "repr_hook",
                      "pow_model", "dict_from_content"):
                if h in ctx.__dict__:
                    delattr(ctx, h)
            ctx.externals = dict(std.EXTERNALS)
            ctx.start_run(prefix)
            ctx.qcount = 0
            res.paths += 1
            try:
                proof.fn(ctx)
            except PathAbort:
                pass
            except PyRaise as e:
                ctx.fail("no unexpected exception", repr(e.exc))
            for sp in ctx.loop_specs:
                key = (sp.label, sp.func)
                res.specs[key] = res.specs.get(key, False) or sp.used or sp.optional
            stack.extend(ctx.pending)
            if any(o.status == "refuted" for o in res.obligations):
                n = sum(o.status == "refuted" for o in res.obligations)
                if n >= 3 and (all(res.specs.values()) or n >= 12 or time.time() - t0 > 40):
                    break
    except Unsupported as e:
        res.unsupported = str(e)
    except NeedPick:
        res.unsupported = "generator over a symbolic sequence outside its consumer"
    except RecursionError:
        res.unsupported = "recursion too deep"
    except z3.Z3Exception as e:
        res.unsupported = f"encoding: {e} @ {_where()}"
    except Exception as e:  # a fault of the verifier itself: never a verdict
        res.unsupported = f"internal: {type(e).__name__}: {e} @ {_where()}"
    res.seconds = time.time() - t0
    return res


def _where():
    tb = traceback.format_exc().strip().splitlines()
    return " | ".join(x.strip() for x in tb[-5:])[:400]


# ----------------------------------------------------------------- loop invariants
class LoopSpec:
    """Cut a `for` loop with an invariant.

    func        qualified name of the function containing the loop
    match       (interp, node, iterable, env) -> bool   (semantic: looks at the iterable)
    havoc       (ctx, env, k) -> set names / object contents to the abstract state at k
    inv         (ctx, env, k) -> list of (label, formula)
    """

    def __init__(self, func, match, havoc, inv, names=None, label="loop", after=None,
                 setwise=False, frame=None, while_=False, on_break=None, before=None):
        self.func, self.match, self.havoc_fn, self.inv = func, match, havoc, inv
        self.names = names
        self.label = label
        self.after = after
        self.setwise = setwise
        self.frame = frame
        self.while_ = while_
        self.before = before
        self.used, self.optional = False, False

    def matches(self, it, node, iterable, env):
        if not it.fn_stack:
            return False
        if self.func is not None and it.within() != self.func:
            return False
        if isinstance(node, ast.While) != self.while_:
            return False
        if self.names and not all(env.has(n) for n in self.names):
            return False
        try:
            return bool(self.match(it, node, iterable, env))
        except (AttributeError, KeyError, TypeError):
            return False

    def run(self, it, node, iterable, env):
        ctx = it.ctx
        if self.before:
            self.before(ctx, env)
        if self.while_:
            return self.run_while(it, node, env)
        content = it.content(iterable)
        assigned = assigned_names(node.body) | assigned_names([node.target])
        guard = fn = None
        if isinstance(content, FilterC) and not self.setwise:
            # a loop over the elements with a property: a loop over all, those without are passed over
            guard, fn, content = content.pred, content.fn, content.base
        sw = self.setwise
        if sw:
            if not isinstance(content, SetC):
                raise Unsupported("setwise invariant over an ordered sequence")
            start = lambda: (lambda x: z3.BoolVal(False))
        n = None if sw else content.length(ctx)
        k0 = (lambda x: z3.BoolVal(False)) if sw else 0
        kn = content.member if sw else n
        for lab, f in self.inv(ctx, env, k0):
            ctx.prove(f"{self.label}: invariant '{lab}' holds on entry", f)

        def scramble():
            for name in assigned:
                env.set(name, Undefined(name))

        which = ctx.choose(2)
        if which == 0:
            scramble()
            if sw:
                done = ctx.fresh_fun("done", content.sort, z3.BoolSort())
                x = z3.Const("x!done", content.sort)
                ctx.assume(z3.ForAll([x], z3.Implies(done(x), content.member(x))))
                cur = ctx.fresh_const("cur", content.sort)
                ctx.assume(content.member(cur))
                ctx.assume(z3.Not(done(cur)))
                k = lambda y: done(y)
                k1 = lambda y: z3.Or(done(y), y == cur)
                v = content.wrap(cur)
            else:
                k = ctx.fresh_int("k")
                ctx.assume(z3.And(k >= 0, k < n))
                k1 = simp(k + 1)
            self.havoc_fn(ctx, env, k)
            for lab, f in self.inv(ctx, env, k):
                ctx.assume(f)
            if not sw:
                v = content.at(ctx, k)
            mark = len(ctx.mutlog)
            try:
                if guard is not None and not ctx.test(guard(ctx, v)):
                    raise _Continue()
                it.assign(node.target, fn(ctx, v) if fn else v, env)
                it.exec_block(node.body, env)
            except _Continue:
                pass
            except _Break:
                self.check_frame(ctx, mark)
                return
            self.check_frame(ctx, mark)
            for lab, f in self.inv(ctx, env, k1):
                ctx.prove(f"{self.label}: invariant '{lab}' is preserved", f)
            ctx.cover(f"{self.label}: an iteration is possible")
            raise PathAbort()
        scramble()
        self.havoc_fn(ctx, env, kn)
        for lab, f in self.inv(ctx, env, kn):
            ctx.assume(f)
        it.exec_block(node.orelse, env)

    def run_while(self, it, node, env):
        ctx = it.ctx
        assigned = assigned_names(node.body)
        for lab, f in self.inv(ctx, env, None):
            ctx.prove(f"{self.label}: invariant '{lab}' holds on entry", f)
        which = ctx.choose(2)
        saved = {n: env.vars.get(n) for n in assigned}
        for name in assigned:
            env.set(name, Undefined(name))
        self.havoc_fn(ctx, env, None)
        for lab, f in self.inv(ctx, env, None):
            ctx.assume(f)
        if which == 0:
            if not ctx.test(it.eval(node.test, env)):
                raise PathAbort()
            mark = len(ctx.mutlog)
            try:
                it.exec_block(node.body, env)
            except _Continue:
                pass
            except _Break:
                self.check_frame(ctx, mark)
                return
            self.check_frame(ctx, mark)
            for lab, f in self.inv(ctx, env, None):
                ctx.prove(f"{self.label}: invariant '{lab}' is preserved", f)
            ctx.cover(f"{self.label}: an iteration is possible")
            raise PathAbort()
        if ctx.test(it.eval(node.test, env)):
            raise PathAbort()
        it.exec_block(node.orelse, env)

    def check_frame(self, ctx, mark):
        if self.frame is None:
            return
        for obj, field, birth, when in ctx.mutlog[mark:]:
            if not self.frame(ctx, obj, field, birth):
                raise Unsupported(f"{self.label}: mutation of {obj!r}.{field} not covered by the invariant")


def read_after(it, node):
    """Names read in the function outside of (and not textually before) the loop."""
    inside = set(map(id, ast.walk(node)))
    f = it.fn_stack[-1].node
    return {n.id for n in ast.walk(f) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load)
            and id(n) not in inside and getattr(n, "lineno", 0) >= node.lineno}


def over(value):
    """match: the loop iterates over this very object."""
    return lambda it, node, iterable, env: iterable is value


def over_content(pred):
    return lambda it, node, iterable, env: pred(it.content(iterable))


def expect_raises(ctx, thunk, exc, name):
    try:
        thunk()
    except PyRaise as e:
        ok = issubclass(e.exc.cls, exc)
        if ok:
            ctx.prove(name, True)
        else:
            ctx.fail(name, f"raised {e.exc!r}")
        return True
    return False

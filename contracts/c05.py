"""C05: the Pareto front is exact.

Contracts
  ParetoFront.update(x)   requires Inv(front); ensures Inv(front') and
                          front' = {y in front + [x] not weakly dominated by another one;
                                    of several items with equal values the oldest stays}
                          returns whether x entered the front
  ParetoFront.__init__    ensures every item of the start list is weakly dominated by a
                          member of the front, front is a subset of the start list, Inv
  ParetoFront.clear       ensures the front is empty
Values: items are abstract, with `arity` real values val(x, j) (arity arbitrary).
"""
import z3
from pyvc.driver import *

PROOFS = Registry()
MOD = "gama.utilities.generic.paretofront"


class Setup:
    def __init__(self, ctx, with_fn):
        self.ctx = ctx
        self.item = Schema("Item")
        self.val = z3.Function("val", self.item.sort, z3.IntSort(), z3.RealSort())
        self.arity = z3.Int("arity")
        ctx.assume(self.arity >= 1)
        self.with_fn = with_fn
        self.fn = None
        if with_fn:
            self.fn = Builtin("get_values_fn", lambda c, x: self.tuple_of(x))
        self.wrap = (lambda e: Term(e, self.item)) if with_fn else self.tuple_item

    def tuple_of(self, x):
        return ListObj(FnC(self.arity, lambda c, j: self.val(x.expr, to_z3(j))), kind="tuple")

    def tuple_item(self, e):
        l = ListObj(FnC(self.arity, lambda c, j: self.val(e, to_z3(j))), kind="tuple")
        l.expr = e
        return l

    def wd(self, a, b):
        """b weakly dominates a: at least as good on every objective."""
        j = z3.Int("j!wd")
        return z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < self.arity), self.val(a, j) <= self.val(b, j)))

    def content(self, member):
        return SetC(self.item.sort, member, self.wrap, unwrap=lambda v: v.expr)

    def inv(self, member):
        x, y = z3.Consts("x!i y!i", self.item.sort)
        return z3.ForAll([x, y], z3.Implies(z3.And(member(x), member(y), x != y), z3.Not(self.wd(x, y))))

    def front_obj(self, member):
        it = self.ctx.interp
        cls = it.get(f"{MOD}.ParetoFront")
        return Inst(cls, {"_get_values_fn": self.fn, "_front": ListObj(self.content(member)), "_iterator_index": 0})


def _symbolic_remove_loop(s, old, new):
    """Loop spec: removal of the collected items one by one."""


def update_proof(ctx, with_fn):
    it = ctx.interp
    s = Setup(ctx, with_fn)
    S = s.item.sort
    F = z3.Function("F", S, z3.BoolSort())
    ctx.assume(s.inv(F))
    new = z3.Const("new", S)
    # the new item is not (the very object) already in the front
    ctx.assume(z3.Not(F(new)))
    pf = s.front_obj(F)
    front0 = pf.attrs["_front"]
    x, y = z3.Consts("x y", S)

    # loop 1: over the front, collecting dominated items (invariant over the done set)
    def scan_match(i, node, iterable, env):
        return iterable is front0

    state = {}

    def acc_name(i, node, env):
        # the accumulator: a list in scope which the body appends to
        for n in ast.walk(ast.Module(body=node.body, type_ignores=[])):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == "append" \
                    and isinstance(n.func.value, ast.Name):
                return n.func.value.id
        raise KeyError("accumulator")

    class Scan(LoopSpec):
        def matches(self, i, node, iterable, env):
            if not super().matches(i, node, iterable, env):
                return False
            try:
                state["acc"] = acc_name(i, node, env)
            except KeyError:
                return False
            state["keeps"] = keeps(getattr(env, "func", None), state["acc"])
            return True

    def keeps(f, name):
        """Does the accumulator become the front (members that stay), rather than say what leaves it?"""
        for n in ast.walk(f.node) if f is not None else ():
            if isinstance(n, ast.Assign) and any(isinstance(t, (ast.Attribute, ast.Subscript)) for t in n.targets) \
                    and any(isinstance(m, ast.Name) and m.id == name for m in used(n.value)):
                return True
        return False

    def used(e):
        """Parts of the value which are taken over as they are."""
        if isinstance(e, ast.BinOp):
            return used(e.left) + used(e.right)
        if isinstance(e, (ast.List, ast.Tuple)):
            return [x.value for x in e.elts if isinstance(x, ast.Starred)]
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == "list" and len(e.args) == 1:
            return used(e.args[0])
        return [e]

    def dead(z):
        return z3.And(F(z), z3.Not(s.wd(z, new)) if state.get("keeps") else s.wd(z, new))

    def havoc1(c, env, k):
        env.get(state["acc"]).content = s.content(lambda z: z3.And(k(z), dead(z)))

    def inv1(c, env, k):
        acc = env.get(state["acc"]).content
        if isinstance(acc, Conc) and not acc.items():
            mem = lambda z: z3.BoolVal(False)
        elif isinstance(acc, SetC):
            mem = acc.member
        else:
            raise Unsupported("accumulator shape")
        z = z3.Const("z!inv", S)
        return [
            ("collected = items seen that stay" if state["keeps"] else "collected = dominated items seen", z3.ForAll([z], mem(z) == z3.And(k(z), dead(z)))),
            ("no item seen dominates the new item", z3.ForAll([z], z3.Implies(k(z), z3.Not(s.wd(new, z))))),
        ]

    ctx.loop_specs.append(Scan(None, scan_match, havoc1, inv1, label="scan of the front", setwise=True,
                               frame=lambda c, o, f, b: isinstance(o, ListObj) and o is not front0))

    # loop 2: removal
    def rem_match(i, node, iterable, env):
        c = i.content(iterable)
        return isinstance(c, SetC) and iterable is not pf.attrs["_front"] and state.get("acc") and env.has(state["acc"]) and iterable is env.get(state["acc"])

    def havoc2(c, env, k):
        pf.attrs["_front"].content = s.content(lambda z: z3.And(F(z), z3.Not(k(z))))

    def inv2(c, env, k):
        cc = pf.attrs["_front"].content
        if not isinstance(cc, SetC):
            raise Unsupported("front shape")
        z = z3.Const("z!inv2", S)
        return [("front = old front without the removed ones", z3.ForAll([z], cc.member(z) == z3.And(F(z), z3.Not(k(z)))))]

    ctx.loop_specs.append(LoopSpec(None, rem_match, havoc2, inv2, label="removal", setwise=True,
                                   frame=lambda c, o, f, b: o is pf.attrs["_front"] or o is pf))

    r = it.call(it.getattr(pf, "update"), [s.wrap(new)], {})
    fc = pf.attrs["_front"].content
    if isinstance(fc, Conc):
        its = [i.expr for i in fc.items()]
        mem = lambda z: z3.Or([z == e for e in its] + [z3.BoolVal(False)])
        if len(its) > 1:
            ctx.prove("front elements distinct", z3.Distinct(*its))
    elif isinstance(fc, SetC):
        mem = fc.member
    else:
        raise Unsupported("shape of the front")
    dominated = z3.Exists([y], z3.And(F(y), s.wd(new, y)))
    z = z3.Const("z!post", S)
    ctx.prove("the new item enters iff no member weakly dominates it",
              mem(new) == z3.Not(dominated))
    ctx.prove("a member stays iff a new front member does not weakly dominate it",
              z3.ForAll([z], z3.Implies(z != new, mem(z) == z3.And(F(z), z3.Not(z3.And(z3.Not(dominated), s.wd(z, new)))))))
    ctx.prove("returns whether the front was updated", truth(ctx.truthy(r)) == z3.Not(dominated))
    ctx.prove("front stays free of domination", s.inv(mem))
    ctx.cover("post")


@PROOFS("ParetoFront.update with a value function", covers=("post",))
def update_fn(ctx):
    update_proof(ctx, True)


@PROOFS("ParetoFront.update on tuples", covers=("post",))
def update_tuples(ctx):
    update_proof(ctx, False)


def _update_contract(s, pf):
    S = s.item.sort

    def update(ctx, a):
        x = a["new_item"].expr
        old = _member(a["self"])
        y = z3.Const("y!u", S)
        dominated = z3.Exists([y], z3.And(old(y), s.wd(x, y)))
        ctx.prove("update: front satisfies its invariant on entry", s.inv(old))
        ctx.log_mut(a["self"].attrs["_front"], "content")
        a["self"].attrs["_front"].content = s.content(
            lambda z: z3.Or(z3.And(z == x, z3.Not(dominated)),
                            z3.And(z != x, old(z), z3.Not(z3.And(z3.Not(dominated), s.wd(z, x))))))
        return z3.Not(dominated)

    return update


def _member(pf):
    c = pf.attrs["_front"].content
    if isinstance(c, Conc) and not c.items():
        return lambda z: z3.BoolVal(False)
    if isinstance(c, SetC):
        return c.member
    raise Unsupported("shape of the front")


@PROOFS("ParetoFront.__init__ from a start list", covers=("post",))
def init(ctx):
    it = ctx.interp
    s = Setup(ctx, True)
    S = s.item.sort
    ctx.contracts[f"{MOD}.ParetoFront.update"] = _update_contract(s, None)
    L = z3.Function("L", S, z3.BoolSort())
    lst = ListObj(s.content(L))
    holder = {}
    z, y = z3.Consts("z!I y!I", S)

    def match(i, node, iterable, env):
        holder["self"] = env.get("self")
        return iterable is lst

    def havoc(c, env, k):
        m = c.fresh_fun("front", S, z3.BoolSort())
        holder["self"].attrs["_front"].content = s.content(lambda e: m(e))

    def inv(c, env, k):
        m = _member(holder["self"])
        return [
            ("no mutual domination", s.inv(m)),
            ("front is a subset of the items seen", z3.ForAll([z], z3.Implies(m(z), k(z)))),
            ("every item seen is weakly dominated by a member",
             z3.ForAll([z], z3.Implies(k(z), z3.Exists([y], z3.And(m(y), s.wd(z, y)))))),
        ]

    ctx.loop_specs.append(LoopSpec(None, match, havoc, inv, label="start list", setwise=True,
                                   frame=lambda c, o, f, b: True))
    pf = it.call(it.get(f"{MOD}.ParetoFront"), [lst, s.fn], {})
    m = _member(pf)
    ctx.prove("no member dominates another", s.inv(m))
    ctx.prove("members come from the start list", z3.ForAll([z], z3.Implies(m(z), L(z))))
    ctx.prove("every item is weakly dominated by a member",
              z3.ForAll([z], z3.Implies(L(z), z3.Exists([y], z3.And(m(y), s.wd(z, y))))))
    ctx.cover("post")


@PROOFS("ParetoFront.clear empties the front", covers=("post",))
def clear(ctx):
    it = ctx.interp
    s = Setup(ctx, True)
    F = z3.Function("F", s.item.sort, z3.BoolSort())
    pf = s.front_obj(F)
    it.call(it.getattr(pf, "clear"), [], {})
    ctx.prove("empty", it.call(it.builtins["len"], [pf], {}) == 0)
    ctx.cover("post")


@PROOFS("ParetoFront exposes exactly the front", covers=("post",))
def exposes(ctx):
    it = ctx.interp
    s = Setup(ctx, True)
    n = z3.Int("n")
    ctx.assume(n >= 0)
    at = z3.Function("at", z3.IntSort(), s.item.sort)
    pf = s.front_obj(None)
    pf.attrs["_front"] = ListObj(FnC(n, lambda c, i: Term(at(to_z3(i)), s.item)))
    ctx.prove("len", it.call(it.builtins["len"], [pf], {}) == n)
    i = ctx.fresh_int("i")
    ctx.assume(z3.And(i >= 0, i < n))
    v = it.getitem(pf, i)
    ctx.prove("item", v.expr == at(i))
    ctx.cover("post")

"""C03: creating offspring leaves parents untouched and offspring independent."""
import z3
from pyvc.driver import *
from .gp import *
from .c01 import start
from .c04 import same_step

PROOFS = Registry()
OPS = f"{GP}.operator_set.OperatorSet"


def fresh_chain(ctx, pieces, what):
    ok = all((p.inst is not None and getattr(p.inst, "birth", 0) > 0) or (p.chain is not None and getattr(p.chain, "fresh", False))
             for p in pieces)
    ctx.prove(f"{what}: all steps are new objects", ok)


@PROOFS("PrimitiveNode.copy makes a separate chain with the same steps and values", covers=("one step", "many steps"))
def copy_body(ctx):
    """Induction on the number of steps: the recursive call is replaced by the contract,
    which is only needed for the strictly shorter chain behind this step."""
    it = ctx.interp
    sp = Space(ctx)
    ch = Chain(ctx, sp, "A")
    node = ch.node(0)

    def recursive(c, a):
        s = a["self"]
        c.prove("recursion is on a strictly shorter chain", isinstance(s, Obj) and s.fam is ch.fam and to_z3(s.idx) >= 1)
        return copy_contract(c, a)
    f = it.get(f"{NODE}.copy")
    ctx.contracts[f"{NODE}.copy"] = recursive
    r = it.call_func(f, [node], {}, force_inline=True)
    if not isinstance(r, Inst):
        ctx.fail("a new step is returned", repr(r))
        return
    pieces = walk(ctx, r)
    ctx.prove("same length", to_z3(total(pieces)) == ch.L)
    fresh_chain(ctx, pieces, "copy")
    for p in pieces:
        if p.inst is not None:
            tl = p.inst.attrs["_terminals"]
            ctx.prove("the list of values is not shared", isinstance(tl, ListObj) and not isinstance(tl, FamList)
                      and getattr(tl, "birth", 0) > 0)
    k = ctx.choose(len(pieces))
    q = 0
    for p in pieces[:k]:
        q = simp(to_z3(q) + p.length())
    i = ctx.fresh_int("i")
    ctx.assume(z3.And(0 <= i, i < to_z3(pieces[k].length())))
    same_step(ctx, sp, pieces[k].at(i), ch, simp(to_z3(q) + i), "copied step")
    frame(ctx, "copy")
    ctx.cover("one step" if len(pieces) == 1 else "many steps")


@PROOFS("copy_as_new: same pipeline, new identity, no fitness", covers=("post",))
def copy_as_new(ctx):
    it = ctx.interp
    sp, (ch,), (ind,) = start(ctx)
    new = it.call(it.get(f"{IND}.copy_as_new"), [ind], {})
    ctx.prove("a new individual", isinstance(new, Inst) and new is not ind and new.birth > 0)
    ctx.prove("no fitness", new.attrs["fitness"] is None)
    ctx.prove("new identity", z3.Not(truth(ctx.interp.lib.equal(it, new.attrs["_id"], ind.attrs["_id"]))))
    ctx.prove("compiled by the same function", new.attrs["_to_pipeline"] is ind.attrs["_to_pipeline"])
    ctx.prove("own record", new.attrs["meta"] is not ind.attrs["meta"])
    pieces = walk(ctx, new.attrs["main_node"])
    ctx.prove("same length", to_z3(total(pieces)) == ch.L)
    fresh_chain(ctx, pieces, "copy")
    k = ctx.choose(len(pieces))
    q = 0
    for p in pieces[:k]:
        q = simp(to_z3(q) + p.length())
    i = ctx.fresh_int("i")
    ctx.assume(z3.And(0 <= i, i < to_z3(pieces[k].length())))
    same_step(ctx, sp, pieces[k].at(i), ch, simp(to_z3(q) + i), "copied step")
    frame(ctx, "copy_as_new")
    ctx.cover("post")


class Fn(Model):
    type_name = "function"

    def __init__(self, fn, name="op"):
        self.fn, self.name = fn, name

    def py_call(self, ctx, *a, **k):
        return self.fn(ctx, *a, **k)

    def py_getattr(self, ctx, name):
        if name == "__name__":
            return "operator"
        ctx.raise_(AttributeError, name)


class AnySet(Model):
    type_name = "completed evaluations"

    def py_contains(self, ctx, x):
        return ctx.fresh_bool("seen")


@PROOFS("try_until_new returns a product of the operator", covers=("post",))
def try_until_new(ctx):
    it = ctx.interp

    def product(c, *a, **k):
        c.prove("the operator gets the given arguments", a == ("x", 7) and k == {"key": 3})
        n = Inst(it.get(IND), {"main_node": Opaque("main node"), "_id": c.fresh_int("id")}, label="product")
        n.product = True
        return n
    op = Fn(product)
    n = z3.Int("max_retry")
    ctx.assume(n >= 1)
    ops = Inst(it.get(OPS), {"_max_retry": n, "_completed_evaluations": AnySet()}, label="ops")
    st = {}

    class S(LoopSpec):
        def matches(self, i, node, iterable, env):
            st["names"] = [m for m in assigned_names(node.body) & read_after(i, node) if m != getattr(node.target, "id", None)]
            return True

    def havoc(c, env, k):
        if c.branch(simp(to_z3(k) > 0)):
            for m in st["names"]:
                env.set(m, product(c, "x", 7, key=3))

    def inv(c, env, k):
        vals = [env.get(m) if env.has(m) else None for m in st["names"]]
        return [("what was made so far is a product of the operator",
                 z3.Or(to_z3(k) == 0, z3.BoolVal(all(getattr(v, "product", False) for v in vals))))]

    ctx.loop_specs.append(S(None, None, havoc, inv, label="try_until_new"))
    r = it.call(it.get(f"{OPS}.try_until_new"), [ops, op, "x", 7], {"key": 3})
    ctx.prove("the result was made by the operator", getattr(r, "product", False) is True)
    ctx.cover("post")


def try_contract(c, a, earlier=0):
    """try_until_new: the value of a call of the operator with the given arguments
    (after any number of earlier calls, whose results were dropped)."""
    it = c.interp
    args = it.content(a["args"]).items() if isinstance(a.get("args"), ListObj) else list(a.get("args") or ())
    kw = a.get("kwargs")
    kw = {k: v for k, v in kw.pairs} if isinstance(kw, DictObj) else dict(kw or {})
    for _ in range(earlier):
        it.call(a["operator"], list(args), kw)
    return it.call(a["operator"], list(args), kw)


def operator_set(ctx, mutate=None, mate=None, earlier=0):
    it = ctx.interp
    ctx.contracts[f"{OPS}.try_until_new"] = lambda c, a: try_contract(c, a, earlier)
    return Inst(it.get(OPS), {"_mutate": mutate, "_mate": mate, "_max_retry": 50, "_completed_evaluations": AnySet()}, label="ops")


def check_offspring(ctx, ind, parents, what):
    it = ctx.interp
    ctx.prove(f"{what}: no fitness", ind.attrs["fitness"] is None)
    for p in parents:
        ctx.prove(f"{what}: new identity", z3.Not(truth(it.lib.equal(it, ind.attrs["_id"], p.attrs["_id"]))))
        ctx.prove(f"{what}: not a parent itself", ind is not p)
    meta = ind.attrs["meta"]
    rec = it.lib.dict_get(it, meta, "parents", None) if isinstance(meta, DictObj) else None
    items = it.content(rec).items() if rec is not None else None
    ctx.prove(f"{what}: records exactly its parents", items is not None and len(items) == len(parents)
              and all(x is p.attrs["_id"] for x, p in zip(items, parents)))
    fresh_chain(ctx, walk(ctx, ind.attrs["main_node"]), what)


def once_more(ctx, x, given, ch, what):
    """Attempts are independent: whatever earlier ones did to what they were given, each starts
    from a copy of the parent which no earlier attempt was given."""
    ctx.prove(f"{what}: every attempt starts from a new copy", all(x is not g for g in given))
    c = walk(ctx, x.attrs["main_node"])[0].chain
    ctx.prove(f"{what}: every attempt starts from a copy of the parent", c is not None and getattr(c, "copy_of", (None,))[0] is ch)


@PROOFS("OperatorSet.mutate varies a copy", covers=("post",))
def mutate(ctx, earlier=0):
    it = ctx.interp
    sp, (ch,), (ind,) = start(ctx)
    given = []

    def op(c, x, *a, **k):
        c.prove("the mutation gets a copy, not the parent", isinstance(x, Inst) and x is not ind)
        fresh_chain(c, walk(c, x.attrs["main_node"]), "mutated individual")
        if earlier:
            once_more(c, x, given, ch, "mutation")
        given.append(x)
        c.cover("called")
        return Fn(None, "mut")
    ops = operator_set(ctx, mutate=Fn(op), earlier=earlier)
    new = it.call(it.get(f"{OPS}.mutate"), [ops, ind], {})
    ctx.prove("the mutated copy is returned", len(given) == earlier + 1 and new is given[-1])
    check_offspring(ctx, new, [ind], "offspring")
    frame(ctx, "mutate")
    ctx.cover("post")


@PROOFS("OperatorSet.mate crosses copies and returns the first", covers=("post",))
def mate(ctx, earlier=0):
    it = ctx.interp
    sp, (A, Bc), (a, b) = start(ctx, 2)
    given = []

    def op(c, x, y, *args, **k):
        c.prove("crossover gets copies, not the parents", all(v is not a and v is not b for v in (x, y)))
        c.prove("crossover gets two different individuals", x is not y)
        px, py = walk(c, x.attrs["main_node"]), walk(c, y.attrs["main_node"])
        fresh_chain(c, px, "first copy")
        fresh_chain(c, py, "second copy")
        c.prove("the copies share no steps", not ({id(p.chain) for p in px} & {id(p.chain) for p in py}))
        c.prove("first copy is of the first parent", px[0].chain.copy_of[0] is A)
        c.prove("second copy is of the second parent", py[0].chain.copy_of[0] is Bc)
        if earlier:
            c.prove("crossover: every attempt starts from new copies", all(v is not g for v in (x, y) for r in given for g in r))
        r = (x, y) if c.choose(2) == 0 else (y, x)
        given.append(r)
        return r
    ops = operator_set(ctx, mate=Fn(op), earlier=earlier)
    new = it.call(it.get(f"{OPS}.mate"), [ops, a, b], {})
    ctx.prove("the first result is returned", len(given) == earlier + 1 and new is given[-1][0])
    check_offspring(ctx, new, [a, b], "offspring")
    frame(ctx, "mate")
    ctx.cover("post")


from . import c04  # noqa: E402

for _name, _fn in (("mut_replace_terminal", c04.replace_terminal), ("mut_replace_primitive", c04.replace_primitive),
                   ("mut_insert", c04.insert), ("mut_shrink", c04.shrink), ("crossover_terminals", c04.cross_terminals),
                   ("crossover_primitives", c04.cross_primitives)):
    PROOFS(f"{_name} modifies only the individuals it is given", covers=("post",))(_fn)

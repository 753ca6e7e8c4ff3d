"""C01: every generated or varied pipeline is well formed for its search space."""
import z3
from pyvc.driver import *
from .gp import *

PROOFS = Registry()
M = f"{GP}.mutation"
X = f"{GP}.crossover"
O = f"{GP}.operations"


@PROOFS("Individual.primitives lists the steps from the main node on", covers=("post",))
def primitives_body(ctx):
    it = ctx.interp
    sp = Space(ctx)
    ch = Chain(ctx, sp, "A")
    ind = ch.individual("ind")

    # while loop: accumulator = nodes 0..k, current = node k+1 or data
    class W(LoopSpec):
        def matches(self, i, node, iterable, env):
            if not isinstance(node, ast.While):
                return False
            accs = [n for n in env.vars if isinstance(env.vars[n], ListObj)]
            curs = [n for n in assigned_names(node.body) if env.has(n)]
            if len(accs) != 1 or len(curs) != 1:
                return False
            self.acc, self.cur = accs[0], curs[0]
            return True

    def havoc(c, env, _):
        k = c.fresh_int("k")
        c.assume(z3.And(k >= 1, k <= ch.L))
        env.get(w.acc).content = SliceC(FnC(ch.L, lambda cc, i: ch.node(i)), 0, k)
        if c.branch(k < ch.L):
            env.set(w.cur, ch.node(k))
        else:
            env.set(w.cur, "data")

    def inv(c, env, _):
        acc = env.get(w.acc).content
        cur = env.get(w.cur)
        n = acc.length(c)
        nxt = z3.And(to_z3(cur.idx) == n, n < ch.L) if isinstance(cur, Obj) else (
            to_z3(n) == ch.L if cur == "data" else z3.BoolVal(False))
        q = c.fresh_int("q")
        same = z3.BoolVal(True)
        c_in = simp(z3.And(q >= 0, q < n))
        if c_in is not False:
            def body():
                if not c.branch(c_in):
                    return True
                v = acc.at(c, q)
                return to_z3(v.idx) == q if isinstance(v, Obj) and v.fam is ch.fam else False
            same = c.merge(body)
        return [("position", nxt), ("collected steps in order", same), ("bounds", z3.And(to_z3(n) >= 1, to_z3(n) <= ch.L))]

    w = W(None, None, havoc, inv, label="primitives", while_=True)
    ctx.loop_specs.append(w)
    r = it.call(it.get(f"{IND}.primitives"), [ind], {})
    c = it.content(r)
    ctx.prove("number of steps", to_z3(c.length(ctx)) == ch.L)
    q = ctx.fresh_int("q")
    ctx.assume(z3.And(q >= 0, q < ch.L))
    v = c.at(ctx, q)
    ctx.prove("q-th step", isinstance(v, Obj) and v.fam is ch.fam and to_z3(v.idx) == q)
    frame(ctx, "primitives")
    ctx.cover("post")


@PROOFS("Individual.terminals lists the values of all steps in order", covers=("base", "step", "post"))
def terminals_body(ctx):
    it = ctx.interp
    sp = Space(ctx)
    ch = Chain(ctx, sp, "A")
    ind = ch.individual("ind")
    ctx.contracts[f"{IND}.primitives"] = primitives_contract
    r = it.call(it.get(f"{IND}.terminals"), [ind], {})
    c = it.content(r)
    if not isinstance(c, FlattenC):
        raise Unsupported("shape of the result")
    c.setup(ctx)
    n = c.outer.length(ctx)
    ctx.prove("one group per step", to_z3(n) == ch.L)
    which = ctx.choose(3)
    if which == 0:
        ctx.prove("offset of the first group", c.off(0) == ch.off(0))
        ctx.cover("base")
    elif which == 1:
        k = ctx.fresh_int("k")
        ctx.assume(z3.And(k >= 0, k < ch.L, c.off(k) == ch.off(k)))
        ctx.prove("offset of the next group (induction step)", c.off(k + 1) == ch.off(k + 1))
        ctx.cover("step")
    else:
        k, j = ctx.fresh_int("k"), ctx.fresh_int("j")
        ctx.assume(z3.And(k >= 0, k < ch.L, j >= 0, j < ch.nt(k)))
        inner = c.inner(ctx, c.outer.at(ctx, k))
        v = inner.at(ctx, j)
        ctx.prove("values of the k-th group", v.expr == ch.term(k, j))
        ctx.cover("post")


def start(ctx, n=1):
    sp = Space(ctx)
    use_contracts(ctx, sp)
    add_loop_specs(ctx)
    chains = [Chain(ctx, sp, nm) for nm in "AB"[:n]]
    inds = [ch.individual(f"ind{ch.name}") for ch in chains]
    return sp, chains, inds


@PROOFS("random_primitive_node makes a well-formed step of the requested kind", covers=("post",))
def rpn(ctx):
    it = ctx.interp
    sp = Space(ctx)
    use_contracts(ctx)
    kind = z3.If(ctx.fresh_bool("kind"), sp.PRED, sp.DATA)
    excl = None if ctx.choose(2) == 0 else Term(z3.Const("exclude", sp.Prim.sort), sp.Prim)
    if excl is not None:
        ctx.assume(sp.nP(kind) >= 2)
    node = it.call(it.get(f"{O}.random_primitive_node"), [Term(kind, sp.Kind), sp.model, excl], {})
    ctx.prove("no preceding step yet", node.attrs["_data_node"] == "data")
    if excl is not None:
        ctx.prove("the excluded component is not used", node.attrs["_primitive"].expr != excl.expr)
    check_wf_single(ctx, sp, node, kind, "new step")
    frame(ctx, "random_primitive_node")
    ctx.cover("post")


def expression_specs(ctx, sp):
    """Loop of create_random_expression: nodes 0..k linked so far."""
    st = {}

    def match(it, node, iterable, env):
        names = assigned_names(node.body)
        ptr = [n for n in names if env.has(n) and isinstance(env.get(n), Inst)]
        if len(ptr) != 1:
            return False
        head = env.get(ptr[0])
        keep = [n for n in env.vars if n not in names and env.vars[n] is head]
        if len(keep) != 1:
            return False
        st.update(ptr=ptr[0], head=keep[0], head0=head)
        return True

    def havoc(c, env, k):
        ch = Chain(c, sp, f"built{c.run_memo.get('nb', 0)}", wf=False, length=simp(to_z3(k) + 1))
        c.run_memo["nb"] = c.run_memo.get("nb", 0) + 1
        ch.fresh = True
        ch.assume_wf()
        st["chain"] = ch
        env.set(st["head"], ch.node(0))
        env.set(st["ptr"], ch.node(to_z3(k)))

    def inv(c, env, k):
        head, ptr = env.get(st["head"]), env.get(st["ptr"])
        pieces = walk(c, head)
        last = pieces[-1]
        lastnode = last.at(simp(to_z3(last.length()) - 1))
        same = (ptr is lastnode) if isinstance(ptr, Inst) else (
            isinstance(lastnode, Obj) and lastnode.fam is ptr.fam and truth(to_z3(lastnode.idx) == to_z3(ptr.idx)))
        out = [("number of steps so far", to_z3(total(pieces)) == to_z3(k) + 1),
               ("the pointer is at the first step of the pipeline", truth(same) if isinstance(same, bool) else same)]
        return out

    class S(LoopSpec):
        def run(self, it, node, iterable, env):
            # well-formedness of the nodes built so far is an invariant as well: on entry
            # and after an iteration it is checked node by node
            ctx_ = it.ctx
            return super().run(it, node, iterable, env)

    return S(f"{O}.create_random_expression", match, havoc, inv, label="create_random_expression"), st


@PROOFS("create_random_expression builds a well-formed pipeline within the length bounds", covers=("post",))
def cre(ctx):
    it = ctx.interp
    sp = Space(ctx)
    use_contracts(ctx, sp)
    spec, st = expression_specs(ctx, sp)
    old_inv = spec.inv
    # wf of the chain as part of the invariant (checked for an arbitrary node)
    def inv(c, env, k):
        out = old_inv(c, env, k)
        head = env.get(st["head"])
        if st.get("checking", True) and not (isinstance(head, Obj) and head.fam is st["chain"].fam and st["chain"].pristine()):
            check_wf_chain(c, sp, head, "steps built so far")
        return out
    spec.inv = inv
    ctx.loop_specs.append(spec)
    lo, hi = z3.Ints("lo hi")
    ctx.assume(z3.And(lo >= 1, lo <= hi))
    node = it.call(it.get(f"{O}.create_random_expression"), [sp.model, lo, hi], {})
    pieces = check_wf_chain(ctx, sp, node, "new pipeline")
    n = total(pieces)
    ctx.prove("length within the requested bounds", z3.And(lo <= n, to_z3(n) <= hi))
    frame(ctx, "create_random_expression")
    ctx.cover("post")


def mutation_proof(fname, pre=None, args=None):
    def proof(ctx):
        it = ctx.interp
        sp, (ch,), (ind,) = start(ctx)
        if pre:
            pre(ctx, sp, ch)
        a = [ind, sp.model] + (args(ctx, sp, ch) if args else [])
        try:
            it.call(it.get(f"{M}.{fname}"), a, {})
        except PyRaise as e:
            if issubclass(e.exc.cls, ValueError) and fname != "random_valid_mutation_in_place":
                raise PathAbort()  # refusals are specified in C04
            raise
        check_wf_chain(ctx, sp, ind.attrs["main_node"], fname)
        ctx.cover("post")
    return proof


PROOFS("mut_replace_terminal keeps the pipeline well formed", covers=("post",))(mutation_proof("mut_replace_terminal"))
PROOFS("mut_replace_primitive keeps the pipeline well formed", covers=("post",))(mutation_proof("mut_replace_primitive"))
PROOFS("mut_insert keeps the pipeline well formed", covers=("post",))(mutation_proof("mut_insert"))
PROOFS("mut_shrink keeps the pipeline well formed", covers=("post",))(
    mutation_proof("mut_shrink", pre=lambda c, sp, ch: c.assume(ch.L >= 2)))

@PROOFS("random_valid_mutation_in_place applies one applicable mutation", covers=("post", "too long"), timeout=100)
def rvm(ctx):
    """Well formed afterwards; an already too long pipeline is only shortened."""
    it = ctx.interp
    sp, (ch,), (ind,) = start(ctx)
    mut_contracts(ctx, sp)
    ml = None if ctx.choose(2) else _maxlen(ctx)
    try:
        it.call(it.get(f"{M}.random_valid_mutation_in_place"), [ind, sp.model, ml], {})
    except PyRaise as e:
        if issubclass(e.exc.cls, IndexError):
            ctx.prove("refuses only if no mutation is possible", z3.And(
                z3.BoolVal(False) if ml is None else ch.L == ml, ch.L == 1,
                z3.Not(has_replaceable_step(sp, ch)), z3.Not(has_replaceable_value(sp, ch))))
            raise PathAbort()
        raise
    ctx.prove("exactly one mutation is applied", len(ctx.run_memo.get("applied", [])) == 1)
    if ml is not None:
        ctx.prove("at most the maximum length", to_z3(ind.chain.L) <= ml)
        if ctx.branch(ch.L > ml):
            ctx.cover("too long")
    check_wf_chain(ctx, sp, ind.attrs["main_node"], "mutated pipeline")
    frame(ctx, "random_valid_mutation_in_place", allowed_objs=(ind,))
    ctx.cover("post")


def _maxlen(c):
    m = z3.Int("max_length")
    c.assume(m >= 1)
    return m


def cross_proof(fname, pre):
    def proof(ctx):
        it = ctx.interp
        sp, (A, Bc), (a, b) = start(ctx, 2)
        pre(ctx, A, Bc)
        try:
            r1, r2 = it.unpack(it.call(it.get(f"{X}.{fname}"), [a, b], {}), 2)
        except PyRaise as e:
            if issubclass(e.exc.cls, IndexError):
                raise PathAbort()  # no shared hyperparameter: not offered (C04)
            raise
        which = ctx.choose(2)
        check_wf_chain(ctx, sp, (r1, r2)[which].attrs["main_node"], fname)
        ctx.cover("post")
    return proof


PROOFS("crossover_primitives keeps both pipelines well formed", covers=("post",))(
    cross_proof("crossover_primitives", lambda c, A, B: c.assume(z3.And(A.L >= 2, B.L >= 2))))
PROOFS("crossover_terminals keeps both pipelines well formed", covers=("post",))(
    cross_proof("crossover_terminals", lambda c, A, B: None))

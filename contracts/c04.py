"""C04: each variation operator makes exactly the change it announces."""
import z3
from pyvc.driver import *
from .gp import *
from .c01 import start, primitives_body, terminals_body, _maxlen, rvm

PROOFS = Registry()
M, X = f"{GP}.mutation", f"{GP}.crossover"


def in_place(ctx, ch, ind):
    """The individual still is its own chain; only hyperparameter lists may be changed."""
    mn = ind.attrs["main_node"]
    ctx.prove("the steps stay the same", isinstance(mn, Obj) and mn.fam is ch.fam and not ch.fam.writes
              and to_z3(mn.idx) == 0)


def one_write(ctx, ch):
    """The only changed hyperparameter: (step, index, new value); everything else is the same."""
    if len(ch.term_writes) != 1:
        ctx.fail("exactly one hyperparameter list is written", str(len(ch.term_writes)))
        raise PathAbort()
    k, c = ch.term_writes[0]
    if not hasattr(c, "updated"):
        raise Unsupported(f"shape of the modified list: {type(c).__name__}")
    k = to_z3(k)
    ctx.prove("the changed step exists", z3.And(0 <= k, k < ch.L))
    ctx.prove("the number of hyperparameters stays the same", to_z3(c.length(ctx)) == ch.nt(k))
    j0 = to_z3(c.updated[1])
    ctx.prove("the changed hyperparameter exists", z3.And(0 <= j0, j0 < ch.nt(k)))
    j = ctx.fresh_int("j")
    ctx.assume(z3.And(0 <= j, j < ch.nt(k), j != j0))
    ctx.prove("all other values of the step stay the same", c.at(ctx, j).expr == ch.term(k, j))
    return k, j0, c.at(ctx, j0).expr


@PROOFS("mut_replace_terminal changes exactly one value to a different allowed one", covers=("post", "refused"))
def replace_terminal(ctx):
    it = ctx.interp
    sp, (ch,), (ind,) = start(ctx)
    try:
        it.call(it.get(f"{M}.mut_replace_terminal"), [ind, sp.model], {})
    except PyRaise as e:
        if not issubclass(e.exc.cls, ValueError):
            raise
        ctx.prove("refused only if no value has an alternative", z3.Not(has_replaceable_value(sp, ch)))
        ctx.prove("a refused mutation changes nothing", ch.pristine())
        ctx.cover("refused")
        return
    in_place(ctx, ch, ind)
    k, j0, new = one_write(ctx, ch)
    old = ch.term(k, j0)
    ctx.prove("same hyperparameter", sp.ident(new) == sp.ident(old))
    ctx.prove("different value", sp.val(new) != sp.val(old))
    ctx.prove("allowed value", sp.inT(new))
    frame(ctx, "mut_replace_terminal", allowed_chains=(ch,))
    ctx.cover("post")


def same_step(ctx, sp, node, ch, q, what):
    """node has the component and the values of step q of ch."""
    it = ctx.interp
    p = it.getattr(node, "_primitive").expr
    ctx.prove(f"{what}: same component", p == ch.prim(q))
    terms = it.content(it.getattr(node, "_terminals"))
    n = to_z3(terms.length(ctx))
    ctx.prove(f"{what}: same number of values", n == ch.nt(q))
    j = ctx.fresh_int("j")
    ctx.assume(z3.And(0 <= j, j < n))
    t = terms.at(ctx, j).expr
    r = z3.Int("r!same")
    # different values of a well-formed step belong to different hyperparameters, so with
    # equal counts inclusion is equality
    ctx.prove(f"{what}: same values", z3.Exists([r], z3.And(0 <= r, r < ch.nt(q), t == ch.term(q, r))))


def fresh_piece(ctx, pieces, what):
    new = [k for k, p in enumerate(pieces) if p.inst is not None]
    if len(new) != 1:
        ctx.fail(f"{what}: exactly one new step", repr(pieces))
        raise PathAbort()
    pos = 0
    for p in pieces[:new[0]]:
        pos = simp(to_z3(pos) + p.length())
    return new[0], to_z3(pos)


def other_steps(ctx, sp, pieces, skip, ch, shift, what):
    """An arbitrary step of the pieces other than piece `skip` is the corresponding old step."""
    pos = 0
    offs = []
    for p in pieces:
        offs.append(pos)
        pos = simp(to_z3(pos) + p.length())
    rest = [k for k in range(len(pieces)) if k != skip]
    if not rest:
        return
    k = rest[ctx.choose(len(rest))]
    r = ctx.fresh_int("r")
    ctx.assume(z3.And(0 <= r, r < to_z3(pieces[k].length())))
    q = simp(to_z3(offs[k]) + r + (shift if (skip is not None and k > skip) else 0))
    same_step(ctx, sp, pieces[k].at(r), ch, q, what)


@PROOFS("mut_replace_primitive changes exactly one step to another component of its kind", covers=("post", "refused"))
def replace_primitive(ctx):
    it = ctx.interp
    sp, (ch,), (ind,) = start(ctx)
    try:
        it.call(it.get(f"{M}.mut_replace_primitive"), [ind, sp.model], {})
    except PyRaise as e:
        if not issubclass(e.exc.cls, ValueError):
            raise
        ctx.prove("refused only if no step has an alternative", z3.Not(has_replaceable_step(sp, ch)))
        ctx.prove("a refused mutation changes nothing", ch.pristine())
        ctx.cover("refused")
        return
    pieces = walk(ctx, ind.attrs["main_node"])
    ctx.prove("same length", to_z3(total(pieces)) == ch.L)
    k, pos = fresh_piece(ctx, pieces, "replaced step")
    new = pieces[k].inst.attrs["_primitive"].expr
    ctx.prove("a different component", new != ch.prim(pos))
    ctx.prove("of the same kind", sp.out(new) == sp.out(ch.prim(pos)))
    other_steps(ctx, sp, pieces, k, ch, 0, "other steps")
    frame(ctx, "mut_replace_primitive", allowed_chains=(ch,), allowed_objs=(ind,))
    ctx.cover("post")


@PROOFS("mut_insert adds exactly one step and keeps the estimator", covers=("post",))
def insert(ctx):
    it = ctx.interp
    sp, (ch,), (ind,) = start(ctx)
    it.call(it.get(f"{M}.mut_insert"), [ind, sp.model], {})
    pieces = walk(ctx, ind.attrs["main_node"])
    ctx.prove("one step longer", to_z3(total(pieces)) == ch.L + 1)
    k, pos = fresh_piece(ctx, pieces, "inserted step")
    ctx.prove("the estimator stays last", pos >= 1)
    other_steps(ctx, sp, pieces, k, ch, -1, "other steps")
    frame(ctx, "mut_insert", allowed_chains=(ch,), allowed_objs=(ind,))
    ctx.cover("post")


@PROOFS("mut_shrink removes the announced number of steps from the front", covers=("post", "given", "refused"))
def shrink(ctx):
    it = ctx.interp
    sp, (ch,), (ind,) = start(ctx)
    args = [ind, sp.model]
    s = None
    if ctx.choose(2):
        s = z3.Int("shrink_by")
        ctx.assume(s >= 1)
        args.append(s)
    else:
        ctx.assume(ch.L >= 2)
    try:
        it.call(it.get(f"{M}.mut_shrink"), args, {})
    except PyRaise as e:
        if not issubclass(e.exc.cls, ValueError):
            raise
        ctx.prove("refused only if no step would be left", False if s is None else s >= ch.L)
        ctx.prove("a refused mutation changes nothing", ch.pristine())
        ctx.cover("refused")
        return
    pieces = walk(ctx, ind.attrs["main_node"])
    n = to_z3(total(pieces))
    if s is None:
        ctx.prove("at least one step is removed and the estimator kept", z3.And(1 <= n, n < ch.L))
    else:
        ctx.prove("exactly the given number of steps is removed", n == ch.L - s)
        ctx.cover("given")
    other_steps(ctx, sp, pieces, None, ch, 0, "remaining steps")
    frame(ctx, "mut_shrink", allowed_chains=(ch,), allowed_objs=(ind,))
    ctx.cover("post")


@PROOFS("crossover_terminals swaps one value of a shared hyperparameter", covers=("post",))
def cross_terminals(ctx):
    it = ctx.interp
    sp, (A, Bc), (a, b) = start(ctx, 2)
    try:
        r1, r2 = it.unpack(it.call(it.get(f"{X}.crossover_terminals"), [a, b], {}), 2)
    except PyRaise as e:
        if not issubclass(e.exc.cls, (IndexError, ValueError)):
            raise
        ctx.prove("fails only if no value can be swapped", z3.Not(has_swappable(sp, A, Bc)))
        return
    ctx.prove("returns the two individuals", r1 is a and r2 is b)
    in_place(ctx, A, a)
    in_place(ctx, Bc, b)
    k, j, new_a = one_write(ctx, A)
    k2, j2, new_b = one_write(ctx, Bc)
    ctx.prove("first receives the second's value", new_a == Bc.term(k2, j2))
    ctx.prove("second receives the first's value", new_b == A.term(k, j))
    ctx.prove("of the same hyperparameter", sp.ident(new_a) == sp.ident(new_b))
    ctx.prove("the swapped values differ", sp.val(new_a) != sp.val(new_b))
    frame(ctx, "crossover_terminals", allowed_chains=(A, Bc))
    ctx.cover("post")


def has_swappable(sp, A, Bc):
    q, j, q2, j2 = z3.Ints("q!s j!s q2!s j2!s")
    t, u = A.term(q, j), Bc.term(q2, j2)
    return z3.Exists([q, j, q2, j2], z3.And(0 <= q, q < A.L, 0 <= j, j < A.nt(q), 0 <= q2, q2 < Bc.L, 0 <= j2, j2 < Bc.nt(q2),
                                            sp.ident(t) == sp.ident(u), sp.val(t) != sp.val(u)))


@PROOFS("crossover_primitives swaps the preceding parts of the two pipelines", covers=("post",))
def cross_primitives(ctx):
    it = ctx.interp
    sp, (A, Bc), (a, b) = start(ctx, 2)
    ctx.assume(z3.And(A.L >= 2, Bc.L >= 2))
    r1, r2 = it.unpack(it.call(it.get(f"{X}.crossover_primitives"), [a, b], {}), 2)
    ctx.prove("returns the two individuals", r1 is a and r2 is b)
    ctx.prove("hyperparameters are untouched", not A.term_writes and not Bc.term_writes
              and "_primitive" not in A.fam.writes and "_primitive" not in Bc.fam.writes)
    cuts = []
    for ind, own, other in ((a, A, Bc), (b, Bc, A)):
        ps = walk(ctx, ind.attrs["main_node"])
        ok = 1 <= len(ps) <= 2 and ps[0].chain is own and (len(ps) == 1 or ps[1].chain is other)
        if not ok:
            ctx.fail("own last part followed by the other's first part", repr(ps))
            raise PathAbort()
        ctx.prove("the estimator is kept", z3.And(to_z3(ps[0].a) == 0, to_z3(ps[0].b) >= 1))
        if len(ps) == 2:
            ctx.prove("the other's part is complete", to_z3(ps[1].b) == other.L)
        cuts.append((to_z3(ps[0].b), to_z3(ps[1].a) if len(ps) == 2 else other.L))
    (i, j), (j2, i2) = cuts
    ctx.prove("both are cut at the same two places", z3.And(i == i2, j == j2))
    frame(ctx, "crossover_primitives", allowed_chains=(A, Bc))
    ctx.cover("post")


def cross_contracts(ctx, sp):
    """Contracts of the two crossovers: precondition = applicable, effect = new chains."""
    def terminals(ctx, a):
        x, y = a["ind1"], a["ind2"]
        ctx.prove("crossover_terminals is only used where it applies", has_swappable(sp, x.chain, y.chain))
        for ind in (x, y):
            renew(ctx, sp, ind, ind.chain.L)
        return (x, y)

    def primitives(ctx, a):
        x, y = a["ind1"], a["ind2"]
        A, Bc = x.chain, y.chain
        ctx.prove("crossover_primitives is only used where it applies", z3.And(A.L >= 2, Bc.L >= 2))
        i, j = ctx.fresh_int("cut1"), ctx.fresh_int("cut2")
        ctx.assume(z3.And(1 <= i, i <= A.L, 1 <= j, j <= Bc.L))
        la, lb = A.L, Bc.L
        renew(ctx, sp, x, simp(i + lb - j))
        renew(ctx, sp, y, simp(j + la - i))
        return (x, y)
    ctx.contracts[f"{X}.crossover_terminals"] = terminals
    ctx.contracts[f"{X}.crossover_primitives"] = primitives


def renew(ctx, sp, ind, L):
    n = ctx.run_memo["nmut"] = ctx.run_memo.get("nmut", 0) + 1
    new = Chain(ctx, sp, f"{ind.chain.name}_x{n}", wf=True, length=L)
    new.fresh = True
    ind.attrs["main_node"] = new.node(0)
    ind.chain = new
    ctx.run_memo.setdefault("applied", []).append(("crossover", ind))


@PROOFS("random_crossover applies an applicable crossover, refuses only if there is none", covers=("post", "refused"))
def random_crossover(ctx):
    it = ctx.interp
    sp, (A, Bc), (a, b) = start(ctx, 2)
    ctx.contracts[f"{IND}.pipeline_str"] = lambda c, args: Opaque("pipeline text")
    ctx.contracts[f"{IND}.__str__"] = lambda c, args: Opaque("individual text")
    cross_contracts(ctx, sp)
    try:
        r1, r2 = it.unpack(it.call(it.get(f"{X}.random_crossover"), [a, b], {}), 2)
    except PyRaise as e:
        if not issubclass(e.exc.cls, ValueError):
            raise
        ctx.prove("refused only if nothing can be exchanged", z3.And(z3.Not(has_swappable(sp, A, Bc)), z3.Or(A.L < 2, Bc.L < 2)))
        ctx.cover("refused")
        return
    ctx.prove("one crossover is applied", len(ctx.run_memo.get("applied", [])) == 2)
    ctx.prove("returns both individuals", (r1 is a and r2 is b) or (r1 is b and r2 is a))
    ctx.cover("post")


PROOFS("random_valid_mutation_in_place offers only applicable mutations", covers=("post",), timeout=100)(rvm)


@PROOFS("OperatorSet.mutate: each attempt makes one mutation of a new copy of the parent", covers=("post",))
def mutate_attempts(ctx):
    from .c03 import mutate
    mutate(ctx, earlier=1)


@PROOFS("OperatorSet.mate: each attempt makes one crossover of new copies of the parents", covers=("post",))
def mate_attempts(ctx):
    from .c03 import mate
    mate(ctx, earlier=1)


@PROOFS("try_until_new returns a product of the operator", covers=("post",))
def try_product(ctx):
    from .c03 import try_until_new
    try_until_new(ctx)

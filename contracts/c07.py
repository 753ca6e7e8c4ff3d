"""C07: the evaluation library always knows the best evaluations.

Contracts: Evaluation comparison operators (order of score tuples), save_evaluation
preserves the library invariant (see evlib.py) and adds the evaluation, `evaluations`,
n_best. heapq is an assumed dependency (contracts listed in the evidence).
"""
import z3
from pyvc.driver import *
from contracts.evlib import *
from contracts.evlib import I, R

PROOFS = Registry()


def save_members(ctx, m_none):
    st, ct, co = save(ctx, m_none)
    x = z3.Int("x!post")
    e = st.e
    ctx.prove("every saved evaluation is remembered",
              z3.ForAll([x], z3.Or(ct.member(x), co.member(x)) == z3.Or(st.T(x), st.O(x), x == e)))
    ctx.prove("library invariant: the m best successful ones are the top evaluations",
              st.inv(ct.member, co.member, to_z3(ct.length(ctx))))
    ctx.prove("the number of top evaluations only grows", to_z3(ct.length(ctx)) >= st.tcard)
    s = st.lookup.sets
    ctx.prove("the evaluation can be looked up by its pipeline", len(s) == 1 and s[0][0][0] == "key of"
              and s[0][0][1] is s[0][1] and isinstance(s[0][1], Obj) and bool(simp(to_z3(s[0][1].idx) == e) is True))
    ctx.cover("post")


PROOFS("save_evaluation keeps the m best (m given)", covers=("post",))(lambda ctx: save_members(ctx, False))
PROOFS("save_evaluation keeps all successful ones (m unlimited)", covers=("post",))(lambda ctx: save_members(ctx, True))


def best(ctx, m_none):
    it, st, n = ranking(ctx, m_none)
    r = it.call(it.get(f"{LIB}.n_best"), [st.lib, n], {})
    c = it.content(r)
    ln = to_z3(c.length(ctx))
    ctx.prove("n of them, or all there are", ln == z3.If(n < st.tcard, n, st.tcard))
    a, b = ctx.fresh_int("a"), ctx.fresh_int("b")
    ctx.assume(z3.And(0 <= a, a < b, b < ln))

    def idx(k):
        v = c.at(ctx, k)
        return to_z3(v.idx) if isinstance(v, Obj) and v.fam is st.fam else None
    ia, ib = idx(a), idx(b)
    if ia is None or ib is None:
        return ctx.fail("the n best are saved evaluations")
    ctx.prove("from best to worst", st.key(ia) >= st.key(ib))
    ctx.prove("different evaluations", ia != ib)
    ctx.prove("kept evaluations", st.T(ia))
    ctx.prove("successful ones only", st.ok(ia))
    ctx.cover("post")


PROOFS("n_best returns kept evaluations from best to worst (m given)", covers=("post",))(lambda ctx: best(ctx, False))
PROOFS("n_best returns kept evaluations from best to worst (m unlimited)", covers=("post",))(lambda ctx: best(ctx, True))


@PROOFS("n_best leaves out only evaluations which are not better", covers=("post",))
def best2(ctx):
    it, st, n = ranking(ctx, bool(ctx.choose(2)))
    wp = ctx.choose(2) == 0
    if not wp and st.m is None:
        raise PathAbort()
    r = it.call(it.get(f"{LIB}.n_best"), [st.lib, n] + ([] if wp else [False]), {})
    c = it.content(r)
    ln = to_z3(c.length(ctx))
    a, u = ctx.fresh_int("a"), ctx.fresh_int("u")
    ctx.assume(z3.And(0 <= a, a < ln))
    ctx.assume(st.T(u))
    v = c.at(ctx, a)
    if not isinstance(v, Obj):
        return ctx.fail("the n best are saved evaluations")
    so = find_sorted(c)
    if so is None:
        raise Unsupported("the result is not cut from a sorted list")
    base, key, rev, pi, inv = so
    # u is not among the first n: instance at its own position in the sorted order
    pos = position(base, u)
    n_all = to_z3(base.length(ctx))
    spot = inv(pos) if not find_rev(c) else n_all - 1 - inv(pos)
    ctx.prove("position of an evaluation in the order", z3.And(0 <= pos, pos < n_all, 0 <= spot, spot < n_all))
    w = ctx.merge(lambda: z3.Implies(z3.And(0 <= spot, spot < ln), to_z3(c.at(ctx, spot).idx) == u))
    ctx.prove("evaluations are listed in sorted order", w)
    ctx.assume(z3.Not(z3.And(0 <= spot, spot < ln)))
    ctx.prove("nothing left out is better than something returned", st.key(u) <= st.key(to_z3(v.idx)))
    ctx.cover("post")


def find_rev(c):
    while True:
        if isinstance(c, RevC):
            return True
        if isinstance(c, SliceC):
            c = c.base
        else:
            return False


def find_sorted(c):
    for _ in range(6):
        if hasattr(c, "sorted_of"):
            return c.sorted_of
        c = getattr(c, "base", None)
        if c is None:
            return None
    return None


def position(base, u):
    """Index of evaluation u of T in the unsorted sequence (top evaluations come first)."""
    if isinstance(base, Concat):
        return base.parts[0].ix(u)
    return base.ix(u)


@PROOFS("comparison operators order evaluations by score", covers=("post",))
def compare_ops(ctx):
    it = ctx.interp
    st = St(ctx, True)
    a, b = z3.Ints("a b")
    x, y = st.obj(a), st.obj(b)
    k = st.key
    for op, want in ((ast.Lt(), k(a) < k(b)), (ast.LtE(), k(a) <= k(b)), (ast.Gt(), k(a) > k(b)), (ast.GtE(), k(a) >= k(b)),
                     (ast.Eq(), k(a) == k(b)), (ast.NotEq(), k(a) != k(b))):
        r = ctx.truthy(it.compare(op, x, y))
        ctx.prove(f"{type(op).__name__} compares the scores", truth(r) == want)
    ctx.cover("post")


@PROOFS("a new library is empty; all evaluations = top + other", covers=("post",))
def fresh(ctx):
    it = ctx.interp
    ctx.externals.update({"os.path.expandvars": lambda c, v: v, "os.path.exists": lambda c, v: c.fresh_bool("exists"),
                          "os.mkdir": lambda c, v: None})
    l = it.call(it.get(LIB), [], {"m": z3.Int("m"), "cache": Opaque("dir")})
    ctx.prove("no evaluations yet", it.content(l.attrs["top_evaluations"]).items() == [] and it.content(l.attrs["other_evaluations"]).items() == [])
    ctx.prove("two separate lists", l.attrs["top_evaluations"] is not l.attrs["other_evaluations"])
    ctx.prove("m as configured", simp(to_z3(l.attrs["_m"]) == z3.Int("m")) is True)
    st = St(ctx, True)
    r = it.content(it.getattr(st.lib, "evaluations"))
    x = z3.Int("x!all")
    if isinstance(r, Concat) and len(r.parts) == 2 and all(isinstance(p, SetC) for p in r.parts):
        ctx.prove("evaluations: all of them", z3.ForAll([x], z3.Or([p.member(x) for p in r.parts]) == z3.Or(st.T(x), st.O(x))))
        ctx.prove("each once", z3.ForAll([x], z3.Not(z3.And([p.member(x) for p in r.parts]))))
    else:
        raise Unsupported("shape of evaluations")
    ctx.cover("post")

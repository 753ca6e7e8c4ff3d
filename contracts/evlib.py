"""Contracts of the evaluation library (used by C07 and C08).

Evaluations are objects ev(i) of class Evaluation. Score tuples are ordered like real
keys key(i) (any finite total preorder embeds in the reals; NaN excluded). Abstract state
of a library: T = top evaluations, O = other evaluations, disk = those whose artefacts are
in a file.

Invariant Inv(T, O, disk):
  T and O disjoint; |T| <= m; T only successful; a successful member of O is not better than
  any member of T and exists only if |T| = m; disk = T; members of T and O hold no
  artefacts in memory.
"""
import z3
from pyvc.driver import *

EL = "gama.utilities.evaluation_library"
EV = f"{EL}.Evaluation"
LIB = f"{EL}.EvaluationLibrary"
I, R, B = z3.IntSort(), z3.RealSort(), z3.BoolSort()


class Score(Model):
    """A tuple of scores, compared lexicographically (assumed: tuple comparison)."""

    type_name = "score"

    def __init__(self, key):
        self.key = key

    def py_getattr(self, ctx, name):
        ops = {"__lt__": lambda o: self.key < o.key, "__le__": lambda o: self.key <= o.key,
               "__gt__": lambda o: self.key > o.key, "__ge__": lambda o: self.key >= o.key,
               "__eq__": lambda o: self.key == o.key, "__ne__": lambda o: self.key != o.key}
        if name in ops:
            return Builtin(name, lambda c, o: simp(ops[name](o)) if isinstance(o, Score) else _bad())
        raise Unsupported(f"score.{name}")

    def py_compare(self, ctx, name, other):
        if not isinstance(other, Score):
            raise Unsupported("score compared with something else")
        return simp({"Lt": self.key < other.key, "LtE": self.key <= other.key, "Gt": self.key > other.key,
                     "GtE": self.key >= other.key, "Eq": self.key == other.key, "NotEq": self.key != other.key}[name])

    def py_eq(self, ctx, other):
        return simp(self.key == other.key) if isinstance(other, Score) else False


def _bad():
    raise Unsupported("score compared with something else")


class Token(Model):
    """An artefact (predictions, estimators): only its identity matters."""

    type_name = "artefact"

    def __init__(self, what, idx=None, truthy=None):
        self.what, self.idx, self.t = what, idx, truthy

    def py_bool(self, ctx):
        if self.t is None:
            self.t = ctx.fresh_bool("artefact_truthy")
        return self.t

    def py_is_none(self, ctx):
        return False

    def __repr__(self):
        return f"<{self.what} {self.idx}>"


class Lookup(Model):
    type_name = "lookup"

    def __init__(self):
        self.sets = []

    def py_setitem(self, ctx, k, v):
        self.sets.append((k, v))


class St:
    def __init__(self, ctx, m_none):
        it = ctx.interp
        self.ctx = ctx
        self.key = z3.Function("key", I, R)
        self.ok = z3.Function("ok", I, B)
        self.T = z3.Function("T", I, B)
        self.O = z3.Function("O", I, B)
        self.e = z3.Int("e")
        self.tcard = z3.Int("t")
        self.m = None if m_none else z3.Int("m")
        if not m_none:
            ctx.assume(self.m >= 0)
            ctx.assume(self.tcard <= self.m)
        ctx.assume(self.tcard >= 0)
        x, y = z3.Ints("x!st y!st")
        T, O, key, ok = self.T, self.O, self.key, self.ok
        ctx.assume((self.tcard == 0) == z3.ForAll([x], z3.Not(T(x))))
        ctx.assume(self.inv(T, O, self.tcard))
        ctx.assume(z3.Not(z3.Or(T(self.e), O(self.e))))
        self.est = {}
        self.fam = Fam("evaluation", it.get(EV), {
            "score": lambda c, i: Score(key(to_z3(i))),
            "error": lambda c, i: None if c.branch(ok(to_z3(i))) else Token("error text", truthy=True),
            "individual": lambda c, i: Opaque("individual"),
            "_estimators": lambda c, i: self.mem(c, i, "estimators"),
            "_predictions": lambda c, i: self.mem(c, i, "predictions"),
            "_cache_file": lambda c, i: Opaque("file"),
        })
        self.disk = lambda z: T(z)
        self.payload = None
        self.top = ListObj(self.setc(T, self.tcard))
        self.other = ListObj(self.setc(O, None))
        self.lookup = Lookup()
        self.keyfn = Builtin("lookup key", lambda c, ev: ("key of", ev))
        self.E0, self.P0, self.P1 = Token("estimators", self.e), Token("predictions", self.e), Token("processed predictions", self.e)
        self.processed = False
        self.lib = Inst(it.get(LIB), {
            "top_evaluations": self.top, "other_evaluations": self.other, "_m": self.m, "_sample_n": Opaque("n"),
            "lookup": self.lookup, "_cache": Opaque("cache"), "_lookup_key": self.keyfn, "_sample": Opaque("sample"),
        })

    def mem(self, c, i, what):
        """In-memory artefacts: kept ones are on disk and the others were discarded."""
        if c.branch(to_z3(i) == self.e):
            return self.E0 if what == "estimators" else self.P0
        return c.interp.new_list(Conc([])) if what == "estimators" else None

    def obj(self, i):
        return Obj(self.fam, simp(to_z3(i)))

    def setc(self, member, card):
        def unwrap(v):
            if not isinstance(v, Obj) or v.fam is not self.fam:
                raise AttributeError("foreign element")
            return to_z3(v.idx)
        return SetC(I, member, lambda i: self.obj(i), card, unwrap)

    def inv(self, T, O, card):
        x, y = z3.Ints("x!inv y!inv")
        full = z3.BoolVal(False) if self.m is None else card == self.m
        out = [z3.ForAll([x], z3.Not(z3.And(T(x), O(x)))),
               z3.ForAll([x], z3.Implies(T(x), self.ok(x))),
               z3.ForAll([x], z3.Implies(z3.And(O(x), self.ok(x)), full)),
               z3.ForAll([x, y], z3.Implies(z3.And(O(x), self.ok(x), T(y)), self.key(x) <= self.key(y)))]
        if self.m is not None:
            out.append(card <= self.m)
        return z3.And(out)

    def externals(self):
        c = self.ctx
        st = self

        def heap_of(c, h):
            if h is not st.top or not isinstance(h.content, SetC):
                raise Unsupported("heap operation on another list")
            return h.content

        def push(c, h, v):
            c.assumption("library contract: heapq.heappush (adds the element)")
            heap_of(c, h)
            lib.append(c.interp, h, v)

        def pushpop(c, h, v):
            c.assumption("library contract: heapq.heappushpop (swaps the element with a minimum of the heap if that is smaller)")
            ct = heap_of(c, h)
            if not c.branch(to_z3(ct.length(c)) > 0):
                return v
            mn = c.fresh_int("min")
            x = z3.Int("x!mn")
            c.assume(ct.member(mn))
            c.assume(z3.ForAll([x], z3.Implies(ct.member(x), st.key(mn) <= st.key(x))))
            if c.test(lib.compare(c.interp, ast.Lt(), st.obj(mn), v)):
                new = ct.unwrap(v)
                c.prove("the heap holds an evaluation once", z3.Not(ct.member(new)))
                old = ct.member
                lib.set_content(c.interp, h, st.setc(lambda z: z3.Or(z3.And(old(z), z != mn), z == new), ct.card))
                return st.obj(mn)
            return v

        def pop(c, h):
            c.assumption("library contract: heapq.heappop (removes a minimum)")
            ct = heap_of(c, h)
            if not c.branch(to_z3(ct.length(c)) > 0):
                c.raise_(IndexError, "pop from empty heap")
            mn = c.fresh_int("min")
            x = z3.Int("x!mn")
            c.assume(ct.member(mn))
            c.assume(z3.ForAll([x], z3.Implies(ct.member(x), st.key(mn) <= st.key(x))))
            old = ct.member
            lib.set_content(c.interp, h, st.setc(lambda z: z3.And(old(z), z != mn), simp(ct.card - 1)))
            return st.obj(mn)

        def nlargest(c, n, h):
            c.assumption("library contract: heapq.nlargest (like sorted in descending order, cut after n)")
            s = lib.sorted_(c, h, reverse=True)
            return lib.getitem(c.interp, s, slice(None, ite_max(n, 0) if is_num(n) else n, None))

        c.externals.update({"heapq.heappush": push, "heapq.heappushpop": pushpop, "heapq.heappop": pop, "heapq.nlargest": nlargest})

    def contracts(self):
        c, st = self.ctx, self

        def to_disk(c, a):
            i = to_z3(a["self"].idx)
            c.prove("artefacts are written once", z3.Not(st.disk(i)))
            c.prove("they are written to the library's directory", a["directory"] is st.lib.attrs["_cache"])
            it = c.interp
            est, pred = it.getattr(a["self"], "_estimators"), it.getattr(a["self"], "_predictions")
            st.payload = (i, est, pred)
            it.setattr(a["self"], "_estimators", it.new_list(Conc([])))
            it.setattr(a["self"], "_predictions", None)
            old = st.disk
            st.disk = lambda z: z3.Or(old(z), z == i)

        def remove(c, a):
            i = to_z3(a["self"].idx)
            c.prove("only existing files are removed", st.disk(i))
            old = st.disk
            st.disk = lambda z: z3.And(old(z), z != i)

        def process(c, a):
            c.prove("the saved evaluation's predictions are processed", to_z3(a["evaluation"].idx) == st.e)
            c.prove("once", not st.processed)
            st.processed = True
            c.interp.setattr(a["evaluation"], "_predictions", None if c.choose(2) else st.P1)

        c.contracts[f"{EV}.to_disk"] = to_disk
        c.contracts[f"{EV}.remove_from_disk"] = remove
        c.contracts[f"{LIB}._process_predictions"] = process


def save(ctx, m_none):
    """Run save_evaluation symbolically; returns the state and the final T, O."""
    it = ctx.interp
    st = St(ctx, m_none)
    st.externals()
    st.contracts()
    it.call(it.get(f"{LIB}.save_evaluation"), [st.lib, st.obj(st.e)], {})
    top, other = st.lib.attrs["top_evaluations"], st.lib.attrs["other_evaluations"]
    ct, co = it.content(top), it.content(other)
    for c in (ct, co):
        if not isinstance(c, SetC):
            raise Unsupported("shape of the library's lists")
    return st, ct, co


def ranking(ctx, m_none):
    """Symbolic state and result of n_best."""
    it = ctx.interp
    st = St(ctx, m_none)
    st.externals()
    n = z3.Int("n")
    ctx.assume(n >= 1)
    return it, st, n

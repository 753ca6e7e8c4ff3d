"""Shared theory of pipelines: search space, symbolic chains of steps, frame conditions.

A pipeline of arbitrary length L is a family node(0..L-1); node(0) is the main node,
node(i)._data_node is node(i+1), the last one's is "data". Mutations are overrides on the
family (symbolic heap); `walk` follows `_data_node` through the overrides.
"""
import ast
import z3
from pyvc.driver import *
from pyvc.engine import _Return
from pyvc import lib

GP = "gama.genetic_programming"
NODE = f"{GP}.components.primitive_node.PrimitiveNode"
IND = f"{GP}.components.individual.Individual"
I, B = z3.IntSort(), z3.BoolSort()


class FamList(ListObj):
    """The list stored in field `field` of family member idx (identity = owner)."""

    def __init__(self, chain, idx):
        self.chain, self.idx = chain, idx
        self.kind, self.label = "list", "terminals"

    @property
    def content(self):
        return self.chain.terms_content(self.idx)

    @content.setter
    def content(self, c):
        self.chain.term_writes.append((self.idx, c))


class Space:
    """An arbitrary search space (primitive set)."""

    def __init__(self, ctx, axioms=True):
        self.ctx = ctx
        it = ctx.interp
        self.Kind, self.Id, self.Val = Schema("Kind"), Schema("Id"), Schema("Value")
        self.Kind.is_str = self.Id.is_str = True
        pcls = it.get(f"{GP}.components.primitive.Primitive")
        tcls = it.get(f"{GP}.components.terminal.Terminal")
        self.Prim, self.Tm = Schema("Prim", cls=pcls), Schema("Tm", cls=tcls)
        P, T, K, D, V = self.Prim.sort, self.Tm.sort, self.Kind.sort, self.Id.sort, self.Val.sort
        self.out = z3.Function("out", P, K)
        self.nin = z3.Function("nin", P, I)
        self.inp = z3.Function("inp", P, I, D)
        self.ident = z3.Function("ident", T, D)
        self.val = z3.Function("val", T, V)
        self.nP, self.Pat, self.Pidx = z3.Function("nP", K, I), z3.Function("Pat", K, I, P), z3.Function("Pidx", P, I)
        self.nT, self.Tat, self.Tidx = z3.Function("nT", D, I), z3.Function("Tat", D, I, T), z3.Function("Tidx", T, I)
        self.Prim.attrs = {
            "input": lambda c, e: ListObj(FnC(self.nin(e), lambda cc, i: Term(self.inp(e, to_z3(i)), self.Id)), kind="tuple"),
            "output": lambda c, e: Term(self.out(e), self.Kind),
            "identifier": lambda c, e: Opaque("identifier"),
        }
        self.Tm.attrs = {
            "identifier": lambda c, e: Term(self.ident(e), self.Id),
            "value": lambda c, e: Term(self.val(e), self.Val),
            "output": lambda c, e: Opaque("terminal output"),
        }
        self.PRED = lib.str_const(ctx, "prediction", self.Kind)
        self.DATA = lib.str_const(ctx, "data", self.Kind)
        self.model = Pset(self)
        if not axioms:
            return
        k = z3.Const("k!p", K)
        d = z3.Const("d!p", D)
        i, j = z3.Ints("i!p j!p")
        p = z3.Const("p!p", P)
        ctx.assume(z3.ForAll([k], self.nP(k) >= 0))
        ctx.assume(z3.ForAll([d], self.nT(d) >= 0))
        ctx.assume(z3.ForAll([p], self.nin(p) >= 0))
        ctx.assume(z3.ForAll([k, i], z3.Implies(z3.And(0 <= i, i < self.nP(k)),
                   z3.And(self.out(self.Pat(k, i)) == k, self.Pidx(self.Pat(k, i)) == i)), patterns=[self.Pat(k, i)]))
        ctx.assume(z3.ForAll([d, i], z3.Implies(z3.And(0 <= i, i < self.nT(d)),
                   z3.And(self.ident(self.Tat(d, i)) == d, self.Tidx(self.Tat(d, i)) == i)), patterns=[self.Tat(d, i)]))
        # a hyperparameter's listed values are pairwise different
        ctx.assume(z3.ForAll([d, i, j], z3.Implies(z3.And(0 <= i, i < j, j < self.nT(d)),
                   self.val(self.Tat(d, i)) != self.val(self.Tat(d, j))), patterns=[MP(self.Tat(d, i), self.Tat(d, j))]))
        # declared hyperparameters of a component are pairwise different, each has values
        ctx.assume(z3.ForAll([p, i, j], z3.Implies(z3.And(0 <= i, i < j, j < self.nin(p)),
                   self.inp(p, i) != self.inp(p, j)), patterns=[MP(self.inp(p, i), self.inp(p, j))]))
        ctx.assume(z3.ForAll([p, i], z3.Implies(z3.And(self.inP(p), 0 <= i, i < self.nin(p)),
                   self.nT(self.inp(p, i)) >= 1), patterns=[self.inp(p, i)]))
        ctx.assume(self.nP(self.PRED) >= 1)
        ctx.assume(self.nP(self.DATA) >= 1)

    def inP(self, p):
        return z3.And(0 <= self.Pidx(p), self.Pidx(p) < self.nP(self.out(p)),
                      self.Pat(self.out(p), self.Pidx(p)) == p)

    def inT(self, t):
        return z3.And(0 <= self.Tidx(t), self.Tidx(t) < self.nT(self.ident(t)),
                      self.Tat(self.ident(t), self.Tidx(t)) == t)


class Pset(Model):
    type_name = "primitive set"

    def __init__(self, sp):
        self.sp = sp

    def py_getitem(self, ctx, key):
        sp = self.sp
        if isinstance(key, str):
            if key not in ("prediction", "data"):
                raise Unsupported(f"primitive set key {key}")
            key = Term(lib.str_const(ctx, key, sp.Kind), sp.Kind)
        if isinstance(key, Term) and key.schema is sp.Kind:
            k = key.expr
            return ListObj(FnC(sp.nP(k), lambda c, i: Term(sp.Pat(k, to_z3(i)), sp.Prim)))
        if isinstance(key, Term) and key.schema is sp.Id:
            d = key.expr
            return ListObj(FnC(sp.nT(d), lambda c, i: Term(sp.Tat(d, to_z3(i)), sp.Tm)))
        raise Unsupported(f"primitive set key {key!r}")

    def py_setitem(self, ctx, k, v):
        ctx.fail("the search space is not modified")


class Chain:
    """An arbitrary well-formed pipeline."""

    def __init__(self, ctx, sp, name, wf=True, length=None, kind0=None, prim=None, nt=None, term=None):
        self.ctx, self.sp, self.name = ctx, sp, name
        it = ctx.interp
        self.L = length if length is not None else z3.Int(f"len_{name}")
        P, T = sp.Prim.sort, sp.Tm.sort
        self.prim = prim or z3.Function(f"{name}.prim", I, P)
        self.nt = nt or z3.Function(f"{name}.nt", I, I)
        self.term = term or z3.Function(f"{name}.term", I, I, T)
        self.sig = z3.Function(f"{name}.sig", I, I, I)
        self.off = z3.Function(f"{name}.off", I, I)
        self.term_writes = []
        self.fam = Fam(name, it.get(NODE), {
            "_primitive": lambda c, i: Term(self.prim(to_z3(i)), sp.Prim),
            "_data_node": self._next,
            "_terminals": lambda c, i: FamList(self, i),
        })
        self.fam.chain = self
        if wf:
            ctx.assume(self.L >= 1)
            self.assume_wf(kind0)
            self.assume_off()

    def assume_wf(self, kind0=None):
        ctx, sp = self.ctx, self.sp
        i, j, j2 = z3.Ints("i!w j!w j2!w")
        dom = z3.And(0 <= i, i < self.L)
        first = sp.PRED if kind0 is None else kind0
        ctx.assume(z3.ForAll([i], z3.Implies(dom, z3.And(
            sp.inP(self.prim(i)), sp.out(self.prim(i)) == z3.If(i == 0, first, sp.DATA),
            self.nt(i) == sp.nin(self.prim(i)))), patterns=[self.prim(i)]))
        dj = z3.And(dom, 0 <= j, j < self.nt(i))
        ctx.assume(z3.ForAll([i, j], z3.Implies(dj, z3.And(
            sp.inT(self.term(i, j)), 0 <= self.sig(i, j), self.sig(i, j) < self.nt(i),
            sp.ident(self.term(i, j)) == sp.inp(self.prim(i), self.sig(i, j)))), patterns=[self.term(i, j)]))
        ctx.assume(z3.ForAll([i, j, j2], z3.Implies(z3.And(dj, 0 <= j2, j2 < self.nt(i), j != j2),
                   self.sig(i, j) != self.sig(i, j2)), patterns=[MP(self.term(i, j), self.term(i, j2))]))

    def assume_off(self):
        ctx = self.ctx
        a, b = z3.Ints("a!o b!o")
        off = self.off
        ctx.assume(off(0) == 0)
        ctx.assume(z3.ForAll([a], z3.Implies(z3.And(0 <= a, a < self.L), z3.And(self.nt(a) >= 0, off(a + 1) == off(a) + self.nt(a))), patterns=[off(a + 1)]))
        ctx.assume(z3.ForAll([a], z3.Implies(z3.And(0 <= a, a < self.L), off(a + 1) == off(a) + self.nt(a)), patterns=[self.nt(a)]))
        ctx.assume(z3.ForAll([a, b], z3.Implies(z3.And(0 <= a, a <= b, b <= self.L), off(a) <= off(b)),
                   patterns=[MP(off(a), off(b))]))

    def _next(self, ctx, i):
        if ctx.branch(simp(to_z3(i) + 1 < self.L)):
            return Obj(self.fam, simp(to_z3(i) + 1))
        return "data"

    def node(self, i):
        return Obj(self.fam, i)

    def base_terms(self, i):
        i = to_z3(i)
        return FnC(self.nt(i), lambda c, j: Term(self.term(i, to_z3(j)), self.sp.Tm))

    def terms_content(self, i):
        ctx = self.ctx
        for idx, c in reversed(self.term_writes):
            if ctx.branch(simp(to_z3(idx) == to_z3(i))):
                return c
        return self.base_terms(i)

    def pristine(self):
        return not self.term_writes and not self.fam.writes

    def individual(self, label):
        ctx, it = self.ctx, self.ctx.interp
        ind = Inst(it.get(IND), {
            "fitness": Opaque("fitness"), "main_node": self.node(0), "meta": DictObj([], label="meta"),
            "_id": z3.Int(f"id_{label}"), "_to_pipeline": Opaque("to_pipeline")}, label=label)
        ctx.assume(z3.And(ind.attrs["_id"] >= 0, ind.attrs["_id"] < 10**6))
        ind.chain = self
        return ind


# ------------------------------------------------------------------ walking a chain
class Piece:
    """[a, b) of a family, or a single freshly allocated node."""

    def __init__(self, chain=None, a=None, b=None, inst=None):
        self.chain, self.a, self.b, self.inst = chain, a, b, inst

    def length(self):
        return 1 if self.inst is not None else simp(to_z3(self.b) - self.a)

    def at(self, q):
        return self.inst if self.inst is not None else Obj(self.chain.fam, simp(to_z3(self.a) + q))

    def __repr__(self):
        return f"<{self.inst!r}>" if self.inst is not None else f"<{self.chain.name}[{self.a}:{self.b}]>"


def walk(ctx, node):
    """Pieces of the chain starting at `node` (follows overrides; forks on their order)."""
    it = ctx.interp
    pieces, seen = [], []
    while True:
        if isinstance(node, Inst):
            if any(n is node for n in seen):
                ctx.fail("a pipeline is a finite chain of steps (no cycle)")
                raise PathAbort()
            seen.append(node)
            pieces.append(Piece(inst=node))
            node = node.attrs.get("_data_node")
        elif isinstance(node, Obj) and hasattr(node.fam, "chain"):
            ch, i = node.fam.chain, to_z3(node.idx)
            ws = node.fam.writes.get("_data_node", [])
            # the first overridden index at or after i
            best = None
            for w, v in ws:
                w = to_z3(w)
                if ctx.branch(simp(z3.And(w >= i, w < ch.L))):
                    if best is None:
                        best = w
                    elif ctx.branch(simp(w < best)):
                        best = w
            if len(pieces) > 12:
                raise Unsupported("walk: too many pieces")
            if best is None:
                pieces.append(Piece(ch, simp(i), simp(ch.L)))
                return pieces
            for p in pieces:
                if p.chain is ch and ctx.branch(simp(z3.And(best >= to_z3(p.a), best < to_z3(p.b)))):
                    ctx.fail("a pipeline is a finite chain of steps (no cycle)")
                    raise PathAbort()
            pieces.append(Piece(ch, simp(i), simp(best + 1)))
            node = it.getattr(Obj(node.fam, simp(best)), "_data_node")
        elif isinstance(node, str):
            if node != "data":
                ctx.fail("a pipeline starts from the data", node)
                raise PathAbort()
            return pieces
        else:
            ctx.fail("steps are pipeline nodes", repr(node))
            raise PathAbort()


def total(pieces):
    t = 0
    for p in pieces:
        t = simp(to_z3(t) + p.length())
    return t


class PiecesC(Content):
    def __init__(self, pieces):
        self.pieces = pieces

    def items(self):
        if all(p.inst is not None for p in self.pieces):
            return [p.inst for p in self.pieces]
        return None

    def length(self, ctx):
        return total(self.pieces)

    def at(self, ctx, q):
        q = to_z3(q)
        for p in self.pieces[:-1]:
            n = p.length()
            if ctx.branch(simp(q < n)):
                return p.at(q)
            q = simp(q - n)
        return self.pieces[-1].at(q)


def primitives_contract(ctx, a):
    """Individual.primitives: the nodes along _data_node, main node first (proved in C01)."""
    ind = a["self"]
    c = PiecesC(walk(ctx, ctx.interp.getattr(ind, "main_node")))
    l = ctx.interp.new_list(c)
    l.of_ind = ind
    return l


def terminals_contract(ctx, a):
    """Individual.terminals: all hyperparameter values, step by step (proved in C01)."""
    ind = a["self"]
    ch = getattr(ind, "chain", None)
    mn = ind.attrs.get("main_node")
    if ch is None or not ch.pristine() or not (isinstance(mn, Obj) and mn.fam is ch.fam and simp(mn.idx) == 0):
        pieces = walk(ctx, mn)
        return ctx.interp.new_list(FlattenC(PiecesC(pieces), lambda c, v: c.interp.getattr(v, "_terminals").content))
    outer = FnC(ch.L, lambda c, i: ch.node(i))
    return ctx.interp.new_list(FlattenC(outer, lambda c, v: ch.base_terms(v.idx), off=ch.off))


def use_contracts(ctx, sp=None):
    if sp is not None:
        ctx.contracts[f"{GP}.operations.random_primitive_node"] = rpn_contract(sp)
    ctx.contracts[f"{IND}.primitives"] = primitives_contract
    ctx.contracts[f"{IND}.terminals"] = terminals_contract
    ctx.contracts[f"{NODE}.copy"] = copy_contract


def rpn_contract(sp):
    """random_primitive_node: a fresh well-formed step of the requested kind, not the excluded
    component (proved in C01); needs a component of that kind other than the excluded one."""
    def contract(ctx, a):
        kind, excl = a["output_type"], a.get("exclude")
        if a["primitive_set"] is not sp.model:
            raise Unsupported("other primitive set")
        if isinstance(kind, str):
            kind = Term(lib.str_const(ctx, kind, sp.Kind), sp.Kind)
        if not (isinstance(kind, Term) and kind.schema is sp.Kind):
            raise Unsupported("kind of step")
        p = ctx.fresh_const("newprim", sp.Prim.sort)
        q = z3.Int("q!rpn")
        cand = z3.And(0 <= q, q < sp.nP(kind.expr))
        if excl is not None:
            cand = z3.And(cand, sp.Pat(kind.expr, q) != excl.expr)
        if not ctx.test(z3.Exists([q], cand)):
            ctx.raise_(IndexError, "Cannot choose from an empty sequence")
        ctx.assume(z3.And(sp.inP(p), sp.out(p) == kind.expr))
        if excl is not None:
            ctx.assume(p != excl.expr)
        tf = ctx.fresh_fun("newterm", I, sp.Tm.sort)
        sg = ctx.fresh_fun("newsig", I, I)
        i, j = z3.Ints("i!r j!r")
        di = z3.And(0 <= i, i < sp.nin(p))
        ctx.assume(z3.ForAll([i], z3.Implies(di, z3.And(sp.inT(tf(i)), 0 <= sg(i), sg(i) < sp.nin(p),
                   sp.ident(tf(i)) == sp.inp(p, sg(i)))), patterns=[tf(i)]))
        ctx.assume(z3.ForAll([i, j], z3.Implies(z3.And(di, 0 <= j, j < sp.nin(p), i != j), sg(i) != sg(j)),
                   patterns=[MP(tf(i), tf(j))]))
        it = ctx.interp
        n = Inst(it.get(NODE), {"_primitive": Term(p, sp.Prim), "_data_node": "data",
                 "_terminals": it.new_list(FnC(sp.nin(p), lambda c, k: Term(tf(to_z3(k)), sp.Tm)))}, label="new step")
        n.birth = ctx.clock()
        return n
    return contract




def copy_contract(ctx, a):
    """PrimitiveNode.copy: a fresh, separate chain with the same components and values."""
    pieces = walk(ctx, a["self"])
    if len(pieces) == 1 and pieces[0].chain is not None and not pieces[0].chain.term_writes \
            and "_primitive" not in pieces[0].chain.fam.writes:
        p = pieces[0]
        src = p.chain
        n = ctx.run_memo.get("ncopy", 0) + 1
        ctx.run_memo["ncopy"] = n
        base = to_z3(p.a)
        perm = ctx.fresh_fun("copyperm", I, I, I)
        i, j, j2 = z3.Ints("i!c j!c j2!c")
        ch = Chain(ctx, src.sp, f"{src.name}_copy{n}", wf=False, length=simp(to_z3(p.b) - base))
        # element-wise equal to the source (hyperparameters possibly in another order)
        dom = z3.And(0 <= i, i < ch.L)
        dj = z3.And(dom, 0 <= j, j < ch.nt(i))
        ctx.assume(z3.ForAll([i], z3.Implies(dom, z3.And(ch.prim(i) == src.prim(base + i), ch.nt(i) == src.nt(base + i))),
                             patterns=[ch.prim(i)]))
        ctx.assume(z3.ForAll([i], z3.Implies(dom, ch.nt(i) == src.nt(base + i)), patterns=[ch.nt(i)]))
        ctx.assume(z3.ForAll([i, j], z3.Implies(dj, z3.And(0 <= perm(i, j), perm(i, j) < ch.nt(i),
                   ch.term(i, j) == src.term(base + i, perm(i, j)))), patterns=[ch.term(i, j)]))
        ctx.assume(z3.ForAll([i, j, j2], z3.Implies(z3.And(dj, 0 <= j2, j2 < ch.nt(i), j != j2), perm(i, j) != perm(i, j2)),
                             patterns=[MP(ch.term(i, j), ch.term(i, j2))]))
        ch.copy_of = (src, base, perm)
        ch.sig = lambda x, y: src.sig(base + x, perm(x, y))
        ch.assume_off()
        ch.fresh = True
        ch.fam.birth = ctx.clock()
        return ch.node(0)
    raise Unsupported("copy of a modified chain")


# ------------------------------------------------------------------ loop specifications
def chain_of(it, iterable):
    l = iterable
    if isinstance(l, ListObj) and isinstance(l.content, PiecesC) and len(l.content.pieces) == 1 \
            and l.content.pieces[0].chain is not None:
        return l.content.pieces[0]
    return None


def add_loop_specs(ctx):
    """Invariants for the loops of replace_terminal / replace_primitive / mut_shrink."""
    def rt_match(it, node, iterable, env):
        p = chain_of(it, iterable)
        if p is None or not (simp(p.a) == 0):
            return False
        # an integer scan variable which is advanced in the body
        names = [n for n in assigned_names(node.body) if env.has(n) and is_num(env.get(n))]
        if len(names) != 1:
            return False
        ctx.run_memo["scan"] = (names[0], env.get(names[0]), p.chain)
        return simp(env.get(names[0])) == 0

    def rt_havoc(c, env, k):
        name, v0, ch = c.run_memo["scan"]
        env.set(name, ch.off(to_z3(k)))

    def rt_inv(c, env, k):
        name, v0, ch = c.run_memo["scan"]
        pos = env.get("position")
        return [("scan position = values in earlier steps", to_z3(env.get(name)) == ch.off(to_z3(k))),
                ("target not in earlier steps", z3.Or(pos < 0, ch.off(to_z3(k)) <= pos))]

    ctx.loop_specs.append(LoopSpec(f"{IND}.replace_terminal", rt_match, rt_havoc, rt_inv,
                                   names=["position"], label="replace_terminal scan"))

    def rp_match(it, node, iterable, env):
        c = it.content(iterable)
        if not isinstance(c, EnumC):
            return False
        l = ListObj(c.base)
        p = chain_of(it, l)
        if p is None or simp(p.a) != 0 or c.start != 0:
            return False
        names = [n for n in assigned_names(node.body) if env.has(n) and env.get(n) is None]
        if len(names) != 1:
            return False
        ctx.run_memo["last"] = (names[0], p.chain)
        return True

    def rp_havoc(c, env, k):
        name, ch = c.run_memo["last"]
        if c.branch(simp(to_z3(k) == 0)):
            env.set(name, None)
        else:
            env.set(name, ch.node(simp(to_z3(k) - 1)))

    def rp_inv(c, env, k):
        name, ch = c.run_memo["last"]
        v = env.get(name)
        k = to_z3(k)
        if v is None:
            prev = k == 0
        elif isinstance(v, Obj) and v.fam is ch.fam:
            prev = z3.And(k > 0, to_z3(v.idx) == k - 1)
        else:
            prev = z3.BoolVal(False)
        pos = env.get("position")
        return [("previous step", prev), ("target not passed", z3.Or(pos < 0, k <= pos))]

    ctx.loop_specs.append(LoopSpec(f"{IND}.replace_primitive", rp_match, rp_havoc, rp_inv,
                                   names=["position"], label="replace_primitive scan"))

    # pointer-chasing loops: node variables advance one step, counters by a constant
    class ChainLoop(LoopSpec):
        def matches(self, it, node, iterable, env):
            if not it.fn_stack or not it.within().endswith("mut_shrink"):
                return False
            names = assigned_names(node.body)
            st = {}
            for n in names:
                if not env.has(n):
                    return False
                v = env.get(n)
                if isinstance(v, Obj) and hasattr(v.fam, "chain"):
                    st[n] = ("node", v)
                elif is_num(v):
                    step = None
                    for s in ast.walk(ast.Module(body=node.body, type_ignores=[])):
                        if isinstance(s, ast.AugAssign) and isinstance(s.target, ast.Name) and s.target.id == n \
                                and isinstance(s.value, ast.Constant):
                            step = s.value.value if isinstance(s.op, ast.Add) else -s.value.value
                    if step is None:
                        return False
                    st[n] = ("int", v, step)
                else:
                    return False
            if not any(v[0] == "node" for v in st.values()):
                return False
            self.st, self.node = st, node
            self.while_ = isinstance(node, ast.While)
            return True

        def run(self, it, node, iterable, env):
            if not self.while_:
                return super().run(it, node, iterable, env)
            c = it.ctx
            c.run_memo["cl_k"] = 0
            return super().run(it, node, iterable, env)

    spec = ChainLoop(None, None, None, None, label="walk along the pipeline")

    def havoc(c, env, k):
        if k is None:
            k = c.fresh_int("steps")
            c.run_memo["cl_k"] = k
        for n, v in spec.st.items():
            if v[0] == "node":
                env.set(n, Obj(v[1].fam, simp(to_z3(v[1].idx) + k)))
            else:
                env.set(n, simp(v[1] + v[2] * to_z3(k)))

    def inv(c, env, k):
        # positions reached after k steps, all inside the chain
        out = []
        if k is None:
            nodes = [n for n, v in spec.st.items() if v[0] == "node"]
            cur = env.get(nodes[0])
            k = simp(to_z3(cur.idx) - spec.st[nodes[0]][1].idx) if isinstance(cur, Obj) else z3.IntVal(-1)
        k = to_z3(k)
        out.append(("steps taken", k >= 0))
        for n, v in spec.st.items():
            cur = env.get(n)
            if v[0] == "node":
                ok = isinstance(cur, Obj) and cur.fam is v[1].fam
                out.append((f"{n} advanced along the chain", z3.And(to_z3(cur.idx) == v[1].idx + k, to_z3(cur.idx) < v[1].fam.chain.L)
                            if ok else z3.BoolVal(False)))
            else:
                out.append((f"{n} counts the steps", to_z3(cur) == v[1] + v[2] * k))
        if spec.while_:
            # the loop condition held one step earlier
            now = {n: env.get(n) for n in spec.st}
            prev = simp(k - 1)
            for n, v in spec.st.items():
                env.set(n, Obj(v[1].fam, simp(to_z3(v[1].idx) + prev)) if v[0] == "node" else simp(v[1] + v[2] * prev))
            try:
                held = c.merge(lambda: c.truthy(c.interp.eval(spec.node.test, env)))
            finally:
                for n, v in now.items():
                    env.set(n, v)
            out.append(("the loop condition held before the last step", z3.Or(k == 0, truth(held))))
        return out

    spec.havoc_fn, spec.inv = havoc, inv
    ctx.loop_specs.append(spec)


# ------------------------------------------------------------------ obligations
def check_wf_node(ctx, sp, node, kind, what):
    it = ctx.interp
    p = it.getattr(node, "_primitive")
    if not (isinstance(p, Term) and p.schema is sp.Prim):
        return ctx.fail(f"{what}: step has a component", repr(p))
    e = p.expr
    ctx.prove(f"{what}: component comes from the search space", sp.inP(e))
    ctx.prove(f"{what}: estimator last, preprocessors before", sp.out(e) == kind)
    terms = it.content(it.getattr(node, "_terminals"))
    n = terms.length(ctx)
    ctx.prove(f"{what}: one value per declared hyperparameter (count)", to_z3(n) == sp.nin(e))
    j1, j2 = ctx.fresh_int("j1"), ctx.fresh_int("j2")
    ctx.assume(z3.And(0 <= j1, j1 < n, 0 <= j2, j2 < n, j1 != j2))
    t1, t2 = terms.at(ctx, j1), terms.at(ctx, j2)
    q = z3.Int("q!wf")
    ctx.prove(f"{what}: values belong to declared hyperparameters",
              z3.Exists([q], z3.And(0 <= q, q < sp.nin(e), sp.ident(t1.expr) == sp.inp(e, q))))
    ctx.prove(f"{what}: one value per declared hyperparameter (no duplicate)", sp.ident(t1.expr) != sp.ident(t2.expr))
    ctx.prove(f"{what}: value is allowed", sp.inT(t1.expr))


def check_wf_single(ctx, sp, node, kind, what):
    """As check_wf_node but also for a single hyperparameter (j1 alone)."""
    it = ctx.interp
    p = it.getattr(node, "_primitive")
    if not (isinstance(p, Term) and p.schema is sp.Prim):
        return ctx.fail(f"{what}: step has a component", repr(p))
    e = p.expr
    ctx.prove(f"{what}: component comes from the search space", sp.inP(e))
    ctx.prove(f"{what}: estimator last, preprocessors before", sp.out(e) == kind)
    terms = it.content(it.getattr(node, "_terminals"))
    n = terms.length(ctx)
    ctx.prove(f"{what}: one value per declared hyperparameter (count)", to_z3(n) == sp.nin(e))
    which = ctx.choose(2)
    if which == 0:
        j1 = ctx.fresh_int("j1")
        ctx.assume(z3.And(0 <= j1, j1 < n))
        t1 = terms.at(ctx, j1)
        q = z3.Int("q!wf")
        ctx.prove(f"{what}: value belongs to a declared hyperparameter",
                  z3.Exists([q], z3.And(0 <= q, q < sp.nin(e), sp.ident(t1.expr) == sp.inp(e, q))))
        ctx.prove(f"{what}: value is allowed", sp.inT(t1.expr))
    else:
        j1, j2 = ctx.fresh_int("j1"), ctx.fresh_int("j2")
        ctx.assume(z3.And(0 <= j1, j1 < j2, j2 < n))
        t1, t2 = terms.at(ctx, j1), terms.at(ctx, j2)
        ctx.prove(f"{what}: no hyperparameter has two values", sp.ident(t1.expr) != sp.ident(t2.expr))


def check_wf_chain(ctx, sp, main, what):
    """Every step of the resulting pipeline is well formed (arbitrary step)."""
    pieces = walk(ctx, main)
    k = ctx.choose(len(pieces))
    p = pieces[k]
    if p.inst is not None:
        check_wf_single(ctx, sp, p.inst, sp.PRED if k == 0 else sp.DATA, what)
    else:
        i = ctx.fresh_int("i")
        ctx.assume(z3.And(to_z3(p.a) <= i, i < to_z3(p.b)))
        kind = sp.DATA
        if k == 0:
            kind = z3.If(i == p.a, sp.PRED, sp.DATA)
        check_wf_single(ctx, sp, Obj(p.chain.fam, i), kind, what)
    return pieces


def frame(ctx, what, allowed_chains=(), allowed_objs=(), mark=0):
    """Only fresh objects and the listed ones may have been modified."""
    for obj, field, birth, when in ctx.mutlog[mark:]:
        if isinstance(obj, Obj):
            ch = getattr(obj.fam, "chain", None)
            ok = ch is not None and (ch in allowed_chains or getattr(ch, "fresh", False))
        elif isinstance(obj, FamList):
            ok = obj.chain in allowed_chains or getattr(obj.chain, "fresh", False)
        else:
            ok = getattr(obj, "birth", 0) > 0 or any(obj is o for o in allowed_objs)
        if not ok:
            ctx.fail(f"{what}: nothing else is modified", f"{obj!r}.{field}")
    ctx.prove(f"{what}: nothing else is modified", True)


# ------------------------------------------------------------------ operator contracts
MUT = f"{GP}.mutation"


def has_replaceable_step(sp, ch):
    q = z3.Int("q!rs")
    return z3.Exists([q], z3.And(0 <= q, q < ch.L, sp.nP(sp.out(ch.prim(q))) > 1))


def has_replaceable_value(sp, ch):
    q, j = z3.Ints("q!rv j!rv")
    return z3.Exists([q, j], z3.And(0 <= q, q < ch.L, 0 <= j, j < ch.nt(q), sp.nT(sp.ident(ch.term(q, j))) > 1))


def mut_contracts(ctx, sp):
    """Contracts of the four mutations (each proved against its body): precondition =
    applicable; effect on this individual only = well formed, stated change of length."""
    def effect(name, need, length):
        def contract(ctx, a):
            ind = a["individual"]
            ch = ind.chain
            if not ch.pristine():
                raise Unsupported("mutation of an already modified individual")
            n = ctx.run_memo["nmut"] = ctx.run_memo.get("nmut", 0) + 1
            for lab, f in need(a, ch):
                ctx.prove(f"{name} is only used where it applies: {lab}", f)
                ctx.assume(f)
            L = length(a, ch)
            new = Chain(ctx, sp, f"{ch.name}_mut{n}", wf=True, length=L)
            new.fresh, new.mut_of = True, (ch, name)
            ind.attrs["main_node"] = new.node(0)
            ind.chain = new
            ctx.log_mut(ind, "main_node")
            ctx.run_memo.setdefault("applied", []).append((name, ind))
            return None
        contract.op = name
        return contract

    def shrink_need(a, ch):
        s = a.get("shrink_by")
        if s is None:
            return [("at least two steps", ch.L >= 2)]
        return [("0 < shrink_by < length", z3.And(0 < to_z3(s), to_z3(s) < ch.L))]

    def shrink_len(a, ch):
        s = a.get("shrink_by")
        if s is None:
            s = ctx.fresh_int("removed")
            ctx.assume(z3.And(1 <= s, s <= ch.L - 1))
        return simp(ch.L - to_z3(s))

    ctx.contracts[f"{MUT}.mut_replace_terminal"] = effect(
        "mut_replace_terminal", lambda a, ch: [("a value with an alternative", has_replaceable_value(sp, ch))], lambda a, ch: ch.L)
    ctx.contracts[f"{MUT}.mut_replace_primitive"] = effect(
        "mut_replace_primitive", lambda a, ch: [("a step with an alternative", has_replaceable_step(sp, ch))], lambda a, ch: ch.L)
    ctx.contracts[f"{MUT}.mut_insert"] = effect("mut_insert", lambda a, ch: [], lambda a, ch: simp(ch.L + 1))
    ctx.contracts[f"{MUT}.mut_shrink"] = effect("mut_shrink", shrink_need, shrink_len)

"""C06: NSGA-II ranking, truncation and parent selection.

Contracts
  NSGAMeta.dominates        better on every objective (all numbers of objectives)
  NSGAMeta.crowd_compare    rank first, then larger distance
  fast_non_dominated_sort   partition into fronts by rank (body proved in c06sort)
  crowding_distance_assignment  infinite at the boundaries, else relative gaps (body proved in c06sort)
  nsga2                     proved against those two contracts
  nsga2_select              proved against the contract of nsga2
"""
import z3
from pyvc.driver import *
from contracts import c06sort

PROOFS = Registry()
N2 = "gama.genetic_programming.nsga2"
META = f"{N2}.NSGAMeta"
I, R = z3.IntSort(), z3.RealSort()

class Pop:
    """N wrapped individuals meta(0..N-1) with symbolic values, rank and distance."""

    def __init__(self, ctx, name="meta"):
        it = ctx.interp
        self.ctx = ctx
        self.N = z3.Int("N")
        ctx.assume(self.N >= 1)
        self.arity = z3.Int("arity")
        ctx.assume(self.arity >= 1)
        self.val = z3.Function("val", I, I, R)
        self.rank = z3.Function("rank", I, I)
        self.dist = z3.Function("dist", I, R)
        self.objs = Schema("Ind")
        self.obj = z3.Function("obj", I, self.objs.sort)
        a, b = z3.Ints("a!o b!o")
        self.fam = Fam(name, it.get(META), {
            "values": lambda c, i: ListObj(FnC(self.arity, lambda cc, j: self.val(to_z3(i), to_z3(j))), kind="tuple"),
            "rank": lambda c, i: self.rank(to_z3(i)),
            "distance": lambda c, i: self.dist(to_z3(i)),
            "obj": lambda c, i: Term(self.obj(to_z3(i)), self.objs),
        })

    def node(self, i):
        return Obj(self.fam, simp(to_z3(i)))

    def dominates(self, a, b):
        j = z3.Int("j!d")
        return z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < self.arity), self.val(a, j) > self.val(b, j)))

    def better(self, a, b):
        return z3.Or(self.rank(a) < self.rank(b), z3.And(self.rank(a) == self.rank(b), self.dist(a) > self.dist(b)))


@PROOFS("dominates: better on every objective", covers=("post",))
def dominates(ctx):
    it = ctx.interp
    p = Pop(ctx)
    a, b = z3.Ints("a b")
    r = it.call(it.get(f"{META}.dominates"), [p.node(a), p.node(b)], {})
    ctx.prove("true exactly if better on all objectives", truth(ctx.truthy(r)) == p.dominates(a, b))
    ctx.cover("post")


@PROOFS("crowd_compare: lower rank first, then less crowded", covers=("post",))
def crowd_compare(ctx):
    it = ctx.interp
    p = Pop(ctx)
    a, b = z3.Ints("a b")
    r = it.call(it.get(f"{META}.crowd_compare"), [p.node(a), p.node(b)], {})
    ctx.prove("negative exactly if better", (to_z3(r) < 0) == p.better(a, b))
    ctx.prove("positive otherwise", z3.Implies(z3.Not(p.better(a, b)), to_z3(r) > 0))
    ctx.cover("post")


@PROOFS("NSGAMeta.__init__ records the objectives", covers=("post",))
def meta_init(ctx):
    it = ctx.interp
    o = Schema("Ind")
    val = z3.Function("metric", I, o.sort, R)
    n = z3.Int("nm")
    ctx.assume(n >= 1)
    metrics = ListObj(FnC(n, lambda c, i: Builtin("metric", lambda cc, x: val(to_z3(i), x.expr))))
    x = Term(z3.Const("x", o.sort), o)
    m = it.call(it.get(META), [x, metrics], {})
    ctx.prove("wraps the individual", m.attrs["obj"] is x)
    c = it.content(m.attrs["values"])
    ctx.prove("one value per metric", to_z3(c.length(ctx)) == n)
    j = ctx.fresh_int("j")
    ctx.assume(z3.And(0 <= j, j < n))
    ctx.prove("value of the j-th metric", to_z3(c.at(ctx, j)) == val(j, x.expr))
    ctx.prove("nothing dominated yet", it.content(m.attrs["dominating"]).items() == [])
    ctx.prove("not dominated yet", to_z3(m.attrs["domination_counter"]) == 0)
    ctx.prove("no distance yet", to_z3(m.attrs["distance"]) == 0)
    ctx.cover("post")


PROOFS("dominance is a strict order", covers=("post",))(c06sort.order)
PROOFS("fast_non_dominated_sort: fronts by rank, everyone in one", timeout=200, feas_ms=60, covers=(
    "done", "all pairs: an iteration is possible", "first front: an iteration is possible", "fronts: an iteration is possible",
    "members of a front: an iteration is possible", "dominated by a member: an iteration is possible"))(c06sort.fnds)

PROOFS("crowding_distance_assignment: infinite at the boundaries, else the sum of relative gaps", timeout=120, covers=(
    "done", "boundary", "no range", "inner", "neighbours: an iteration is possible"))(c06sort.crowding)


class Fronts:
    """Contract of fast_non_dominated_sort: F non-empty fronts by rank, then an empty one."""

    def __init__(self, ctx, p):
        self.ctx, self.p = ctx, p
        self.F = z3.Int("F")
        self.off = z3.Function("foff", I, I)
        self.flat = z3.Function("flat", I, I)
        self.inv = z3.Function("flatinv", I, I)
        self.assigned = []
        off, flat, inv, F, N = self.off, self.flat, self.inv, self.F, p.N
        a, b, q = z3.Ints("a!f b!f q!f")
        ctx.assume(z3.And(F >= 1, off(0) == 0, off(F) == N, off(F + 1) == N))
        ctx.assume(z3.ForAll([a], z3.Implies(z3.And(0 <= a, a < F), off(a) < off(a + 1)), patterns=[off(a + 1)]))
        ctx.assume(z3.ForAll([a], z3.Implies(z3.And(0 <= a, a < F), off(a) < off(a + 1)), patterns=[off(a)]))
        ctx.assume(z3.ForAll([a, b], z3.Implies(z3.And(0 <= a, a <= b, b <= F), off(a) <= off(b)), patterns=[MP(off(a), off(b))]))
        # every individual in exactly one place
        ctx.assume(z3.ForAll([q], z3.Implies(z3.And(0 <= q, q < N), z3.And(0 <= flat(q), flat(q) < N, inv(flat(q)) == q)), patterns=[flat(q)]))
        ctx.assume(z3.ForAll([q], z3.Implies(z3.And(0 <= q, q < N), z3.And(0 <= inv(q), inv(q) < N, flat(inv(q)) == q)), patterns=[inv(q)]))
        # members of front a have rank a + 1
        ctx.assume(z3.ForAll([a, q], z3.Implies(z3.And(0 <= a, a < F, off(a) <= q, q < off(a + 1)), p.rank(flat(q)) == a + 1),
                             patterns=[MP(off(a), p.rank(flat(q)))]))
        self.lists = {}

    def locate(self, q):
        """Every position belongs to a front (part of the contract)."""
        k = self.ctx.fresh_int("front_of")
        self.ctx.assume(z3.Implies(z3.And(0 <= q, q < self.p.N),
                                   z3.And(0 <= k, k < self.F, self.off(k) <= q, q < self.off(k + 1), self.flat(q) == self.flat(q))))
        self.ctx.assume(z3.Implies(z3.And(0 <= q, q < self.p.N), self.p.rank(self.flat(q)) == k + 1))
        return k

    def front(self, k):
        k = to_z3(k)
        l = ListObj(FnC(simp(self.off(k + 1) - self.off(k)), lambda c, j: self.p.node(self.flat(self.off(k) + to_z3(j)))))
        l.front_no = k
        return l

    def result(self):
        return ListObj(FnC(simp(self.F + 1), lambda c, k: self.front(k)))


def find_sorted(c, depth=0):
    """The sorted last front inside the content of the result."""
    if hasattr(c, "sorted_of"):
        return c.sorted_of
    if depth > 6:
        return None
    for v in list(getattr(c, "__dict__", {}).values()):
        for w in (v if isinstance(v, (list, tuple)) else [v]):
            if isinstance(w, ListObj):
                w = w.content
            if isinstance(w, Content):
                r = find_sorted(w, depth + 1)
                if r is not None:
                    return r
    return None


def nsga2_proof(ctx, return_meta):
    it = ctx.interp
    p = Pop(ctx)
    fr = Fronts(ctx, p)
    n = z3.Int("n")
    ctx.assume(n >= 0)

    # the wrapped population: meta(i) for individual i (NSGAMeta.__init__ is proved above)
    pop = ListObj(FnC(p.N, lambda c, i: Term(p.obj(to_z3(i)), p.objs)))
    back = z3.Function("objinv", p.objs.sort, I)
    i = z3.Int("i!ob")
    ctx.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < p.N), back(p.obj(i)) == i), patterns=[p.obj(i)]))
    metrics = Opaque("metrics")
    wrapped = []

    def wrap(c, o, m):
        c.prove("individuals are wrapped with the given metrics", m is metrics)
        return p.node(back(o.expr))
    ctx.class_hooks[META] = wrap

    def sort_contract(c, a):
        P = it.content(a["P"])
        c.prove("the whole population is sorted", to_z3(P.length(c)) == p.N)
        q = c.fresh_int("q")
        c.assume(z3.And(0 <= q, q < p.N))
        v = P.at(c, q)
        c.prove("each individual once", isinstance(v, Obj) and v.fam is p.fam and to_z3(v.idx) == q)
        return fr.result()
    ctx.contracts[f"{N2}.fast_non_dominated_sort"] = sort_contract

    def crowd_contract(c, a):
        l = a["I"]
        c.prove("crowding is computed per front", getattr(l, "front_no", None) is not None)
        c.prove("crowding is computed for a front with members", to_z3(it.content(l).length(c)) >= 1)
        fr.assigned.append(l.front_no)
        return None
    ctx.contracts[f"{N2}.crowding_distance_assignment"] = crowd_contract
    fr_dist = p.fam.fields["distance"]

    def distance(c, i):
        k = p.rank(to_z3(i)) - 1
        c.prove("a distance is only used after it was computed", z3.Or([k == x for x in fr.assigned]) if fr.assigned else False)
        return fr_dist(c, i)
    p.fam.fields["distance"] = distance

    st = {}

    class W(LoopSpec):
        def matches(self, i, node, iterable, env):
            if not isinstance(node, ast.While):
                return False
            ints = [m for m in assigned_names(node.body) if env.has(m) and is_num(env.get(m))]
            lists = [m for m in env.vars if isinstance(env.vars[m], ListObj) and it.content(env.vars[m]).items() == []]
            if len(ints) != 1 or len(lists) != 1:
                return False
            st.update(i=ints[0], sel=lists[0])
            return True

    def cur(env):
        return to_z3(env.get(st["i"]))

    def havoc(c, env, _):
        k = c.fresh_int("front")
        env.set(st["i"], k)
        l = it.new_list(FnC(c.fresh_int("nsel"), lambda cc, q: p.node(fr.flat(to_z3(q)))))
        env.set(st["sel"], l)
        del fr.assigned[:]
        fr.assigned.append(z3.Int("any!front")) if False else None
        st["k0"] = k

    def inv(c, env, _):
        sel = it.content(env.get(st["sel"]))
        k = cur(env)
        ln = to_z3(sel.length(c))
        done = z3.And(0 <= k, k <= fr.F, ln == fr.off(k), ln <= n)
        out = [("whole fronts selected so far", z3.Or(done, z3.BoolVal(False)))]
        if isinstance(sel, FnC) and getattr(sel, "spec", False):
            return out
        q = c.fresh_int("q")

        def body():
            if not c.branch(z3.And(0 <= q, q < ln)):
                return True
            v = sel.at(c, q)
            return isinstance(v, Obj) and v.fam is p.fam and to_z3(v.idx) == fr.flat(q)
        out.append(("in order of the fronts", c.merge(body)))
        return out

    # the loop stops either at a front boundary or inside a front: the second case leaves
    # through the loop condition with a partial front, so the exit state is described apart
    class Exit(W):
        def run(self, i, node, iterable, env):
            c = i.ctx
            for lab, f in self.inv(c, env, None):
                c.prove(f"selection loop: '{lab}' holds on entry", f)
            self.havoc_fn(c, env, None)
            for lab, f in self.inv(c, env, None):
                c.assume(f)
            if not c.test(i.eval(node.test, env)):
                return
            i.exec_block(node.body, env)
            # either another complete iteration (invariant again), or the loop ends here
            if c.test(i.eval(node.test, env)):
                for lab, f in self.inv(c, env, None):
                    c.prove(f"selection loop: '{lab}' is preserved", f)
                c.cover("whole front")
                raise PathAbort()

    ctx.loop_specs.append(Exit(f"{N2}.nsga2", None, havoc, inv, label="selection loop", while_=True))
    try:
        r = it.call(it.get(f"{N2}.nsga2"), [pop, n, metrics, return_meta], {})
    except PyRaise as e:
        if not issubclass(e.exc.cls, ValueError):
            raise
        ctx.prove("refuses only an impossible number", z3.Or(n == 0, n > p.N))
        return
    c = it.content(r)
    ctx.prove("n individuals are selected", to_z3(c.length(ctx)) == n)
    a = ctx.fresh_int("a")
    ctx.assume(z3.And(0 <= a, a < n))

    def idx(k):
        v = c.at(ctx, k)
        if return_meta:
            return to_z3(v.idx) if isinstance(v, Obj) and v.fam is p.fam else None
        return back(v.expr)
    ia = idx(a)
    if ia is None:
        return ctx.fail("selected are individuals of the population")
    ctx.prove("members of the population", z3.And(0 <= ia, ia < p.N))
    which = ctx.choose(2)
    if which == 0:
        b = ctx.fresh_int("b")
        ctx.assume(z3.And(0 <= b, b < n, a != b))
        ctx.prove("pairwise different", ia != idx(b))
        ctx.cover("different")
    else:
        # u: any individual not selected -> not better ranked, and not less crowded in rank
        u = ctx.fresh_int("u")
        ctx.assume(z3.And(0 <= u, u < p.N))
        # u is at no position of the selection (instances of that hypothesis which matter:
        # its place in the order of fronts, and its place in the sorted last front)
        qu = fr.inv(u)
        k0 = st["k0"]
        spots = [qu]
        so = find_sorted(c)
        if so is not None:
            spots.append(simp(fr.off(k0) + so[4](qu - fr.off(k0))))
        ctx.prove("its place in the order of fronts", z3.And(fr.flat(qu) == u, 0 <= qu, qu < p.N))
        for x in spots:
            ctx.assume(ctx.merge(lambda: z3.Implies(z3.And(0 <= x, x < n), idx(x) != u)))
        ku, ka = fr.locate(qu), fr.locate(fr.inv(ia))
        ctx.prove("rank of the unselected one", p.rank(u) == ku + 1)
        ctx.prove("rank of the selected one", p.rank(ia) == ka + 1)
        ctx.prove("nothing selected behind the last front used", ka <= k0)
        ctx.prove("everything before the last front used is selected", ku >= k0)
        ctx.prove("no unselected individual has a better rank", p.rank(u) >= p.rank(ia))
        ctx.prove("ties go to the less crowded", z3.Implies(p.rank(u) == p.rank(ia), p.dist(u) <= p.dist(ia)))
        ctx.cover("best")


PROOFS("nsga2 selects the n best by rank, then crowding (wrapped)", covers=("different", "best", "whole front"), timeout=150)(
    lambda ctx: nsga2_proof(ctx, True))
PROOFS("nsga2 selects the n best by rank, then crowding", covers=("different", "best", "whole front"), timeout=150)(
    lambda ctx: nsga2_proof(ctx, False))


@PROOFS("nsga2_select returns pairs of different tournament winners", covers=("post", "refused"))
def nsga2_select(ctx):
    it = ctx.interp
    p = Pop(ctx)
    n = z3.Int("n")
    ctx.assume(n >= 0)
    pop = ListObj(FnC(p.N, lambda c, i: Term(p.obj(to_z3(i)), p.objs)))
    back = z3.Function("objinv", p.objs.sort, I)
    i = z3.Int("i!ob")
    ctx.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < p.N), back(p.obj(i)) == i), patterns=[p.obj(i)]))
    metrics = Opaque("metrics")
    perm, pinv = z3.Function("cperm", I, I), z3.Function("cpinv", I, I)
    ctx.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < p.N), z3.And(0 <= perm(i), perm(i) < p.N, pinv(perm(i)) == i)), patterns=[perm(i)]))

    def nsga2_contract(c, a):
        c.prove("all individuals are ranked", to_z3(a["n"]) == p.N)
        c.prove("the population is ranked by the given metrics", a["population"] is pop and a["metrics"] is metrics)
        c.prove("with rank and distance", a["return_meta"] is True)
        return it.new_list(FnC(p.N, lambda cc, q: p.node(perm(to_z3(q)))))
    ctx.contracts[f"{N2}.nsga2"] = nsga2_contract
    st = {}

    def good(c, pair):
        v = it.unpack(pair, 2)
        if not all(isinstance(x, Term) and x.schema is p.objs for x in v):
            return False
        a, b = back(v[0].expr), back(v[1].expr)
        x, y = z3.Ints("x!t y!t")
        dom = lambda z: z3.And(0 <= z, z < p.N)
        return z3.And(dom(a), dom(b), v[0].expr == p.obj(a), v[1].expr == p.obj(b), a != b,
                      z3.Exists([x], z3.And(dom(x), x != a, z3.Not(p.better(x, a)))),
                      z3.Exists([y], z3.And(dom(y), y != b, y != a, z3.Not(p.better(y, b)))))

    def loop_match(i_, node, iterable, env):
        accs = [m for m in env.vars if isinstance(env.vars[m], ListObj) and it.content(env.vars[m]).items() == []]
        if len(accs) != 1:
            return False
        st["acc"] = accs[0]
        return True

    g1, g2 = z3.Function("pair1", I, I), z3.Function("pair2", I, I)

    def pair(q):
        q = to_z3(q)
        return (Term(p.obj(g1(q)), p.objs), Term(p.obj(g2(q)), p.objs))

    def havoc(c, env, k):
        q = z3.Int("q!pairs")
        base = FnC(k, lambda cc, j: pair(j))
        env.get(st["acc"]).content = base
        st["base"] = base
        c.assume(z3.ForAll([q], z3.Implies(z3.And(0 <= q, q < to_z3(k)), good(c, pair(q))), patterns=[g1(q)]))

    def inv(c, env, k):
        acc = it.content(env.get(st["acc"]))
        out = [("number of pairs so far", to_z3(acc.length(c)) == to_z3(k))]
        if acc is not st.get("base") and not (acc.items() == []):
            def last():
                return good(c, acc.at(c, simp(to_z3(k) - 1)))
            out.append(("the new pair consists of two different tournament winners", c.merge(last)))
        return out

    ctx.loop_specs.append(LoopSpec(f"{N2}.nsga2_select", loop_match, havoc, inv, label="selection of pairs"))
    try:
        r = it.call(it.get(f"{N2}.nsga2_select"), [pop, n, metrics], {})
    except PyRaise as e:
        if not issubclass(e.exc.cls, ValueError):
            raise
        ctx.prove("refuses only a too small population", p.N < 3)
        ctx.cover("refused")
        return
    c = it.content(r)
    ctx.prove("the requested number of pairs", to_z3(c.length(ctx)) == n)
    q = ctx.fresh_int("q")
    ctx.assume(z3.And(0 <= q, q < n))
    ctx.prove("each pair: two different tournament winners", good(ctx, c.at(ctx, q)))
    ctx.cover("post")

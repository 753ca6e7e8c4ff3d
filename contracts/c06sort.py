"""C06: the bodies of fast_non_dominated_sort and crowding_distance_assignment.

The population is a set of wrapped individuals of an uninterpreted sort (any number, any order of
the list); D(p, q) is the proved contract of NSGAMeta.dominates.  A domination counter is tied to a
ghost set: the number of elements of the set of dominators not yet taken into account.
"""
import math
import z3
from pyvc.driver import *
from pyvc.interp import _Continue

N2 = "gama.genetic_programming.nsga2"
META = f"{N2}.NSGAMeta"
I, R, B = z3.IntSort(), z3.RealSort(), z3.BoolSort()


class State:
    """Fields of all wrapped individuals, as functions of the individual."""

    def __init__(self, ctx):
        it = ctx.interp
        self.ctx = ctx
        self.S = S = z3.DeclareSort("Wrapped")
        self.inP = z3.Function("in_population", S, B)
        self.D = D = z3.Function("dominates", S, S, B)
        x, y, z = self.xs = z3.Consts("x!s y!s z!s", S)
        # strict order: better on every one of at least one objectives (proved below)
        ctx.assume(z3.ForAll([x], z3.Not(D(x, x))))
        ctx.assume(z3.ForAll([x, y], z3.Implies(D(x, y), z3.Not(D(y, x)))))
        self.dom = lambda p, q: z3.BoolVal(False)   # q is recorded as dominated by p
        self.cnt = lambda q: z3.IntVal(0)
        self.rank = lambda q: z3.IntVal(0)
        self.other = {}
        self.phi, self.base = (lambda p, q: z3.BoolVal(False)), self.cnt   # nothing counted

    def wrap(self, x):
        return Wrapped(self, x)

    def set_(self, member, card=None):
        return SetC(self.S, member, self.wrap, card, unwrap=lambda v: v.expr)

    # -- ghost sets behind the counters
    def havoc_counts(self, c, phi):
        """The counter of q is the number of elements of the finite set {p: phi(p, q)}."""
        n = c.fresh_fun("counter", self.S, I)
        p, q = z3.Consts("p!g q!g", self.S)
        c.assume(z3.ForAll([q], z3.Implies(self.inP(q), z3.And(n(q) >= 0, (n(q) == 0) == z3.ForAll([p], z3.Not(phi(p, q))))), patterns=[n(q)]))
        self.cnt, self.phi = (lambda q: n(q)), phi
        self.base = self.cnt

    def counts(self, c, phi, moved):
        """The counter of any q is the number of elements of {p: phi(p, q)}, for which it is enough (finite sets)
        that the set is the last one known and the counter too, or that it has one more or less, as the counter."""
        q = c.fresh_const("q_any", self.S)
        c.assume(self.inP(q))
        p = z3.Const("p!c", self.S)
        old, n0, n1 = self.phi, self.base(q), self.cnt(q)
        alt = [z3.And(n1 == n0, z3.ForAll([p], phi(p, q) == old(p, q)))]
        for m in moved:
            alt.append(z3.And(z3.Not(old(m, q)), n1 == n0 + 1, z3.ForAll([p], phi(p, q) == z3.Or(old(p, q), p == m))))
            alt.append(z3.And(old(m, q), n1 == n0 - 1, z3.ForAll([p], phi(p, q) == z3.And(old(p, q), p != m))))
        return z3.Or(alt)


class Wrapped(Model):
    """A wrapped individual: NSGAMeta with its fields in the state."""
    type_name = "NSGAMeta"

    def __init__(self, st, expr):
        self.st, self.expr = st, expr

    def py_getattr(self, ctx, name):
        s = self.st
        if name == "dominates":
            return Builtin("dominates", lambda c, o: s.D(self.expr, o.expr))
        if name == "dominating":
            return Recorded(s, self.expr)
        if name == "domination_counter":
            return simp(s.cnt(self.expr))
        if name == "rank":
            return simp(s.rank(self.expr))
        raise Unsupported(f"attribute {name} in the sorting")

    def py_setattr(self, ctx, name, value):
        s, me = self.st, self.expr
        if name == "domination_counter":
            old = s.cnt
            s.cnt = lambda q: z3.If(q == me, to_z3(value), old(q))
        elif name == "rank":
            old = s.rank
            s.rank = lambda q: z3.If(q == me, to_z3(value), old(q))
        else:
            raise Unsupported(f"setting {name} in the sorting")

    def py_eq(self, ctx, o):
        return self.expr == o.expr if isinstance(o, Wrapped) else False


class Recorded(Model):
    """p.dominating: the list of individuals recorded as dominated by p."""
    type_name = "dominating"

    def __init__(self, st, p):
        self.st, self.p = st, p

    def m_append(self, ctx, q):
        s, p = self.st, self.p
        ctx.prove("a dominated individual is recorded once", z3.Not(s.dom(p, q.expr)))
        old = s.dom
        s.dom = lambda a, b: z3.Or(old(a, b), z3.And(a == p, b == q.expr))

    def py_content(self, ctx):
        s, p, d = self.st, self.p, self.st.dom
        c = s.set_(lambda q: d(p, q))
        c.dominated_by = p
        return c

    def py_bool(self, ctx):
        return to_z3(self.py_content(ctx).length(ctx)) > 0


class Pairs(Model):
    """itertools.combinations(P, 2): every unordered pair of two positions once."""
    type_name = "combinations"

    def __init__(self, l):
        self.l = l


def fnds(ctx):
    it = ctx.interp
    st = State(ctx)
    S, D, inP = st.S, st.D, st.inP
    p, q, x = z3.Consts("p!i q!i x!i", S)
    P = it.new_list(st.set_(inP))
    v = {}

    def combos(c, l, k):
        if l is not P or k != 2:
            raise Unsupported("combinations")
        return Pairs(l)
    ctx.externals["itertools.combinations"] = Builtin("combinations", combos)

    # ---- 1: all pairs
    class AllPairs(LoopSpec):
        def inv1(self, c, done, moved):
            return [
                ("recorded: exactly those found to be dominated", z3.ForAll([p, q], st.dom(p, q) == z3.And(done(p, q), D(p, q)))),
                ("counters: number of dominators found", st.counts(c, lambda a, b: z3.And(done(a, b), D(a, b)), moved)),
                ("no rank is given yet", z3.BoolVal(st.rank is v["rank0"])),
            ]

        def run(self, i, node, iterable, env):
            c = i.ctx
            v["rank0"] = st.rank
            fr = snapshot(i, env)
            for lab, f in self.inv1(c, lambda a, b: z3.BoolVal(False), []):
                c.prove(f"{self.label}: invariant '{lab}' holds on entry", f)
            names = assigned_names(node.body) | assigned_names([node.target])
            which = c.choose(2)
            for n in names:
                env.set(n, Undefined(n))
            if which == 0:
                d = c.fresh_fun("pair_done", S, S, B)
                a, b = c.fresh_const("a", S), c.fresh_const("b", S)
                c.assume(z3.ForAll([p, q], z3.And(d(p, q) == d(q, p), z3.Implies(d(p, q), z3.And(inP(p), inP(q), p != q)))))
                c.assume(z3.And(inP(a), inP(b), a != b, z3.Not(d(a, b))))
                done = lambda m, n: d(m, n)
                now = lambda m, n: z3.Or(d(m, n), z3.And(m == a, n == b), z3.And(m == b, n == a))
            else:
                done = lambda m, n: z3.And(inP(m), inP(n), m != n)
            dm = c.fresh_fun("recorded", S, S, B)
            st.dom = lambda m, n: dm(m, n)
            st.havoc_counts(c, lambda m, n: z3.And(done(m, n), D(m, n)))
            c.assume(z3.ForAll([p, q], dm(p, q) == z3.And(done(p, q), D(p, q))))
            if which == 1:
                i.exec_block(node.orelse, env)
                return
            i.assign(node.target, (st.wrap(a), st.wrap(b)), env)
            try:
                i.exec_block(node.body, env)
            except _Continue:
                pass
            unchanged(i, env, fr, self.label)
            for lab, f in self.inv1(c, now, [a, b]):
                c.prove(f"{self.label}: invariant '{lab}' is preserved", f)
            c.cover(f"{self.label}: an iteration is possible")
            raise PathAbort()

    def snapshot(i, env):
        """Lists in scope (the fronts): loops which are not about them leave them alone."""
        out = []
        for n, val in env.vars.items():
            if isinstance(val, ListObj):
                out.append((val, val.content))
                for e in val.content.items() or []:
                    if isinstance(e, ListObj):
                        out.append((e, e.content))
        return out

    def unchanged(i, env, fr, label):
        if any(l.content is not c0 for l, c0 in fr):
            raise Unsupported(f"{label}: lists change in a loop")

    ctx.loop_specs.append(AllPairs(f"{N2}.fast_non_dominated_sort", lambda i, node, iterable, env: isinstance(iterable, Pairs), None, None, label="all pairs"))

    # ---- 2: the first front
    def find_fronts(env):
        for n, val in env.vars.items():
            if isinstance(val, ListObj) and val is not P:
                e = val.content.items()
                if e is not None and len(e) == 1 and isinstance(e[0], ListObj) and e[0].content.items() == []:
                    return val
        return None

    def first_match(i, node, iterable, env):
        if iterable is not P:
            return False
        f = find_fronts(env)
        if f is None:
            return False
        v.update(fronts=f, first=f.content.items()[0], dom=st.dom, cnt=st.cnt)
        return True

    undom = lambda z: z3.ForAll([p], z3.Implies(inP(p), z3.Not(D(p, z))))

    def first_havoc(c, env, k):
        m = c.fresh_fun("first_front", S, B)
        r = c.fresh_fun("rank", S, I)
        st.rank = lambda z: r(z)
        v["first"].content = st.set_(lambda z: m(z))

    def member_of(c, l):
        if not isinstance(l, ListObj):
            raise Unsupported("a front")
        ct = l.content
        if isinstance(ct, SetC):
            return ct.member
        if ct.items() is not None:
            es = ct.items()
            if not all(isinstance(e, Wrapped) for e in es):
                raise Unsupported("front of something else")
            if len(es) > 1:
                c.prove("members of a front are different", z3.Distinct(*[e.expr for e in es]))
            return lambda z: z3.Or([z == e.expr for e in es] + [z3.BoolVal(False)])
        raise Unsupported("front shape")

    def first_inv(c, env, k):
        if v["fronts"].content.items() != [v["first"]] or st.dom is not v["dom"] or st.cnt is not v["cnt"]:
            raise Unsupported("first front")
        m = member_of(c, v["first"])
        return [("first front: the undominated ones seen", z3.ForAll([x], m(x) == z3.And(k(x), undom(x)))),
                ("with rank 1", z3.ForAll([x], z3.Implies(m(x), st.rank(x) == 1)))]
    ctx.loop_specs.append(LoopSpec(f"{N2}.fast_non_dominated_sort", first_match, first_havoc, first_inv, label="first front", setwise=True))

    # ---- 3: the other fronts
    def lists_of(k):
        """Front k of the abstract state: {x: level(x) == k}."""
        key = str(simp(to_z3(k)))
        if key not in v["lists"]:
            lv = v["lv"]
            l = ListObj(st.set_(lambda z: lv(z) == to_z3(k)))
            v["lists"][key] = (l, l.content)
        return v["lists"][key][0]

    def earlier_fronts_same(c):
        c.prove("the fronts found before stay as they are", all(l.content is c0 for l, c0 in v["lists"].values()))

    left = lambda lv, i: (lambda a, b: z3.And(inP(a), D(a, b), z3.Not(z3.And(0 <= lv(a), lv(a) < i))))

    def level_inv(lv, i, rank):
        """What is known of the levels once the fronts before i have been gone through."""
        G = left(lv, i)
        return [
            ("every individual is in one of the fronts, or left", z3.ForAll([x], z3.And(-1 <= lv(x), lv(x) <= i, z3.Implies(z3.Not(inP(x)), lv(x) == -1)))),
            ("its rank is the number of its front", z3.ForAll([x], z3.Implies(lv(x) >= 0, rank(x) == lv(x) + 1))),
            ("those left still have a dominator outside", z3.ForAll([x], z3.Implies(z3.And(inP(x), lv(x) == -1), z3.Exists([p], G(p, x))))),
            ("those in a front have all dominators in fronts before", z3.ForAll([x, p], z3.Implies(z3.And(lv(x) >= 0, inP(p), D(p, x)), z3.And(0 <= lv(p), lv(p) < lv(x))))),
            ("and one in the front just before", z3.ForAll([x], z3.Implies(lv(x) >= 1, z3.Exists([p], z3.And(inP(p), D(p, x), lv(p) == lv(x) - 1))))),
        ]

    def int_name(node, env):
        ns = [n for n in assigned_names(node.body) if env.has(n) and is_num(env.get(n))]
        if len(ns) != 1:
            raise Unsupported("counter of fronts")
        return ns[0]

    class Fronts(LoopSpec):
        def matches(self, i, node, iterable, env):
            if not isinstance(node, ast.While) or i.within() != f"{N2}.fast_non_dominated_sort" or "first" not in v:
                return False
            v["i"] = int_name(node, env)
            return True

        def run(self, it_, node, iterable, env):
            c = it_.ctx
            n = v["i"]
            c.prove("the search for fronts starts at the first", to_z3(env.get(n)) == 0 if is_z3(env.get(n)) else env.get(n) == 0)
            if v["fronts"].content.items() != [v["first"]]:
                raise Unsupported("fronts")
            m0 = member_of(c, v["first"])
            lv0 = c.fresh_fun("level", S, I)
            c.assume(z3.ForAll([x], lv0(x) == z3.If(m0(x), z3.IntVal(0), z3.IntVal(-1)), patterns=[lv0(x)]))
            for lab, f in level_inv(lv0, 0, st.rank):
                c.prove(f"fronts: invariant '{lab}' holds on entry", f)
            c.prove("fronts: invariant 'counters: dominators left' holds on entry", st.counts(c, left(lv0, 0), []))
            dom0 = st.dom
            which = c.choose(2)
            for nm in assigned_names(node.body):
                env.set(nm, Undefined(nm))
            i = c.fresh_int("front")
            c.assume(i >= 0)
            env.set(n, i)
            f = c.fresh_fun("level", S, I)
            lv = lambda z: f(z)
            r = c.fresh_fun("rank", S, I)
            st.rank = lambda z: r(z)
            st.havoc_counts(c, left(lv, i))
            for lab, fo in level_inv(lv, i, st.rank):
                c.assume(fo)
            k = z3.Int("k!l")
            wit = c.fresh_fun("someone_in", I, S)
            c.assume(z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < i), lv(wit(k)) == k), patterns=[wit(k)]))
            v["wit"] = wit
            v.update(lv=lv, lists={}, cur=i)
            v["fronts"].content = FnC(simp(i + 1), lambda cc, kk: lists_of(kk))
            t = it_.eval(node.test, env)
            if which == 1:
                if c.test(t):
                    raise PathAbort()
                return
            if not c.test(t):
                raise PathAbort()
            it_.exec_block(node.body, env)
            earlier_fronts_same(c)
            if st.dom is not dom0:
                raise Unsupported("records change")
            ct = v["fronts"].content
            c.prove("fronts: one front is added", to_z3(ct.length(c)) == i + 2)
            c.prove("fronts: and gone on with", to_z3(env.get(n)) == i + 1)
            new = ct.at(c, simp(i + 1))
            kq = c.fresh_int("k_any")
            c.assume(z3.And(0 <= kq, kq <= i))
            c.prove("fronts: fronts keep their places", c.merge(lambda: ct.at(c, kq) is lists_of(kq)))
            m = member_of(c, new)
            c.prove("fronts: new members are not in a front before", z3.ForAll([x], z3.Implies(m(x), z3.And(inP(x), lv(x) == -1))))
            g = c.fresh_fun("level", S, I)
            c.assume(z3.ForAll([x], g(x) == z3.If(m(x), i + 1, lv(x)), patterns=[g(x)]))
            for lab, fo in level_inv(lambda z: g(z), i + 1, st.rank):
                c.prove(f"fronts: invariant '{lab}' is preserved", fo)
            c.prove("fronts: invariant 'counters: dominators left' is preserved", st.counts(c, left(lambda z: g(z), i + 1), []))
            if c.choose(2):
                kq = c.fresh_int("k_before")
                c.assume(z3.And(0 <= kq, kq < i))
                c.prove("fronts: no front before is empty", g(wit(kq)) == kq)
            else:
                c.prove("fronts: the front gone through is not empty", z3.Exists([x], g(x) == i))
            c.cover("fronts: an iteration is possible")
            raise PathAbort()
    ctx.loop_specs.append(Fronts(f"{N2}.fast_non_dominated_sort", lambda *a: True, None, None, label="fronts", while_=True))

    # for p in fronts[i]
    def newest(c):
        ct = v["fronts"].content
        n = ct.length(c)
        c.prove("an empty front is added first", to_z3(n) == v["cur"] + 2)
        return ct.at(c, simp(v["cur"] + 1))

    def over_front(i, node, iterable, env):
        if "lists" not in v or not any(iterable is l for l, _ in v["lists"].values()):
            return False
        ok = i.ctx.prove("the members of the latest front are gone through", i.ctx.merge(lambda: iterable is lists_of(v["cur"])))
        v["new"] = newest(i.ctx)
        v["dom3"] = st.dom
        return ok

    def remaining(k, p_=None, k2=None):
        lv, i = v["lv"], v["cur"]

        def phi(a, b):
            out = [inP(a), D(a, b), z3.Not(z3.And(0 <= lv(a), lv(a) < i)), z3.Not(k(a))]
            if p_ is not None:
                out.append(z3.Not(z3.And(a == p_, k2(b))))
            return z3.And(out)
        return phi

    def pass_havoc(c, phi):
        st.havoc_counts(c, phi)
        r = c.fresh_fun("rank", S, I)
        m = c.fresh_fun("next_front", S, B)
        st.rank = lambda z: r(z)
        v["new"].content = st.set_(lambda z: m(z))

    def pass_inv(c, phi, moved):
        earlier_fronts_same(c)
        if st.dom is not v["dom3"]:
            raise Unsupported("records change")
        m, lv = member_of(c, v["new"]), v["lv"]
        if c.prove("counters: dominators left", st.counts(c, phi, moved)):
            c.assume(z3.ForAll([q], z3.Implies(inP(q), (st.cnt(q) == 0) == z3.ForAll([p], z3.Not(phi(p, q))))))
        return [("next front: those without dominators left", z3.ForAll([x], m(x) == z3.And(inP(x), lv(x) == -1, z3.Not(z3.Exists([p], phi(p, x)))))),
                ("ranks of the fronts before stay", z3.ForAll([x], z3.Implies(lv(x) >= 0, st.rank(x) == lv(x) + 1))),
                ("rank of the next front", z3.ForAll([x], z3.Implies(m(x), st.rank(x) == v["cur"] + 2)))]

    class Front(LoopSpec):
        pass

    def front_havoc(c, env, k):
        v["K"] = k
        v["moved"] = []
        pass_havoc(c, remaining(k))

    def front_inv(c, env, k):
        return pass_inv(c, remaining(k), [z for z in [v.get("p")] if z is not None])
    ctx.loop_specs.append(Front(f"{N2}.fast_non_dominated_sort", over_front, front_havoc, front_inv, label="members of a front", setwise=True))

    def over_dominated(i, node, iterable, env):
        if not isinstance(iterable, Recorded) or "K" not in v:
            return False
        v["p"] = iterable.p
        return True

    def dom_havoc(c, env, k):
        v["K2"] = k
        pass_havoc(c, remaining(v["K"], v["p"], k))

    def dom_inv(c, env, k):
        return pass_inv(c, remaining(v["K"], v["p"], k), [v["p"]])
    ctx.loop_specs.append(LoopSpec(f"{N2}.fast_non_dominated_sort", over_dominated, dom_havoc, dom_inv, label="dominated by a member", setwise=True))

    res = it.call(it.get(f"{N2}.fast_non_dominated_sort"), [P], {})
    if res is not v.get("fronts") or "lv" not in v:
        raise Unsupported("result")
    lv, i = v["lv"], v["cur"]
    U = lambda z: z3.And(inP(z), lv(z) == -1)
    m = ctx.fresh_const("maximal", S)
    # a non-empty finite set has a member not dominated by another one of it
    ctx.assume(z3.Implies(z3.Exists([x], U(x)), z3.And(U(m), z3.ForAll([p], z3.Implies(U(p), z3.Not(D(p, m)))))))
    ct = it.content(res)
    ctx.prove("the fronts, and an empty one at the end", to_z3(ct.length(ctx)) == i + 1)
    k = ctx.fresh_int("k")
    y = ctx.fresh_const("y", S)
    ctx.assume(inP(y))
    ctx.prove("every individual is in a front", z3.And(0 <= lv(y), lv(y) < i))
    ctx.prove("its rank is the number of its front", st.rank(y) == lv(y) + 1)
    ctx.assume(z3.And(0 <= k, k < i))
    mem = member_of(ctx, ct.at(ctx, k))
    ctx.prove("in exactly one front", mem(y) == (lv(y) == k))
    out = lambda z: z3.And(inP(z), lv(z) >= k)     # outside of the fronts before k
    ctx.prove("front k: those outside the fronts before which nothing outside dominates",
              mem(y) == z3.And(out(y), z3.Not(z3.Exists([p], z3.And(out(p), D(p, y))))))
    ctx.prove("no front is empty", z3.And(inP(v["wit"](k)), mem(v["wit"](k))))
    ctx.cover("done")


def order(ctx):
    """Being better on every one of at least one objectives is a strict order."""
    val = z3.Function("val", I, I, R)
    n, a, b, c, j = z3.Ints("n a b c j")
    d = lambda s, t: z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < n), val(s, j) > val(t, j)))
    ctx.assume(n >= 1)
    ctx.prove("irreflexive", z3.Not(d(a, a)))
    ctx.prove("asymmetric", z3.Implies(d(a, b), z3.Not(d(b, a))))
    ctx.cover("post")


# ------------------------------------------------------------------ crowding distances
class Point(Model):
    """A member of the front: its objective values and its distance (None stands for infinite)."""
    type_name = "NSGAMeta"

    def __init__(self, w, i):
        self.w, self.expr = w, to_z3(i)

    def py_getattr(self, ctx, name):
        w = self.w
        if name == "values":
            return ListObj(FnC(w.arity, lambda c, j: w.val(self.expr, to_z3(j))), kind="tuple")
        if name == "distance":
            if ctx.branch(simp(w.inf(self.expr))):
                return float("inf")
            return simp(w.dist(self.expr))
        raise Unsupported(f"attribute {name} in the crowding distance")

    def py_setattr(self, ctx, name, value):
        w, me = self.w, self.expr
        if name != "distance":
            raise Unsupported(f"setting {name} in the crowding distance")
        oi, od = w.inf, w.dist
        infinite = isinstance(value, float) and value == float("inf")
        if not infinite and not is_num(value):
            raise Unsupported("value of a distance")
        r = None if infinite else num_pair(value, 0.0)[0]
        w.inf = lambda x: z3.If(x == me, z3.BoolVal(infinite), oi(x))
        w.dist = (lambda x: od(x)) if infinite else (lambda x: z3.If(x == me, r, od(x)))

    def py_eq(self, ctx, o):
        return self.expr == o.expr if isinstance(o, Point) else False


class Front_:
    def __init__(self, ctx):
        self.n, self.arity = z3.Ints("front_size arity")
        self.val = z3.Function("val", I, I, R)
        ctx.assume(z3.And(self.n >= 1, self.arity >= 1))
        # infinite objective values are the bounds: beyond every finite value
        self.top = z3.Real("infinity")
        i, j = z3.Ints("i!v j!v")
        ctx.assume(self.top > 0)
        ctx.assume(z3.ForAll([i, j], z3.And(-self.top <= self.val(i, j), self.val(i, j) <= self.top), patterns=[self.val(i, j)]))
        self.fresh(ctx)

    def fresh(self, ctx):
        a, b = ctx.fresh_fun("is_inf", I, B), ctx.fresh_fun("distance", I, R)
        self.inf, self.dist = (lambda x: a(x)), (lambda x: b(x))

    def isinf(self, v):
        return z3.Or(v == self.top, v == -self.top)


def crowding(ctx):
    it = ctx.interp
    w = Front_(ctx)
    st = {}
    front = it.new_list(FnC(w.n, lambda c, k: Point(w, k)))
    ctx.externals["numpy.isinf"] = Builtin("isinf", lambda c, v: simp(w.isinf(to_z3(v))) if is_z3(v) else math.isinf(v))
    ctx.externals["math.isinf"] = ctx.externals["numpy.isinf"]

    perms = []

    def hook(c, v, key, reverse):
        c.sorted_hook = None
        try:
            r = lib.sorted_(c, v, key, reverse)
        finally:
            c.sorted_hook = hook
        perms.append(it.content(r))
        return r
    ctx.sorted_hook = hook
    CD = f"{N2}.crowding_distance_assignment"

    # the loop over the objectives: each iteration starts with any distances and any order
    class Objectives(LoopSpec):
        def run(self, i, node, iterable, env):
            c = i.ctx
            cont = i.content(iterable)
            c.prove("every objective is considered once", to_z3(cont.length(c)) == w.arity)
            names = assigned_names(node.body) | assigned_names([node.target])
            lists = [nm for nm in env.vars if env.vars[nm] is front]
            which = c.choose(2)
            for nm in names:
                env.set(nm, Undefined(nm))
            # the order of the list at this point: any
            perm, inv = c.fresh_fun("order", I, I), c.fresh_fun("place", I, I)
            x = z3.Int("x!o")
            dom = z3.And(0 <= x, x < w.n)
            c.assume(z3.ForAll([x], z3.Implies(dom, z3.And(0 <= perm(x), perm(x) < w.n, inv(perm(x)) == x)), patterns=[perm(x)]))
            c.assume(z3.ForAll([x], z3.Implies(dom, z3.And(0 <= inv(x), inv(x) < w.n, perm(inv(x)) == x)), patterns=[inv(x)]))
            for nm in lists:
                env.set(nm, i.new_list(FnC(w.n, lambda cc, k: Point(w, perm(to_z3(k))))))
            w.fresh(c)
            if which == 1:
                return
            k = c.fresh_int("objective")
            c.assume(z3.And(0 <= k, k < w.arity))
            v = cont.at(c, k)
            i.assign(node.target, v, env)
            st.update(m=v, inf0=w.inf, dist0=w.dist)
            st["cond"] = None
            del perms[:]
            try:
                i.exec_block(node.body, env)
            except _Continue:
                pass
            if len(perms) != 1:
                raise Unsupported("orders of the front")
            rc = perms[0]
            self.post(c, i, rc, k, lists, env, perm, inv)
            raise PathAbort()

        def post(self, c, i, rc, k, lists, env, perm, inv):
            c.prove("the whole front is ordered", to_z3(rc.length(c)) == w.n)
            at = lambda q: rc.at(c, simp(q))
            P = lambda q: at(q).expr
            V = lambda q: w.val(P(q), k)
            # place in this order
            pi2 = rc.sorted_of[4]
            place = lambda y: pi2(inv(y))
            y = c.fresh_int("y")
            c.assume(z3.And(0 <= y, y < w.n))
            t = place(y)
            c.prove("everyone has a place in the order", z3.And(0 <= t, t < w.n, P(t) == y))
            a, b = c.fresh_int("a"), c.fresh_int("b")
            c.assume(z3.And(0 <= a, a <= b, b < w.n))
            c.prove("ordered by this objective", V(a) <= V(b))
            lo, hi = V(z3.IntVal(0)), V(w.n - 1)
            flat = z3.Or(lo == hi, w.isinf(lo), w.isinf(hi))
            if c.branch(z3.Or(t == 0, t == w.n - 1)):
                c.prove("boundary individuals get an infinite distance", w.inf(y))
                c.cover("boundary")
            elif c.branch(flat):
                c.prove("objectives without a range do not count", z3.And(w.inf(y) == st["inf0"](y), z3.Implies(z3.Not(w.inf(y)), w.dist(y) == st["dist0"](y))))
                c.cover("no range")
            else:
                c.prove("an infinite distance stays", z3.Implies(st["inf0"](y), w.inf(y)))
                c.prove("distances within stay finite", z3.Implies(z3.Not(st["inf0"](y)), z3.Not(w.inf(y))))
                gap = (V(t + 1) - V(t - 1)) / (hi - lo)
                c.prove("the gap between the neighbours is added, relative to the range",
                        z3.Implies(z3.Not(st["inf0"](y)), w.dist(y) == st["dist0"](y) + gap))
                c.cover("inner")

    ctx.loop_specs.append(Objectives(CD, lambda i, node, iterable, env: "m" not in st and any(v is front for v in env.vars.values()), None, None, label="objectives"))

    # the loop over triples of neighbours
    def inner_match(i, node, iterable, env):
        if "m" not in st or len(perms) != 1:
            return False
        st.update(inf1=w.inf, dist1=w.dist, rc=perms[0])
        return True

    def expected(c, k):
        """Distances once the first k inner members are done."""
        rc, m = st["rc"], to_z3(st["m"])
        P = lambda q: rc.at(c, simp(q)).expr
        V = lambda q: w.val(P(q), m)
        lo, hi = V(z3.IntVal(0)), V(w.n - 1)
        t = z3.Int("t!in")
        gap = (V(t + 1) - V(t - 1)) / (hi - lo)
        d1, i1 = st["dist1"], st["inf1"]
        e = P(t)
        return [("the inner members so far have the gap added",
                 z3.ForAll([t], z3.Implies(z3.And(1 <= t, t <= to_z3(k)), z3.And(w.inf(e) == i1(e), z3.Implies(z3.Not(i1(e)), w.dist(e) == d1(e) + gap))), patterns=[e])),
                ("the others have their distance",
                 z3.ForAll([t], z3.Implies(z3.And(0 <= t, t < w.n, z3.Or(t == 0, t > to_z3(k))), z3.And(w.inf(e) == i1(e), w.dist(e) == d1(e))), patterns=[e]))]

    ctx.loop_specs.append(LoopSpec(CD, inner_match, lambda c, env, k: w.fresh(c), lambda c, env, k: expected(c, k), label="neighbours"))
    it.call(it.get(CD), [front], {})
    ctx.cover("done")

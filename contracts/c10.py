"""C10: successive halving.

Contracts (asha, with get_job and start_new_job inlined, for every number of rungs, reduction
factor, resource setting, order of results and failure pattern)
  at every submission of individual i for rung r:
    - (i, r) was not submitted before
    - r is the lowest rung, or i has a result on rung r-1, fewer than floor(n/eta) of the n
      results of that rung were promoted before, and every strictly better result was
    - the job evaluates i with the resource min(min_resource * eta**r, max_resource) and its
      result carries rung r
  at the end: the individuals with results on the highest rung that has results
  (the last rung if the search ended by itself)
"""
import z3
from pyvc.driver import *
from pyvc.interp import TimeoutException

PROOFS = Registry()
AS = "gama.search_methods.asha"
I, R, B = z3.IntSort(), z3.RealSort(), z3.BoolSort()


class RungList(Model):
    """The list stored for one rung."""
    type_name = "list"

    def __init__(self, d, key):
        self.d, self.key = d, key

    def py_content(self, ctx):
        L, E, k = self.d.L, self.d.E, self.key
        return FnC(simp(L(k)), lambda c, j: E(k, to_z3(j)))

    def py_len(self, ctx):
        return simp(self.d.L(self.key))

    def py_bool(self, ctx):
        return simp(self.d.L(self.key) > 0)

    def py_eq(self, ctx, other):
        c = ctx.interp.content(other)
        if c.items() == []:
            return simp(self.d.L(self.key) == 0)
        raise Unsupported("comparison of rung lists")

    def m_append(self, ctx, v):
        self.d.append(ctx, self.key, v)

    def py_getitem(self, ctx, i):
        return lib.getitem(ctx.interp, ListObj(self.py_content(ctx)), i)


class RungDict(Model):
    """{rung: list of (loss, individual)} over a symbolic range of rungs."""
    type_name = "dict"

    def __init__(self, ctx, content, ev):
        self.content, self.ev = content, ev
        self.last = None
        self.L = lambda r: z3.IntVal(0)
        self.loss = lambda r, j: z3.RealVal(0)
        self.ind = lambda r, j: z3.Const("nobody", ev.S)

    def E(self, r, j):
        return (simp(self.loss(r, j)), self.ev.term(simp(self.ind(r, j))))

    def append(self, ctx, key, v):
        it = ctx.interp
        t = lib.as_tuple(v)
        if t is None or len(t) != 2 or not isinstance(t[1], Term):
            raise Unsupported("shape of a rung entry")
        if not is_num(t[0]):
            raise Unsupported("loss is not a number")
        L, lo, ind = self.L, self.loss, self.ind
        x, n, k = to_z3(t[0]), simp(L(key)), to_z3(key)
        e = t[1].expr
        self.ev.appended(ctx, self, k, n, e, x)
        self.L = lambda r: z3.If(r == k, L(r) + 1, L(r))
        self.loss = lambda r, j: z3.If(z3.And(r == k, j == n), x, lo(r, j))
        self.ind = lambda r, j: z3.If(z3.And(r == k, j == n), e, ind(r, j))
        ctx.log_mut(self, "rungs")

    def find(self, ctx, key):
        """Python lookup of a key."""
        n = to_z3(self.content.length(ctx))
        j = z3.Int("slot!q")
        return ctx.branch(z3.Exists([j], z3.And(0 <= j, j < n, to_z3(self.content.at(ctx, j)[0]) == to_z3(key))))

    def py_getitem(self, ctx, key):
        if not self.find(ctx, key):
            ctx.raise_(KeyError, key)
        self.last = to_z3(key)
        return RungList(self, to_z3(key))

    def m_items(self, ctx):
        return ctx.interp.new_list(MapC(self.content, lambda c, kv: (kv[0], RungList(self, to_z3(kv[0])))), kind="view")

    def m_values(self, ctx):
        return ctx.interp.new_list(MapC(self.content, lambda c, kv: RungList(self, to_z3(kv[0]))), kind="view")

    def m_keys(self, ctx):
        return ctx.interp.new_list(MapC(self.content, lambda c, kv: kv[0]), kind="view")

    def py_content(self, ctx):
        return MapC(self.content, lambda c, kv: kv[0])

    def py_len(self, ctx):
        return self.content.length(ctx)


class NumDict(Model):
    """{rung: number}."""
    type_name = "dict"

    def __init__(self, content):
        self.content = content

    def py_getitem(self, ctx, key):
        n = to_z3(self.content.length(ctx))
        q = z3.Int("slot!q")
        if not ctx.branch(z3.Exists([q], z3.And(0 <= q, q < n, to_z3(self.content.at(ctx, q)[0]) == to_z3(key)))):
            ctx.raise_(KeyError, key)
        j = ctx.fresh_int("slot")
        ctx.assume(z3.And(0 <= j, j < n))
        k, v = self.content.at(ctx, j)
        ctx.assume(to_z3(k) == to_z3(key))
        return v

    def m_values(self, ctx):
        return ctx.interp.new_list(MapC(self.content, lambda c, kv: kv[1]), kind="view")

    def m_items(self, ctx):
        return ctx.interp.new_list(self.content, kind="view")


class World_:
    def __init__(self, ctx):
        self.ind = Schema("Ind")
        self.S = self.ind.sort
        self.cur_rung = None
        self.ind.attrs["meta"] = lambda c, e: DictObj([("rung", self.cur_rung)])
        self.term = lambda e: Term(e, self.ind)


class Async(Model):
    type_name = "AsyncEvaluator"

    def __init__(self, st):
        self.st = st

    def m___enter__(self, ctx):
        return self

    def m___exit__(self, ctx, *a):
        self.st["closed"] = True
        return False

    def m_submit(self, ctx, fn, *a, **k):
        self.st["submit"](ctx, fn, a, k)
        return Opaque("future")


class Ops(Model):
    type_name = "operators"

    def __init__(self, st):
        self.st = st

    def py_getattr(self, ctx, name):
        if name == "evaluate":
            return self.st["evaluate"]
        return super().py_getattr(ctx, name)

    def m_individual(self, ctx, *a, **k):
        return self.st["new"](ctx)

    def m_wait_next(self, ctx, a):
        return self.st["wait"](ctx)


class Start(Model):
    """The start candidates: any number of individuals, pairwise different, none submitted yet."""
    type_name = "list"

    def __init__(self, st):
        self.st = st

    def py_bool(self, ctx):
        return ctx.fresh_bool("candidates_left")

    def py_len(self, ctx):
        n = ctx.fresh_int("candidates_left")
        ctx.assume(n >= 0)
        return n

    def m_pop(self, ctx, *a):
        return self.st["new"](ctx)


def proof(ctx, limited):
    it = ctx.interp
    ev = World_(ctx)
    S = ev.S
    eta, m = z3.Int("reduction_factor"), z3.Int("minimum_early_stopping_rate")
    minr, maxr = z3.Reals("minimum_resource maximum_resource")
    limit = z3.Int("max_full_evaluations")
    pw = z3.Function("pow_eta", I, R)
    r_, j_, q_ = z3.Ints("r!q j!q q!q")
    x_ = z3.Const("x!q", S)
    ctx.assume(z3.And(eta >= 2, m >= 0, minr > 0, maxr > 0, limit >= 1))
    ctx.assume(z3.ForAll([r_], pw(r_) > 0))
    M = z3.Int("max_rung")
    ctx.assume(M >= m)
    ctx.assumption("precondition: at least one rung is used (minimum_early_stopping_rate <= number of rungs)")

    logs = []

    def log(c, v, base=None):
        l = c.fresh_real("log")
        if not logs and base is not None and is_z3(v) and is_z3(base) and base.eq(eta):
            c.prove("the number of rungs follows from the ratio of the resources", to_z3(v) * minr == maxr)
            logs.append(l)
        return l

    def ceil(c, v):
        if logs and is_z3(v) and v.eq(logs[0]):
            c.assume(pw(M) * minr >= maxr)
            c.assumption("mathematics: eta**ceil(log_eta(max/min)) >= max/min (exact logarithm)")
            return M
        return std.math_ceil(c, v)
    ctx.externals["math.log"] = log
    ctx.externals["math.ceil"] = ceil

    def power(c, a, b):
        if not (is_z3(a) and a.eq(eta)):
            raise Unsupported("power of something else")
        return pw(to_z3(b))
    ctx.pow_model = power
    resource = lambda r: z3.If(minr * pw(r) < maxr, minr * pw(r), maxr)

    dicts = []

    def make_dict(c, content):
        j = c.fresh_int("any")
        n = to_z3(content.length(c))
        c.assume(z3.And(0 <= j, j < n))
        k, v = content.at(c, j)
        if not is_num(k):
            raise Unsupported("keys of a dict over rungs")
        k = to_z3(k)
        at = lambda e, i: z3.substitute(to_z3(e), (j, to_z3(i)))
        if isinstance(v, ListObj):
            if v.content.items() != []:
                raise Unsupported("initial content of a rung")
            d = RungDict(c, FnC(n, lambda cc, i: (simp(at(k, i)), None)), ev)
            dicts.append(d)
            return d
        if is_num(v):
            return NumDict(FnC(n, lambda cc, i: (simp(at(k, i)), simp(at(v, i)))))
        raise Unsupported("dict over rungs")
    ctx.dict_from_content = make_dict

    st = {"closed": False, "evaluate": None, "stopped": False}
    none2 = lambda i, r: z3.BoolVal(False)
    st["sub"], st["run"], st["nrun"] = none2, none2, z3.IntVal(0)
    st["src"], st["psrc"] = (lambda r, q: z3.IntVal(0)), (lambda y, q: z3.IntVal(0))
    log_jobs = []

    def appended(c, d, k, n, e, x):
        """Witness: where a promoted entry stands among the results."""
        if st.get("env") is None or d is not st["env"].get("promoted_individuals"):
            return
        res, pro = tables(c)
        w = c.fresh_int("result_at")
        is_ = lambda j: z3.And(0 <= j, j < res.L(k), res.ind(k, j) == e, res.loss(k, j) == x)
        if c.prove("what is promoted has a result on the rung", z3.Exists([j_], is_(j_))):
            c.assume(is_(w))
        src = st["src"]
        st["src"] = lambda r, q: z3.If(z3.And(r == k, q == n), w, src(r, q))
    ev.appended = appended

    def evaluate(c, individual, *a, **k):
        inst = Inst(None, {"individual": Inst(None, {"meta": DictObj([]), "_of": individual}, label="individual"),
                           "error": st["job_error"], "score": Opaque("score")}, label="evaluation")
        log_jobs.append((individual, a, k, inst))
        return inst
    st["evaluate"] = Builtin("evaluate", evaluate)

    def tables(c):
        """(results, promoted) of the running search."""
        env = st["env"]
        a, b = env.get("rung_individuals"), env.get("promoted_individuals")
        if not (isinstance(a, RungDict) and isinstance(b, RungDict)) or a is b:
            raise Unsupported("representation of the rungs")
        return a, b

    def submit(c, fn, a, k):
        if c.choose(2) == 0:
            # the budget may end while a job is handed over
            st["stopped"] = True
            raise PyRaise(ExcVal(TimeoutException))
        res, pro = tables(c)
        before = st["snap"]
        del log_jobs[:]
        st["job_error"] = None
        e = it.call(fn, list(a), dict(k))
        c.prove("a job evaluates one individual once", len(log_jobs) == 1)
        ind, ea, ek, inst = log_jobs[0]
        c.prove("a job returns the evaluation", e is inst)
        c.prove("the job evaluates an individual of the search", isinstance(ind, Term))
        meta = dict(inst.attrs["individual"].attrs["meta"].pairs)
        c.prove("the evaluation carries its rung", is_num(meta.get("rung")))
        r = to_z3(meta["rung"])
        i = ind.expr
        sub = ek.get("subsample")
        c.prove("the subsample is passed", is_num(sub) and not ea)
        c.prove("rung resource", to_z3(sub) == resource(r))
        c.prove("the subsample is recorded", is_num(meta.get("subsample")) and to_z3(meta["subsample"]) == to_z3(sub))
        c.prove("never above the maximum resource", to_z3(sub) <= maxr)
        c.prove("the last rung uses the maximum resource", z3.Implies(r == M, to_z3(sub) == maxr))
        err = inst.attrs["error"]
        c.prove("an evaluation below the highest rung is not a full one", (r == M) if err is None else (r != M))
        c.prove("an existing rung", z3.And(m <= r, r <= M))
        c.prove("at most once per rung", z3.Not(st["sub"](i, r)))
        L0, loss0, ind0, PL0, pind0 = before
        n = L0(r - 1)
        w = c.fresh_int("w")
        on_rung = lambda y: z3.Exists([j_], z3.And(0 <= j_, j_ < n, ind0(r - 1, j_) == y))
        was = lambda y: z3.Exists([q_], z3.And(0 <= q_, q_ < PL0(r - 1), pind0(r - 1, q_) == y))
        c.prove("promotion follows a result on the rung below", z3.Or(r == m, on_rung(i)))
        c.prove("fewer than the fraction were promoted before", z3.Or(r == m, PL0(r - 1) < z3.ToInt(z3.ToReal(n) / z3.ToReal(eta))))
        c.assume(z3.Implies(r > m, z3.And(0 <= w, w < n, ind0(r - 1, w) == i)))
        b = c.fresh_int("better")
        c.prove("everything better was promoted before", z3.Implies(z3.And(r > m, 0 <= b, b < n, loss0(r - 1, b) > loss0(r - 1, w)), was(ind0(r - 1, b))))
        # witness: where the individual stands among the promoted ones
        pw_ = c.fresh_int("promoted_at")
        if c.prove("a job above the lowest rung is for a promoted individual", z3.Or(r == m, z3.Exists([q_], z3.And(0 <= q_, q_ < pro.L(r - 1), pro.ind(r - 1, q_) == i)))):
            c.assume(z3.Or(r == m, z3.And(0 <= pw_, pw_ < pro.L(r - 1), pro.ind(r - 1, pw_) == i)))
        psrc = st["psrc"]
        st["psrc"] = lambda y, q: z3.If(z3.And(y == i, q == r), pw_, psrc(y, q))
        old_s, old_r = st["sub"], st["run"]
        st["sub"] = lambda y, q: z3.Or(old_s(y, q), z3.And(y == i, q == r))
        st["run"] = lambda y, q: z3.Or(old_r(y, q), z3.And(y == i, q == r))
        st["nrun"] = simp(st["nrun"] + 1)
        c.log_mut(st["async"], "jobs")
    st["submit"] = submit

    def new(c):
        x = c.fresh_const("newind", S)
        s = st["sub"]
        c.assume(z3.ForAll([r_], z3.Not(s(x, r_))))
        c.assumption("start candidates are pairwise different and operations.individual() is always new (C03)")
        return ev.term(x)
    st["new"] = new

    def wait(c):
        c.prove("an evaluation is under way when a result is awaited", st["nrun"] >= 1)
        kind = c.choose(4)
        st["stopped"] = kind < 2
        if kind == 0:
            raise PyRaise(ExcVal(TimeoutException))
        if kind == 1:
            raise PyRaise(ExcVal(KeyboardInterrupt))
        i, r = c.fresh_const("done", S), c.fresh_int("rung")
        c.assume(st["run"](i, r))
        old = st["run"]
        st["run"] = lambda y, q: z3.And(old(y, q), z3.Not(z3.And(y == i, q == r)))
        st["nrun"] = simp(st["nrun"] - 1)
        c.log_mut(st["async"], "results")
        c.assumption("contract of the evaluator (C13): a result is the outcome of one running job")
        if kind == 2:
            exc = Opaque("exception")
            exc.memo["isnone"] = z3.BoolVal(False)
            st["last"] = None
            snap(c)
            return Inst(None, {"result": None, "exception": exc}, label="future")
        ev.cur_rung = r
        s = c.fresh_real("score")
        st["last"] = (i, r, s)
        snap(c)
        res, pro = tables(c)
        st["before_result"] = (res.L, res.loss, res.ind)
        return Inst(None, {"result": Inst(None, {"individual": ev.term(i), "error": Opaque("error"), "score": (s, c.fresh_real("length"))}, label="evaluation"),
                           "exception": None}, label="future")
    st["wait"] = wait

    def snap(c):
        """Tables as they are when the next job is chosen (results including the latest one)."""
        res, pro = tables(c)
        last = st.get("last")
        L, lo, ind = res.L, res.loss, res.ind
        if last is not None:
            i, r, s = last
            n = simp(L(r))
            L0, lo0, ind0 = L, lo, ind
            L = lambda q: z3.If(q == r, L0(q) + 1, L0(q))
            lo = lambda q, j: z3.If(z3.And(q == r, j == n), s, lo0(q, j))
            ind = lambda q, j: z3.If(z3.And(q == r, j == n), i, ind0(q, j))
        st["snap"] = (L, lo, ind, pro.L, pro.ind)

    def table_inv(c, res, pro):
        L, E, ind = res.L, res.loss, res.ind
        PL, plo, pind = pro.L, pro.loss, pro.ind
        src, psrc = st["src"], st["psrc"]
        dom = lambda r: z3.And(m <= r, r <= M)
        at = lambda d, r, j: z3.And(0 <= j, j < d(r))
        return [
            ("sizes", z3.ForAll([r_], z3.And(L(r_) >= 0, PL(r_) >= 0))),
            ("results were submitted", z3.ForAll([r_, j_], z3.Implies(z3.And(dom(r_), at(L, r_, j_)), z3.And(st["sub"](ind(r_, j_), r_), z3.Not(st["run"](ind(r_, j_), r_)))))),
            ("results of different individuals", z3.ForAll([r_, j_, q_], z3.Implies(z3.And(dom(r_), at(L, r_, j_), at(L, r_, q_), ind(r_, j_) == ind(r_, q_)), j_ == q_))),
            ("promoted ones have results", z3.ForAll([r_, q_], z3.Implies(z3.And(dom(r_), at(PL, r_, q_)), z3.And(at(L, r_, src(r_, q_)), ind(r_, src(r_, q_)) == pind(r_, q_), E(r_, src(r_, q_)) == plo(r_, q_))))),
            ("running jobs were submitted for a rung", z3.ForAll([x_, r_], z3.Implies(st["run"](x_, r_), z3.And(st["sub"](x_, r_), dom(r_))))),
            ("submitted above the lowest rung only if promoted", z3.ForAll([x_, r_], z3.Implies(z3.And(st["sub"](x_, r_), dom(r_), r_ > m), z3.And(at(PL, r_ - 1, psrc(x_, r_)), pind(r_ - 1, psrc(x_, r_)) == x_)))),
        ]

    def fresh_state(c, results=True):
        res, pro = tables(c)
        if results:
            for d in (res, pro):
                L, lo, ind = c.fresh_fun("L", I, I), c.fresh_fun("loss", I, I, R), c.fresh_fun("ind", I, I, S)
                d.L, d.loss, d.ind = (lambda r, L=L: L(r)), (lambda r, j, lo=lo: lo(r, j)), (lambda r, j, ind=ind: ind(r, j))
        s, ru = c.fresh_fun("sub", S, I, B), c.fresh_fun("run", S, I, B)
        st["sub"], st["run"] = (lambda y, q: s(y, q)), (lambda y, q: ru(y, q))
        st["nrun"] = c.fresh_int("nrun")
        st["last"] = None
        a, b = c.fresh_fun("src", I, I, I), c.fresh_fun("psrc", S, I, I)
        st["src"], st["psrc"] = (lambda r, q: a(r, q)), (lambda y, q: b(y, q))

    # -- initial jobs
    def init_havoc(c, env, k):
        st["env"] = env
        fresh_state(c, results=False)
        snap(c)

    def init_inv(c, env, k):
        st["env"] = env
        res, pro = tables(c)
        return [("no results yet", z3.ForAll([r_], z3.And(res.L(r_) == 0, pro.L(r_) == 0))),
                ("jobs", st["nrun"] == to_z3(k))] + table_inv(c, res, pro)
    ctx.loop_specs.append(LoopSpec(f"{AS}.asha", lambda i, n, itb, e: isinstance(itb, ListObj) and itb.kind == "range", init_havoc, init_inv, label="initial jobs"))

    # -- results
    def havoc(c, env, _):
        st["env"] = env
        fresh_state(c)
        snap(c)
        st["cut"] = tables(c)[0].L

    def inv(c, env, _):
        st["env"] = env
        res, pro = tables(c)
        r = table_inv(c, res, pro) + [("an evaluation is under way", st["nrun"] >= 1)]
        if st.get("last") is not None:
            i, rg, s = st["last"]
            L0, lo0, ind0 = st["before_result"]
            r += [("the result is recorded on its rung", z3.And(
                z3.ForAll([r_], res.L(r_) == z3.If(r_ == rg, L0(r_) + 1, L0(r_))),
                res.ind(rg, L0(rg)) == i, res.loss(rg, L0(rg)) == s,
                z3.ForAll([r_, j_], z3.Implies(z3.And(0 <= j_, j_ < L0(r_)), z3.And(res.ind(r_, j_) == ind0(r_, j_), res.loss(r_, j_) == lo0(r_, j_))))))]
        return r
    ctx.loop_specs.append(LoopSpec(f"{AS}.asha", lambda i, n, itb, e: True, havoc, inv, label="results", while_=True,
                                   names=["rung_individuals", "promoted_individuals"]))
    ops, a = Ops(st), Async(st)
    st["async"] = a
    ctx.class_hooks["gama.utilities.generic.async_evaluator.AsyncEvaluator"] = lambda c, *x, **k: a
    r = it.call(it.get(f"{AS}.asha"), [ops, Start(st)], {"reduction_factor": eta, "minimum_resource": minr, "maximum_resource": maxr,
                                                         "minimum_early_stopping_rate": m, "max_full_evaluations": limit if limited else None})
    ctx.prove("the evaluator was closed", st["closed"])
    res, pro = tables(ctx)
    c = it.content(r)
    n = to_z3(c.length(ctx))
    h = res.last
    ctx.prove("the individuals of one rung", h is not None)
    ctx.prove("as many as that rung has results", n == res.L(h))
    j = ctx.fresh_int("j")

    def same():
        if not ctx.branch(z3.And(0 <= j, j < n)):
            return True
        v = c.at(ctx, j)
        return isinstance(v, Term) and (v.expr == res.ind(h, j))
    ctx.prove("the individuals of that rung", ctx.merge(same))
    ctx.prove("an existing rung is returned", z3.And(m <= h, h <= M))
    i = ctx.fresh_int("i")
    ctx.assume(z3.And(0 <= i, i <= M - m))
    if st["stopped"]:
        ctx.prove("no higher rung has results", z3.Implies(M - i > h, res.L(M - i) <= 0))
        ctx.prove("a rung without results is returned only if there are no results at all", z3.Implies(z3.And(res.L(h) <= 0, M - i >= m), res.L(M - i) <= 0))
    else:
        ctx.prove("a search that ends by itself returns the last rung", h == M)
    ctx.cover("returned something")


PROOFS("asha: promotion, resources and result, unlimited", covers=("returned something", "results: an iteration is possible"), timeout=130, feas_ms=40, feas_qf=True)(lambda ctx: proof(ctx, False))
PROOFS("asha: promotion, resources and result, with a limit", covers=("returned something", "results: an iteration is possible"), timeout=130, feas_ms=40, feas_qf=True)(lambda ctx: proof(ctx, True))


@PROOFS("evaluate_on_rung keeps an error", covers=("post",))
def on_rung_error(ctx):
    it = ctx.interp
    r, M = z3.Ints("rung max_rung")
    ind = Inst(None, {"meta": DictObj([])}, label="individual")
    ev = Inst(None, {"individual": ind, "error": "failed", "score": Opaque("score")}, label="evaluation")
    arg = Opaque("individual")

    def evaluate(c, x, *a, **k):
        c.prove("evaluates the individual with its settings", x is arg and not a and set(k) == {"subsample", "timeout"} and k["subsample"] == 5 and k["timeout"] == 7)
        return ev
    e = it.call(it.get(f"{AS}.evaluate_on_rung"), [arg, r], {"max_rung": M, "evaluate_individual": Builtin("evaluate", evaluate), "subsample": 5, "timeout": 7})
    ctx.prove("the evaluation is returned", e is ev)
    ctx.prove("its error is kept", ev.attrs["error"] == "failed")
    meta = dict(ind.attrs["meta"].pairs)
    ctx.prove("it carries the rung", is_num(meta.get("rung")) and to_z3(meta["rung"]) == r)
    ctx.prove("it carries the subsample", meta.get("subsample") == 5)
    ctx.cover("post")

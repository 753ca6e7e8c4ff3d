"""C09: bounded, elitist, valid population; random search reports everything.

Contracts
  eliminate_from_pareto(pop, 1)   returns one member for which no other member is at most as
                                  good on all objectives and worse on one
  async_ea      population invariant after every result: at most population_size members, all
                successfully evaluated; the change is exactly: the new successful individual
                joins, and if there is no room the eliminated one leaves; an evaluation is
                under way whenever a result is awaited; ends after max_n_evaluations results
  random_search every individual with a result is appended to the output, in order
The parallel evaluator and the operators are used through their contracts (C13, C03, C05).
"""
import z3
from pyvc.driver import *

PROOFS = Registry()
AE = "gama.search_methods.async_ea"
RS = "gama.search_methods.random_search"
SEL = "gama.genetic_programming.selection"
I, R, B = z3.IntSort(), z3.RealSort(), z3.BoolSort()


# ------------------------------------------------------------------ elimination
@PROOFS("eliminate_from_pareto never picks one while a worse member stays", covers=("post",))
def eliminate(ctx):
    it = ctx.interp
    ind = Schema("Ind")
    val = z3.Function("fit", ind.sort, I, R)
    arity = z3.Int("arity")
    ctx.assume(arity >= 1)
    ind.attrs["fitness"] = lambda c, e: Inst(None, {"values": ListObj(FnC(arity, lambda cc, j: val(e, to_z3(j))), kind="tuple")}, label="fitness")
    M = z3.Function("member", ind.sort, B)
    w = z3.Const("w0", ind.sort)
    ctx.assume(M(w))
    pop = ListObj(SetC(ind.sort, M, lambda e: Term(e, ind)))
    F = z3.Function("front", ind.sort, B)
    x, y = z3.Consts("x y", ind.sort)
    j = z3.Int("j")
    dom = lambda k: z3.And(0 <= k, k < arity)
    seen = []

    def pareto(c, start_list=None, get_values_fn=None):
        if start_list is not pop:
            raise Unsupported("Pareto front of something else")
        a = c.fresh_const("any", ind.sort)
        v = it.content(it.call(get_values_fn, [Term(a, ind)], {}) if get_values_fn is not None else None)
        c.prove("one value per objective", to_z3(v.length(c)) == arity)
        k = c.fresh_int("k")
        c.assume(dom(k))
        c.prove("values are the negated fitness", to_z3(v.at(c, k)) == -val(a, k))
        c.assumption("contract of ParetoFront (proved in C05)")
        # C05: the front is a non-empty part of the list, and what is at least as good (on the
        # negated objectives) as a member of the front has equal values
        c.assume(z3.ForAll([x], z3.Implies(F(x), M(x))))
        c.assume(z3.Exists([x], F(x)))
        c.assume(z3.ForAll([x, y], z3.Implies(z3.And(F(x), M(y), z3.ForAll([j], z3.Implies(dom(j), -val(x, j) <= -val(y, j)))),
                                              z3.ForAll([j], z3.Implies(dom(j), val(x, j) == val(y, j))))))
        seen.append(1)
        return ListObj(SetC(ind.sort, F, lambda e: Term(e, ind)))
    ctx.class_hooks["gama.utilities.generic.paretofront.ParetoFront"] = pareto
    r = it.call(it.get(f"{SEL}.eliminate_from_pareto"), [pop, 1], {})
    items = it.content(r).items()
    ctx.prove("one individual", items is not None and len(items) == 1)
    e = items[0].expr
    ctx.prove("a member of the population", M(e))
    z = ctx.fresh_const("other", ind.sort)
    k = ctx.fresh_int("k")
    ctx.assume(z3.And(M(z), z3.ForAll([j], z3.Implies(dom(j), val(z, j) <= val(e, j))), dom(k)))
    ctx.prove("nobody else is at most as good everywhere and worse somewhere", val(z, k) == val(e, k))
    ctx.cover("post")


@PROOFS("eliminate_from_pareto supports one at a time only", covers=("post",))
def eliminate_n(ctx):
    it = ctx.interp
    n = z3.Int("n")
    ctx.assume(n != 1)
    try:
        it.call(it.get(f"{SEL}.eliminate_from_pareto"), [ListObj([]), n], {})
    except PyRaise as e:
        ctx.prove("refused", issubclass(e.exc.cls, NotImplementedError))
        ctx.cover("post")
        return
    ctx.fail("refused")


# ------------------------------------------------------------------ searches
class Ev:
    """Ghost state of a search: jobs under way, results received, population."""

    def __init__(self, ctx):
        self.ctx = ctx
        self.ind = Schema("Ind")
        self.S = self.ind.sort
        self.running = z3.IntVal(0)
        self.results = z3.IntVal(0)
        self.submitted = []
        self.last = None
        self.closed = False
        self.opened = False
        self.evaluate = Opaque("evaluate")

    def term(self, e):
        return Term(e, self.ind)


class Async(Model):
    type_name = "AsyncEvaluator"

    def __init__(self, ev, workers):
        self.ev, self.workers = ev, workers

    def m___enter__(self, ctx):
        self.ev.opened = True
        return self

    def m___exit__(self, ctx, *a):
        self.ev.closed = True
        return False

    def py_getattr(self, ctx, name):
        if name == "job_queue_size":
            return simp(self.ev.running - self.workers)
        return super().py_getattr(ctx, name)

    def m_submit(self, ctx, fn, *a, **k):
        ev = self.ev
        ctx.prove("jobs are submitted while the evaluator is open", ev.opened and not ev.closed)
        ctx.prove("the evaluation function is submitted", fn is ev.evaluate and len(a) == 1 and not k)
        ev.submitted.append(a[0])
        if getattr(ev, "population", None) is not None and any(a[0] is x for x in ev.created):
            n = ctx.interp.content(ev.population()).length(ctx)
            ctx.prove("a new individual takes the place of offspring only while there are too few parents", to_z3(n) < 3)
        ev.running = simp(to_z3(ev.running) + 1)
        ctx.log_mut(self, "jobs")
        return Opaque("future")

    def m_wait_next(self, ctx, *a, **k):
        raise Unsupported("results awaited without the operator set")


class Ops(Model):
    type_name = "operators"

    def __init__(self, ev, pop=None, min_parents=3):
        self.ev, self.pop, self.min_parents = ev, pop, min_parents

    def py_getattr(self, ctx, name):
        if name == "evaluate":
            return self.ev.evaluate
        return super().py_getattr(ctx, name)

    def m_wait_next(self, ctx, a):
        ev = self.ev
        ctx.prove("an evaluation is under way when a result is awaited", to_z3(ev.running) >= 1)
        ev.running = simp(to_z3(ev.running) - 1)
        ev.results = simp(to_z3(ev.results) + 1)
        ctx.log_mut(self, "results")
        kind = ctx.choose(3)
        x = ctx.fresh_const("evaluated", ev.S)
        if kind == 0:
            fut = {"result": None, "exception": Opaque("exception")}
            fut["exception"].memo["isnone"] = z3.BoolVal(False)
            ev.last = ("raised", None)
        else:
            err = None if kind == 1 else Err()
            ev.last = ("ok" if kind == 1 else "failed", x)
            fut = {"result": Inst(None, {"individual": ev.term(x), "error": err, "score": Opaque("score")}, label="evaluation"), "exception": None}
        if ev.on_result:
            ev.on_result(x)
        return Inst(None, fut, label="future")

    def m_individual(self, ctx, *a, **k):
        x = self.ev.term(ctx.fresh_const("newind", self.ev.S))
        self.ev.created = getattr(self.ev, "created", []) + [x]
        return x

    def m_create(self, ctx, pop, n):
        c = ctx.interp.content(pop)
        ctx.prove("parents come from the current population", pop is self.pop())
        ctx.prove("parents are only selected from three or more", to_z3(c.length(ctx)) >= self.min_parents)
        ctx.prove("one offspring", n == 1)
        return ctx.interp.new_list(Conc([self.ev.term(ctx.fresh_const("offspring", self.ev.S))]))

    def m_eliminate(self, ctx, pop, n):
        c = ctx.interp.content(pop)
        ctx.prove("one leaves the current population", pop is self.pop() and n == 1)
        e = ctx.fresh_const("eliminated", self.ev.S)
        ctx.assume(mem_of(c, self.ev)(e))
        self.ev.eliminated = e
        return ctx.interp.new_list(Conc([self.ev.term(e)]))


class Err(Model):
    type_name = "error"

    def py_is_none(self, ctx):
        return False


def mem_of(c, ev):
    items = c.items()
    if items is not None:
        return lambda z: z3.Or([z == v.expr for v in items]) if items else z3.BoolVal(False)
    if isinstance(c, SetC):
        return c.member
    raise Unsupported("shape of the population")


def ea_proof(ctx, limited, again=False):
    it = ctx.interp
    ev = Ev(ctx)
    S = ev.S
    ev.on_result = None
    size, limit, workers, k0 = z3.Ints("population_size limit workers n_start")
    ctx.assume(z3.And(size >= 1, workers >= 1, k0 >= 1, limit >= 1))
    out = ListObj(SetC(S, z3.Function("before", S, B), ev.term))
    start = ListObj(FnC(k0, lambda c, i: ev.term(z3.Function("start", I, S)(to_z3(i)))))
    if again:  # a further search on the same object, which goes on from its previous result
        out = start
    a = Async(ev, workers)
    ctx.class_hooks["gama.utilities.generic.async_evaluator.AsyncEvaluator"] = lambda c, *x, **k: a
    ops = Ops(ev, lambda: out)
    ev.created, ev.population = [], lambda: out
    st = {"ok": lambda z: z3.BoolVal(False)}

    def on_result(x):
        # a result is for an individual submitted once: never one that is already known
        ctx.assume(z3.Not(mem_of(it.content(out), ev)(x)))
        ctx.assume(z3.Not(st["ok"](x)))
        if ev.last[0] == "ok":
            old = st["ok"]
            st["ok"] = lambda z: z3.Or(old(z), z == x)
        st["before"] = it.content(out)
        ev.eliminated = None
        del ev.submitted[:]
    ev.on_result = on_result

    def pop_inv(c):
        ct = it.content(out)
        n = to_z3(ct.length(c))
        z = z3.Const("z!p", S)
        m = mem_of(ct, ev)
        return [("the population does not exceed its size", n <= size),
                ("members were evaluated successfully", z3.ForAll([z], z3.Implies(m(z), st["ok"](z))))]

    def fresh_pop(c):
        m = c.fresh_fun("pop", S, B)
        n = c.fresh_int("popsize")
        z = z3.Const("z!f", S)
        c.assume(n >= 0)
        c.assume((n == 0) == z3.ForAll([z], z3.Not(m(z))))
        out.content = SetC(S, m, ev.term, n)
        ok = c.fresh_fun("succeeded", S, B)
        st["ok"] = lambda q: ok(q)

    # -- submission of the initial candidates
    def sub_havoc(c, env, k):
        st["base"] = st.get("base0")
        ev.running = simp(to_z3(st["run0"]) + to_z3(k))
        del ev.submitted[:]
        st["k"] = k

    def sub_inv(c, env, k):
        if st.get("k") is None:
            st["run0"] = ev.running
            return []
        if simp(to_z3(k) == to_z3(st["k"])) is True:
            return []
        one = ev.submitted
        return [("each initial individual is submitted once", len(one) == 1 and z3.BoolVal(True) if one and one[0] is not None and len(one) == 1 else z3.BoolVal(False)),
                ("in order", it.ctx.truthy(lib.equal(it, one[0], st["list"].at(c, simp(to_z3(k) - 1)))) if len(one) == 1 else z3.BoolVal(False)),
                ("running", to_z3(ev.running) == to_z3(st["run0"]) + to_z3(k))]

    class Submit(LoopSpec):
        def matches(self, i, node, iterable, env):
            if i.within() != f"{AE}.async_ea" or isinstance(node, ast.While):
                return False
            if not env.has("start_candidates") or iterable is not env.get("start_candidates"):
                return False
            st["list"] = i.content(iterable)
            st["k"] = None
            st["run0"] = ev.running
            return True

    ctx.loop_specs.append(Submit(f"{AE}.async_ea", None, sub_havoc, sub_inv, label="initial individuals"))

    # -- the two while loops
    def outer_havoc(c, env, _):
        fresh_pop(c)
        n = c.fresh_int("done")
        c.assume(n >= 0)
        env.set("n_evaluated_individuals", n)
        ev.results = n
        env.set("should_restart", c.fresh_bool("restart"))
        q = c.fresh_int("ncand")
        c.assume(q >= 1)
        f = c.fresh_fun("cand", I, S)
        env.set("start_candidates", it.new_list(FnC(q, lambda cc, i: ev.term(f(to_z3(i))))))
        ev.running = c.fresh_int("running")
        c.assume(ev.running >= 0)

    def count_inv(c, env):
        n = to_z3(env.get("n_evaluated_individuals"))
        out_ = [("results are counted", n == to_z3(ev.results)), ("running jobs", to_z3(ev.running) >= 0)]
        if limited:
            out_.append(("at most the allowed number of results", n <= limit))
        return out_

    def outer_inv(c, env, _):
        sc = it.content(env.get("start_candidates"))
        r = [("there are candidates to start with", to_z3(sc.length(c)) >= 1)] + count_inv(c, env)
        r.append(("the candidates are not the list the population is kept in", env.get("start_candidates") is not out))
        if limited:
            # the loop is left only when the limit is reached
            r.append(("ends only at the limit", z3.Or(truth(c.truthy(env.get("should_restart"))), to_z3(env.get("n_evaluated_individuals")) == limit)))
        return r + ([] if c.truthy(env.get("should_restart")) is True else [("population: " + l, z3.Or(truth(c.truthy(env.get("should_restart"))), f)) for l, f in pop_inv(c)])

    def is_outer(i, node, iterable, env):
        return any(isinstance(n, (ast.While)) for b in node.body for n in ast.walk(b))
    ctx.loop_specs.append(LoopSpec(f"{AE}.async_ea", is_outer, outer_havoc, outer_inv, label="restarts", while_=True,
                                   names=["start_candidates", "n_evaluated_individuals", "should_restart"]))

    def inner_havoc(c, env, _):
        fresh_pop(c)
        n = c.fresh_int("done")
        c.assume(n >= 0)
        env.set("n_evaluated_individuals", n)
        ev.results = n
        env.set("should_restart", False)
        env.set("start_candidates", st["cands"])
        ev.running = c.fresh_int("running")
        st["iter"] = len(c.mutlog)
        ev.last = None

    def inner_inv(c, env, _):
        st.setdefault("cands", None)
        st["cands"] = env.get("start_candidates")
        r = pop_inv(c) + count_inv(c, env)
        r.append(("an evaluation is under way", to_z3(ev.running) >= 1))
        sr = c.truthy(env.get("should_restart"))
        r.append(("no restart pending", z3.Not(truth(sr))))
        if ev.last is not None:
            r += step(c)
        return r

    def step(c):
        """Exactly the announced change of the population."""
        kind, x = ev.last
        old, new = mem_of(st["before"], ev), mem_of(it.content(out), ev)
        z = z3.Const("z!st", S)
        cand = (lambda q: z3.Or(old(q), q == x)) if kind == "ok" else old
        if ev.eliminated is not None:
            g = ev.eliminated
            want = lambda q: z3.And(cand(q), q != g)
            room = z3.BoolVal(kind == "ok")
            full = to_z3(st["before"].length(c)) == size
            return [("the population changes exactly by the new and the eliminated individual", z3.ForAll([z], new(z) == want(z))),
                    ("somebody leaves only if there is no room", z3.And(room, full))]
        return [("the population changes exactly by the new individual", z3.ForAll([z], new(z) == cand(z)))]

    def is_inner(i, node, iterable, env):
        return not is_outer(i, node, iterable, env)

    class Inner(LoopSpec):
        def run_while(self, i, node, env):
            ev.last = None
            st["cands"] = env.get("start_candidates")
            return super().run_while(i, node, env)
    ctx.loop_specs.append(Inner(f"{AE}.async_ea", is_inner, inner_havoc, inner_inv, label="results", while_=True,
                                names=["start_candidates", "n_evaluated_individuals", "should_restart"]))
    cb = None
    if ctx.choose(2):
        cb = Builtin("restart_callback", lambda c: c.fresh_bool("wants_restart"))
    if again:
        search = Inst(it.get(f"{AE}.AsyncEA"), {"output": out, "_hyperparameters": DictObj([
            ("population_size", (size, 50)), ("restart_callback", (cb, None)), ("max_n_evaluations", (limit if limited else None, None))])})
        it.call(it.getattr(search, "search"), [ops, start], {})
        r = search.attrs["output"]
    else:
        r = it.call(it.get(f"{AE}.async_ea"), [ops, out, start], {"restart_callback": cb, "max_n_evaluations": limit if limited else None, "population_size": size})
    ctx.prove("the evaluator was closed", ev.closed)
    ctx.prove("returns the population", r is out)
    if limited:
        ctx.prove("as many results as allowed", to_z3(ev.results) == limit)
    for l, f in pop_inv(ctx):
        ctx.prove("at the end: " + l, f)
    ctx.cover("end")


PROOFS("async_ea: population invariant, with a limit of evaluations", covers=("end", "results: an iteration is possible"), timeout=150)(
    lambda ctx: ea_proof(ctx, True))
PROOFS("async_ea: population invariant, unlimited", covers=("results: an iteration is possible",), timeout=150)(
    lambda ctx: ea_proof(ctx, False))


@PROOFS("async_ea refuses a limit below one", covers=("post",))
def ea_limit(ctx):
    it = ctx.interp
    n = z3.Int("limit")
    ctx.assume(n <= 0)
    try:
        it.call(it.get(f"{AE}.async_ea"), [Opaque("ops"), ListObj([]), ListObj([])], {"max_n_evaluations": n})
    except PyRaise as e:
        ctx.prove("refused", issubclass(e.exc.cls, ValueError))
        ctx.cover("post")
        return
    ctx.fail("refused")


def rs_proof(ctx, limited):
    it = ctx.interp
    ev = Ev(ctx)
    S = ev.S
    limit, workers, k0 = z3.Ints("limit workers n_start")
    ctx.assume(z3.And(workers >= 1, k0 >= 1, limit >= 0))
    ind_cls = it.get("gama.genetic_programming.components.individual.Individual")
    ev.ind.cls = ind_cls
    n0 = z3.Int("n0")
    ctx.assume(n0 >= 0)
    f0 = z3.Function("out0", I, S)
    out = ListObj(FnC(n0, lambda c, i: ev.term(f0(to_z3(i)))))
    start = ListObj(FnC(k0, lambda c, i: ev.term(z3.Function("start", I, S)(to_z3(i)))))
    a = Async(ev, workers)
    ctx.class_hooks["gama.utilities.generic.async_evaluator.AsyncEvaluator"] = lambda c, *x, **k: a
    ops = Ops(ev)
    st = {}

    def on_result(x):
        del ev.submitted[:]
    ev.on_result = on_result

    def sub_havoc(c, env, k):
        ev.running = to_z3(k)
        del ev.submitted[:]
        st["k"] = k

    def sub_inv(c, env, k):
        if st.get("k") is None:
            return [("nothing submitted yet", to_z3(ev.running) == 0)]
        if simp(to_z3(k) == to_z3(st["k"])) is True:
            return []
        one = ev.submitted
        if len(one) != 1:
            return [("each start candidate is submitted once", z3.BoolVal(False))]
        return [("start candidates in order", c.truthy(lib.equal(it, one[0], it.content(start).at(c, simp(to_z3(k) - 1))))),
                ("running", to_z3(ev.running) == to_z3(k))]
    ctx.loop_specs.append(LoopSpec(f"{RS}.random_search", lambda i, n, itb, e: itb is start, sub_havoc, sub_inv, label="start candidates"))

    def havoc(c, env, _):
        n = c.fresh_int("nout")
        c.assume(n >= 0)
        g = c.fresh_fun("out", I, S)
        base = FnC(n, lambda cc, i: ev.term(g(to_z3(i))))
        out.content = base
        st["base"], st["n"] = base, n
        ev.running = c.fresh_int("running")
        ev.last = None

    def inv(c, env, _):
        ct = it.content(out)
        r = [("an evaluation is under way", to_z3(ev.running) >= 1)]
        if limited and st.get("n") is not None:
            r.append(("never beyond the limit", z3.Or(to_z3(ct.length(c)) <= limit, to_z3(ct.length(c)) <= n0)))
        elif limited:
            r.append(("never beyond the limit", z3.Or(to_z3(ct.length(c)) <= limit, to_z3(ct.length(c)) <= n0)))
        if ev.last is not None:
            kind, x = ev.last
            n = to_z3(ct.length(c))
            if kind == "raised":
                r.append(("nothing is reported for an evaluation without result", n == st["n"]))
            else:
                r.append(("one individual is reported", n == st["n"] + 1))
                v = ct.at(c, st["n"])
                r.append(("it is the evaluated one", v.expr == x if isinstance(v, Term) else z3.BoolVal(False)))
            q = c.fresh_int("q")

            def same():
                if not c.branch(z3.And(0 <= q, q < st["n"])):
                    return True
                return c.truthy(lib.equal(it, ct.at(c, q), st["base"].at(c, q)))
            r.append(("earlier reports stay", c.merge(same)))
            r.append(("one new evaluation per result", z3.BoolVal(len(ev.submitted) == 1)))
        return r
    ctx.loop_specs.append(LoopSpec(f"{RS}.random_search", lambda i, n, itb, e: True, havoc, inv, label="results", while_=True))
    r = it.call(it.get(f"{RS}.random_search"), [ops, out, start], {"max_evaluations": limit if limited else None})
    ctx.prove("the evaluator was closed", ev.closed)
    ctx.prove("returns the output", r is out)
    if limited:
        ln = to_z3(it.content(out).length(ctx))
        ctx.prove("as many as allowed", z3.Implies(n0 <= limit, ln == limit))
    ctx.cover("end")


PROOFS("random_search reports every evaluated individual, with a limit", covers=("end", "results: an iteration is possible"))(
    lambda ctx: rs_proof(ctx, True))
PROOFS("random_search reports every evaluated individual, unlimited", covers=("results: an iteration is possible",))(
    lambda ctx: rs_proof(ctx, False))


# ------------------------------------------------------------------ offspring
SEL = "gama.genetic_programming.selection"


@PROOFS("create_from_population: one offspring per selected pair of parents, by crossover or mutation", covers=("post", "crossover", "mutation"))
def create(ctx):
    """Against the contracts of nsga2_select (C06), of OperatorSet.mate and mutate (C03) and of
    _valid_crossover_functions (C04)."""
    it = ctx.interp
    ind = Schema("Ind")
    S = ind.sort
    T = lambda e: Term(e, ind)
    n = z3.Int("n")
    ctx.assume(n >= 0)
    p1, p2 = z3.Function("parent1", I, S), z3.Function("parent2", I, S)
    mated, mutated = z3.Function("mated", S, S, S), z3.Function("mutated", S, S)
    valid = z3.Function("crossovers", S, S, I)
    pop = ListObj(Conc([]), label="population")
    ops = Inst(it.get("gama.genetic_programming.operator_set.OperatorSet"), {}, label="ops")
    q = "gama.genetic_programming.operator_set.OperatorSet"

    def select(c, a):
        c.prove("parents are selected from the given population", a["population"] is pop)
        c.prove("as many pairs as offspring", to_z3(a["n"]) == n)
        return it.new_list(FnC(n, lambda cc, i: (T(p1(to_z3(i))), T(p2(to_z3(i))))))

    def functions(c, a):
        k = valid(a["ind1"].expr, a["ind2"].expr)
        c.assume(k >= 0)
        return it.new_list(FnC(k, lambda cc, i: Opaque("crossover")))

    def mate(c, a):
        c.prove("crossover is used only if it is possible", valid(a["ind1"].expr, a["ind2"].expr) > 0)
        c.cover("crossover")
        return T(mated(a["ind1"].expr, a["ind2"].expr))

    def mutate(c, a):
        c.cover("mutation")
        return T(mutated(a["ind"].expr))
    ctx.contracts["gama.genetic_programming.nsga2.nsga2_select"] = select
    ctx.contracts["gama.genetic_programming.crossover._valid_crossover_functions"] = functions
    ctx.contracts[f"{q}.mate"] = mate
    ctx.contracts[f"{q}.mutate"] = mutate
    st = {}

    def good(v, i):
        if not (isinstance(v, Term) and v.schema is ind):
            return z3.BoolVal(False)
        a, b = p1(to_z3(i)), p2(to_z3(i))
        return z3.Or(v.expr == mated(a, b), v.expr == mutated(a), v.expr == mated(b, a), v.expr == mutated(b))

    def match(i_, node, iterable, env):
        accs = [m for m in env.vars if isinstance(env.vars[m], ListObj) and env.vars[m] is not pop and it.content(env.vars[m]).items() == []]
        if len(accs) != 1:
            return False
        st["acc"] = accs[0]
        return True
    made = z3.Function("made", I, S)

    def havoc(c, env, k):
        j = z3.Int("j!made")
        env.get(st["acc"]).content = st["base"] = FnC(k, lambda cc, i: T(made(to_z3(i))))
        c.assume(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < to_z3(k)), good(T(made(j)), j)), patterns=[made(j)]))

    def inv(c, env, k):
        acc = it.content(env.get(st["acc"]))
        out = [("number of offspring so far", to_z3(acc.length(c)) == to_z3(k))]
        if acc is not st.get("base") and not acc.items() == []:
            out.append(("the new one is offspring of its pair", c.merge(lambda: good(acc.at(c, simp(to_z3(k) - 1)), simp(to_z3(k) - 1)))))
        return out
    spec = LoopSpec(f"{SEL}.create_from_population", match, havoc, inv, label="offspring")
    spec.optional = True
    ctx.loop_specs.append(spec)
    cx, mu = z3.Reals("cxpb mutpb")
    r = it.call(it.get(f"{SEL}.create_from_population"), [ops, pop, n, cx, mu], {})
    c = it.content(r)
    ctx.prove("as many offspring as asked for", to_z3(c.length(ctx)) == n)
    i = ctx.fresh_int("i")
    ctx.assume(z3.And(0 <= i, i < n))
    ctx.prove("each is offspring of its own pair of parents", good(c.at(ctx, i), i))
    ctx.cover("post")


@PROOFS("OperatorSet.create and eliminate pass the population on", covers=("post",))
def delegate(ctx):
    it = ctx.interp
    q = "gama.genetic_programming.operator_set.OperatorSet"
    made, gone, pop = Opaque("offspring"), Opaque("eliminated"), Opaque("population")
    seen = []

    def create_(c, *a, **k):
        seen.append(("create", a, k))
        return made

    def eliminate_(c, *a, **k):
        seen.append(("eliminate", a, k))
        return gone
    ops = Inst(it.get(q), {"_create_from_population": Builtin("create", create_), "_eliminate": Builtin("eliminate", eliminate_)}, label="ops")
    n = z3.Int("n")
    ctx.prove("the offspring made is returned", it.call(it.get(f"{q}.create"), [ops, pop, n], {}) is made)
    ctx.prove("made once, by this operator set, from this population", len(seen) == 1 and seen[0][1] == (ops, pop, n) and not seen[0][2])
    ctx.prove("the eliminated ones are returned", it.call(it.get(f"{q}.eliminate"), [ops, pop, n], {}) is gone)
    ctx.prove("picked once, from this population", len(seen) == 2 and seen[1][1] == (pop, n) and not seen[1][2])
    ctx.cover("post")

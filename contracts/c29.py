"""C29: the search's result reaches the final model, best pipeline first.

Any number of individuals with any fitness; the search ends normally, by its time limit, by an interrupt or an error.
"""
import z3
from pyvc.driver import *
from contracts import c09, c19
from contracts.gm import *

PROOFS = Registry()
PROOFS("post_process of the best fit fits the first pipeline of the selection on all data", covers=("done",))(c19.best_fit_post)


@PROOFS("Gama.fit: post-processing gets all individuals of the search, best first; its result is the model", covers=("done", "failed"), timeout=100)
def fit(ctx):
    w = Fit(ctx)
    it = w.it
    perms = []

    def hook(c, v, key, reverse):
        if it.content(v).items() is not None:
            return None
        c.sorted_hook = None
        try:
            r = lib.sorted_(c, v, key, reverse)
        finally:
            c.sorted_hook = hook
        perms.append(it.content(r).sorted_of)
        return r
    ctx.sorted_hook = hook
    before = w.g.attrs["model"]
    exc = w.run(None)
    p = w.of("post")
    if exc is not None:
        ctx.cover("failed")
        return
    ctx.prove("post-processing runs once", len(p) == 1)
    ctx.prove("it knows the instance it works for", [d["g"] for d in w.of("post defaults")] == [w.g])
    ctx.prove("its result is the model", w.g.attrs["model"] is w.model)
    sel = it.content(p[0]["selection"])
    n = w.n
    ctx.prove("as many individuals as the search has", to_z3(sel.length(ctx)) == n)
    a, b, j = ctx.fresh_int("a"), ctx.fresh_int("b"), ctx.fresh_int("j")
    ctx.assume(z3.And(0 <= a, a < b, b < n, 0 <= j, j < n))
    x, y = sel.at(ctx, a), sel.at(ctx, b)
    ok = lambda o: isinstance(o, Obj) and o.fam is w.indf
    ctx.prove("individuals of the search", ok(x) and ok(y))
    ctx.prove("best first", Lex.rank(to_z3(x.idx)) >= Lex.rank(to_z3(y.idx)))
    ctx.prove("each once", to_z3(x.idx) != to_z3(y.idx))
    if len(perms) != 1:
        raise Unsupported("sorted by other means")
    inv = perms[0][4]
    at = lambda k: to_z3(sel.at(ctx, simp(k)).idx) == j
    k1, k2 = inv(j), n - 1 - inv(j)
    ctx.prove("none is left out", z3.Or(z3.And(0 <= k1, k1 < n, at(k1)), z3.And(0 <= k2, k2 < n, at(k2))))
    ctx.prove("the search's result stays as it is", w.g.attrs["_final_pop"] is w.final and it.content(w.final).items() is None)
    ctx.cover("done")


@PROOFS("Gama._search_phase: one search from the right individuals; its output is the result, however it ended", covers=("given", "previous", "new", "empty", "error", "timed out", "interrupted", "done"), timeout=100)
def phase(ctx):
    w = SearchPhase(ctx)
    it = w.it
    how = ctx.choose(3)
    k = z3.Int("n_given")
    ctx.assume(k >= 1)
    given = ListObj(FnC(k, lambda c, i: Obj(w.indf, i)), label="given")
    warm = (None, given, ListObj(Conc([])))[how]
    prev, snap = w.prev, it.content(w.prev)
    exc = w.phase(warm, z3.Real("timeout"))
    s, d = w.of("search"), w.of("search defaults")
    ctx.prove("one search", len(s) == 1)
    ctx.prove("defaults are determined before the search, from its data", len(d) == 1 and d[0]["x"] is w.ex and d[0]["y"] is w.fy)
    ctx.prove("with the operators of the instance", s[0]["ops"] is w.ops)
    st = s[0]["start"]
    if how == 1:
        ctx.prove("the search starts from the given individuals", st is given or it.content(st) is it.content(given))
        ctx.cover("given")
    elif how == 0 and ctx.branch(w.n_prev > 0):
        ctx.prove("without a warm start it goes on from the previous result", st is prev or it.content(st) is snap)
        ctx.cover("previous")
    else:
        c = it.content(st)
        items = c.items()
        if items is None:
            raise Unsupported("number of new individuals")
        ctx.prove("else from 50 new individuals", len(items) == 50 and len(w.new) == 50 and all(any(x is y for y in w.new) for x in items))
        ctx.cover("new" if how == 0 else "empty")
    if w.raised is Own:
        ctx.prove("errors of the search are passed on", exc is w.exc)
        ctx.cover("error")
        return
    ctx.prove("the search ends normally otherwise", exc is None)
    ctx.prove("the output of this search is the result", w.g.attrs["_final_pop"] is w.g.attrs["_search_method"].result)
    ctx.cover({None: "done", TimeoutException: "timed out", KeyboardInterrupt: "interrupted"}[w.raised])


@PROOFS("a warm start with anything but individuals is refused before the search", covers=("refused", "accepted"), timeout=60)
def refused(ctx):
    w = SearchPhase(ctx)
    it = w.it
    good = z3.Function("is_individual", z3.IntSort(), z3.BoolSort())
    k = z3.Int("n_given")
    ctx.assume(k >= 1)
    IND = it.get("gama.genetic_programming.components.individual.Individual")

    class E(Model):
        type_name = "candidate"

        def __init__(self, i):
            self.i = to_z3(i)

        def py_isinstance(self, c, t):
            if t is IND:
                return good(self.i)
            raise Unsupported("type of a candidate")
    given = ListObj(FnC(k, lambda c, i: E(i)))
    exc = w.phase(given, z3.Real("timeout"))
    j = z3.Int("j!g")
    allg = z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < k), good(j)))
    if w.of("search"):
        ctx.prove("only individuals are searched from", allg)
        ctx.cover("accepted")
    else:
        ctx.prove("refused with a type error", exc is not None and issubclass(exc.cls, TypeError))
        ctx.prove("only if something else is among them", z3.Not(allg))
        ctx.cover("refused")


PROOFS("AsyncEA.search from its own previous result: every individual of it is evaluated again", covers=("end", "results: an iteration is possible"), timeout=150)(
    lambda ctx: c09.ea_proof(ctx, True, again=True))

"""C10 run-time contracts: successive halving under any order of results."""
import copy
import math
from common import need, Inapplicable
from gphelp import make_space, gen_individual, opset
from simev import Sim, patched, evaluator, Done, Boom


class Eager(Sim):
    """Evaluates at submission, delivers in any order."""

    def __init__(self, *a, on_submit=None, **k):
        super().__init__(*a, **k)
        self.on_submit = on_submit

    def submit(self, fn, *a, **k):
        try:
            d = Done(result=fn(*copy.deepcopy(a), **copy.deepcopy(k)))
        except Boom as e:
            d = Done(exception=e)
        self.on_submit(fn, a, k, d)
        return super().submit(lambda *x, **y: d, *a, **k)

    def wait_next(self, *a, **k):
        d = super().wait_next(*a, **k)
        inner = self.delivered[-1][2].result
        self.delivered[-1] = self.delivered[-1][:2] + (inner,)
        return inner


def asha(c, t):
    f = need("gama.search_methods.asha", "asha")
    import stopit
    rng = c.rng
    s = c.seed_all(t)
    pset = make_space(rng, n_est=2)
    eta = rng.choice([2, 2, 3, 3, 4])
    lo, hi = rng.choice([(0.125, 1.0), (0.1, 0.9), (1, 1), (10, 100), (5, 400), (1 / 9, 1.0), (100, 1000), (0.5, 1.0), (1, 125), (0.3, 1.0)])
    kmax = 0
    while lo * eta ** kmax < hi * (1 - 1e-9):
        kmax += 1
    m = rng.choice([0, 0, 0, min(1, kmax)])
    pe, pr = rng.choice([(0, 0), (0, 0), (.3, .2), (.2, 0)])
    limit = rng.choice([1, 2, 5, None, None])
    stop = rng.randint(0, 120) if limit is None or rng.random() < .2 else None
    exc = rng.choice([stopit.TimeoutException, KeyboardInterrupt])
    levels = rng.choice([1, 3, 40])
    k = rng.choice([0, 1, 5, 20])
    start = [gen_individual(rng, pset, 1) for _ in range(k)]
    start_ids = [i._id for i in start]
    ops = opset(pset)
    ops._evaluate_callback = lambda e: None
    inner = evaluator(rng, pe, 0.0, levels=levels)
    seen = {}

    def evaluate(individual, *a, **kw):
        seen["call"] = (individual, kw)
        raised = rng.random() < pr
        e = inner(individual)
        seen["eval"] = e
        seen["error"] = e.error
        if raised:
            seen["raised"] = True
        return e

    class Evaluate:
        def __deepcopy__(self, memo):
            return self

        def __call__(self, *a, **kw):
            return evaluate(*a, **kw)
    ops.evaluate = Evaluate()
    results = {}
    promoted = {}
    subs = {}
    rung_of = {}
    res_of = lambda r: min(lo * eta ** r, hi)

    def on_submit(fn, a, kw, d):
        e = d.result
        ind, ekw = seen["call"]
        rung = e.individual.meta.get("rung")
        c.check(rung is not None, "an evaluation carries its rung")
        i = e.individual._id
        c.check(isinstance(rung, int) and m <= rung <= kmax + 1, "an existing rung", rung=rung)
        sub = ekw.get("subsample")
        c.check(sub is not None and abs(sub - res_of(rung)) <= 1e-9 * hi, "resource of the rung", rung=rung, got=sub, expected=res_of(rung))
        c.check(sub is not None and sub <= hi, "never above the maximum resource", got=sub)
        c.check(e.individual.meta.get("subsample") == sub, "the subsample is recorded")
        full = abs(res_of(rung) - hi) <= 1e-9 * hi
        if seen["error"] is not None:
            c.check(e.error == seen["error"], "an error is kept")
        elif not full:
            c.check(e.error is not None, "an evaluation below the highest rung is not a full one", rung=rung)
        elif rung >= kmax + (0 if abs(lo * eta ** kmax - hi) > 1e-9 * hi else 1):
            c.check(e.error is None, "an evaluation on the highest rung counts", rung=rung)
        c.check(rung not in subs.get(i, ()), "at most once per rung", rung=rung, rungs=sorted(subs.get(i, ())))
        subs.setdefault(i, set()).add(rung)
        rung_of[id(d)] = (i, rung, e.score[0])
        if rung == m:
            return
        below = results.get(rung - 1, [])
        mine = [l for x, l in below if x == i]
        if not c.check(len(mine) == 1, "promotion follows a result on the rung below", rung=rung, results=len(below)):
            return
        better = sum(l > mine[0] for _, l in below)
        allowed = math.floor(len(below) / eta)
        c.check(better < allowed, "promoted only among the best fraction", better=better, results=len(below), eta=eta)
        promoted[rung - 1] = promoted.get(rung - 1, 0) + 1
        c.check(promoted[rung - 1] <= allowed, "no more than the fraction is promoted", promoted=promoted[rung - 1], results=len(below), eta=eta)

    pos = [0]

    def observe(sim):
        sync(sim)
        c.check(len(sim.jobs) >= 1, "there is always an evaluation under way")

    def sync(sim):
        for a, kw, d in sim.delivered[pos[0]:]:
            if d.result is not None:
                i, r, l = rung_of[id(d)]
                results.setdefault(r, []).append((i, l))
        pos[0] = len(sim.delivered)

    class S(Eager):
        def submit(self, *a, **kw):
            sync(self)
            return super().submit(*a, **kw)

        def wait_next(self, *a, **kw):
            try:
                d = super().wait_next(*a, **kw)
            except exc:
                seen["stopped"] = True
                raise
            if d.result is not None and rng.random() < pr:
                i = rung_of[id(d)]
                d2 = Done(exception=Boom("raised"))
                self.delivered[-1] = self.delivered[-1][:2] + (d2,)
                return d2
            return d
    sim = S(rng, rng.choice([1, 2, 8]), on_wait=observe, stop_after=stop, stop_exc=exc("stop"), on_submit=on_submit)
    with c.case("asha", seed=s, eta=eta, resources=(lo, hi), skip=m, start=k, limit=limit, stop_after=stop, exc=exc.__name__, errors=(pe, pr)):
        with patched("gama.search_methods.asha", sim):
            r = f(ops, start, reduction_factor=eta, minimum_resource=lo, maximum_resource=hi, minimum_early_stopping_rate=m,
                  max_full_evaluations=limit if limit is not None else (None if stop is not None else 1))
        sync(sim)
        got = [x._id for x in r]
        reached = [q for q in results if results[q]]
        want = [x for x, _ in results[max(reached)]] if reached else []
        if seen.get("stopped"):
            c.check(sorted(got) == sorted(want), "stopping early returns the highest rung reached", got=len(got), expected=len(want), reached=reached)
        else:
            c.check(sorted(got) == sorted(want) and len(got) == limit, "returns the individuals of the last rung", got=len(got), limit=limit, expected=len(want))
        first = [a[0]._id for _, a, _ in sim.submitted]
        lowest = [i for i in dict.fromkeys(first)]
        c.check(set(lowest[:min(k, len(lowest))]) == set(start_ids[-len(lowest):]) if k and len(lowest) < k else set(start_ids) <= set(lowest),
                "start candidates come first")
        c.check(sim.entered == sim.exited == 1, "the evaluator is closed at the end")


def settings(c):
    f = need("gama.search_methods.asha", "asha")
    with c.case("asha types"):
        c.raises(ValueError, lambda: f(None, [], minimum_resource=1, maximum_resource=1.0), "mixed resource types are refused")


def search(c):
    A = need("gama.search_methods.asha", "AsynchronousSuccessiveHalving")
    import gama.search_methods.asha as mod
    from unittest import mock
    rng = c.rng
    with c.case("AsynchronousSuccessiveHalving.search"):
        got = {}

        def fake(operations, start_candidates, **k):
            got.update(k, operations=operations, start=start_candidates)
            return ["out"]
        with mock.patch.object(mod, "asha", fake):
            a = A(reduction_factor=4, minimum_resource=10, maximum_resource=100, minimum_early_stopping_rate=1)
            a.search("ops", ["x"])
        c.check(got.get("reduction_factor") == 4 and got.get("minimum_resource") == 10 and got.get("maximum_resource") == 100
                and got.get("minimum_early_stopping_rate") == 1 and got.get("operations") == "ops" and got.get("start") == ["x"], "settings are passed on", got=got)
        c.check(a.output == ["out"], "the result is the output")


def rung(c):
    f = need("gama.search_methods.asha", "evaluate_on_rung")
    Ev = need("gama.utilities.evaluation_library", "Evaluation")
    rng = c.rng
    pset = make_space(rng)
    for err in (None, "failed"):
        for r, top in ((0, 3), (3, 3), (2, 3), (0, 0)):
            ind = gen_individual(rng, pset, 1)
            ev = Ev(ind, error=err)
            got = {}

            def evaluate(i, **k):
                got.update(k, ind=i)
                return ev
            with c.case("evaluate_on_rung", rung=r, max_rung=top, error=err):
                e = f(ind, r, max_rung=top, evaluate_individual=evaluate, subsample=5, timeout=7)
                c.check(e is ev and got == {"ind": ind, "subsample": 5, "timeout": 7}, "evaluates with the given settings", got=got)
                c.check(ind.meta.get("rung") == r and ind.meta.get("subsample") == 5, "an evaluation carries its rung", meta=ind.meta)
                if err:
                    c.check(e.error == err, "an error is kept")
                else:
                    c.check((e.error is None) == (r == top), "an evaluation below the highest rung is not a full one", error=e.error)


def run(c):
    c.section("evaluate_on_rung", rung)
    c.section("settings", settings)
    c.section("search", search)
    c.section("asha", lambda c: [asha(c, t) for t in c.trials(220)])

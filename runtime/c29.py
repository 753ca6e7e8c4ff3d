"""C29 run-time contracts: the search's result reaches the final model, best pipeline first."""
import gamahelp as g
import stopit
from common import need
from unittest import mock
import simev


class Own(Exception):
    pass


def run(c):
    with c.scratch():
        c.section("selection", selection)
        c.section("refusal", refusal)
        c.section("searches", searches)


def fitness(c):
    Fitness = need("gama.genetic_programming.components", "Fitness")
    v = lambda: c.rng.choice([0.0, 1.0, -1.0, 0.5, 2.5, float("-inf")])
    k = c.rng.choice([1, 2, 2, 3])
    return lambda: Fitness(tuple(v() for _ in range(k)), 0, 0, 0)


def ids(inds):
    return sorted(id(i) for i in inds)


def selection(c):
    Search, Post = g.stand_ins()
    BF = need("gama.postprocessing", "BestFitPostProcessing")
    for t in c.trials(40):
        kind = c.rng.choice(["classification", "regression"])
        plan = [(c.rng.choice([0, 1, 2, 5, 12]), c.rng.choice([None, None, stopit.TimeoutException, KeyboardInterrupt]), c.rng.choice(["none", "given", "empty"])) for _ in range(c.rng.randint(1, 3))]
        with c.case("selection", kind=kind, fits=plan):
            x, y = g.data(c.rng, kind=kind)
            models = []

            def result(*a):
                models.append(object())
                return models[-1]
            s, p = Search(), Post(hook=result)
            gm = g.make(kind, search=s, post=p)
            prev = []
            for n, exc, start in plan:
                mk = fitness(c)
                found = [gm._operator_set.individual() for _ in range(n)]
                for i in found:
                    i.fitness = mk()

                def hook(ops, st):
                    s.started = list(st)
                    s.output = found
                    if exc:
                        raise exc()
                    return found
                s.hook = hook
                warm = {"none": None, "given": [gm._operator_set.individual() for _ in range(3)], "empty": []}[start]
                kept = list(warm) if warm else None
                calls, pc = s.calls, p.calls
                order = list(found)
                r = gm.fit(x, y, warm) if warm is not None else gm.fit(x, y)
                c.check(s.calls == calls + 1 and p.calls == pc + 1, "one search, one post-processing")
                if kept:
                    c.check(ids(s.started) == ids(kept) and ids(warm) == ids(kept), "the search starts from the given individuals")
                elif warm is None and prev:
                    c.check(ids(s.started) == ids(prev), "without a warm start it goes on from the previous result", got=len(s.started), expected=len(prev))
                else:
                    c.check(len(s.started) == 50 and not set(ids(s.started)) & set(ids(prev)), "else from 50 new individuals", got=len(s.started))
                sel = p.selection
                c.check(ids(sel) == ids(found), "post-processing gets each individual of the search once", got=len(sel), expected=len(found))
                vals = [i.fitness.values for i in sel]
                c.check(all(a >= b for a, b in zip(vals, vals[1:])), "best first", got=vals)
                c.check(ids(gm._final_pop) == ids(order), "the result of the search is kept")
                c.check(gm.model is models[-1], "the result of post-processing is the model")
                prev = list(found)
            gm.cleanup("all")
    for t in c.trials(6):
        with c.case("best fit"):
            x, y = g.data(c.rng)
            found = []

            def hook(ops, st):
                mk = fitness(c)
                for _ in range(5):
                    i = ops.individual()
                    i.fitness = mk()
                    found.append(i)
                return found
            gm = g.make("classification", search=Search(hook), post=BF())
            gm.fit(x, y)
            best = max(i.fitness.values for i in found)
            names = [type(s).__name__ for _, s in gm.model.steps][-1]
            cand = [i for i in found if i.fitness.values == best]
            c.check(any(str(i.main_node._primitive) == names for i in cand), "the model is a best pipeline", model=names, best=[str(i.main_node) for i in cand])
            c.check(len(gm.predict(x)) == len(x), "it is fitted")
            gm.cleanup("all")


def refusal(c):
    Search, Post = g.stand_ins()
    for bad in ([1], ["text"], [None], "mixed", "text"):
        with c.case("warm start with something else", given=bad):
            x, y = g.data(c.rng)
            s = Search(lambda o, st: [])
            gm = g.make("classification", search=s)
            warm = [gm._operator_set.individual(), "x"] if bad == "mixed" else bad
            c.raises(TypeError, lambda: gm.fit(x, y, warm), "anything but individuals is refused")
            c.check(s.calls == 0, "nothing is searched then")
            gm.cleanup("all")
    for exc in (Own, ValueError):
        with c.case("error of the search", exc=exc):
            x, y = g.data(c.rng)

            def hook(ops, st):
                raise exc("x")
            gm = g.make("classification", search=Search(hook))
            c.raises(exc, lambda: gm.fit(x, y), "errors of the search are passed on")
            c.check(gm.model is None, "there is no model then")
            gm.cleanup("all")


def searches(c):
    """Real searches, one fit after the other on the same instance."""
    import gama.genetic_programming.compilers.scikitlearn as sk
    need("gama.genetic_programming.compilers.scikitlearn", "evaluate_individual")
    EA, AH, RS = need("gama.search_methods.async_ea", "AsyncEA"), need("gama.search_methods.asha", "AsynchronousSuccessiveHalving"), need("gama.search_methods.random_search", "RandomSearch")
    mods = ("gama.search_methods.async_ea", "gama.search_methods.random_search", "gama.search_methods.asha")
    _, Post = g.stand_ins()
    for t in c.trials(15):
        which = t % 3
        size = c.rng.randint(2, 8)
        limits = [c.rng.randint(3, 30) for _ in range(3)]
        own = c.rng.random() < 0.4 and which == 0
        with c.case("searches", method=mods[which], population=size, results=limits, ends_itself=own):
            search = (EA(population_size=size, max_n_evaluations=limits[0] if own else None), RS(), AH())[which]
            p = Post(hook=lambda *a: "model")
            gm = g.make("regression", search=search, post=p)
            x, y = g.data(c.rng, kind="regression")
            prev = None
            for limit in limits:
                sim = simev.Sim(c.rng, n_workers=c.rng.randint(1, 3), stop_after=limit, stop_exc=c.rng.choice([stopit.TimeoutException(), KeyboardInterrupt()]))
                with simev.patched(mods[which], sim), mock.patch.object(sk, "evaluate_individual", simev.evaluator(c.rng, 0.1, 0.05)):
                    gm.fit(x, y)
                c.check(len(sim.delivered) == (min(limits[0], limit) if own else limit), "the search runs until it is ended", results=len(sim.delivered))
                if prev is not None and prev and which < 2:
                    texts = sorted(str(a[0].main_node) for _, a, _ in sim.submitted[:len(prev)])
                    c.check(texts == sorted(prev), "a further fit goes on from the previous result", got=len(texts), expected=len(prev))
                done = [d.result.individual for _, _, d in sim.delivered if d.result is not None]
                c.check(ids(p.selection) == ids(search.output), "post-processing gets the result of the search")
                vals = [i.fitness.values for i in p.selection]
                c.check(all(a >= b for a, b in zip(vals, vals[1:])), "best first", got=vals)
                if which != 1:
                    c.check(set(ids(p.selection)) <= set(ids(done)), "only individuals evaluated in this search")
                prev = [str(i.main_node) for i in search.output]
            gm.cleanup("all")

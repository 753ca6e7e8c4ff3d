"""C09 run-time contracts: evolutionary search and random search."""
from common import need
from gphelp import make_space, gen_individual, opset
from simev import Sim, patched, evaluator, Stop


def worse_everywhere(y, r):
    """y is at most as good as r on all objectives and worse on one."""
    return all(a <= b for a, b in zip(y, r)) and any(a < b for a, b in zip(y, r))


def val(i):
    return tuple(i.fitness.values)


def ids(l):
    return [i._id for i in l]


def ea(c, t):
    async_ea = need("gama.search_methods.async_ea", "async_ea")
    import stopit
    rng = c.rng
    s = c.seed_all(t)
    pset = make_space(rng, n_est=2)
    pe, pr = rng.choice([(0, 0), (.3, 0), (.3, .3), (.9, .05), (0, .5)])
    size = rng.choice([1, 2, 3, 4, 6, 10])
    k = rng.randint(1, 12)
    workers = rng.choice([1, 1, 2, 4])
    limit = rng.choice([1, 3, 10, 30, None])
    stop = rng.randint(0, 25) if limit is None or rng.random() < .2 else None
    restart_at = rng.choice([None, None, None, 4, 9])
    own_start = rng.random() < .3
    ops = opset(pset, max_length=rng.choice([None, 1, 3]))
    seen_cb = []
    ops._evaluate_callback = seen_cb.append
    start = [gen_individual(rng, pset, 1) for _ in range(k)]
    out = rng.choice([[gen_individual(rng, pset, 1)], start, start[:2]]) if own_start else []
    first = list(start)
    state = dict(pop=[], done=0, restarts=0, sub=0, cb=0, restarted=[])
    created = []
    real_ind = ops.individual

    def individual(*a, **kw):
        i = real_ind(*a, **kw)
        created.append(i)
        return i
    ops.individual = individual

    def restart():
        state["cb"] += 1
        r = restart_at is not None and state["cb"] == restart_at
        if r:
            state["restarts"] += 1
        return r

    def observe(sim, final=False):
        """State between two results."""
        done = sim.delivered
        new = done[state["done"]:]
        subs = [a[0] for _, a, _ in sim.submitted]
        if not done and not new:
            if not final or subs:
                c.check(ids(subs) == ids(first), "initial individuals are evaluated first, all of them", submitted=len(subs), expected=len(first))
                c.check(out == [], "the search starts with an empty population")
            state["sub"] = len(subs)
            return
        for a, kw, d in new:
            old = list(state["pop"])
            cand = old + ([d.result.individual] if d.exception is None and d.result is not None and d.result.error is None else [])
            now = list(out)
            if state["restarts"] > len(state["restarted"]):
                state["restarted"].append(len(subs))
                if not final:
                    c.check(now == [], "a restart empties the population")
                    fresh = subs[-size:]
                    c.check(len(subs) - state["sub"] in (size, size + 1) and ids(fresh) == ids(created[-size:]), "a restart evaluates a new random population",
                            submitted=len(subs) - state["sub"])
                    state["pop"] = []
                    continue
                now = list(out)
            c.check(len(now) <= size, "the population never exceeds its size", size=len(now), limit=size)
            c.check(len(set(ids(now))) == len(now), "nobody is twice in the population")
            c.check(set(ids(now)) <= set(ids(cand)), "the population holds successfully evaluated individuals only", pop=len(now), cand=len(cand))
            gone = [x for x in cand if x._id not in ids(now)]
            c.check(len(now) == min(len(cand), size), "nobody leaves without need", before=len(old), after=len(now), size=size)
            for g in gone:
                rest = [x for x in cand if x is not g]
                c.check(not any(worse_everywhere(val(y), val(g)) for y in rest), "nobody leaves while a worse individual stays",
                        removed=val(g), others=[val(y) for y in rest])
            c.check(all(i.fitness is not None for i in now), "members carry their fitness")
            state["pop"] = now
            fresh = subs[state["sub"]:]
            for f in fresh:
                par = f.meta.get("parents")
                if par is None:
                    c.check(any(f is x for x in created), "offspring comes from the population or is newly created", origin=f.meta)
                    c.check(len(now) < 3, "new individuals take the place of offspring only while there are too few parents", members=len(now))
                else:
                    c.check(set(par) <= set(ids(now)), "parents are current members of the population", parents=len(par))
                    c.check(len(now) >= 3, "parents are only selected from three or more", members=len(now))
        state["done"], state["sub"] = len(done), len(subs)
        if not final:
            c.check(len(sim.jobs) >= 1, "there is always an evaluation under way")

    sim = Sim(rng, workers, on_wait=observe, stop_after=stop, stop_exc=stopit.TimeoutException())
    ops.evaluate = evaluator(rng, pe, pr)
    with c.case("async_ea", seed=s, population_size=size, start=k, workers=workers, limit=limit, stop_after=stop, restart_at=restart_at, errors=(pe, pr)):
        with patched("gama.search_methods.async_ea", sim):
            try:
                r = async_ea(ops, out, start, restart_callback=restart if restart_at or rng.random() < .3 else None, max_n_evaluations=limit, population_size=size)
                c.check(limit is not None and len(sim.delivered) == limit, "evaluates until the limit", results=len(sim.delivered), limit=limit)
                c.check(ids(r) == ids(out), "returns the population")
                observe(sim, final=True)
            except stopit.TimeoutException:
                c.check(stop is not None, "stops early only if interrupted")
        c.check(sim.entered == sim.exited == 1, "the evaluator is closed at the end")
        want = [d.result for _, _, d in sim.delivered if d.result is not None]
        c.check([id(x) for x in seen_cb] == [id(x) for x in want], "every completed evaluation is reported once, in order")


def ea_search(c):
    """AsyncEA.search passes its settings on."""
    AsyncEA = need("gama.search_methods.async_ea", "AsyncEA")
    rng = c.rng
    pset = make_space(rng, n_est=2)
    for size, limit in ((2, 7), (None, 5), (5, 20)):
        sim = Sim(rng, 1)
        ops = opset(pset)
        ops.evaluate = evaluator(rng)
        with c.case("AsyncEA.search", population_size=size, limit=limit):
            with patched("gama.search_methods.async_ea", sim):
                s = AsyncEA(population_size=size, max_n_evaluations=limit)
                s.search(ops, [gen_individual(rng, pset, 1) for _ in range(3)])
                c.check(len(sim.delivered) == limit, "limit as configured")
                c.check(len(s.output) == min(size or 50, limit), "population size as configured", got=len(s.output))
    with c.case("AsyncEA limit"):
        f = need("gama.search_methods.async_ea", "async_ea")
        for bad in (0, -1):
            c.raises(ValueError, lambda: f(opset(pset), [], [], max_n_evaluations=bad), "a limit below one is refused")


def rs(c, t):
    random_search = need("gama.search_methods.random_search", "random_search")
    import stopit
    rng = c.rng
    s = c.seed_all(t)
    pset = make_space(rng)
    pe, pr = rng.choice([(0, 0), (.3, .2), (.5, 0)])
    k = rng.randint(1, 6)
    limit = rng.choice([1, 4, 12, None])
    stop = rng.randint(0, 15) if limit is None else None
    ops = opset(pset)
    seen_cb = []
    ops._evaluate_callback = seen_cb.append
    ops.evaluate = evaluator(rng, pe, pr)
    start = [gen_individual(rng, pset, 1) for _ in range(k)]
    out = []

    def observe(sim):
        subs = [a[0] for _, a, _ in sim.submitted]
        c.check(ids(subs[:k]) == ids(start), "start candidates are evaluated first")
        c.check(len(sim.jobs) == k, "one new evaluation per result", running=len(sim.jobs))
        want = [d.result.individual for _, _, d in sim.delivered if d.result is not None]
        c.check([id(x) for x in out] == [id(x) for x in want], "every evaluated individual is reported, in order", got=len(out), expected=len(want))
    sim = Sim(rng, rng.choice([1, 3]), on_wait=observe, stop_after=stop, stop_exc=stopit.TimeoutException())
    with c.case("random_search", seed=s, start=k, limit=limit, stop=stop, errors=(pe, pr)):
        with patched("gama.search_methods.random_search", sim):
            try:
                r = random_search(ops, out, start, max_evaluations=limit)
                c.check(r is out and len(out) == limit, "evaluates until the limit", got=len(out), limit=limit)
            except stopit.TimeoutException:
                c.check(stop is not None, "stops early only if interrupted")
        c.check(sim.entered == sim.exited == 1, "the evaluator is closed at the end")
        want = [d.result for _, _, d in sim.delivered if d.result is not None]
        c.check([id(x) for x in seen_cb] == [id(x) for x in want], "every completed evaluation is reported once, in order")


def elimination(c):
    elim = need("gama.genetic_programming.selection", "eliminate_from_pareto")
    Fit = need("gama.genetic_programming.components.fitness", "Fitness")
    rng = c.rng
    pset = make_space(rng)
    for t in c.trials(300):
        c.seed_all(t)
        n, m, top = rng.randint(1, 9), rng.choice([1, 2, 2, 3]), rng.choice([1, 3, 50])
        pop = []
        for _ in range(n):
            i = gen_individual(rng, pset, 1)
            i.fitness = Fit(tuple(float("-inf") if rng.random() < .1 else rng.randint(-top, top) for _ in range(m)), None, 0, 0)
            pop.append(i)
        with c.case("eliminate_from_pareto", fitness=[val(i) for i in pop]):
            keep = list(pop)
            r = elim(pop, 1)
            c.check(len(r) == 1 and any(r[0] is x for x in pop), "one member is eliminated")
            c.check(not any(worse_everywhere(val(y), val(r[0])) for y in pop), "nobody is eliminated while a worse individual stays", removed=val(r[0]))
            c.check(ids(pop) == ids(keep), "the population itself is left to the caller")


def create(c):
    rng = c.rng
    Fit = need("gama.genetic_programming.components.fitness", "Fitness")
    for t in c.trials(80):
        c.seed_all(t)
        pset = make_space(rng, n_est=2)
        ops = opset(pset)
        pop = []
        for _ in range(rng.randint(3, 6)):
            i = gen_individual(rng, pset, rng.randint(1, 3))
            i.fitness = Fit((rng.randint(0, 3), -rng.randint(1, 3)), None, 0, 0)
            pop.append(i)
        n = rng.randint(0, 4)
        with c.case("create_from_population", n=n, fitness=[val(i) for i in pop]):
            r = ops.create(pop, n)
            c.check(len(r) == n, "as many offspring as asked for", got=len(r))
            for o in r:
                c.check(o._id not in ids(pop) and o.fitness is None, "offspring are new individuals")
                c.check(set(o.meta.get("parents", [None])) <= set(ids(pop)), "parents are members of the population")


def run(c):
    c.section("elimination", elimination)
    c.section("creation", create)
    c.section("async_ea", lambda c: [ea(c, t) for t in c.trials(250)])
    c.section("AsyncEA", ea_search)
    c.section("random_search", lambda c: [rs(c, t) for t in c.trials(120)])

"""C25 run-time contracts: hyperparameters resolve user over dynamic over default."""
import gamahelp as g
import itertools
from common import need

VALUES = [0, 1, 0.0, 0.5, False, True, "", "x", (), [], {}, 7, -1, 10**9]
SPECS = {
    ("gama.search_methods.async_ea", "AsyncEA"): dict(population_size=50, max_n_evaluations=None, restart_callback=None),
    ("gama.search_methods.asha", "AsynchronousSuccessiveHalving"): dict(reduction_factor=3, minimum_resource=0.125, maximum_resource=1.0, minimum_early_stopping_rate=0),
    ("gama.postprocessing", "EnsemblePostProcessing"): dict(ensemble_size=25, hillclimb_size=10_000, max_models=200),
}


def run(c):
    c.section("resolution", resolution)
    c.section("methods", methods)
    c.section("searching", searching)
    c.section("library", library)
    c.section("start candidates", candidates)


def same(a, b):
    return type(a) is type(b) and a == b


def bases():
    BS, BP = need("gama.search_methods.base_search", "BaseSearch"), need("gama.postprocessing.base_post_processing", "BasePostProcessing")

    class S(BS):
        pass

    class P(BP):
        def __init__(self):
            super().__init__(0.1)
    return S, P


def resolution(c):
    """Own tables of hyperparameters, histories of dynamic defaults."""
    for t in c.trials(300):
        cls = bases()[t % 2]
        n = c.rng.randint(0, 5)
        pick = lambda: c.rng.choice(VALUES + [None] * 6)
        table = {f"h{i}": (pick(), pick()) for i in range(n)}
        steps = [(c.rng.choice([f"h{i}" for i in range(n)] + ["unknown"]), pick()) for _ in range(c.rng.randint(0, 6))]
        with c.case("resolution", table=table, dynamic=steps):
            o = cls()
            o._hyperparameters = dict(table)
            now = {k: list(v) for k, v in table.items()}
            for name, v in steps:
                if name in now:
                    o._overwrite_hyperparameter_default(name, v)
                    now[name][1] = v
                else:
                    c.raises(Exception, lambda: o._overwrite_hyperparameter_default(name, v), "an unknown name is refused", name=name)
                got = o.hyperparameters
                want = {k: s if s is not None else d for k, (s, d) in now.items()}
                c.check(list(got) == list(want) or set(got) == set(want), "all hyperparameters and no others", got=got, expected=want)
                c.check(all(same(got[k], want[k]) for k in want if k in got), "user over dynamic over default", got=got, expected=want)
            got = o.hyperparameters
            c.check(set(got) == set(now) and all(same(got[k], s if s is not None else d) for k, (s, d) in now.items()), "user over dynamic over default", got=got)


def methods(c):
    for (mod, name), defaults in SPECS.items():
        cls = need(mod, name)
        names = list(defaults)
        for chosen in itertools.chain.from_iterable(itertools.combinations(names, k) for k in range(len(names) + 1)):
            for t in range(3):
                kw = {k: c.rng.choice(VALUES) for k in chosen}
                given = dict(kw)
                for k in names:
                    if k not in kw and c.rng.random() < 0.3:
                        given[k] = None
                with c.case("method", method=name, given=given):
                    o = cls(**given)
                    got = o.hyperparameters
                    for k in names:
                        want = kw[k] if k in kw else defaults[k]
                        c.check(k in got and same(got[k], want), "the value given, else the default", name=k, got=got.get(k), expected=want)
                    c.raises(TypeError, lambda: cls(nosuchthing=3), "an unknown name is refused")


class Y:
    def __init__(self, n):
        self.n = n

    def __len__(self):
        return self.n


def searching(c):
    import gama.search_methods.async_ea as ea
    import gama.search_methods.asha as ah
    need("gama.search_methods.async_ea", "async_ea")
    need("gama.search_methods.asha", "asha")
    for t in c.trials(60):
        mod, name = list(SPECS)[t % 2]
        defaults = SPECS[(mod, name)]
        m, fn = ((ea, "async_ea"), (ah, "asha"))[t % 2]
        n = c.rng.choice([1, 2, 10, 100])
        kw = {}
        for k in defaults:
            if c.rng.random() < 0.5:
                kw[k] = c.rng.choice([0, 1, n - 1, n, n + 1, 0.5, 0.0] if k == "maximum_resource" else VALUES)
        with c.case("searching", method=name, given=kw, rows=n):
            got = []
            old = getattr(m, fn)
            setattr(m, fn, lambda *a, **k: got.append((a, k)) or [])
            try:
                s = need(mod, name)(**kw)
                s.dynamic_defaults([[0]] * n, Y(n), 60)
                ops, start = object(), []
                s.search(ops, start)
            finally:
                setattr(m, fn, old)
            c.check(len(got) == 1, "one search")
            a, k = got[0]
            for h, d in defaults.items():
                want = kw.get(h, d)
                if h == "maximum_resource" and h in kw and kw[h] > n:
                    c.check(same(k.get(h), d) or same(k.get(h), want), "a maximum beyond the data reverts to the default", got=k.get(h))
                else:
                    c.check(h in k and same(k[h], want), "the search runs with the resolved value", name=h, got=k.get(h), expected=want)


def library(c):
    EN = need("gama.postprocessing", "EnsemblePostProcessing")
    import gama.gama as G
    need("gama.gama", "EvaluationLibrary")
    with c.scratch():
        for t in c.trials(12):
            kw = {k: c.rng.choice([1, 2, 30, 5000]) for k in ("hillclimb_size", "max_models", "ensemble_size") if c.rng.random() < 0.6}
            with c.case("library", given=kw):
                p = EN(**kw)
                gm = g.make("regression", post=p)
                p.dynamic_defaults(gm)
                hp = p.hyperparameters
                d = SPECS[("gama.postprocessing", "EnsemblePostProcessing")]
                c.check(all(hp[k] == kw.get(k, v) for k, v in d.items()), "values stay as given", got={k: hp[k] for k in d})
                c.check(hp["metric"] is gm._metrics[0] and hp["evaluation_library"] is gm._evaluation_library, "dynamic values are used where the user gave none")
                lib = gm._evaluation_library
                if hasattr(lib, "_m") and hasattr(lib, "_sample_n"):
                    c.check(lib._m == kw.get("max_models", 200) and lib._sample_n == kw.get("hillclimb_size", 10_000), "the evaluation library is as configured", m=lib._m, n=lib._sample_n)
                gm.cleanup("all")


def candidates(c):
    f = need("gama.search_methods.base_search", "_check_base_search_hyperparameters")
    with c.scratch():
        gm = g.make("regression")
        inds = [gm._operator_set.individual() for _ in range(3)]
        gm.cleanup("all")
    for bad in ("text", None, 3, tuple(inds), {"a": 1}, [1], inds + ["x"], [None] + inds):
        with c.case("start candidates", given=str(type(bad))):
            c.raises(TypeError, lambda: f(None, [], bad), "other than a list of individuals is refused")
    for good in ([], inds[:1], inds):
        with c.case("start candidates", given=len(good)):
            f(None, [], good)
            c.check(True, "a list of individuals is accepted")

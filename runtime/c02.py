"""C02 run-time contracts: maximum pipeline length."""
import itertools
from common import need
from gphelp import *
from c01 import evolve

M = "gama.genetic_programming.mutation"
X = "gama.genetic_programming.crossover"


def run(c):
    c.section("mutation", mutation)
    c.section("crossover", crossover)
    c.section("evolution", evolution)
    c.section("configured", configured)


def mutation(c):
    rv = need(M, "random_valid_mutation_in_place")
    for t, pset in spaces(c, 60):
        for L, ml in itertools.product((1, 2, 3, 4, 6), (1, 2, 3, 5, None)):
            ind = gen_individual(c.rng, pset, L)
            if ml == L == 1 and not has_alternative_step(ind, pset) and not has_alternative_value(ind, pset):
                continue
            s = c.seed_all(c.rng.randrange(10**6))
            with c.case("mutation", seed=s, length=L, max_length=ml, individual=str(ind.main_node), space=dict(pset)):
                old = snap(ind)
                rv(ind, pset, max_length=ml)
                n = len(nodes(ind))
                if ml is not None:
                    c.check(n <= ml, "at most the maximum length after mutation", got=n, max=ml)
                    if L == ml:
                        c.check(n <= L, "an individual at the maximum is not extended", got=n)
                    if L > ml:
                        c.check(n <= ml and snap(ind) == old[:n], "a longer individual is only shortened", got=snap(ind), old=old)
                c.check(1 <= n <= L + 1, "mutation adds at most one step", got=n, was=L)


def crossover(c):
    rc = need(X, "random_crossover")
    for t, pset in spaces(c, 80):
        for la, lb, ml in itertools.product((1, 2, 3, 4), (1, 2, 3, 4), (2, 3, 4)):
            a, b = gen_individual(c.rng, pset, la), gen_individual(c.rng, pset, lb)
            s = c.seed_all(c.rng.randrange(10**6))
            can = swappable(a, b) or (la > 1 and lb > 1)
            with c.case("crossover", seed=s, la=la, lb=lb, max_length=ml, a=str(a.main_node), b=str(b.main_node), space=dict(pset)):
                if la > ml or lb > ml or not can:
                    c.raises(ValueError, lambda: rc(a, b, max_length=ml), "impossible crossover or too long parents are refused")
                    continue
                x, y = rc(a, b, max_length=ml)
                c.check(len(nodes(x)) <= ml, "first result at most the maximum length", got=len(nodes(x)), max=ml)
                c.check(len(nodes(x)) + len(nodes(y)) == la + lb, "no step is lost or added", got=(len(nodes(x)), len(nodes(y))))


def evolution(c):
    for t, pset in spaces(c, 30):
        for ml in (1, 2, 3, 4):
            s = c.seed_all(t)
            with c.case("evolution", seed=s, max_length=ml, space=dict(pset)):
                ops = opset(pset, ml)
                for _ in range(6):
                    n = len(nodes(ops.individual()))
                    c.check(1 <= n <= ml, "new individual at most the maximum length", got=n, max=ml)
                for pop, new in evolve(c, pset, 10, 5, ml):
                    for how, parents, child in new:
                        c.check(len(nodes(child)) <= ml, "offspring at most the maximum length", how=how, got=len(nodes(child)), max=ml)


def configured(c):
    """The user-visible setting reaches all operators."""
    cfg = need("gama.configuration.testconfiguration", "clf_config")
    GamaClassifier = need("gama", "GamaClassifier")
    with c.scratch():
        for ml in (1, 2, 4, None):
            if not c.more():
                return
            s = c.seed_all(ml or 0)
            with c.case("configured maximum length", max_pipeline_length=ml, seed=s):
                g = GamaClassifier(search_space=cfg, scoring="accuracy", store="nothing", max_pipeline_length=ml, max_total_time=60)
                try:
                    ops = g._operator_set
                    pop = [ops.individual() for _ in range(20)]
                    if ml is not None:
                        c.check(all(len(nodes(i)) <= ml for i in pop), "new individual at most the configured length", got=max(len(nodes(i)) for i in pop))
                    for r in range(15):
                        new = []
                        for i in range(10):
                            a, b = c.rng.choice(pop), c.rng.choice(pop)
                            if swappable(a, b) or (len(nodes(a)) > 1 and len(nodes(b)) > 1):
                                new.append(ops.mate(a, b))
                            new.append(ops.mutate(a))
                        if ml is not None:
                            c.check(all(len(nodes(i)) <= ml for i in new), "offspring at most the configured length", got=max(len(nodes(i)) for i in new))
                        pop = new[:15]
                    if ml is None:
                        c.check(max(len(nodes(i)) for i in pop) >= 1, "no maximum configured")
                finally:
                    g.cleanup("all")

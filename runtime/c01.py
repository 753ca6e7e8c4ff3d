"""C01 run-time contracts: well-formed pipelines."""
import random
from common import need
from gphelp import *

M = "gama.genetic_programming.mutation"
X = "gama.genetic_programming.crossover"
O = "gama.genetic_programming.operations"


def ok(c, ind, pset, what):
    p = problems(ind, pset)
    return c.check(not p, "well formed after " + what, problems=p, pipeline=str(getattr(ind, "main_node", ind)))


def run(c):
    c.section("generation", generation)
    c.section("mutation", mutation)
    c.section("crossover", crossover)
    c.section("evolution", evolution)
    c.section("bundled space", bundled)


def generation(c):
    create = need(O, "create_random_expression")
    rpn = need(O, "random_primitive_node")
    for t, pset in spaces(c, 60):
        before = guarded(pset)
        for lo, hi in ((1, 1), (1, 3), (2, 2), (4, 4), (3, 6), (1, 9)):
            for _ in range(4):
                s = c.seed_all(c.rng.randrange(10**6))
                with c.case("create_random_expression", seed=s, lo=lo, hi=hi, space=dict(pset)):
                    node = create(pset, min_length=lo, max_length=hi)
                    ok(c, node, pset, "generation")
                    c.check(lo <= len(nodes(node)) <= hi, "length within the requested bounds", got=len(nodes(node)), lo=lo, hi=hi)
        with c.case("default lengths", space=dict(pset)):
            node = create(pset)
            ok(c, node, pset, "generation")
            c.check(1 <= len(nodes(node)) <= 3, "default length bounds", got=len(nodes(node)))
        for kind in ("prediction", "data"):
            for excl in [None] + list(pset[kind]):
                if excl is not None and len(pset[kind]) < 2:
                    continue
                with c.case("random_primitive_node", kind=kind, exclude=excl, space=dict(pset)):
                    for _ in range(4):
                        n = rpn(kind, pset, exclude=excl)
                        c.check(n._primitive in pset[kind], "component of the requested kind", got=n._primitive)
                        c.check(excl is None or n._primitive != excl, "excluded component is not used")
                        c.check(sorted(x.identifier for x in n._terminals) == sorted(n._primitive.input), "one value per hyperparameter")
        c.check(guarded(pset) == before, "search space not modified")


def mutation(c):
    ops = {n: need(M, n) for n in ("mut_replace_terminal", "mut_replace_primitive", "mut_shrink", "mut_insert")}
    rv = need(M, "random_valid_mutation_in_place")
    for t, pset in spaces(c, 120):
        before = guarded(pset)
        for L in (1, 2, 3, 5):
            for name, op in ops.items():
                ind = gen_individual(c.rng, pset, L)
                s = c.seed_all(c.rng.randrange(10**6))
                if name == "mut_shrink" and L == 1:
                    continue
                with c.case(name, seed=s, individual=str(ind.main_node), space=dict(pset)):
                    try:
                        op(ind, pset)
                    except ValueError:
                        c.check(not (has_alternative_value if "terminal" in name else has_alternative_step)(ind, pset),
                                "refused only if not applicable", op=name)
                    ok(c, ind, pset, name)
            for ml in (None, 1, L, L + 1):
                ind = gen_individual(c.rng, pset, L)
                if ml == L == 1 and not has_alternative_step(ind, pset) and not has_alternative_value(ind, pset):
                    continue
                s = c.seed_all(c.rng.randrange(10**6))
                with c.case("random_valid_mutation_in_place", seed=s, max_length=ml, individual=str(ind.main_node), space=dict(pset)):
                    rv(ind, pset, max_length=ml)
                    ok(c, ind, pset, "random mutation")
        c.check(guarded(pset) == before, "search space not modified")


def crossover(c):
    ct, cp = need(X, "crossover_terminals", "crossover_primitives")
    rc = need(X, "random_crossover")
    for t, pset in spaces(c, 150):
        for la, lb in ((1, 1), (1, 3), (2, 2), (4, 2), (3, 5)):
            for which in ("t", "p", "r"):
                a, b = gen_individual(c.rng, pset, la), gen_individual(c.rng, pset, lb)
                s = c.seed_all(c.rng.randrange(10**6))
                can_t, can_p = swappable(a, b), la > 1 and lb > 1
                if (which == "t" and not can_t) or (which == "p" and not can_p) or not (can_t or can_p):
                    continue
                with c.case("crossover " + which, seed=s, a=str(a.main_node), b=str(b.main_node), space=dict(pset)):
                    x, y = (ct if which == "t" else cp if which == "p" else rc)(a, b)
                    ok(c, x, pset, "crossover")
                    ok(c, y, pset, "crossover")


def evolve(c, pset, gens, size, ml=None):
    ops = opset(pset, ml)
    pop = [gen_individual(c.rng, pset, c.rng.randint(1, ml or 4)) for _ in range(size)]
    for g in range(gens):
        if not c.more():
            return
        new = []
        for i in range(size):
            a, b = c.rng.choice(pop), c.rng.choice(pop)
            can = swappable(a, b) or (len(nodes(a)) > 1 and len(nodes(b)) > 1)
            if ml == 1 and not (can or has_alternative_step(a, pset) or has_alternative_value(a, pset)):
                continue
            if can and c.rng.random() < .5:
                new.append(("mate", (a, b), ops.mate(a, b)))
            elif ml == 1 and not (has_alternative_step(a, pset) or has_alternative_value(a, pset)):
                continue
            else:
                new.append(("mutate", (a,), ops.mutate(a)))
        yield pop, new
        pop = (pop + [n[2] for n in new])[-size:]


def evolution(c):
    for t, pset in spaces(c, 15):
        s = c.seed_all(t)
        with c.case("many generations of variation", seed=s, space=dict(pset)):
            for pop, new in evolve(c, pset, 12, 6):
                for how, parents, child in new:
                    ok(c, child, pset, "repeated variation")


def bundled(c):
    pset = real_space()
    ops = opset(pset)
    for t in c.trials(15):
        s = c.seed_all(t)
        with c.case("bundled search space", seed=s):
            inds = [ops.individual() for _ in range(4)]
            for i in inds:
                ok(c, i, pset, "generation")
            for pop, new in evolve(c, pset, 4, 4):
                for how, parents, child in new:
                    ok(c, child, pset, "repeated variation")

"""C03 run-time contracts: parents untouched, offspring independent."""
from common import need
from gphelp import *

M = "gama.genetic_programming.mutation"
X = "gama.genetic_programming.crossover"


def full(ind):
    return (snap(ind), ind.fitness, ind._id, str(ind.main_node), repr(sorted(ind.meta.items(), key=str)), ind._to_pipeline)


def ids(ind):
    out = set()
    for n in nodes(ind):
        out.add(id(n))
        out.add(id(n._terminals))
    return out


def run(c):
    c.section("copy", copy)
    c.section("offspring", offspring)
    c.section("population", population)
    c.section("retries", retries)


def copy(c):
    for t, pset in spaces(c, 60):
        for L in (1, 2, 4):
            f = object()
            ind = gen_individual(c.rng, pset, L, to_pipeline=f)
            ind.fitness = ("fit", t)
            ind.meta["origin"] = "x"
            with c.case("copy_as_new", individual=str(ind.main_node), space=dict(pset)):
                before = full(ind)
                new = ind.copy_as_new()
                c.check(snap(new) == snap(ind), "copy has the same steps and values", got=snap(new))
                c.check(new.fitness is None, "copy has no fitness")
                c.check(new._id != ind._id and new != ind, "copy has a new identity")
                c.check(new._to_pipeline is f, "copy is compiled the same way")
                c.check(not (ids(new) & ids(ind)), "copy shares no mutable part")
                c.check(new.meta is not ind.meta, "copy has its own record")
                # modify every part of the copy
                for n in nodes(new):
                    for j in range(len(n._terminals)):
                        n._terminals[j] = None
                new.main_node._data_node = "data"
                new.meta["x"] = 1
                c.check(full(ind) == before, "changing the copy leaves the original", got=full(ind), was=before)


class Fit:
    def __init__(self, v):
        self.values = v

    def __eq__(self, o):
        return isinstance(o, Fit) and o.values == self.values

    def __repr__(self):
        return f"Fit{self.values}"


def check_child(c, how, parents, child, before):
    for p, b in zip(parents, before):
        c.check(full(p) == b, f"parent unchanged by {how}", got=full(p), was=b)
        c.check(not (ids(child) & ids(p)), f"offspring of {how} shares no mutable part with a parent")
        c.check(child._id != p._id and child is not p, f"offspring of {how} has a new identity")
    c.check(child.fitness is None, f"offspring of {how} has no fitness", got=child.fitness)
    c.check(list(child.meta.get("parents", [])) == [p._id for p in parents], f"offspring of {how} records exactly its parents",
            got=child.meta.get("parents"), parents=[p._id for p in parents])


def offspring(c):
    for t, pset in spaces(c, 60):
        for la, lb in ((1, 1), (2, 2), (3, 2), (2, 5)):
            ops = opset(pset)
            a, b = gen_individual(c.rng, pset, la), gen_individual(c.rng, pset, lb)
            a.fitness, b.fitness = Fit((1, 2)), Fit((2, 1))
            a.meta["origin"] = b.meta["origin"] = "new"
            for rep in range(3):
                s = c.seed_all(c.rng.randrange(10**6))
                with c.case("mutate", seed=s, parent=str(a.main_node), space=dict(pset)):
                    before = [full(a)]
                    child = ops.mutate(a)
                    check_child(c, "mutation", [a], child, before)
                    grand = ops.mutate(child)
                    check_child(c, "mutation", [child], grand, [full(child)])
                    c.check(full(a) == before[0], "parent unchanged when its offspring is varied", got=full(a), was=before[0])
                if swappable(a, b) or (la > 1 and lb > 1):
                    with c.case("mate", seed=s, a=str(a.main_node), b=str(b.main_node), space=dict(pset)):
                        before = [full(a), full(b)]
                        child = ops.mate(a, b)
                        check_child(c, "crossover", [a, b], child, before)
                        mut = need(M, "random_valid_mutation_in_place")
                        for _ in range(3):
                            mut(child, pset)
                        c.check([full(a), full(b)] == before, "parents unchanged when their offspring is varied in place")
                    if swappable(a, a) or la > 1:
                        with c.case("mate with itself", seed=s, a=str(a.main_node), space=dict(pset)):
                            before = [full(a), full(a)]
                            child = ops.mate(a, a)
                            check_child(c, "crossover", [a, a], child, before)


def population(c):
    """create_from_population leaves the whole population unchanged."""
    for t, pset in spaces(c, 25):
        ops = opset(pset)
        pop = [gen_individual(c.rng, pset, c.rng.randint(1, 4)) for _ in range(6)]
        for i, p in enumerate(pop):
            p.fitness = Fit((c.rng.random(), -len(nodes(p))))
        s = c.seed_all(t)
        with c.case("create_from_population", seed=s, population=[str(p.main_node) for p in pop], space=dict(pset)):
            before = [full(p) for p in pop]
            known = {p._id for p in pop}
            for r in range(3):
                kids = ops.create(pop, 4)
                c.check(len(kids) == 4, "as many offspring as requested", got=len(kids))
                c.check([full(p) for p in pop] == before, "population unchanged", got=[full(p) for p in pop], was=before)
                for k in kids:
                    c.check(set(k.meta.get("parents", [])) <= {p._id for p in pop}, "parents are from the population")
                    c.check(k._id not in known, "offspring has a new identity")
                    known.add(k._id)
                    c.check(k.fitness is None, "offspring has no fitness")
                    for p in pop:
                        c.check(not (ids(k) & ids(p)), "offspring shares no mutable part with the population")


def retries(c):
    """Also when many attempts are needed (all results already evaluated)."""
    class Everything(dict):
        def __contains__(self, k):
            return True
    for t, pset in spaces(c, 25):
        ops = opset(pset, completed=Everything(), max_retry=6)
        a, b = gen_individual(c.rng, pset, 3), gen_individual(c.rng, pset, 2)
        s = c.seed_all(t)
        with c.case("no new individual found", seed=s, a=str(a.main_node), b=str(b.main_node), space=dict(pset)):
            before = [full(a), full(b)]
            check_child(c, "mutation", [a], ops.mutate(a), before[:1])
            check_child(c, "crossover", [a, b], ops.mate(a, b), before)

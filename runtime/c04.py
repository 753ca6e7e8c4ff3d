"""C04 run-time contracts: each operator makes exactly its change."""
from common import need
from gphelp import *

M = "gama.genetic_programming.mutation"
X = "gama.genetic_programming.crossover"


def run(c):
    c.section("replace value", replace_terminal)
    c.section("replace step", replace_primitive)
    c.section("insert", insert)
    c.section("shrink", shrink)
    c.section("crossover values", cross_terminals)
    c.section("crossover steps", cross_primitives)
    c.section("applicability", applicability)
    c.section("attempts", attempts)


def vals(step):
    return {i: (ty, v) for i, ty, v in step[1]}


def replace_terminal(c):
    op = need(M, "mut_replace_terminal")
    changed = {}
    for t, pset in spaces(c, 150):
        for L in (1, 2, 4):
            ind = gen_individual(c.rng, pset, L)
            s = c.seed_all(c.rng.randrange(10**6))
            with c.case("mut_replace_terminal", seed=s, individual=str(ind.main_node), space=dict(pset)):
                old = snap(ind)
                can = has_alternative_value(ind, pset)
                if not can:
                    c.raises(ValueError, lambda: op(ind, pset), "nothing to replace is refused")
                    c.check(snap(ind) == old, "a refused mutation changes nothing")
                    continue
                op(ind, pset)
                new = snap(ind)
                c.check(len(new) == len(old) and [s[0] for s in new] == [s[0] for s in old], "steps stay the same", old=old, new=new)
                diff = [(k, i) for k in range(min(len(old), len(new))) for i in vals(old[k]) if vals(old[k])[i] != vals(new[k]).get(i)]
                c.check(len(diff) == 1, "exactly one value changes", diff=diff, old=old, new=new)
                c.check(not problems(ind, pset), "the new value is allowed", problems=problems(ind, pset))
                changed.setdefault(id(pset), 0)


def replace_primitive(c):
    op = need(M, "mut_replace_primitive")
    for t, pset in spaces(c, 120):
        for L in (1, 2, 3, 5):
            ind = gen_individual(c.rng, pset, L)
            s = c.seed_all(c.rng.randrange(10**6))
            with c.case("mut_replace_primitive", seed=s, individual=str(ind.main_node), space=dict(pset)):
                old = snap(ind)
                if not has_alternative_step(ind, pset):
                    c.raises(ValueError, lambda: op(ind, pset), "nothing to replace is refused")
                    c.check(snap(ind) == old, "a refused mutation changes nothing")
                    continue
                op(ind, pset)
                new = snap(ind)
                c.check(len(new) == len(old), "length stays the same", old=old, new=new)
                diff = [k for k in range(min(len(old), len(new))) if old[k][0] != new[k][0]]
                c.check(len(diff) == 1, "exactly one step changes its component", old=old, new=new)
                c.check(all(old[k] == new[k] for k in range(min(len(old), len(new))) if k not in diff), "other steps stay the same", old=old, new=new)
                c.check(all(old[k][0].output == new[k][0].output for k in diff), "same kind of component", old=old, new=new)


def insert(c):
    op = need(M, "mut_insert")
    for t, pset in spaces(c, 120):
        for L in (1, 2, 3, 5):
            ind = gen_individual(c.rng, pset, L)
            s = c.seed_all(c.rng.randrange(10**6))
            with c.case("mut_insert", seed=s, individual=str(ind.main_node), space=dict(pset)):
                old = snap(ind)
                op(ind, pset)
                new = snap(ind)
                c.check(len(new) == L + 1, "exactly one step is added", old=old, new=new)
                c.check(any(new[:k] + new[k + 1:] == old for k in range(1, len(new))), "all other steps stay the same", old=old, new=new)
                c.check(new[0] == old[0], "the estimator is kept", old=old, new=new)


def shrink(c):
    op = need(M, "mut_shrink")
    for t, pset in spaces(c, 60):
        for L in (1, 2, 3, 5):
            for by in (None, 1, 2, 4):
                if by is None and L == 1:
                    continue
                ind = gen_individual(c.rng, pset, L)
                s = c.seed_all(c.rng.randrange(10**6))
                with c.case("mut_shrink", seed=s, shrink_by=by, individual=str(ind.main_node), space=dict(pset)):
                    old = snap(ind)
                    if by is not None and by >= L:
                        c.raises(ValueError, lambda: op(ind, pset, shrink_by=by), "removing all steps is refused")
                        c.check(snap(ind) == old, "a refused mutation changes nothing")
                        continue
                    if by is None:
                        op(ind, pset)
                    else:
                        op(ind, pset, shrink_by=by)
                    new = snap(ind)
                    c.check(1 <= len(new) < L, "at least one step removed, the estimator kept", old=old, new=new)
                    if by is not None:
                        c.check(len(new) == L - by, "exactly the given number of steps is removed", old=old, new=new)
                    c.check(new == old[:len(new)], "removed from the preprocessing end", old=old, new=new)


def multi(snaps):
    return sorted(((str(s[0]),) + v) for s in snaps for v in s[1])


def cross_terminals(c):
    op = need(X, "crossover_terminals")
    for t, pset in spaces(c, 200):
        for la, lb in ((1, 1), (2, 3), (4, 2)):
            a, b = gen_individual(c.rng, pset, la), gen_individual(c.rng, pset, lb)
            if not swappable(a, b):
                continue
            s = c.seed_all(c.rng.randrange(10**6))
            with c.case("crossover_terminals", seed=s, a=str(a.main_node), b=str(b.main_node), space=dict(pset)):
                oa, ob = snap(a), snap(b)
                x, y = op(a, b)
                c.check(x is a and y is b, "returns the two individuals")
                na, nb = snap(a), snap(b)
                c.check([s[0] for s in na] == [s[0] for s in oa] and [s[0] for s in nb] == [s[0] for s in ob], "steps stay the same")
                da = [(k, i) for k in range(len(oa)) for i in vals(oa[k]) if vals(oa[k])[i] != vals(na[k]).get(i)]
                db = [(k, i) for k in range(len(ob)) for i in vals(ob[k]) if vals(ob[k])[i] != vals(nb[k]).get(i)]
                if c.check(len(da) == 1 and len(db) == 1, "one value changes in each", da=da, db=db, oa=oa, na=na, ob=ob, nb=nb):
                    (k, i), (m, j) = da[0], db[0]
                    c.check(i == j, "of the same hyperparameter", da=da, db=db)
                    c.check(vals(na[k])[i] == vals(ob[m])[j] and vals(nb[m])[j] == vals(oa[k])[i], "the values are swapped", oa=oa, na=na, ob=ob, nb=nb)


def cross_primitives(c):
    op = need(X, "crossover_primitives")
    for t, pset in spaces(c, 120):
        for la, lb in ((2, 2), (2, 4), (3, 3), (5, 2)):
            a, b = gen_individual(c.rng, pset, la), gen_individual(c.rng, pset, lb)
            s = c.seed_all(c.rng.randrange(10**6))
            with c.case("crossover_primitives", seed=s, a=str(a.main_node), b=str(b.main_node), space=dict(pset)):
                oa, ob = snap(a), snap(b)
                op(a, b)
                na, nb = snap(a), snap(b)
                c.check(any(na == oa[:i] + ob[j:] and nb == ob[:j] + oa[i:] for i in range(1, la) for j in range(1, lb)),
                        "the preceding parts are swapped", oa=oa, ob=ob, na=na, nb=nb)


def applicability(c):
    rc = need(X, "random_crossover")
    rv = need(M, "random_valid_mutation_in_place")
    for t, pset in spaces(c, 100):
        for la, lb in ((1, 1), (1, 2), (2, 2)):
            a, b = gen_individual(c.rng, pset, la), gen_individual(c.rng, pset, lb)
            s = c.seed_all(c.rng.randrange(10**6))
            with c.case("random_crossover", seed=s, a=str(a.main_node), b=str(b.main_node), space=dict(pset)):
                if swappable(a, b) or (la > 1 and lb > 1):
                    old = (snap(a), snap(b))
                    x, y = rc(a, b)
                    c.check({id(x), id(y)} == {id(a), id(b)}, "returns both individuals")
                    # exchanging two equal front parts can leave both as they were
                    c.check((snap(a), snap(b)) != old or (la > 1 and lb > 1), "something is exchanged")
                else:
                    c.raises(ValueError, lambda: rc(a, b), "individuals with nothing to exchange are refused")
        for L, ml in ((1, 1), (1, 2), (3, 2), (4, 1), (2, 2), (3, None)):
            ind = gen_individual(c.rng, pset, L)
            if ml == L == 1 and not has_alternative_step(ind, pset) and not has_alternative_value(ind, pset):
                continue
            s = c.seed_all(c.rng.randrange(10**6))
            with c.case("random mutation is applicable", seed=s, individual=str(ind.main_node), max_length=ml, space=dict(pset)):
                old = snap(ind)
                rv(ind, pset, max_length=ml)
                c.check(snap(ind) != old, "a mutation changes the pipeline", old=old)


class Known(dict):
    """Says of the first n pipelines asked for that they were evaluated before."""

    def __init__(self, n):
        self.left = n

    def __contains__(self, k):
        self.left -= 1
        return self.left >= 0


def attempts(c):
    """An offspring differs from its parent by one change, however many attempts it took."""
    from functools import partial
    OS = need("gama.genetic_programming.operator_set", "OperatorSet")
    rc = need(X, "random_crossover")
    rv = need(M, "random_valid_mutation_in_place")
    for t, pset in spaces(c, 60):
        for L in (1, 2, 3):
            for n in (0, 1, 3, 1000):
                ind = gen_individual(c.rng, pset, L)
                other = gen_individual(c.rng, pset, L)
                if L == 1 and not has_alternative_step(ind, pset) and not has_alternative_value(ind, pset):
                    continue
                s = c.seed_all(c.rng.randrange(10**6))
                ops = OS(mutate=partial(rv, primitive_set=pset), mate=rc, create_from_population=None, create_new=None,
                         compile_=None, eliminate=None, evaluate_callback=None, max_retry=6, completed_evaluations=Known(n))
                with c.case("OperatorSet.mutate", seed=s, individual=str(ind.main_node), known=n, space=dict(pset)):
                    old = snap(ind)
                    child = ops.mutate(ind)
                    new = snap(child)
                    c.check(one_change(old, new), "exactly one change, also after several attempts", old=old, new=new, announced=child.meta.get("origin"))
                if not (swappable(ind, other) or L > 1):
                    continue
                ops._completed_evaluations = Known(n)
                with c.case("OperatorSet.mate", seed=s, a=str(ind.main_node), b=str(other.main_node), known=n, space=dict(pset)):
                    oa, ob = snap(ind), snap(other)
                    new = snap(ops.mate(ind, other))
                    ok = any(new == x[:i] + y[j:] for x, y in ((oa, ob), (ob, oa)) for i in range(1, L) for j in range(1, L))
                    for x, y in ((oa, ob), (ob, oa)):
                        if [s[0] for s in new] == [s[0] for s in x]:
                            d = [(k, i) for k in range(L) for i in vals(x[k]) if vals(x[k])[i] != vals(new[k]).get(i)]
                            ok = ok or (len(d) == 1 and any(vals(z).get(d[0][1]) == vals(new[d[0][0]])[d[0][1]] for z in y))
                    c.check(ok, "exactly one exchange, also after several attempts", a=oa, b=ob, new=new)


def one_change(old, new):
    if len(new) < len(old):
        return new == old[:len(new)] and len(new) > 0
    if len(new) == len(old) + 1:
        return any(new[:k] + new[k + 1:] == old for k in range(1, len(new)))
    if len(new) != len(old):
        return False
    d = [k for k in range(len(old)) if old[k] != new[k]]
    if len(d) != 1:
        return False
    k = d[0]
    return old[k][0] != new[k][0] or len([i for i in vals(old[k]) if vals(old[k])[i] != vals(new[k]).get(i)]) == 1

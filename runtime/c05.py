"""C05 run-time contracts: Pareto front."""
import itertools
from common import need


def weakly(a, b):
    return all(x <= y for x, y in zip(a, b))


class Item:
    def __init__(self, values, name):
        self.values, self.name = values, name

    def __repr__(self):
        return f"{self.name}{self.values}"


def expected(items, val):
    front = []
    for x in items:
        if any(weakly(val(x), val(y)) for y in front):
            continue
        front = [y for y in front if not weakly(val(y), val(x))] + [x]
    return front


def one(c, PF, items, val, fn, start):
    with c.case("sequence of updates", items=items, start_list=start):
        n0 = start
        pf = PF(list(items[:n0]) if n0 else None, fn) if fn else PF(list(items[:n0]) if n0 else None)
        seen = list(items[:n0])
        same(c, pf, expected(seen, val), seen)
        for x in items[n0:]:
            before = expected(seen, val)
            r = pf.update(x)
            seen.append(x)
            after = expected(seen, val)
            entered = any(y is x for y in after)
            c.check(bool(r) == entered, "update returns whether the item entered the front", item=x, returned=r, front=list(pf))
            same(c, pf, after, seen)
        pf.clear()
        c.check(len(pf) == 0, "clear empties the front")
        pf.update(items[0])
        c.check(len(pf) == 1 and pf[0] is items[0], "a cleared front is usable")


def same(c, pf, exp, seen):
    got = list(pf)
    c.check(len(pf) == len(exp), "size of the front", got=got, expected=exp, seen=seen)
    ids = sorted(map(id, got))
    c.check(ids == sorted(map(id, exp)), "front holds exactly the non-dominated items", got=got, expected=exp, seen=seen)
    c.check([id(pf[i]) for i in range(len(pf))] == [id(g) for g in got], "indexing and iteration agree")


def run(c):
    c.section("exhaustive", exhaustive)
    c.section("random", rand)
    c.section("arity", arity)


def exhaustive(c):
    PF = need("gama.utilities.generic.paretofront", "ParetoFront")
    grid = [(a, b) for a in range(3) for b in range(3)]
    for k in (1, 2, 3):
        for combo in itertools.product(grid, repeat=k):
            if not c.more():
                return
            items = [Item(v, "i%d" % i) for i, v in enumerate(combo)]
            one(c, PF, items, lambda i: i.values, lambda i: i.values, 0)
            # plain tuples: distinct objects per position
            tups = [tuple(list(v)) for v in combo]
            if len(set(tups)) == len(tups):
                one(c, PF, tups, lambda i: i, None, k)


def rand(c):
    PF = need("gama.utilities.generic.paretofront", "ParetoFront")
    for t in c.trials(400):
        m = c.rng.choice([1, 2, 2, 3, 4, 12])
        n = c.rng.randint(1, 25)
        top = c.rng.choice([1, 2, 4, 100])
        vals = [tuple(c.rng.choice([c.rng.randint(0, top), float("-inf"), c.rng.random()]) if c.rng.random() < .1 else c.rng.randint(0, top) for _ in range(m)) for _ in range(n)]
        items = [Item(v, "i%d" % i) for i, v in enumerate(vals)]
        one(c, PF, items, lambda i: i.values, lambda i: i.values, c.rng.choice([0, 0, n, n // 2]))


def arity(c):
    PF = need("gama.utilities.generic.paretofront", "ParetoFront")
    with c.case("different number of objectives"):
        pf = PF([(1, 2), (2, 1)])
        c.raises(ValueError, lambda: pf.update((1, 2, 3)), "a different number of objectives is refused")
        c.check(sorted(pf) == [(1, 2), (2, 1)], "a refused item leaves the front unchanged", front=list(pf))

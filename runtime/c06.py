"""C06 run-time contracts: NSGA-II. 'Dominates' = strictly better on every objective."""
import itertools
import math
from common import need

N2 = "gama.genetic_programming.nsga2"


class P:
    def __init__(self, v, name):
        self.v, self.name = v, name

    def __repr__(self):
        return f"{self.name}{self.v}"


def dom(a, b):
    return all(x > y for x, y in zip(a, b))


def layers(vals):
    left, rank, k = set(range(len(vals))), {}, 0
    while left:
        k += 1
        now = [i for i in left if not any(dom(vals[j], vals[i]) for j in left)]
        for i in now:
            rank[i] = k
        left -= set(now)
    return rank, k


def metrics(m):
    return [lambda x, j=j: x.v[j] for j in range(m)]


def objs(vals):
    return [P(v, "p%d" % i) for i, v in enumerate(vals)]


def sort_case(c, vals):
    Meta, fnds = need(N2, "NSGAMeta", "fast_non_dominated_sort")
    m = len(vals[0])
    with c.case("fast_non_dominated_sort", values=vals):
        ps = objs(vals)
        ms = [Meta(p, metrics(m)) for p in ps]
        rank, k = layers(vals)
        fr = [f for f in fnds(ms) if len(f)]
        c.check(len(fr) == k, "number of fronts", fronts=len(fr), expected=k)
        flat = [x for f in fr for x in f]
        c.check(sorted(map(id, flat)) == sorted(map(id, ms)), "every individual is in exactly one front")
        for q, f in enumerate(fr):
            c.check(all(rank[ms.index(x)] == q + 1 for x in f), "front k holds those not dominated outside the first k-1 fronts", front=q + 1)
            c.check(all(x.rank == q + 1 for x in f), "rank of the k-th front is k", ranks=[x.rank for x in f], front=q + 1)
        c.check(all(x.obj is p for x, p in zip(ms, ps)), "individuals stay wrapped as they were")


def crowding_expected(vals, front):
    """None where ties make it ambiguous."""
    m = len(vals[0])
    d = {i: 0.0 for i in front}
    for j in range(m):
        vs = sorted(front, key=lambda i: vals[i][j])
        if len({vals[i][j] for i in vs}) < len(vs):
            return None
        lo, hi = vals[vs[0]][j], vals[vs[-1]][j]
        d[vs[0]] = d[vs[-1]] = float("inf")
        if math.isinf(lo) or math.isinf(hi) or lo == hi:
            continue
        for a, b, e in zip(vs, vs[1:], vs[2:]):
            d[b] += (vals[e][j] - vals[a][j]) / (hi - lo)
    return d


def select_case(c, vals, n):
    nsga2 = need(N2, "nsga2")
    m = len(vals[0])
    with c.case("nsga2", values=vals, n=n):
        ps = objs(vals)
        rank, k = layers(vals)
        at = {id(p): i for i, p in enumerate(ps)}
        sel = nsga2(ps, n, metrics(m))
        c.check(len(sel) == n, "n individuals are selected", got=sel)
        ids = [at.get(id(x)) for x in sel]
        c.check(None not in ids and len(set(ids)) == n, "different members of the population", got=sel)
        rest = [i for i in range(len(ps)) if i not in ids]
        if rest and ids:
            c.check(min(rank[i] for i in rest) >= max(rank[i] for i in ids), "no unselected individual has a better rank", got=sel, ranks=rank)
        meta = nsga2(ps, n, metrics(m), return_meta=True)
        c.check([id(x.obj) for x in meta] == [id(x) for x in sel], "wrapped and unwrapped selections agree", meta=[x.obj for x in meta], sel=sel)
        c.check(all(x.rank == rank[at[id(x.obj)]] for x in meta), "rank of selected", ranks=[x.rank for x in meta])
        everyone = {at[id(x.obj)]: x for x in nsga2(ps, len(ps), metrics(m), return_meta=True)}
        last = max(rank[i] for i in ids)
        lastf = [i for i in everyone if rank[i] == last]
        chosen = [i for i in ids if rank[i] == last]
        out = [i for i in lastf if i not in chosen]
        if out and chosen:
            c.check(min(everyone[i].distance for i in chosen) >= max(everyone[i].distance for i in out),
                    "ties in the last front go to the least crowded", got=sel, distances={i: everyone[i].distance for i in lastf})
        for r in range(1, k + 1):
            f = [i for i in everyone if rank[i] == r]
            e = crowding_expected(vals, f)
            if e is not None:
                c.check(all(math.isclose(e[i], everyone[i].distance, rel_tol=1e-9) or e[i] == everyone[i].distance for i in f),
                        "crowding distance", expected=e, got={i: everyone[i].distance for i in f})
            for j in range(m):
                lo, hi = min(vals[i][j] for i in f), max(vals[i][j] for i in f)
                c.check(any(everyone[i].distance == float("inf") for i in f if vals[i][j] == lo)
                        and any(everyone[i].distance == float("inf") for i in f if vals[i][j] == hi),
                        "boundary individuals are the least crowded", front=f, objective=j)


def pairs_case(c, vals, n):
    sel = need(N2, "nsga2_select")
    nsga2 = need(N2, "nsga2")
    m = len(vals[0])
    with c.case("nsga2_select", values=vals, n=n):
        ps = objs(vals)
        if len(ps) < 3:
            c.raises(ValueError, lambda: sel(ps, n, metrics(m)), "fewer than three individuals are refused")
            return
        pairs = sel(ps, n, metrics(m))
        c.check(len(pairs) == n, "requested number of pairs", got=len(pairs))
        meta = {id(x.obj): x for x in nsga2(ps, len(ps), metrics(m), return_meta=True)}
        key = {k: (x.rank, -x.distance) for k, x in meta.items()}
        for a, b in pairs:
            c.check(a is not b, "two different parents", pair=(a, b))
            c.check(id(a) in meta and id(b) in meta, "parents are members of the population", pair=(a, b))
            # each beats (or ties with) somebody else it met in the tournament
            c.check(any(key[id(a)] <= key[x] for x in key if x != id(a)), "the first parent won a tournament", pair=(a, b), keys={repr(p): key[id(p)] for p in ps})
            c.check(any(key[id(b)] <= key[x] for x in key if x not in (id(a), id(b))), "the second parent won a tournament without the first", pair=(a, b), keys={repr(p): key[id(p)] for p in ps})


def exhaustive(c):
    g = [(a, b) for a in range(3) for b in range(2)]
    for k in (1, 2, 3):
        for v in itertools.product(g, repeat=k):
            if not c.more():
                return
            sort_case(c, list(v))
            for n in range(1, k + 1):
                select_case(c, list(v), n)
            if k == 3:
                c.seed_all(len(c.clauses))
                pairs_case(c, list(v), 2)
    nsga2 = need(N2, "nsga2")
    ps = objs([(1, 2), (2, 1)])
    with c.case("nsga2 refuses", values="2 individuals"):
        c.raises(ValueError, lambda: nsga2(ps, 0, metrics(2)), "no selection of 0")
        c.raises(ValueError, lambda: nsga2(ps, 3, metrics(2)), "no selection of more than there are")
    pairs_case(c, [(1, 2), (2, 1)], 1)


def rand(c):
    for t in c.trials(500):
        m = c.rng.choice([1, 2, 2, 2, 3])
        n = c.rng.randint(1, 14)
        kind = c.rng.choice(["int", "real", "inf"])
        def one():
            if kind == "int":
                return c.rng.randint(0, c.rng.choice([2, 6]))
            if kind == "inf" and c.rng.random() < .2:
                return c.rng.choice([float("-inf"), float("-inf"), float("inf")])
            return round(c.rng.random(), 4)
        vals = [tuple(one() for _ in range(m)) for _ in range(n)]
        sort_case(c, vals)
        select_case(c, vals, c.rng.randint(1, n))
        c.seed_all(t)
        pairs_case(c, vals, c.rng.randint(0, 6))


def deep(c):
    """Long chains of fronts."""
    for n in (10, 40, 120):
        if c.more():
            sort_case(c, [(i, i) for i in c.rng.sample(range(n), n)])


def run(c):
    c.section("exhaustive", exhaustive)
    c.section("random", rand)
    c.section("deep", deep)

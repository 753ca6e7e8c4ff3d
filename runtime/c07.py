"""C07 run-time contracts: the evaluation library knows the best evaluations."""
import itertools
import os
from common import need

LIB = "gama.utilities.evaluation_library"


class Node:
    def __init__(self, s):
        self.s = s

    def __str__(self):
        return self.s


class Ind:
    n = 0

    def __init__(self, text=None):
        Ind.n += 1
        self._id = "ind%d" % Ind.n
        self.main_node = Node(text or self._id)


def play(c, m, specs, texts=None):
    Ev, Lib = need(LIB, "Evaluation", "EvaluationLibrary")
    with c.case("sequence of saves", m=m, evaluations=specs):
        lib = Lib(m=m, n=None, cache=os.path.join(os.getcwd(), "cache"))
        try:
            saved, last = [], {}
            for k, (score, err) in enumerate(specs):
                ind = Ind(texts[k] if texts else None)
                e = Ev(ind, None, score, ["est%d" % k], None, 0, err)
                lib.save_evaluation(e)
                saved.append(e)
                last[str(ind.main_node)] = e
                check(c, lib, saved, last, m)
        finally:
            lib.clear_cache()


def check(c, lib, saved, last, m):
    evs = list(lib.evaluations)
    c.check(sorted(map(id, evs)) == sorted(map(id, saved)), "every saved evaluation is remembered, once", got=len(evs), saved=len(saved))
    ok = [e for e in saved if e.error is None]
    want = sorted((e.score for e in ok), reverse=True)
    want = want if m is None else want[:m]
    top = list(lib.top_evaluations)
    c.check(all(e.error is None for e in top), "a failed evaluation is never among the best")
    c.check(sorted((e.score for e in top), reverse=True) == want, "the m best successful evaluations are kept", got=[e.score for e in top], expected=want)
    for n in (0, 1, 2, 3, len(saved) + 1):
        got = lib.n_best(n)
        c.check([e.score for e in got] == want[:n], "n best from best to worst", n=n, got=[e.score for e in got], expected=want[:n])
        c.check(len(set(map(id, got))) == len(got) and all(any(e is x for x in top) for e in got), "n best are different kept evaluations", n=n)
        c.check(all(e.error is None for e in got), "n best are successful", n=n)
        plain = lib.n_best(n, with_pipelines=False)
        allw = sorted((e.score for e in saved), reverse=True)
        exp = want[:n] if (m is None or n <= m) else allw[:n]
        c.check([e.score for e in plain] == exp, "n best without pipelines", n=n, got=[e.score for e in plain], expected=exp)
    c.check(set(lib.lookup) == set(last) and all(lib.lookup[k] is last[k] for k in last), "lookup finds the latest evaluation of a pipeline", keys=list(lib.lookup))


def compare(c):
    Ev = need(LIB, "Evaluation")
    vals = [(0.0, -1), (0.0, -2), (1.0, -2), (1.0, -1), (float("-inf"), -1)]
    for a, b in itertools.product(vals, repeat=2):
        with c.case("comparison of evaluations", a=a, b=b):
            x, y = Ev(Ind(), None, a), Ev(Ind(), None, b)
            for nm, got, exp in (("<", x < y, a < b), ("<=", x <= y, a <= b), (">", x > y, a > b), (">=", x >= y, a >= b),
                                 ("==", x == y, a == b), ("!=", x != y, a != b)):
                c.check(got == exp, "evaluations compare by score, then length", op=nm, got=got)


BAD = float("-inf")


def exhaustive(c):
    opts = [((0.0, -1), None), ((1.0, -1), None), ((1.0, -2), None), ((BAD, -1), "failed")]
    for m in (0, 1, 2, None):
        for k in (1, 2, 3, 4):
            for s in itertools.product(opts, repeat=k):
                if not c.more():
                    return
                if k == 4 and c.rng.random() > .25 * c.factor:
                    continue
                play(c, m, list(s))


def rand(c):
    for t in c.trials(60):
        m = c.rng.choice([None, 0, 1, 2, 3, 5, 9])
        n = c.rng.randint(1, 25)
        top = c.rng.choice([2, 5, 1000])
        specs, texts = [], []
        for k in range(n):
            err = "boom" if c.rng.random() < .2 else None
            specs.append(((BAD if err else c.rng.randint(0, top) / top, -c.rng.randint(1, 3)), err))
            texts.append("p%d" % c.rng.randint(0, 2 * n))
        play(c, m, specs, texts)


def run(c):
    c.section("comparison", compare)
    c.section("exhaustive", exhaustive)
    c.section("random", rand)

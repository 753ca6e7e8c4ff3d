"""C23 run-time contracts: the evaluation log has one complete, parseable row per evaluation."""
import csv
import datetime
import gamahelp as g
import itertools
import os
from common import need
import simev

BITS = ['"', "\n", "\r", "\r\n", ";", ",", "\t", "|", " ", "'", "a", "B", "1", "é", "\\", '""', "x;y", "", "{", "%"]
SEPS = [";", ",", "\t", "|", " ", ":", "é"]
DEFAULT = ("id", "pid", "t_start", "t_wallclock", "t_process", "score", "pipeline", "error")


def run(c):
    with c.scratch() as d:
        c.section("lines", lines, d)
        c.section("exhaustive", exhaustive, d)
        c.section("evaluations", evaluations, d)
        c.section("searches", searches, d)


def read(path, sep):
    with open(path, newline="") as f:
        return list(csv.reader(f, delimiter=sep))


def text(c):
    return "".join(c.rng.choice(BITS) for _ in range(c.rng.choice([0, 1, 1, 2, 3, 6])))


def lines(c, d):
    EL = need("gama.logging.evaluation_logger", "EvaluationLogger")
    for t in c.trials(400):
        sep = c.rng.choice(SEPS)
        k = c.rng.randint(2, 5)
        names = []
        while len(names) < k:
            x = text(c)
            if x not in names:
                names.append(x)
        rows = [[text(c) for _ in range(k)] for _ in range(c.rng.randint(0, 3))]
        path = os.path.join(d, f"lines{t}.log")
        old = c.rng.choice(["", "", "old;row\n"])
        with c.case("lines", separator=sep, columns=names, rows=rows, before=old):
            if old:
                open(path, "w").write(old)
            lg = EL(path, separator=sep, fields={n: (lambda e, i=i: e[i]) for i, n in enumerate(names)})
            for r in rows:
                lg.log_evaluation(r)
            with open(path, newline="") as f:
                raw = f.read()
            c.check(raw.startswith(old), "earlier content is kept", got=raw)
            got = read(path, sep)[len(old.splitlines()):]
            c.check(got == [names] + rows, "the rows read back are the header and the values", got=got)
        if os.path.exists(path):
            os.remove(path)


def exhaustive(c, d):
    """All pairs of values of up to two special characters."""
    EL = need("gama.logging.evaluation_logger", "EvaluationLogger")
    alpha = ['"', "\n", "\r", ";", "a"]
    vals = ["".join(p) for n in range(3) for p in itertools.product(alpha, repeat=n)]
    path = os.path.join(d, "all.log")
    rows = [[a, b] for a in vals for b in vals]
    with c.case("all pairs of values", values=len(vals)):
        lg = EL(path, fields={"x": lambda e: e[0], "y": lambda e: e[1]})
        for r in rows:
            lg.log_evaluation(r)
        got = read(path, ";")
        bad = next(((a, b) for a, b in zip(got, [["x", "y"]] + rows) if a != b), None)
        c.check(bad is None and len(got) == len(rows) + 1, "the rows read back are the header and the values", first_difference=bad, rows=len(got), expected=len(rows) + 1)


def evaluation(c, gm, fits):
    Evaluation = need("gama.utilities.evaluation_library", "Evaluation")
    Fitness = need("gama.genetic_programming.components", "Fitness")
    ind = gm._operator_set.individual()
    start = datetime.datetime(2020, c.rng.randint(1, 12), c.rng.randint(1, 28), 3, 4, 5, c.rng.choice([0, 7, 123456]))
    ind.fitness = Fitness(tuple(c.rng.choice([1.5, -0.25, float("-inf"), 3]) for _ in range(c.rng.randint(1, 3))), start, c.rng.random() * 9, c.rng.random() * 7)
    err = c.rng.choice([None, "", text(c), ValueError('bad "value"; line\nbreak'), KeyError("a;b")])
    return Evaluation(ind, score=ind.fitness.values, start_time=start, duration=1, pid=c.rng.randint(1, 9), error=err)


def show(v):
    return v.strftime(need("gama.logging", "TIME_FORMAT")) if isinstance(v, datetime.datetime) else str(v)


def expected(e):
    ind = e.individual
    return {"id": ind._id, "pid": e.pid, "t_start": ind.fitness.start_time, "t_wallclock": ind.fitness.wallclock_time, "t_process": ind.fitness.process_time,
            "score": ind.fitness.values, "pipeline": ind.pipeline_str(), "error": e.error}


def compare(c, rows, evs, extra=None):
    head = rows[0]
    c.check(len(set(head)) == len(head) and all(n in head for n in DEFAULT), "the header names the columns", header=head)
    c.check(all(len(r) == len(head) for r in rows), "every row has the columns of the header", rows=rows)
    c.check(len(rows) == 1 + len(evs), "one row per evaluation", rows=len(rows) - 1, evaluations=len(evs))
    for r, (e, want) in zip(rows[1:], evs):
        got = dict(zip(head, r))
        for n, v in want.items():
            c.check(got.get(n) == show(v), f"column {n} holds what it names", got=got.get(n), expected=show(v))
        for n, v in (extra(e) if extra else {}).items():
            c.check(got.get(n) == show(v), "extra columns hold what they name", column=n, got=got.get(n), expected=show(v))


def evaluations(c, d):
    """Default and extra columns, for every search method's logger."""
    EL = need("gama.logging.evaluation_logger", "EvaluationLogger")
    EA, AH, RS = need("gama.search_methods.async_ea", "AsyncEA"), need("gama.search_methods.asha", "AsynchronousSuccessiveHalving"), need("gama.search_methods.random_search", "RandomSearch")
    for t in c.trials(40):
        which = t % 4
        path = os.path.join(d, f"ev{t}.log")
        sep = ";" if which else c.rng.choice(SEPS)
        with c.case("evaluations", method=("own", "AsyncEA", "ASHA", "RandomSearch")[which], separator=sep):
            gm = g.make("regression", store="nothing")
            try:
                if which == 0:
                    lg = EL(path, separator=sep, extra_fields={"length": lambda e: len(e.individual.primitives), "note;": lambda e: 'a"b\n'})
                else:
                    lg = (EA, AH, RS)[which - 1]().logger(path)
                evs = []
                for i in range(c.rng.randint(0, 4)):
                    e = evaluation(c, gm, None)
                    if which == 1 and c.rng.random() < 0.7:
                        e.individual.meta = dict(parents=["id1", "id2"][:c.rng.randint(1, 2)], origin=c.rng.choice(["cx", "mutation", 'x"']))
                    if which == 2:
                        e.individual.meta = dict(rung=c.rng.randint(0, 3), subsample=c.rng.randint(1, 900))
                    lg.log_evaluation(e)
                    evs.append((e, expected(e)))

                def extra(e):
                    m = e.individual.meta
                    if which == 0:
                        return {"length": len(e.individual.primitives), "note;": 'a"b\n'}
                    if which == 1:
                        p = list(m.get("parents", [])) + ["", ""]
                        return {"parent0": p[0], "parent1": p[1], "origin": m.get("origin", "unknown")}
                    if which == 2:
                        return {"rung": m["rung"], "subsample": m["subsample"]}
                    return {}
                compare(c, read(path, sep), evs, extra)
            finally:
                gm.cleanup("all")


def searches(c, d):
    """The log of whole searches, in the output directory."""
    import gama.search_methods.async_ea as ea
    import gama.search_methods.random_search as rs
    import gama.search_methods.asha as ah
    Evaluation = need("gama.utilities.evaluation_library", "Evaluation")
    Fitness = need("gama.genetic_programming.components", "Fitness")
    need("gama.search_methods.async_ea", "async_ea")
    need("gama.search_methods.random_search", "random_search")
    need("gama.search_methods.asha", "asha")
    for t in c.trials(15):
        mod = (ea, rs, ah)[t % 3]
        limit = c.rng.randint(1, 25)
        with c.case("search", method=mod.__name__, results=limit):
            sim = simev.Sim(c.rng, n_workers=c.rng.randint(1, 3), stop_after=limit, stop_exc=simev.Stop())
            old = mod.AsyncEvaluator
            mod.AsyncEvaluator = lambda *a, **k: sim
            evs = []
            try:
                gm = g.make("regression", store="logs", search=(ea.AsyncEA, rs.RandomSearch, ah.AsynchronousSuccessiveHalving)[t % 3]())
                gm.evaluation_completed(lambda e: evs.append((e, {n: show(v) for n, v in expected(e).items()})))
                ops = gm._operator_set

                def evaluate(ind, *a, **k):
                    if c.rng.random() < 0.2:
                        raise simev.Boom("worker failed")
                    ind.fitness = Fitness((c.rng.random(), -1.0), datetime.datetime(2021, 2, 3), 0.5, 0.25)
                    return Evaluation(ind, score=ind.fitness.values, start_time=0, duration=1, pid=1, error=c.rng.choice([None, ValueError('a;"b\n')]))
                ops.evaluate = evaluate
                start = [ops.individual() for _ in range(3)]
                try:
                    if mod is ah:
                        ah.asha(ops, start)
                    elif mod is ea:
                        ea.async_ea(ops, [], start)
                    else:
                        rs.random_search(ops, [], start)
                except simev.Stop:
                    pass
                done = [x.result for _, _, x in sim.delivered if x.result is not None]
                c.check([e for e, _ in evs] == done, "every completed evaluation is reported", got=len(evs), expected=len(done))
                compare(c, read(os.path.join(gm.output_directory, "evaluations.log"), ";"), evs)
            finally:
                mod.AsyncEvaluator = old
                gm.cleanup("all")

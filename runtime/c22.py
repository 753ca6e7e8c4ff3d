"""C22 run-time contracts: storage cleanup keeps exactly what was asked to be kept.

Removals are guarded: a path outside the scratch directory is recorded, not removed."""
import contextlib
import gamahelp as g
import os
import shutil
from common import need


def run(c):
    with c.scratch() as d:
        with guarded(d) as escaped:
            c.section("fit", fit, d, escaped)
            c.section("cleanup", cleanup, d, escaped)
            c.section("refusal", refusal, d, escaped)


@contextlib.contextmanager
def guarded(root):
    root = os.path.realpath(root)
    escaped = []
    old = {}

    def wrap(mod, name):
        f = getattr(mod, name)
        old[(mod, name)] = f

        def safe(p, *a, **k):
            if not isinstance(p, (str, bytes, os.PathLike)) or "dir_fd" in k or not (os.path.realpath(os.path.dirname(os.path.abspath(p))) + os.sep).startswith(root + os.sep):
                if "dir_fd" in k:      # inside shutil.rmtree, already checked
                    return f(p, *a, **k)
                escaped.append(str(p))
                return None
            return f(p, *a, **k)
        for x in getattr(f, "__dict__", ()):
            setattr(safe, x, getattr(f, x))
        setattr(mod, name, safe)
    for m, n in ((os, "remove"), (os, "unlink"), (os, "rmdir"), (shutil, "rmtree"), (os, "rename"), (os, "replace"), (shutil, "move")):
        wrap(m, n)
    try:
        yield escaped
    finally:
        for (m, n), f in old.items():
            setattr(m, n, f)


def tree(d):
    out = {}
    for base, dirs, files in os.walk(d):
        for x in dirs:
            out[os.path.relpath(os.path.join(base, x), d)] = None
        for x in files:
            p = os.path.join(base, x)
            out[os.path.relpath(p, d)] = open(p, "rb").read()
    return out


def surroundings(c, root, name):
    """A directory with neighbours of all kinds; the output directory is `name` in it."""
    top = os.path.join(root, name)
    os.mkdir(top)
    for n in ("a.log", "gama.log", "evaluations.log", "memory.log", "notes.txt"):
        open(os.path.join(top, n), "w").write("mine " + n)
    os.mkdir(os.path.join(top, "cache"))
    open(os.path.join(top, "cache", "x.pkl"), "w").write("mine")
    return top


def post_class():
    E = need("gama.postprocessing.ensemble", "EnsemblePostProcessing")

    class Post(E):
        def dynamic_defaults(self, gama):
            pass

        def post_process(self, x, y, timeout, selection):
            return "model"
    return Post


def is_log(n):
    return n.endswith(".log")


def fit(c, root, escaped):
    Search, Post = g.stand_ins()
    Ens = post_class()
    Evaluation = need("gama.utilities.evaluation_library", "Evaluation")
    Fitness = need("gama.genetic_programming.components", "Fitness")
    old = os.getcwd()
    for t in c.trials(24):
        store = ("all", "nothing", "logs", "models")[t % 4]
        ens = c.rng.random() < 0.8
        n = c.rng.choice([0, 1, 3])
        top = surroundings(c, root, "w%d" % t)
        before = tree(top)
        os.chdir(top)
        try:
            with c.case("fit", store=store, ensemble=ens, evaluations=n):
                state = {}

                def hook(ops, start):
                    for i in range(n):
                        ind = ops.individual()
                        ind.fitness = Fitness((float(i), -1), 0, 0, 0)
                        ops._evaluate_callback(Evaluation(ind, predictions=[1.0] * 30, score=(float(i), -1.0), estimators=["e"] * 5, start_time=0, duration=1, pid=1, error=None))
                    open(os.path.join(gm.output_directory, "memory.log"), "w").write("m")
                    state["during"] = tree(gm.output_directory)
                    return start[:1]
                rel = c.rng.choice(["out", os.path.join(top, "out")])
                make_dir = c.rng.random() < 0.5
                if make_dir:
                    os.mkdir("out")
                gm = g.make("regression", search=Search(lambda o, s: [setattr(x, "fitness", Fitness((0.0, -1), 0, 0, 0)) or x for x in hook(o, s)]), post=Ens() if ens else Post(), store=store, output_directory=rel, verbosity=50)
                x, y = g.data(c.rng, 30, "regression")
                gm.fit(x, y)
                during = state["during"]
                after = tree("out") if os.path.exists("out") else None
                logs = {k for k in during if is_log(k)}
                cache = {k for k in during if k == "cache" or k.startswith("cache" + os.sep)}
                c.check("evaluations.log" in logs and ("gama.log" in logs) == (store in ("logs", "all")), "logs are written while fitting", files=sorted(during))
                want = {"all": logs | cache, "logs": logs, "models": cache, "nothing": None}[store]
                c.check((after is None) == (want is None), "the directory is kept iff something is to be kept", files=after and sorted(after))
                if want is not None and after is not None:
                    c.check(set(after) == want, "exactly what was asked for is kept", kept=sorted(after), expected=sorted(want))
                    c.check(all(after[k] == during[k] for k in cache if k in after), "what is kept is not changed")
                c.check(gm.model is not None or not ens, "the model is there")
                rest = {k: v for k, v in tree(top).items() if k.split(os.sep)[0] != "out"}
                c.check(rest == before, "nothing else is touched", missing=sorted(set(before) - set(rest)), new=sorted(set(rest) - set(before)))
                c.check(not escaped, "nothing outside the output directory is removed", paths=list(escaped))
        finally:
            os.chdir(old)
            escaped.clear()


def cleanup(c, root, escaped):
    old = os.getcwd()
    for t in c.trials(24):
        which = (None, "logs", "evaluations", "all")[t % 4]
        top = surroundings(c, root, "c%d" % t)
        before = tree(top)
        os.chdir(top)
        try:
            extra = [n for n in ("x.log", "y.txt", ".log", "catalog", "log", "a.log.bak", "cachet", "z.pkl", "d.csv", "p.py", "n.json", "w.LOG", "m.arff") if c.rng.random() < 0.5 and not (which == "all" and not is_log(n))]
            with_cache = c.rng.random() < 0.6
            gone = c.rng.random() < 0.15
            with c.case("cleanup", which=which, files=extra, cache=with_cache, directory_gone=gone):
                gm = g.make("regression", store=c.rng.choice(["nothing", "logs"]), output_directory="out", verbosity=50)
                d = gm.output_directory
                for n in extra:
                    open(os.path.join(d, n), "w").write(n)
                if with_cache:
                    os.makedirs(os.path.join(d, "cache", "sub"), exist_ok=True)
                    open(os.path.join(d, "cache", "sub", "m.log"), "w").write("z")
                elif os.path.exists(os.path.join(d, "cache")):
                    shutil.rmtree(os.path.join(d, "cache"))
                if gone:
                    shutil.rmtree(d)
                have = tree(d) if not gone else None
                os.chdir(c.rng.choice([top, d]) if not gone and which != "all" else top)
                gm.cleanup() if which is None else gm.cleanup(which)
                os.chdir(top)
                after = tree(d) if os.path.exists(d) else None
                if gone or which == "all":
                    c.check(after is None, "with 'all' the directory is removed", left=after and sorted(after))
                else:
                    rm = [k for k in have if (which == "logs" and is_log(k) and os.sep not in k) or (which in (None, "evaluations") and k.split(os.sep)[0] == "cache")]
                    want = {k: v for k, v in have.items() if k not in rm}
                    c.check(after == want, "exactly what was asked for is removed", left=sorted(after or []), expected=sorted(want))
                rest = {k: v for k, v in tree(top).items() if k.split(os.sep)[0] != "out"}
                c.check(rest == before, "nothing else is touched", missing=sorted(set(before) - set(rest)))
                c.check(not escaped, "nothing outside the output directory is removed", paths=list(escaped))
                gm.cleanup("all") if os.path.exists(d) and not any(not is_log(k) and k.split(os.sep)[0] != "cache" for k in tree(d)) else None
        finally:
            os.chdir(old)
            escaped.clear()


def refusal(c, root, escaped):
    for t in c.trials(16):
        d = os.path.join(root, "r%d" % t)
        kind = c.rng.choice(["file", "log", "hidden", "directory", "empty", "new"])
        if kind != "new":
            os.mkdir(d)
        if kind in ("file", "log", "hidden"):
            open(os.path.join(d, {"file": "data.csv", "log": "gama.log", "hidden": ".keep"}[kind]), "w").write("mine")
        elif kind == "directory":
            os.mkdir(os.path.join(d, "cache"))
        before = tree(d) if kind != "new" else None
        with c.case("existing directory", content=kind):
            store = c.rng.choice(["all", "nothing", "logs", "models"])
            try:
                gm = g.make("regression", output_directory=d, store=store, verbosity=50, max_total_time=c.rng.choice([60, -1]) if kind not in ("empty", "new") else 60)
                ok = True
            except ValueError:
                ok = False
            c.check(ok == (kind in ("empty", "new")), "a directory with files is refused, others are used", used=ok)
            if kind not in ("empty", "new"):
                c.check(tree(d) == before, "a refused directory is left as it is", files=sorted(tree(d)))
            if ok:
                gm.cleanup("all")
            c.check(not escaped, "nothing outside the output directory is removed", paths=list(escaped))
            escaped.clear()

"""C22: storage cleanup keeps exactly what was asked to be kept.

The output directory is an arbitrary set of entries (any number, any names) with or without a cache directory.
"""
import z3
from pyvc.driver import *
from contracts.gm import *
from contracts.fs import Path, flat

PROOFS = Registry()


class Name(Model):
    type_name = "file name"

    def __init__(self, w, i):
        self.w, self.i = w, to_z3(i)

    def m_endswith(self, ctx, s):
        if isinstance(s, tuple):
            return z3.Or([truth(self.m_endswith(ctx, x)) for x in s])
        if s == ".log":
            return self.w.islog(self.i)
        if not isinstance(s, str) or not s or s.endswith(".log") or ".log".endswith(s):
            raise Unsupported("other ending")
        other = z3.Function("ends_with_" + s, I, B)      # an ending no log file has
        ctx.assume(z3.Implies(other(self.i), z3.Not(self.w.islog(self.i))))
        return other(self.i)


class Dir:
    """The output directory: n entries, those for which islog(i) are log files."""

    def __init__(self, ctx, out="out"):
        it = ctx.interp
        self.out = out
        self.exists, self.cache = z3.Bools("directory_exists cache_exists")
        self.n = z3.Int("n_entries")
        self.islog = z3.Function("is_log", I, B)
        ctx.assume(self.n >= 0)
        self.removed, self.trees, self.dirs = [], [], []
        X = ctx.externals
        from contracts.fs import FS
        FS(ctx)
        X["os.path.exists"] = X["os.path.isdir"] = self.c_exists
        X["os.listdir"] = self.c_list
        X["os.remove"] = X["os.unlink"] = lambda c, p: self.removed.append(p)
        X["shutil.rmtree"] = lambda c, p, *a, **k: self.trees.append(p)
        X["os.rmdir"] = lambda c, p: self.dirs.append(p)
        ctx.assumption("library contracts: os.path.exists, os.listdir, os.remove (files), shutil.rmtree, os.rmdir (empty directories)")
        ctx.assumption("entries of the output directory whose names end in .log are files, the cache is the directory named cache")

    def kind(self, p):
        parts = flat(p)
        if parts == (self.out,):
            return "out"
        if parts == (self.out, "cache"):
            return "cache"
        return None

    def c_exists(self, c, p):
        k = self.kind(p)
        if k == "out":
            return self.exists
        if k == "cache":
            return z3.And(self.exists, self.cache)
        raise Unsupported("existence of another path")

    def c_list(self, c, p="."):
        c.prove("only the output directory is listed", self.kind(p) == "out")
        return ListObj(FnC(self.n, lambda cc, i: Name(self, i)))


@PROOFS("Gama.cleanup removes what it is asked to remove, in the output directory only", covers=("gone", "logs", "evaluations", "all", "default"), timeout=60)
def cleanup(ctx):
    it = ctx.interp
    d = Dir(ctx)
    g = Inst(it.get("gama.GamaClassifier.GamaClassifier"), {"output_directory": "out"}, label="gama")
    st = {"phase": 0}

    def match(itp, node, v, env):
        c = itp.content(v)
        return isinstance((c.base if isinstance(c, FilterC) else c).at(ctx, z3.IntVal(0)), Name)

    def havoc(c, env, k):
        st["k"] = to_z3(k)

    def inv(c, env, k):
        st["phase"] += 1
        if st["phase"] == 1:
            c.prove("no file is removed before", not d.removed)
            st["before"] = (len(d.trees), len(d.dirs))
        if st["phase"] == 3:
            one(c, d, st["cur"], st["before"])
        if st["phase"] > 3:
            raise Unsupported("several loops")
        return []

    class Spec(LoopSpec):
        def run(self, itp, node, iterable, env):
            c = itp.content(iterable)
            st["content"] = c
            if isinstance(c, FilterC):
                c = c.base
            at = c.at

            def spy(cc, k):
                x = at(cc, k)
                st["cur"] = x.i
                return x
            c.at = spy
            super().run(itp, node, iterable, env)
    ctx.loop_specs.append(Spec(None, match, havoc, inv, label="files"))
    which = ("logs", "evaluations", "all", None)[ctx.choose(4)]
    it.call(it.getattr(g, "cleanup"), [] if which is None else [which], {})
    logs = which in ("logs", "all")
    cache = which in ("evaluations", "all", None)
    ctx.prove("no file outside a loop over the directory", not d.removed)
    if ctx.branch(z3.Not(d.exists)):
        ctx.prove("without a directory nothing is removed", not d.trees and not d.dirs)
        ctx.cover("gone")
        return
    ctx.prove("log files are removed only if asked", ("content" in st) == logs)
    if logs:
        c = st["content"]
        j = ctx.fresh_int("j")
        if isinstance(c, FilterC):
            ctx.assume(z3.And(0 <= j, j < d.n))
            ctx.prove("all entries are looked at", to_z3(c.base.length(ctx)) == d.n)
            x = c.base.at(ctx, j)
            ctx.prove("all entries are looked at", isinstance(x, Name) and x.i == j)
            ctx.prove("exactly the log files are chosen", truth(ctx.truthy(c.pred(ctx, x))) == d.islog(j))
        else:
            ctx.prove("all entries are looked at", to_z3(c.length(ctx)) == d.n)
    if ctx.branch(z3.And(d.cache, z3.BoolVal(cache))):
        ctx.prove("the cache is removed", [d.kind(p) for p in d.trees] == ["cache"])
    else:
        ctx.prove("the cache is removed only if asked", not d.trees)
    ctx.prove("the directory is removed only if nothing is to be kept", [d.kind(p) for p in d.dirs] == (["out"] if which == "all" else []))
    ctx.cover(which or "default")


def one(c, d, k, before):
    """One iteration: the entry is removed iff it is a log file."""
    if d.removed:
        c.prove("one entry at a time", len(d.removed) == 1)
        p = flat(d.removed[0])
        c.prove("in the output directory", len(p) == 2 and p[0] == d.out and isinstance(p[1], Name))
        c.prove("only log files are removed", d.islog(p[1].i))
        c.prove("the entry itself", p[1].i == k)
    else:
        c.prove("every log file is removed", z3.Not(d.islog(k)))
    c.prove("nothing else is removed per entry", (len(d.trees), len(d.dirs)) == before)


@PROOFS("Gama.fit cleans up what the storage setting does not keep, after the model is made", covers=("all", "nothing", "logs", "models", "failed"), timeout=120)
def fit(ctx):
    store = ("all", "nothing", "logs", "models")[ctx.choose(4)]
    w = Fit(ctx, store=store)
    exc = w.run(None)
    e = w.of("cleanup")
    if exc is not None:
        ctx.prove("a fit that failed cleans up nothing", not e)
        ctx.cover("failed")
        return
    want = {"all": [], "nothing": ["all"], "logs": ["evaluations"], "models": ["logs"]}[store]
    ctx.prove("exactly what is not to be kept is removed", [x["which"] for x in e] == want)
    ctx.prove("only after the model was made", all(x["model"] is w.model for x in e))
    ctx.prove("the setting stays", w.g.attrs["_store"] == store)
    ctx.cover(store)


def own_log(p):
    """A file in the output directory which cleaning up the logs removes."""
    p = flat(p)
    return len(p) == 2 and p[0] == "out" and isinstance(p[1], str) and p[1].endswith(".log") and "/" not in p[1]


@PROOFS("Gama.__init__ refuses a directory with files and writes in its own directory only", covers=("new", "empty", "refused", "logged"), timeout=60)
def init(ctx):
    store = ("all", "nothing", "logs", "models")[ctx.choose(4)]
    handlers = []
    w = Init(ctx, store=store)
    it = w.it
    ctx.externals["logging.FileHandler"] = lambda c, p, *a, **k: handlers.append(p) or Opaque("handler")
    exc = w.run()
    used = z3.And(w.dir_exists, z3.Not(w.dir_empty))
    if exc is not None:
        ctx.prove("only a directory with files is refused", used)
        ctx.prove("with a ValueError", issubclass(exc.cls, ValueError))
        ctx.prove("it is left as it is", not w.of("mkdir") and not w.of("cleanup") and not w.of("logger") and not handlers)
        ctx.cover("refused")
        return
    ctx.prove("a directory with files is refused", z3.Not(used))
    if ctx.branch(w.dir_exists):
        ctx.prove("an empty directory is used as it is", not w.of("mkdir"))
        ctx.cover("empty")
    else:
        ctx.prove("a new directory is made", w.of("mkdir") == [("out",)])
        ctx.cover("new")
    ctx.prove("the output directory is the one asked for", w.g.attrs["output_directory"] == "out")
    ctx.prove("the evaluation log lies in it", len(w.of("logger")) == 1 and own_log(w.of("logger")[0][0]))
    ctx.prove("the log is kept if asked, in it", len(handlers) == (1 if store in ("logs", "all") else 0) and all(own_log(p) for p in handlers))
    if handlers:
        ctx.cover("logged")
    libs = w.of("library")
    ctx.prove("the cache lies in it", len(libs) == 1 and flat(libs[0][1].get("cache")) == ("out", "cache"))
    after = w.evaluator.attrs.get("__init__")
    ctx.prove("the memory log lies in it", isinstance(after, PartialVal) and own_log(after.kwargs.get("logfile")))
    ctx.prove("the storage setting is kept", w.g.attrs["_store"] == store)
    ctx.prove("nothing is removed", not w.of("cleanup"))

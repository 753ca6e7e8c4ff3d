"""C08: artefacts live exactly as long as they are needed.

Contracts
  Evaluation.to_disk(d)      the artefacts move to a new file in d; reading `estimators` and
                             `predictions` gives the very artefacts as before
  Evaluation.remove_from_disk  exactly that file is removed
  EvaluationLibrary._process_predictions  predictions become predictions[sample] for the
                             library's one fixed sample (or stay, or are dropped for n = 0)
  EvaluationLibrary.determine_sample_indices
  EvaluationLibrary.save_evaluation  preserves "on disk = the top evaluations; no artefacts
                             in memory" (invariant in evlib.py)
  EvaluationLibrary.clear_cache  removes every file of the cache directory and nothing else
"""
import z3
from pyvc.driver import *
from contracts.evlib import *
from contracts.fs import FS, parts_in, same_path, Path
from contracts.evlib import I, R
from pyvc.std import Uid

PROOFS = Registry()


def save_artefacts(ctx, m_none):
    it = ctx.interp
    st, ct, co = save(ctx, m_none)
    x = z3.Int("x!post")
    e = st.e
    ctx.prove("predictions are processed before anything is kept", st.processed)
    ctx.prove("on disk: exactly the top evaluations", z3.ForAll([x], st.disk(x) == ct.member(x)))
    if ctx.branch(ct.member(e)):
        i, est, pred = st.payload or (None, None, None)
        ctx.prove("the file holds the evaluation's own pipelines", est is st.E0)
        ctx.prove("the file holds the processed predictions", (pred is st.P1 or pred is None) and bool(simp(i == e) is True))
        ctx.cover("kept")
    else:
        ctx.cover("not kept")
    u = z3.Int("u")
    ctx.assume(z3.Or(ct.member(u), co.member(u)))
    ctx.prove("no pipelines stay in memory", z3.Not(truth(ctx.truthy(it.getattr(st.obj(u), "_estimators")))))
    ctx.prove("no predictions stay in memory", it.getattr(st.obj(u), "_predictions") is None)


PROOFS("save_evaluation: artefacts on disk exactly for the top evaluations (m given)", covers=("kept", "not kept"))(
    lambda ctx: save_artefacts(ctx, False))
PROOFS("save_evaluation: artefacts on disk exactly for the top evaluations (m unlimited)", covers=("kept", "not kept"))(
    lambda ctx: save_artefacts(ctx, True))


def ev_inst(ctx, pred_none=False):
    it = ctx.interp
    E = Token("estimators", truthy=ctx.fresh_bool("some"))
    P = None if pred_none else Token("predictions", truthy=ctx.fresh_bool("anypred"))
    o = Inst(it.get(EV), {"individual": Inst(None, {"_id": Opaque("id")}, label="individual"), "score": Opaque("score"), "_estimators": E,
                          "start_time": Opaque("t"), "duration": Opaque("d"), "error": None, "pid": Opaque("pid"),
                          "_cache_file": "", "_predictions": P})
    return o, E, P


@PROOFS("to_disk moves the artefacts to a file of their own; they read back unchanged", covers=("post",))
def to_disk(ctx):
    it = ctx.interp
    fs = FS(ctx)
    d = Opaque("directory")
    stranger = Path([d, Opaque("another file")])
    fs.files.append((stranger, "other"))
    o, E, P = ev_inst(ctx, bool(ctx.choose(2)))
    before = ctx.clock() if hasattr(ctx, "clock") else 0
    it.call(it.getattr(o, "to_disk"), [d], {})
    path = o.attrs["_cache_file"]
    ctx.prove("the file lies in the given directory", isinstance(path, Path) and path.parts[0] is d and len(path.parts) == 2)
    if not any(isinstance(a, Uid) for a in parts_in(path)):
        raise Unsupported("the file name does not contain a fresh unique identifier")
    ctx.prove("one new file", len(fs.files) == 2 and len(fs.written) == 1)
    ctx.prove("no pipelines left in memory", not truthy_host(ctx, o.attrs["_estimators"]))
    ctx.prove("no predictions left in memory", o.attrs["_predictions"] is None)
    # an empty list of estimators / absent predictions is read back as such
    ctx.prove("pipelines read back unchanged", it.getattr(o, "estimators") is E)
    ctx.prove("predictions read back unchanged", it.getattr(o, "predictions") is P)
    ctx.prove("the other file is untouched", fs.find(stranger) is not None and fs.files[fs.find(stranger)][1] == "other")
    it.call(it.getattr(o, "remove_from_disk"), [], {})
    ctx.prove("exactly that file is removed", len(fs.files) == 1 and fs.find(stranger) is not None and len(fs.removed) == 1)
    ctx.prove("nothing can be read any more", not truthy_host(ctx, it.getattr(o, "estimators")) and it.getattr(o, "predictions") is None)
    ctx.cover("post")


def truthy_host(ctx, v):
    t = ctx.truthy(v)
    return t if isinstance(t, bool) else True


@PROOFS("artefacts in memory are returned as they are", covers=("post",))
def in_memory(ctx):
    it = ctx.interp
    FS(ctx)
    o, E, P = ev_inst(ctx, bool(ctx.choose(2)))
    ctx.prove("pipelines", it.getattr(o, "estimators") is E)
    ctx.prove("predictions", it.getattr(o, "predictions") is P)
    ctx.cover("post")


@PROOFS("Evaluation.__init__ records its arguments", covers=("post",))
def ev_init(ctx):
    it = ctx.interp
    a = {k: Token(k, truthy=True) for k in ("individual", "score", "estimators", "start_time", "duration", "error", "pid")}
    kind = ctx.choose(3)
    vals = Token("values")
    if kind == 0:
        pred = Frame(vals)
        want = vals
    elif kind == 1:
        pred = want = Token("array")
        ctx.externals["isinstance:pandas.Series"] = ctx.externals["isinstance:pandas.DataFrame"] = lambda c, v: isinstance(v, Frame)
    else:
        pred = want = None
    ctx.externals["isinstance:pandas.Series"] = ctx.externals["isinstance:pandas.DataFrame"] = lambda c, v: isinstance(v, Frame)
    noest = bool(ctx.choose(2))
    args = dict(a, predictions=pred)
    if noest:
        args["estimators"] = None
    o = it.call(it.get(EV), [], args)
    for k in ("individual", "score", "start_time", "duration", "error", "pid"):
        ctx.prove(f"{k} recorded", o.attrs[k] is a[k])
    ctx.prove("predictions", it.getattr(o, "predictions") is want)
    est = it.getattr(o, "estimators")
    ctx.prove("estimators", (isinstance(est, ListObj) and est.content.items() == []) if noest else est is a["estimators"])
    ctx.cover("post")


class Frame(Model):
    type_name = "frame"

    def __init__(self, values):
        self.values = values

    def py_getattr(self, ctx, name):
        if name == "values":
            return self.values
        raise Unsupported(f"frame.{name}")

    def py_isinstance(self, ctx, t):
        return isinstance(t, External) and t.path in ("pandas.Series", "pandas.DataFrame")


class Pred(Model):
    """Predictions for `n` rows; indexing with a sample selects its rows."""

    type_name = "predictions"

    def __init__(self, n, base=None, sample=None):
        self.n, self.base, self.sample = n, base, sample

    def py_len(self, ctx):
        return self.n

    def py_is_none(self, ctx):
        return False

    def py_getitem(self, ctx, k):
        return Pred(None, self, k)


class Sample(Model):
    type_name = "sample"

    def __init__(self, size, of, how):
        self.size, self.of, self.how = size, of, how

    def py_is_none(self, ctx):
        return False

    def py_isinstance(self, ctx, t):
        return False

    def py_eq(self, ctx, o):
        return self is o


@PROOFS("_process_predictions applies the one fixed sample", covers=("sampled", "all", "none", "first"))
def process(ctx):
    it = ctx.interp
    n = z3.Int("n")
    ctx.assume(n >= 0)
    kind = ctx.choose(3)
    S = Sample(None, None, "given") if kind == 0 else None if kind == 1 else "not set"
    P = Pred(z3.Int("rows")) if ctx.choose(2) == 0 else None
    E = Token("estimators")
    ev = Inst(it.get(EV), {"_predictions": P, "_estimators": E, "_cache_file": "", "error": None})
    nn = None if (kind != 2 and ctx.choose(2)) else n
    l = Inst(it.get(LIB), {"_sample_n": nn, "_sample": S, "top_evaluations": ListObj([]), "_m": None})
    calls = []

    def det(c, a):
        c.prove("the sample is drawn from the rows of the predictions", a["n"] is nn and simp(to_z3(a["prediction_size"]) == z3.Int("rows")) is True
                and a["stratify"] is None)
        s = Sample(nn, z3.Int("rows"), "new") if c.choose(2) else None
        calls.append(s)
        c.interp.setattr(a["self"], "_sample", s)
    ctx.contracts[f"{LIB}.determine_sample_indices"] = det
    it.call(it.get(f"{LIB}._process_predictions"), [l, ev], {})
    got = it.getattr(ev, "predictions")
    now = l.attrs["_sample"]
    ctx.prove("pipelines untouched", ev.attrs["_estimators"] is E)
    if P is None or (nn is not None and ctx.branch(n == 0)):
        ctx.prove("no predictions", got is None)
        ctx.prove("sample unchanged", now is S and not calls)
        ctx.cover("none")
        return
    ctx.prove("the sample is fixed from the first predictions on", (now is S and not calls) if kind != 2 else (len(calls) == 1 and now is calls[0]))
    if kind == 2:
        ctx.cover("first")
    if now is None:
        ctx.prove("all predictions", got is P)
        ctx.cover("all")
    else:
        ctx.prove("the sampled predictions", isinstance(got, Pred) and got.base is P and got.sample is now)
        ctx.cover("sampled")


@PROOFS("determine_sample_indices: a sample of n rows, or all rows if there are not more", covers=("uniform", "stratified", "all", "refused"))
def determine(ctx):
    it = ctx.interp
    n0, n, size = z3.Ints("n0 n size")
    ctx.assume(z3.And(n0 >= 0, n >= 0, size >= 0))
    own = None if ctx.choose(2) else n0
    arg = None if ctx.choose(2) else n
    which = ctx.choose(4)
    y = Labels(size) if which in (1, 2) else None
    ps = size if which in (0, 2) else None

    def choice(c, rng, size=None, replace=True, p=None):
        c.assumption("library contract: numpy.random.choice (without replacement: `size` different elements)")
        ln = c.interp.content(rng).length(c)
        c.prove("without replacement, uniformly", replace is False and p is None)
        return Sample(size, ln, "uniform")

    def splitter(c, n_splits=10, **k):
        c.assumption("library contract: StratifiedShuffleSplit (train_size different row numbers, stratified)")
        return Splitter(k.get("train_size"), k)
    ctx.externals.update({"numpy.random.choice": choice, "sklearn.model_selection.StratifiedShuffleSplit": splitter,
                          "numpy.zeros": lambda c, k, *a: Pred(k)})
    l = Inst(it.get(LIB), {"_sample_n": own, "_sample": "not set", "top_evaluations": ListObj([]), "_m": None})
    kw = {}
    if arg is not None:
        kw["n"] = arg
    if ps is not None:
        kw["prediction_size"] = ps
    if y is not None:
        kw["stratify"] = y
    try:
        it.call(it.get(f"{LIB}.determine_sample_indices"), [l], kw)
    except PyRaise as e:
        if not issubclass(e.exc.cls, ValueError):
            raise
        ctx.prove("refused only if not exactly one size is given", which in (2, 3))
        ctx.cover("refused")
        return
    ctx.prove("exactly one size is given", which in (0, 1))
    s = l.attrs["_sample"]
    eff = arg if arg is not None else own
    if eff is None:
        ctx.prove("no limit: all rows", s is None)
        return
    if s is None:
        ctx.prove("all rows only if there are not more than n", eff >= size)
        ctx.cover("all")
        return
    ctx.prove("a sample is drawn", isinstance(s, Sample))
    ctx.prove("sampled only if there are more than n", eff < size)
    ctx.prove("n rows", to_z3(s.size) == eff)
    ctx.prove("of all rows", to_z3(s.of) == size)
    ctx.prove("stratified exactly if asked for", s.how == ("uniform" if which == 0 else "stratified"))
    ctx.cover(s.how)


class Labels(Model):
    type_name = "labels"

    def __init__(self, n):
        self.n = n

    def py_len(self, ctx):
        return self.n

    def py_is_none(self, ctx):
        return False


class Splitter(Model):
    type_name = "StratifiedShuffleSplit"

    def __init__(self, train_size, kw):
        self.train_size, self.kw = train_size, kw

    def m_split(self, ctx, X, y):
        ctx.prove("stratified by the given labels", isinstance(y, Labels))
        return ListObj([(Sample(self.train_size, X.n if isinstance(X, Pred) else None, "stratified"), Sample(None, None, "test"))])


@PROOFS("clear_cache removes the files of the cache directory and the directory", covers=("post",))
def clear(ctx):
    it = ctx.interp
    d = Opaque("cache directory")
    names = Schema("FileName")
    N = z3.Int("N")
    ctx.assume(N >= 0)
    nm = z3.Function("file", I, names.sort)
    log = {"rmdir": [], "removed": []}
    listing = ListObj(FnC(N, lambda c, i: Term(nm(to_z3(i)), names)))

    def listdir(c, p):
        c.assumption("library contract: os.listdir (all names in the directory)")
        c.prove("the cache directory is listed", p is d)
        return listing

    def remove(c, p):
        c.prove("only files directly inside the cache directory are removed",
                isinstance(p, Path) and len(p.parts) == 2 and p.parts[0] is d and isinstance(p.parts[1], Term))
        log["removed"].append(p.parts[1].expr)

    def rmdir(c, p):
        c.prove("only the cache directory itself is removed", p is d)
        c.prove("it is empty by then", log.get("done", False))
        log["rmdir"].append(p)
    fs = FS(ctx)
    ctx.externals.update({"os.listdir": listdir, "os.remove": remove, "os.rmdir": rmdir})

    def havoc(c, env, k):
        log["removed"] = []
        log["k"] = k

    def inv(c, env, k):
        r = log["removed"]
        if log.get("k") is None:
            return [("nothing removed yet", len(r) == 0)]
        if simp(to_z3(k) == to_z3(log["k"])) is True:
            if simp(to_z3(k) == N) is True:
                log["done"] = True
            return [("files removed so far", True)]
        return [("the file is removed", z3.Or([x == nm(to_z3(k) - 1) for x in r]) if r else z3.BoolVal(False)),
                ("no other file", z3.And([x == nm(to_z3(k) - 1) for x in r]))]
    ctx.loop_specs.append(LoopSpec(f"{LIB}.clear_cache", lambda i, n, itb, e: itb is listing, havoc, inv, label="files"))
    l = Inst(it.get(LIB), {"_cache": d})
    it.call(it.get(f"{LIB}.clear_cache"), [l], {})
    ctx.prove("the directory is removed", len(log["rmdir"]) == 1)
    ctx.cover("post")

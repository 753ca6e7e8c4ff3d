"""C23: the evaluation log has one complete, parseable row per evaluation.

Values are arbitrary strings, known by which special characters they contain; the separator is an arbitrary
single character. CSV reading is assumed: a quoted field with its quotes doubled reads as the field, an unquoted
one without separator, quotes and line breaks reads as itself.
"""
import datetime
import z3
from pyvc.driver import *
from contracts.fs import FS, Handle
from contracts.c19 import Txt, parts, shape

PROOFS = Registry()
LG = "gama.logging.evaluation_logger.EvaluationLogger"
I, B = z3.IntSort(), z3.BoolSort()


class Sep(Model):
    """The separator: any character but a quote or line break."""

    type_name = "str"

    def m_join(self, ctx, values):
        return lib.Join(self, ctx.interp.content(values))


class Cell(Model):
    """The k-th value of the row, a string."""

    type_name = "str"

    def __init__(self, w, k):
        self.w, self.k = w, to_z3(k)

    def has(self, token):
        if isinstance(token, Sep):
            return self.w.has_sep(self.k)
        if token in self.w.has_tok:
            return self.w.has_tok[token](self.k)
        raise Unsupported("text in a value")

    def py_contains(self, ctx, token):
        return self.has(token)

    def m_replace(self, ctx, a, b):
        if (a, b) != ('"', '""'):
            raise Unsupported("replacement in a value")
        return Txt("doubled quotes", self)

    def py_isinstance(self, ctx, t):
        return getattr(t, "name", None) == "str"


class Row:
    def __init__(self, ctx):
        self.has_sep = z3.Function("contains_separator", I, B)
        self.has_tok = {t: z3.Function(f"contains_{n}", I, B) for t, n in (('"', "quote"), ("\n", "newline"), ("\r", "return"))}
        self.n = z3.Int("n_values")
        ctx.assume(self.n >= 1)
        self.content = FnC(self.n, lambda c, k: Cell(self, k))

    def special(self, k):
        return z3.Or(self.has_sep(k), *[f(k) for f in self.has_tok.values()])


def check_row(ctx, text, row, sep):
    p = parts(text)
    shape(len(p) == 2 and isinstance(p[0], lib.Join))
    ctx.prove("the row ends its line", p[1] == "\n")
    ctx.prove("values are separated by the separator", p[0].sep is sep)
    c = p[0].jcontent
    ctx.prove("one field per value", to_z3(c.length(ctx)) == row.n)
    k = ctx.fresh_int("k")
    ctx.assume(z3.And(0 <= k, k < row.n))
    f = parts(c.at(ctx, k))
    if len(f) == 1 and isinstance(f[0], Cell):
        ctx.prove("a value is written as it is only if it has no special characters", z3.And(f[0].k == k, z3.Not(row.special(k))))
        ctx.cover("plain")
        return
    shape(len(f) == 3 and f[0] == '"' and f[2] == '"')
    inner = f[1].of if isinstance(f[1], Txt) and f[1].how == "doubled quotes" else f[1]
    ctx.prove("a quoted field is the value", isinstance(inner, Cell) and inner.k == k)
    ctx.prove("quotes inside are doubled", isinstance(f[1], Txt) or z3.Not(row.has_tok['"'](k)))
    ctx.cover("quoted")


@PROOFS("log_line appends one row from which every value can be read back", covers=("plain", "quoted"))
def log_line(ctx):
    it = ctx.interp
    row, sep = Row(ctx), Sep()
    path = Opaque("log file")
    old = ["earlier rows"]
    fs = FS(ctx, [(path, list(old))])
    ctx.repr_hook = None
    lg = Inst(it.get(LG), {"_file_path": path, "_sep": sep, "fields": DictObj([])}, label="logger")
    values = it.new_list(row.content)
    it.call(it.getattr(lg, "log_line"), [values], {})
    ctx.prove("only the log file is written", len(fs.written) == 1 and fs.written[0] is path and len(fs.files) == 1 and not fs.removed)
    rows = fs.files[0][1]
    ctx.prove("earlier rows are kept", rows[:1] == old)
    shape(len(rows) == 2)
    check_row(ctx, rows[1], row, sep)


class Getter(Model):
    type_name = "field"

    def __init__(self, w, k):
        self.w, self.k = w, to_z3(k)

    def py_call(self, ctx, e, *a, **kw):
        ctx.prove("each field is read from the evaluation logged", e is self.w.ev and not a and not kw)
        return Raw(self.w, self.k)


class Raw(Model):
    """What field k extracts: a time or any other value."""

    type_name = "value"

    def __init__(self, w, k):
        self.w, self.k = w, k

    def py_isinstance(self, ctx, t):
        if getattr(t, "path", None) == "datetime.datetime" or t is datetime.datetime:
            return self.w.is_time(self.k)
        raise Unsupported("type of a value")

    def py_bool(self, ctx):
        return self.w.true(self.k)

    def m_strftime(self, ctx, fmt):
        ctx.prove("only times are formatted as times", self.w.is_time(self.k))
        return Txt(("time", fmt), self.k)


class Fields(Model):
    """name -> getter, n of them"""

    type_name = "dict"

    def __init__(self, w):
        self.w = w

    def m_values(self, ctx):
        return ctx.interp.new_list(FnC(self.w.n, lambda c, k: Getter(self.w, k)))

    def m_items(self, ctx):
        return ctx.interp.new_list(FnC(self.w.n, lambda c, k: (Txt("name", to_z3(k)), Getter(self.w, k))))

    def py_content(self, ctx):
        return FnC(self.w.n, lambda c, k: Txt("name", to_z3(k)))


@PROOFS("log_evaluation writes one row with the value of every field, in order", covers=("time", "other"))
def log_evaluation(ctx):
    it = ctx.interp

    class W:
        pass
    w = W()
    w.n, w.is_time, w.ev = z3.Int("n_fields"), z3.Function("is_time", I, B), Opaque("evaluation")
    w.true = z3.Function("is_true", I, B)
    ctx.assume(w.n >= 1)
    got = []
    ctx.contracts[f"{LG}.log_line"] = lambda c, b: got.append(it.content(b["values"]))
    ctx.str_hook = lambda c, v: Txt("str", v.k) if isinstance(v, Raw) else None
    lg = Inst(it.get(LG), {"_file_path": Opaque("path"), "_sep": Sep(), "fields": Fields(w)}, label="logger")
    it.call(it.getattr(lg, "log_evaluation"), [w.ev], {})
    ctx.prove("one row", len(got) == 1)
    c = got[0]
    ctx.prove("one value per field", to_z3(c.length(ctx)) == w.n)
    k = ctx.fresh_int("k")
    ctx.assume(z3.And(0 <= k, k < w.n))
    x = c.at(ctx, k)
    ctx.prove("no value is replaced by another", not isinstance(x, str))
    shape(isinstance(x, Txt))
    ctx.prove("in the order of the header", to_z3(x.of) == k)
    if ctx.branch(w.is_time(k)):
        fmt = it.get("gama.logging.TIME_FORMAT")
        ctx.prove("times in the format of the logs", x.how == ("time", fmt) or x.how == "str")
        ctx.cover("time")
    else:
        ctx.prove("other values as text", x.how == "str")
        ctx.cover("other")


def evaluation(ctx):
    it = ctx.interp
    fit = Inst(None, {k: Opaque(k) for k in ("values", "start_time", "wallclock_time", "process_time")}, label="fitness")
    ind = Inst(it.get("gama.genetic_programming.components.individual.Individual"), {"_id": Opaque("id"), "fitness": fit, "meta": DictObj([])}, label="individual")
    e = Inst(it.get("gama.utilities.evaluation_library.Evaluation"), {"individual": ind, "pid": Opaque("pid"), "error": Opaque("error"), "score": Opaque("score")}, label="evaluation")
    return e, ind, fit


@PROOFS("the log starts with one header naming all columns; the default columns hold what they name", covers=("default", "given", "extra"))
def init(ctx):
    it = ctx.interp
    got = []
    ctx.contracts[f"{LG}.log_line"] = lambda c, b: got.append(list(it.content(b["values"]).items()))
    text = Opaque("pipeline text")
    ctx.contracts["gama.genetic_programming.components.individual.Individual.pipeline_str"] = lambda c, b: text if b["self"] is ind else Opaque("other")
    e, ind, fit = evaluation(ctx)
    g1, g2, x1, x2 = [Builtin(n, lambda c, *a, **k: Opaque("x")) for n in ("g1", "g2", "x1", "x2")]
    given, extra = ctx.choose(2), ctx.choose(2)
    kw = {}
    if given:
        kw["fields"] = DictObj([("one", g1), ("two", g2)])
    if extra:
        kw["extra_fields"] = DictObj([("first", x1), ("second", x2)])
    sep = [None, ";", ","][ctx.choose(3)]
    path = Opaque("path")
    lg = it.call(it.get(LG), [path] + ([sep] if sep else []), kw)
    ctx.prove("one header", len(got) == 1)
    f = lg.attrs["fields"]
    shape(isinstance(f, DictObj))
    names = [k for k, _ in f.pairs]
    ctx.prove("the header names all columns, in order", got[0] == names)
    ctx.prove("no column twice", len(set(names)) == len(names))
    ctx.prove("the file and the separator are as asked", lg.attrs["_file_path"] is path and lg.attrs["_sep"] == (sep or ";"))
    d = dict(f.pairs)
    if extra:
        ctx.prove("extra columns are added", d.get("first") is x1 and d.get("second") is x2)
        ctx.cover("extra")
    if given:
        ctx.prove("given columns are used", d.get("one") is g1 and d.get("two") is g2 and len(names) == 2 + 2 * extra)
        ctx.cover("given")
        return
    want = {"id": ind.attrs["_id"], "pid": e.attrs["pid"], "t_start": fit.attrs["start_time"], "t_wallclock": fit.attrs["wallclock_time"],
            "t_process": fit.attrs["process_time"], "score": fit.attrs["values"], "pipeline": text, "error": e.attrs["error"]}
    for k, v in want.items():
        ctx.prove(f"column {k}", k in d)
        ctx.prove(f"column {k} holds what it names", it.call(d[k], [e], {}) is v)
    ctx.cover("default")


@PROOFS("search methods log with the default columns and their own", covers=("done",))
def loggers(ctx):
    it = ctx.interp
    got = []
    ctx.contracts[f"{LG}.log_line"] = lambda c, b: got.append(list(it.content(b["values"]).items()))
    which = ctx.choose(3)
    cls = ("gama.search_methods.async_ea.AsyncEA", "gama.search_methods.asha.AsynchronousSuccessiveHalving", "gama.search_methods.random_search.RandomSearch")[which]
    s = it.call(it.get(cls), [], {})
    lg = it.call(s.attrs["logger"], [Opaque("path")], {})
    names = [k for k, _ in lg.attrs["fields"].pairs]
    ctx.prove("all columns are in the header", got == [names])
    ctx.prove("the default columns are logged", all(k in names for k in ("id", "pid", "t_start", "t_wallclock", "t_process", "score", "pipeline", "error")))
    d = dict(lg.attrs["fields"].pairs)
    e, ind, fit = evaluation(ctx)
    p = [Opaque("id of parent 0"), Opaque("id of parent 1")]
    if which == 0:
        n = ctx.choose(3)
        ind.attrs["meta"] = DictObj([("parents", ListObj(p[:n])), ("origin", "cx")])
        for i in range(2):
            v = it.call(d[f"parent{i}"], [e], {})
            ctx.prove("parents of the individual", v is p[i] if i < n else v == "")
        ctx.prove("origin of the individual", it.call(d["origin"], [e], {}) == "cx")
        ind.attrs["meta"] = DictObj([])
        ctx.prove("no parents, unknown origin", it.call(d["parent0"], [e], {}) == "" and it.call(d["origin"], [e], {}) == "unknown")
    elif which == 1:
        r, f = Opaque("rung"), Opaque("subsample")
        ind.attrs["meta"] = DictObj([("rung", r), ("subsample", f)])
        ctx.prove("rung and subsample of the individual", it.call(d["rung"], [e], {}) is r and it.call(d["subsample"], [e], {}) is f)
    ctx.cover("done")


@PROOFS("Gama.__init__ makes one log for the search in the output directory and reports every evaluation to it once", covers=("done",), timeout=60)
def gama_init(ctx):
    from contracts.gm import Init
    w = Init(ctx)
    it = w.it
    if w.run() is not None:
        raise PathAbort()      # refused settings (C15, C22)
    logs = w.of("logger")
    ctx.prove("one log", len(logs) == 1)
    ctx.prove("in the output directory", lib.equal(it, logs[0][0], w.fs.join(ctx, w.g.attrs["output_directory"], "evaluations.log")))
    subs = it.content(it.getitem(w.g.attrs["_subscribers"], "evaluation_completed")).items()
    shape(subs is not None)
    ctx.prove("the log is told of every evaluation once", sum(s is w.logf for s in subs) == 1)
    ctx.cover("done")


from contracts import c21 as _c21
PROOFS("OperatorSet.wait_next reports each completed evaluation once", covers=("evaluated", "failed", "stopped", "nobody"))(_c21.wait_next)

"""C16: rows stay aligned and only unlabelled rows are dropped."""
import z3
from pyvc.driver import *
from contracts.gm import *
from contracts.frames import *
from contracts import gm

PROOFS = Registry()
DFM = "gama.data_formatting"


def inputs(ctx, w):
    x_np = ctx.choose(2)
    x = Tab(w, ND if x_np else DF, "x", w.all, "x", None if x_np else "x index", z3.Int("n_columns"), ndim=2)
    k = ctx.choose(4)
    nc = z3.Int("n_target_columns")
    ctx.assume(nc >= 1)
    idx = ("x index", "y index")[ctx.choose(2)] if k >= 2 else None
    y = [Tab(w, ND, "y", w.all, "target", None, 1, ndim=1), Tab(w, ND, "y", w.all, "target", None, nc, ndim=2),
         Tab(w, SE, "y", w.all, "target", idx, 1), Tab(w, DF, "y", w.all, "target", idx, nc)][k]
    return x, y, k, nc


@PROOFS("format_x_y: each row keeps its target; exactly the rows without one are removed", covers=("removed", "kept", "indicator"), timeout=100)
def format_x_y(ctx):
    it = ctx.interp
    w = Rows_(ctx)
    x, y, k, nc = inputs(ctx, w)
    ctx.contracts[f"{DFM}.infer_categoricals_inplace"] = lambda c, b: None  # see its own proof
    ctx.sum_hook = lambda c, v, s: Opaque("sum") if isinstance(v, Mask) else None
    yt = it.external((SE, DF)[ctx.choose(2)])
    remove = ctx.choose(2)
    kw = {"y_type": yt} if yt.name == DF else {}
    if not remove:
        kw["remove_unlabeled"] = False
    fx, fy = it.unpack(it.call(it.get(f"{DFM}.format_x_y"), [x, y], kw), 2)
    ctx.prove("features are a frame", isinstance(fx, Tab) and fx.kind == DF)
    ctx.prove("features are the given ones", fx.role == "x" and fx.what == "x")
    ctx.prove("targets are of the requested type", isinstance(fy, Tab) and fy.kind == yt.name)
    if fy.role == "y" and k == 1:
        ctx.prove("targets are the given ones (an indicator matrix gives the number of the class)", z3.If(nc > 1, fy.what == "argmax", fy.what == "target"))
    else:
        ctx.prove("targets are the given ones", fy.role == "y" and fy.what == "target")
    if yt.name == SE:
        ctx.prove("one target per row", fy.ndim == 1)
    i = ctx.fresh_int("row")
    want = z3.And(w.all(i), z3.Not(w.null(fy.what, i))) if remove else w.all(i)
    ctx.prove("exactly the rows without a target are removed from the features", fx.sel(i) == want)
    ctx.prove("exactly the rows without a target are removed from the targets", fy.sel(i) == want)
    ctx.prove("targets carry the row labels of the features", w.same_idx(fx.idx, fy.idx))
    ctx.cover("removed" if remove else "kept")
    if fy.what == "argmax":
        ctx.cover("indicator")


@PROOFS("format_x_y and format_y refuse other types", covers=("x", "y", "type"))
def refused(ctx):
    it = ctx.interp
    w = Rows_(ctx)
    x, y, k, nc = inputs(ctx, w)
    ctx.contracts[f"{DFM}.infer_categoricals_inplace"] = lambda c, b: None
    what = ctx.choose(3)
    other = (None, "text", ListObj(Conc([])))[ctx.choose(3)]
    try:
        if what == 2:
            it.call(it.get(f"{DFM}.format_y"), [y, PdType("another type", None)], {})
        else:
            it.call(it.get(f"{DFM}.format_x_y"), [other if what == 0 else x, other if what == 1 else y], {})
        ctx.fail("data of another type is refused")
    except PyRaise as e:
        ctx.prove("data of another type is refused", issubclass(e.exc.cls, ValueError if what == 2 else TypeError))
        ctx.cover(("x", "y", "type")[what])


# ---------------------------------------------------------------- columns
class Columns(Model):
    """A frame seen as columns 0..n-1 with names; vals(j): contents of column j, dtype(j): its type."""
    type_name = "frame"

    def __init__(self, ctx, tag="c"):
        self.n = ctx.fresh_int("n_columns")
        ctx.assume(self.n >= 0)
        self.vals = z3.Array(f"vals_{tag}", I, I)
        self.dtype = z3.Array(f"dtype_{tag}", I, I)
        self.v0, self.extra = self.vals, False

    def py_content(self, ctx):
        return FnC(self.n, lambda c, j: Name(j))

    def py_getitem(self, ctx, k):
        if not isinstance(k, Name):
            raise Unsupported("column")
        return Col(self, k.j, z3.Select(self.vals, k.j), z3.Select(self.dtype, k.j))

    def py_setitem(self, ctx, k, v):
        if not isinstance(k, Name) or not isinstance(v, Col):
            raise Unsupported("assignment of something else to a column")
        if ctx.pure:
            raise Unsupported("mutation in a pure context")
        ctx.log_mut(self, "columns")
        self.vals = z3.Store(self.vals, k.j, v.vals)
        self.dtype = z3.Store(self.dtype, k.j, v.dtype)


class Name(Model):
    type_name = "column name"

    def __init__(self, j):
        self.j = to_z3(j)

    def py_eq(self, ctx, o):
        return simp(self.j == o.j) if isinstance(o, Name) else False


class Col(Model):
    type_name = "column"

    def __init__(self, f, j, vals, dtype):
        self.f, self.j, self.vals, self.dtype = f, j, vals, dtype

    def m_astype(self, ctx, t, *a, **k):
        if isinstance(t, str):
            d = z3.Int(f"dtype_{t}")
        elif isinstance(t, DType):
            d = t.e
        else:
            raise Unsupported("astype")
        return Col(self.f, self.j, self.vals, d)


class DType(Model):
    type_name = "dtype"

    def __init__(self, e):
        self.e = e


def columns_loop(ctx, f, label, extra=None):
    def havoc(c, env, k):
        f.vals, f.dtype = c.fresh_const("vals", z3.ArraySort(I, I)), c.fresh_const("dtypes", z3.ArraySort(I, I))

    def inv(c, env, k):
        j = z3.Int("j!c")
        out = [("the values of all columns are unchanged", f.vals == f.v0)]
        if extra is not None:
            out.append(("columns done so far have their type", z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < k), z3.Select(f.dtype, j) == extra(j)))))
        return out
    ctx.loop_specs.append(LoopSpec(None, lambda *a: True, havoc, inv, label=label))


@PROOFS("infer_categoricals_inplace changes no value", covers=("done",))
def infer(ctx):
    it = ctx.interp
    f = Columns(ctx)
    ctx.contracts[f"{DFM}.series_looks_categorical"] = lambda c, b: c.fresh_bool("looks categorical")
    ctx.assumption("pandas: astype keeps the values of a column")
    columns_loop(ctx, f, "columns")
    it.call(it.get(f"{DFM}.infer_categoricals_inplace"), [f], {})
    j = ctx.fresh_int("j")
    ctx.prove("the values of all columns are unchanged", z3.Select(f.vals, j) == z3.Select(f.v0, j))
    ctx.cover("done")


class DTypes(Model):
    """x.dtypes of the training data: one type per column, indexed by column name."""
    type_name = "dtypes"

    def __init__(self, n):
        self.n = n
        self.d = z3.Function("train_dtype", I, I)
        self.index_ = Opaque("column names of the training data")

    def py_getattr(self, ctx, name):
        if name == "index":
            return self.index_
        return super().py_getattr(ctx, name)

    def m_items(self, ctx):
        return ListObj(FnC(self.n, lambda c, j: (Name(j), DType(self.d(to_z3(j))))), kind="iter")

    def py_content(self, ctx):
        return FnC(self.n, lambda c, j: DType(self.d(to_z3(j))))


@PROOFS("prediction inputs: same rows, columns and types as the training data", covers=("array", "frame", "no encoder", "proba"))
def prepare(ctx):
    it = ctx.interp
    n = z3.Int("n_columns")
    ctx.assume(n >= 0)
    dt = DTypes(n)
    st = {}
    cls = it.get("gama.GamaClassifier.GamaClassifier")

    class Enc(Model):
        type_name = "encoding pipeline"

        def m_transform(s, c, x):
            st["given"] = x
            st["out"] = Opaque("encoded rows")
            return st["out"]
    has = ctx.choose(2)
    g = Inst(cls, {"_inferred_dtypes": dt, "_basic_encoding_pipeline": Enc() if has else None, "model": Opaque("model"), "_label_encoder": Opaque("le")}, label="gama")
    array = ctx.choose(2)

    class In(Model):
        type_name = "input"

        def py_isinstance(s, c, t):
            return isinstance(t, PdType) and t.name == (ND if array else DF)
    x = In()

    def mk(c, v=None, columns=None, **k):
        c.prove("the rows of the input are used", v is x)
        c.prove("the columns are named as in training", columns is dt.index_ or columns is None)
        f = Columns(c)
        c.assume(f.n == n)
        f.named = columns is dt.index_
        st["frame"] = f
        columns_loop(c, f, "types", dt.d)
        return f
    ctx.externals["pandas.DataFrame"] = PdType(DF, mk)
    ctx.externals["numpy.ndarray"] = PdType(ND, None)
    ctx.assumption("pandas: DataFrame(array, columns) keeps rows and values; astype keeps the values of a column")
    ret = Opaque("prediction")
    proba = ctx.choose(2)
    for m in ("_predict", "_predict_proba"):
        def f(c, b, m=m):
            st["asked"] = (m, b["x"])
            return ret
        ctx.contracts[f"gama.GamaClassifier.GamaClassifier.{m}"] = f
    r = it.call(it.getattr(g, "predict_proba" if proba else "predict"), [x], {})
    ctx.prove("the prediction of the model is returned", r is ret and st["asked"][0] == ("_predict_proba" if proba else "_predict"))
    given = st.get("given") if has else st["asked"][1]
    if has:
        ctx.prove("the model gets the encoded rows", st["asked"][1] is st.get("out"))
    if not array:
        ctx.prove("frames are used as they are", given is x)
        ctx.cover("frame")
    else:
        f = st.get("frame")
        ctx.prove("arrays become a frame", f is not None and given is f and f.named)
        j = ctx.fresh_int("j")
        ctx.assume(z3.And(0 <= j, j < n))
        ctx.prove("no value is changed", z3.Select(f.vals, j) == z3.Select(f.v0, j))
        ctx.prove("the columns have the types of the training data", z3.Select(f.dtype, j) == dt.d(j))
        ctx.cover("array")
    if not has:
        ctx.cover("no encoder")
    if proba:
        ctx.cover("proba")


@PROOFS("Gama.fit: search and post-processing get the formatted rows with their targets", covers=("done",), timeout=100)
def fit(ctx):
    w = Fit(ctx)
    exc = w.run()
    f, e, x = w.of("format"), w.of("encode"), w.of("extend")
    ctx.prove("the given data is formatted", len(f) == 1 and f[0]["x"] is w.x and f[0]["y"] is w.y)
    ctx.prove("unlabelled rows are removed", f[0]["rest"].get("remove_unlabeled", True) is True)
    ctx.prove("the formatted data is encoded", len(e) == 1 and e[0]["x"] is w.fx and bool(e[0]["classification"]) == w.classification)
    ctx.prove("the further preprocessing is made for the encoded data", len(x) == 1 and x[0]["x"] is w.ex and bool(x[0]["classification"]) == w.classification)
    g = w.g.attrs
    ctx.prove("the encoding is kept for prediction", g["_basic_encoding_pipeline"] is w.enc)
    ctx.prove("the types of the training data are kept for prediction", g["_inferred_dtypes"] is w.fx.dtypes)
    sc = g["_operator_set"].attrs["_safe_compile"]
    w.it.call(sc, [Opaque("individual")], {})
    ctx.prove("pipelines are preceded by the further preprocessing", len(w.compiled) == 1 and (w.ext in w.compiled[0][0] or w.compiled[0][1].get("preprocessing_steps") is w.ext))
    for s in w.of("search"):
        ctx.prove("the search gets encoded features and formatted targets", s["x"] is w.ex and s["y"] is w.fy)
    for p in w.of("post"):
        ctx.prove("post-processing gets encoded features and formatted targets", p["x"] is w.ex and p["y"] is w.fy)
    if exc is None:
        ctx.cover("done")


@PROOFS("Gama._search_phase: evaluations get the data of the search", covers=("done",), timeout=100)
def search_data(ctx):
    w = SearchPhase(ctx)
    w.phase(None, z3.Real("timeout"))
    e = evaluated(w)
    ctx.prove("pipelines are evaluated on the encoded features", e.get("x") is w.ex)
    ctx.prove("pipelines are evaluated on the formatted targets", e.get("y_train") is w.fy)
    ctx.cover("done")


# ---------------------------------------------------------------- GamaClassifier.fit
class Targets(Model):
    """Formatted targets: yi for each row; some may be text."""
    type_name = "targets"

    def __init__(self, ctx, le=None, of=None):
        self.le, self.of = le, of
        self.text = z3.Function("is_text", I, B)
        self.n = z3.Int("n_targets")
        self.elem = Schema("TargetValue", attrs={})

    def py_content(self, ctx):
        ctx.assume(self.n >= 0)
        return FnC(self.n, lambda c, i: Yi(self, i))

    def m_infer_objects(self, ctx, copy=None):
        return self  # pandas: the same values and index, in a more specific dtype


class Yi(Model):
    type_name = "target value"

    def __init__(self, t, i):
        self.t, self.i = t, to_z3(i)

    def py_isinstance(self, ctx, ty):
        if ty is str or getattr(ty, "name", None) == "str":
            return self.t.text(self.i)
        raise Unsupported("type of a target")


class Enc_(Model):
    type_name = "LabelEncoder"
    fitted = None

    def m_fit(self, ctx, y):
        self.fitted = y
        return self

    def m_transform(self, ctx, y):
        if self.fitted is None:
            raise Unsupported("not fitted")
        return Targets(ctx, self, y)

    def m_fit_transform(self, ctx, y):
        self.fitted = y
        return Targets(ctx, self, y)


def classifier_fit(ctx, told=None):
    """GamaClassifier.fit up to its call of Gama.fit; returns what was passed there."""
    it = ctx.interp
    fx, fy = Table(ctx, "formatted x"), Targets(ctx)
    x, y = Table(ctx, "x"), Table(ctx, "y")
    st = {"x": x, "y": y, "fx": fx, "fy": fy}

    def any_text():
        i = z3.Int("i!t")
        return z3.Exists([i], z3.And(0 <= i, i < fy.n, fy.text(i)))

    def c_format(c, b):
        st["formatted"] = (b["x"], b["y"], b.get("remove_unlabeled", True))
        return (fx, fy)
    ctx.contracts["gama.data_formatting.format_x_y"] = c_format
    ctx.externals["sklearn.preprocessing.LabelEncoder"] = lambda c: Enc_()
    lab = z3.Function("takes_labels", I, B)
    seen = st["labels"] = []

    class Sig(Model):
        type_name = "signature"

        def __init__(self, i):
            self.i = i

        def py_getattr(self, c, name):
            if name == "parameters":
                return self
            raise Unsupported(name)

        def py_contains(self, c, k):
            return lab(self.i) if k == "labels" else c.fresh_bool("parameter")

    class KW(Model):
        type_name = "scorer arguments"

        def __init__(self, i):
            self.i = to_z3(i)

        def m_update(self, c, d):
            c.log_mut(self, "labels")
            seen.append((self.i, d))

        def py_setitem(self, c, k, v):
            c.log_mut(self, "labels")
            seen.append((self.i, DictObj([(k, v)])))
    sf = Fam("scorer", None, {"_score_func": lambda c, i: Obj(ff, i), "_kwargs": lambda c, i: KW(i)})
    ff = Fam("score function", None, {})
    mf = Fam("metric", None, {"scorer": lambda c, i: Obj(sf, i)})
    ctx.externals["inspect.signature"] = lambda c, f: Sig(to_z3(f.idx))
    uniq = {}

    def unique(c, v, *a, **k):
        uniq["of"] = v
        uniq["r"] = Opaque("unique labels")
        return uniq["r"]
    ctx.externals["numpy.unique"] = unique
    st["unique"] = uniq
    nm = z3.Int("n_metrics")
    ctx.assume(nm >= 1)

    def havoc(c, env, k):
        del seen[:]
        st["metric"] = None

    def inv(c, env, k):
        if "metric" not in st:
            return []
        if st["metric"] is None:
            st["metric"] = to_z3(k)
            return []
        if not told:
            return []
        j = st["metric"]
        given = [(i, d) for i, d in seen]
        y = uniq.get("of")
        st["any_text"] = any_text()
        r = [("only the scorer of this metric is changed", z3.And([i == j for i, _ in given] + [z3.BoolVal(True)]))]
        ok = len(given) == 1 and isinstance(given[0][1], DictObj) and [q for q, _ in given[0][1].pairs] == ["labels"]
        if given and not ok:
            raise Unsupported("arguments of the scorer")
        r.append(("a scorer that takes the labels is told them", z3.Implies(lab(j), z3.BoolVal(bool(given)))))
        r.append(("no other scorer is told labels", z3.Implies(z3.BoolVal(bool(given)), lab(j))))
        if given:
            if given[0][1].pairs[0][1] is not uniq.get("r"):
                raise Unsupported("labels of the scorer")
            r += told(st, y)
        return r
    ctx.loop_specs.append(LoopSpec(None, lambda it_, nd, itb, env: itb is metrics, havoc, inv, label="metrics"))
    metrics = ListObj(FnC(nm, lambda c, i: Obj(mf, i)))

    class Lib(Model):
        type_name = "library"

        def m_determine_sample_indices(s, c, n=None, prob=None, stratify=None):
            st["stratify"] = stratify
    g = Inst(it.get("gama.GamaClassifier.GamaClassifier"), {"_evaluation_library": Lib(), "_metrics": metrics, "_label_encoder": None}, label="gama")
    st["g"] = g
    rest = Opaque("warm start")
    st["warm"] = rest

    def c_fit(c, b):
        st["fit"] = b
    ctx.contracts["gama.gama.Gama.fit"] = c_fit
    ctx.assumption("sklearn LabelEncoder: fit remembers the sorted distinct labels, transform numbers them")
    it.call(it.getattr(g, "fit"), [x, y, rest], {})
    st["any_text"] = any_text()
    return st


@PROOFS("GamaClassifier.fit: unlabelled rows are removed first, targets stay with their rows", covers=("text", "other"))
def cfit(ctx):
    st = classifier_fit(ctx)
    f, b = st.get("formatted"), st.get("fit")
    ctx.prove("the given data is formatted first, without unlabelled rows", f is not None and f[0] is st["x"] and f[1] is st["y"] and f[2] is True)
    ctx.prove("the search is started once with the formatted features", b is not None and b["x"] is st["fx"] and b["warm_start"] is st["warm"])
    y = b["y"]
    enc = isinstance(y, Targets) and y is not st["fy"]
    if enc:
        ctx.prove("targets are numbered row by row", y.of is st["fy"])
        ctx.cover("text")
    else:
        ctx.prove("other targets are used as they are", z3.And(z3.BoolVal(y is st["fy"]), z3.Not(st["any_text"])))
        ctx.cover("other")


# ---------------------------------------------------------------- files
class FileFrame(Model):
    """Data read from a file: columns 0..n-1."""
    type_name = "frame"

    def __init__(self, ctx):
        self.n = ctx.fresh_int("n_columns")
        ctx.assume(self.n >= 1)
        self.isname = z3.Function("column_has_name", I, B)

    def py_getattr(self, ctx, name):
        if name in ("iloc", "loc"):
            return FLoc(self, name)
        if name == "columns":
            return FNames(self)
        return super().py_getattr(ctx, name)

    def m_drop(self, ctx, *a, columns=None, axis=None, **k):
        what = columns if columns is not None else (a[0] if axis in (1, "columns") else None)
        if isinstance(what, ListObj) and (self_items := ctx.interp.content(what).items()) and len(self_items) == 1:
            what = self_items[0]
        if not isinstance(what, Opaque) or what.what != "target name":
            raise Unsupported("drop")
        return Part(self, lambda j: z3.And(0 <= j, j < self.n, z3.Not(self.isname(j))))

    def py_getitem(self, ctx, k):
        return FLoc(self, "loc").py_getitem(ctx, (slice(None), k))

    def m_pop(self, ctx, k):
        raise Unsupported("pop")


class FNames(Model):
    type_name = "column names"

    def __init__(self, f, neq=None):
        self.f, self.neq = f, neq

    def py_contains(self, ctx, k):
        j = z3.Int("j!n")
        return z3.Exists([j], z3.And(0 <= j, j < self.f.n, self.f.isname(j)))

    def py_getattr(self, ctx, name):
        if name == "str":
            return FText(self.f)
        return super().py_getattr(ctx, name)

    def py_compare(self, ctx, name, other):
        if name == "NotEq":
            return FNames(self.f, True)
        if name == "Eq":
            return FNames(self.f, False)
        raise Unsupported(name)

    def py_eq(self, ctx, other):
        return FNames(self.f, False)


class FText(Model):
    """Tests of the text of the column names: the named column has the property, others may have it."""
    type_name = "text of the column names"

    def __init__(self, f):
        self.f = f

    def test(self, ctx, what, k):
        if not isinstance(k, Opaque) or k.what != "target name":
            raise Unsupported("test of the column names")
        p = z3.Function(f"name_{what}", I, B)
        j = z3.Int("j!t")
        ctx.assume(z3.ForAll([j], z3.Implies(self.f.isname(j), p(j)), patterns=[p(j)]))
        return FMask(self.f, p)

    def m_startswith(self, ctx, k):
        return self.test(ctx, "starts", k)

    def m_endswith(self, ctx, k):
        return self.test(ctx, "ends", k)

    def m_contains(self, ctx, k, **kw):
        return self.test(ctx, "contains", k)


class FMask(Model):
    type_name = "choice of columns"

    def __init__(self, f, p):
        self.f, self.p = f, p

    def py_unary(self, ctx, op):
        if op != "Invert":
            raise Unsupported(op)
        return FMask(self.f, lambda j: z3.Not(self.p(j)))


class FLoc(Model):
    type_name = "loc"

    def __init__(self, f, how):
        self.f, self.how = f, how

    def py_getitem(self, ctx, k):
        f = self.f
        r, col = k
        if not full_slice(r):
            return Part(f, None)
        if self.how == "iloc":
            if isinstance(col, int):
                return Part(f, lambda j: j == (col if col >= 0 else f.n + col), one=True)
            lo, hi = (getattr(col, "lo", None), getattr(col, "hi", None)) if not isinstance(col, slice) else (col.start, col.stop)
            lo = 0 if lo is None else lo
            hi = f.n if hi is None else hi
            norm = lambda v: v if not isinstance(v, int) or v >= 0 else f.n + v
            return Part(f, lambda j: z3.And(0 <= j, j < f.n, norm(lo) <= j, j < norm(hi)))
        if isinstance(col, FNames) and col.neq is not None:
            return Part(f, lambda j: z3.And(0 <= j, j < f.n, z3.Not(f.isname(j)) if col.neq else f.isname(j)))
        if isinstance(col, FMask):
            return Part(f, lambda j: z3.And(0 <= j, j < f.n, col.p(j)))
        if isinstance(col, Opaque) and col.what == "target name":
            return Part(f, lambda j: z3.And(0 <= j, j < f.n, f.isname(j)), one=True)
        raise Unsupported("selection of columns")


class Part(Model):
    type_name = "part of the data"

    def __init__(self, f, cols, one=False):
        self.f, self.cols, self.one = f, cols, one


@PROOFS("X_y_from_file: features are all columns but the target, with all rows", covers=("last", "named", "unknown"))
def from_file(ctx):
    it = ctx.interp
    f = FileFrame(ctx)
    path = Opaque("path")
    st = {}

    def c_read(c, b):
        st["read"] = b["file_path"]
        return f
    ctx.contracts["gama.data_loading.file_to_pandas"] = c_read
    name = Opaque("target name") if ctx.choose(2) else None
    if name is not None:
        name.memo["isnone"] = False
    j = z3.Int("j!f")
    known = z3.Exists([j], z3.And(0 <= j, j < f.n, f.isname(j)))
    ctx.assumption("pandas: loc/iloc select columns; a column name is unique")
    try:
        x, y = it.unpack(it.call(it.get("gama.data_loading.X_y_from_file"), [path, name], {}), 2)
    except PyRaise as e:
        ctx.prove("only an unknown target column is refused", z3.And(z3.BoolVal(name is not None and issubclass(e.exc.cls, ValueError)), z3.Not(known)))
        ctx.cover("unknown")
        return
    ctx.prove("the file is read", st.get("read") is path and isinstance(x, Part) and isinstance(y, Part) and x.cols is not None and y.cols is not None)
    i = ctx.fresh_int("column")
    ctx.assume(z3.And(0 <= i, i < f.n))
    t = (i == f.n - 1) if name is None else f.isname(i)
    ctx.prove("the target is the named column, else the last", y.cols(i) == t)
    ctx.prove("targets are a column", y.one)
    ctx.prove("features are all columns but the target", x.cols(i) == z3.Not(t))
    if name is not None:
        ctx.prove("an unknown target column is refused", known)
    ctx.cover("last" if name is None else "named")


@PROOFS("fit, predict and score from a file use its features and its targets", covers=("fit", "predict", "predict_proba", "score"))
def whole_file(ctx):
    it = ctx.interp
    cls = ("gama.GamaClassifier.GamaClassifier", "gama.GamaRegressor.GamaRegressor")[ctx.choose(2)]
    what = ("fit", "predict", "score", "predict_proba")[ctx.choose(4 if "Classifier" in cls else 3)]
    path, name, enc, warm = Opaque("path"), Opaque("target name"), Opaque("encoding"), Opaque("warm start")
    x, y, px = Opaque("features"), Opaque("targets"), Opaque("prepared features")
    calls, read = [], []

    def c_read(c, b):
        read.append((b["file_path"], b["split_column"], b["encoding"]))
        return (x, y)
    ctx.contracts["gama.data_loading.X_y_from_file"] = c_read
    results = {k: Opaque(k) for k in ("fit", "predict", "predict_proba", "score")}

    def method(k):
        def c(cc, b):
            calls.append((k, b))
            return results[k]
        return c
    ctx.contracts["gama.gama.Gama.fit"] = ctx.contracts["gama.GamaClassifier.GamaClassifier.fit"] = method("fit")
    ctx.contracts["gama.gama.Gama.score"] = method("score")
    ctx.contracts["gama.gama.Gama._prepare_for_prediction"] = lambda c, b: px if b["x"] is x else Opaque("other")
    ctx.contracts[f"{cls}._predict"] = method("predict")
    ctx.contracts[f"{cls}._predict_proba"] = method("predict_proba")
    g = Inst(it.get(cls), {"_metrics": Opaque("metrics")}, label="gama")
    args = [path, name, enc] if ctx.choose(2) else [path]
    r = it.call(it.getattr(g, what + "_from_file"), args + ([warm] if what == "fit" and len(args) == 3 else []), {})
    ctx.prove("the named file is read once, with the named target column", len(read) == 1 and read[0][0] is path and (read[0][1] is name if len(args) == 3 else read[0][1] is None))
    ctx.prove("with the encoding asked for", read[0][2] is enc if len(args) == 3 else read[0][2] is None)
    ctx.prove("one call", len(calls) == 1 and calls[0][0] == what and calls[0][1]["self"] is g)
    b = calls[0][1]
    if what in ("fit", "score"):
        ctx.prove("with the features and targets of the file", b["x"] is x and b["y"] is y)
        if what == "score":
            ctx.prove("the score is returned", r is results[what])
        elif len(args) == 3:
            more = list(b.get("args") or ()) + [b.get("warm_start")] + [v for k, v in (b["kwargs"].pairs if isinstance(b.get("kwargs"), DictObj) else ()) if k == "warm_start"]
            ctx.prove("and the individuals to start with", any(m is warm for m in more))
    else:
        ctx.prove("for the encoded features of the file", b["x"] is px)
        ctx.prove("the predictions are returned", r is results[what])
    ctx.cover(what)

"""C17: every categorical column is encoded exactly once, the rest unchanged."""
import z3
from pyvc.driver import *
from pyvc.engine import Env
from pyvc.interp import _Return

PROOFS = Registry()
PP = "gama.utilities.preprocessing"
I, B = z3.IntSort(), z3.BoolSort()


class Frame(Model):
    """Columns 0..n-1: cat(j), number of different values nuniq(j) (missing not counted), some missing: miss(j)."""
    type_name = "frame"

    def __init__(self, ctx, tag=""):
        self.n = z3.Int("n_columns" + tag)
        ctx.assume(self.n >= 0)
        self.cat = z3.Function("categorical" + tag, I, B)
        self.nuniq = z3.Function("n_categories" + tag, I, I)
        self.miss = z3.Function("has_missing" + tag, I, B)
        j = z3.Int("j!f")
        ctx.assume(z3.ForAll([j], self.nuniq(j) >= 0, patterns=[self.nuniq(j)]))

    def py_content(self, ctx):
        return FnC(self.n, lambda c, j: Name(self, j))

    def py_getattr(self, ctx, name):
        if name == "columns":
            return ListObj(self.py_content(ctx))
        return super().py_getattr(ctx, name)

    def m_items(self, ctx):
        return ListObj(FnC(self.n, lambda c, j: (Name(self, j), Col(self, to_z3(j)))), kind="iter")

    def py_getitem(self, ctx, k):
        if isinstance(k, Name) and k.f is self:
            return Col(self, k.j)
        raise Unsupported("selection from a frame")


class Name(Model):
    type_name = "column name"

    def __init__(self, f, j):
        self.f, self.j = f, to_z3(j)

    def py_eq(self, ctx, o):
        return simp(self.j == o.j) if isinstance(o, Name) else False


class Col(Model):
    type_name = "column"

    def __init__(self, f, j):
        self.f, self.j = f, j

    def py_getattr(self, ctx, name):
        if name == "dtype":
            return Dtype(self)
        return super().py_getattr(ctx, name)

    def m_nunique(self, ctx, dropna=True):
        n = self.f.nuniq(self.j)
        return simp(z3.If(truth(ctx.truthy(dropna)), n, n + z3.If(self.f.miss(self.j), 1, 0)))


class Dtype(Model):
    type_name = "dtype"

    def __init__(self, c):
        self.c = c

    def py_isinstance(self, ctx, t):
        if getattr(t, "path", "").endswith("CategoricalDtype"):
            return self.c.f.cat(self.c.j)
        raise Unsupported("type of a dtype")

    def py_eq(self, ctx, o):
        return self.c.f.cat(self.c.j) if o == "category" else ctx.fresh_bool("dtype")

    def py_getattr(self, ctx, name):
        if name == "name":
            return self
        return super().py_getattr(ctx, name)


def wanted(f, j, lo, hi, ignore):
    n = f.nuniq(j) + z3.If(truth(ignore), 0, z3.If(f.miss(j), 1, 0))
    return z3.And(0 <= j, j < f.n, f.cat(j), z3.BoolVal(True) if lo is None else to_z3(lo) <= n, z3.BoolVal(True) if hi is None else n <= to_z3(hi))


@PROOFS("select_categorical_columns yields each categorical column with that many categories once", covers=("done",))
def select(ctx):
    it = ctx.interp
    f = Frame(ctx)
    lo = (None, z3.Int("min_f"))[ctx.choose(2)]
    hi = (None, z3.Int("max_f"))[ctx.choose(2)]
    ign = (True, False)[ctx.choose(2)]
    g = it.get(f"{PP}.select_categorical_columns")
    st = {"Y": z3.K(I, z3.IntVal(0)), "last": z3.IntVal(-1)}

    def on_yield(v):
        if not isinstance(v, Name) or v.f is not f:
            raise Unsupported("yields something else")
        ctx.prove("columns are yielded in order", st["last"] < v.j)
        st["Y"] = z3.Store(st["Y"], v.j, z3.Select(st["Y"], v.j) + 1)
        st["last"] = v.j

    def havoc(c, env, k):
        st["Y"] = c.fresh_const("yielded", z3.ArraySort(I, I))
        st["last"] = c.fresh_int("last")

    def inv(c, env, k):
        j = z3.Int("j!y")
        k = to_z3(k)
        return [("yielded so far", z3.ForAll([j], z3.Select(st["Y"], j) == z3.If(z3.And(0 <= j, j < k, wanted(f, j, lo, hi, ign)), 1, 0))), ("in order", st["last"] < k)]
    ctx.loop_specs.append(LoopSpec(g.qualname, lambda *a: True, havoc, inv, label="columns"))
    env = Env(parent=g.env, module=g.module)
    env.vars.update(it.bind(g, [f], {"min_f": lo, "max_f": hi, "ignore_nan": ign}))
    env.func = g
    ctx.result.functions.add(g.qualname)
    ctx.yield_stack.append(("collect", on_yield))
    it.fn_stack.append(g)
    try:
        it.exec_block(g.node.body, env)
    except _Return:
        pass
    finally:
        it.fn_stack.pop()
        ctx.yield_stack.pop()
    j = ctx.fresh_int("column")
    ctx.prove("exactly the categorical columns with that many categories are selected, once", z3.Select(st["Y"], j) == z3.If(wanted(f, j, lo, hi, ign), 1, 0))
    ctx.cover("done")


class Cols(FnC):
    """The columns yielded by select_categorical_columns (its contract)."""

    def __init__(self, ctx, f, lo, hi, ign):
        n = ctx.fresh_int("n_selected")
        ctx.assume(n >= 0)
        at = ctx.fresh_fun("selected", I, I)
        super().__init__(n, lambda c, i: Name(f, at(to_z3(i))))
        self.pred = lambda j: wanted(f, j, lo, hi, ign)
        self.f = f


def count(content, j):
    """How often column j occurs in a list of columns."""
    if isinstance(content, Cols):
        return z3.If(content.pred(j), 1, 0)
    if isinstance(content, Concat):
        return sum((count(p, j) for p in content.parts), z3.IntVal(0))
    items = content.items()
    if items == []:
        return z3.IntVal(0)
    raise Unsupported("list of columns")


class Encoder(Model):
    def __init__(self, kind, cols, kw):
        self.kind, self.cols, self.kw = kind, cols, kw
        self.type_name = kind


def encoders(ctx):
    it = ctx.interp
    made = []

    def c_select(c, b):
        return ListObj(Cols(c, b["df"], b["min_f"], b["max_f"], b["ignore_nan"]), kind="iter")
    ctx.contracts[f"{PP}.select_categorical_columns"] = c_select

    def mk(kind):
        def f(c, verbose=0, mapping=None, cols=None, **kw):
            if cols is None:
                raise Unsupported("encoder that chooses its own columns")
            e = Encoder(kind, it.content(cols), kw)
            made.append(e)
            return e
        return f
    for kind in ("OrdinalEncoder", "OneHotEncoder", "TargetEncoder"):
        ctx.externals[f"category_encoders.{kind}"] = mk(kind)
    ctx.externals["sklearn.impute.SimpleImputer"] = lambda c, **kw: Encoder("SimpleImputer", Conc([]), kw)
    ctx.assumption("category_encoders: an encoder encodes the columns it is given and no other (dropping columns that do not vary in training), also for "
                   "unknown or missing categories unless told to raise; encoded columns are numeric")
    return made


class Pipe(Model):
    type_name = "Pipeline"

    def __init__(self, steps, st):
        self.steps, self.st = steps, st

    def m_fit_transform(self, ctx, x, y=None):
        self.st["fitted"] = (self, x, y)
        self.st["out"] = Opaque("encoded")
        return self.st["out"]


def steps_of(ctx, it, v):
    items = it.content(v).items()
    if items is None or not all(isinstance(s, tuple) and len(s) == 2 for s in items):
        raise Unsupported("steps")
    return items


@PROOFS("basic_encoding and basic_pipeline_extension encode each categorical column exactly once", covers=("classification", "regression"))
def encoding(ctx):
    it = ctx.interp
    f = Frame(ctx)
    made = encoders(ctx)
    st = {}
    ctx.externals["sklearn.pipeline.Pipeline"] = lambda c, steps, **k: Pipe(steps, st)
    cls = bool(ctx.choose(2))
    x_enc, pipe = it.unpack(it.call(it.get(f"{PP}.basic_encoding"), [f, cls], {}), 2)
    ctx.prove("the encoded data and the fitted encoding are returned", isinstance(pipe, Pipe) and st.get("fitted", (None, None))[0] is pipe and st["fitted"][1] is f and x_enc is st["out"])
    first = [e for _, e in steps_of(ctx, it, pipe.steps)]
    # the encoded frame: encoded columns are not categorical any more, the others as they were
    g = Frame(ctx, "_encoded")
    j = ctx.fresh_int("column")
    ctx.assume(z3.And(0 <= j, j < f.n))
    occ = lambda k: sum((count(e.cols, j) for e in first if e.kind == k), z3.IntVal(0))
    total1 = sum((count(e.cols, j) for e in first), z3.IntVal(0))
    ctx.assume(z3.And(g.n > j, g.cat(j) == z3.And(f.cat(j), total1 == 0), g.nuniq(j) == f.nuniq(j)))
    ext = steps_of(ctx, it, it.call(it.get(f"{PP}.basic_pipeline_extension"), [g, cls], {}))
    second = [e for _, e in ext]
    n2 = sum((count(e.cols, j) for e in second), z3.IntVal(0))
    n = f.nuniq(j)
    ctx.prove("each categorical column is encoded exactly once", z3.Implies(f.cat(j), total1 + n2 == 1))
    ctx.prove("other columns are not encoded", z3.Implies(z3.Not(f.cat(j)), total1 + n2 == 0))
    ctx.prove("one-hot encoding for three to ten categories, only", occ("OneHotEncoder") == z3.If(z3.And(f.cat(j), n >= 3, n <= 10), 1, 0))
    ctx.prove("integer codes for up to two categories", z3.Implies(z3.And(f.cat(j), n <= 2), occ("OrdinalEncoder") == 1))
    if cls:
        ctx.prove("integer codes for more than ten categories", z3.Implies(z3.And(f.cat(j), n >= 11), occ("OrdinalEncoder") == 1))
        ctx.prove("no encoding by the target for classification", not any(e.kind == "TargetEncoder" for e in first + second))
    else:
        t = sum((count(e.cols, j) for e in second if e.kind == "TargetEncoder"), z3.IntVal(0))
        ctx.prove("more than ten categories: encoded by the target, within the pipeline", z3.Implies(z3.And(f.cat(j), n >= 11), t == 1))
    for e in first + second:
        ctx.prove("unknown or missing categories do not raise", all(e.kw.get(k) not in ("error", "return_nan") or (k, e.kw.get(k)) == ("handle_missing", "return_nan") for k in ("handle_unknown", "handle_missing")))
    ctx.prove("missing values are imputed at the end", len(second) > 0 and second[-1].kind == "SimpleImputer" and not any(e.kind == "SimpleImputer" for e in first + second[:-1]))
    names = [s for s, _ in ext]
    ctx.prove("steps have different names", len(set(names)) == len(names))
    ctx.cover("classification" if cls else "regression")


from contracts.c16 import fit as _fit
PROOFS("Gama.fit encodes once and gives the further preprocessing to every pipeline", covers=("done",), timeout=100)(_fit)

"""C19: compiled and exported pipelines equal the individual they come from.

Individuals are arbitrary well-formed chains (contracts/gp.py). Contracts
  primitive_node_to_sklearn(node)   the node's class called with exactly its values
  compile_individual                fixed steps, then the components from data to estimator
  format_hyperparameter_value, Terminal.__str__, PrimitiveNode.str_nonrecursive
                                    text `Class(name=value, ...)` with exactly the values
  imports_and_steps_for_individual, format_pipeline, BestFitPostProcessing.to_code,
  EnsemblePostProcessing.to_code, Gama.export_script
                                    the same steps, in order, and imports of what they use
That evaluating `Class(name=value)` calls the class with that value is Python semantics (assumed).
"""
import ast
import z3
from pyvc.driver import *
from contracts.gp import *

PROOFS = Registry()
SK = f"{GP}.compilers.scikitlearn"
EX = "gama.utilities.export"


class ClassOf(Model):
    type_name = "component class"

    def __init__(self, w, prim):
        self.w, self.prim = w, prim

    def py_call_mapping(self, ctx, m):
        return self.w.construct(ctx, self, m)

    def py_call(self, ctx, args, kwargs):
        raise Unsupported("component constructed with fixed arguments")

    def py_getattr(self, ctx, name):
        if name in ("__name__", "__module__"):
            return Txt(name, self.prim)
        raise Unsupported(f"class.{name}")


class Mapping(Model):
    type_name = "mapping"

    def __init__(self, content):
        self.c = content

    def py_dict_copy(self, ctx):
        return Mapping(self.c)


class Txt(Opaque):
    """A piece of text, identified by how it is made."""

    def __init__(self, how, of):
        super().__init__(f"{how} text")
        self.how, self.of = how, of


class Comp(Model):
    """The component constructed for node i of the chain."""

    type_name = "component"

    def __init__(self, i):
        self.i = i

    def py_getattr(self, ctx, name):
        raise Unsupported(f"component.{name}")


class World:
    def __init__(self, ctx):
        self.ctx = ctx
        it = ctx.interp
        sp = self.sp = Space(ctx, axioms=False)
        self.Out = Schema("Out")
        self.out = z3.Function("t_output", sp.Tm.sort, self.Out.sort)
        sp.Tm.attrs["output"] = lambda c, e: Term(self.out(e), self.Out)
        sp.Prim.attrs["identifier"] = lambda c, e: ClassOf(self, e)
        use_contracts(ctx, sp)
        self.ch = Chain(ctx, sp, "ind", wf=False)
        ctx.assume(self.ch.L >= 1)
        i = z3.Int("i!w")
        ctx.assume(z3.ForAll([i], self.ch.nt(i) >= 0, patterns=[self.ch.nt(i)]))
        self.ind = self.ch.individual("individual")
        ctx.dict_from_content = lambda c, ct: Mapping(ct)
        ctx.str_hook = lambda c, v: Txt("str", v) if not isinstance(v, str) else None
        ctx.repr_hook = lambda c, v: Txt("repr", v)

    def node_of(self, v):
        if isinstance(v, Obj) and v.fam is self.ch.fam:
            return to_z3(v.idx)
        raise Unsupported("another node")


def shape(ok):
    """The text is written in another way: not decided here (run-time contracts execute it)."""
    if not ok:
        raise Unsupported("other form of the text")


def eq(ctx, a, b):
    return ctx._discharge(simp(to_z3(a) == to_z3(b)))[0] == "proved" if a is not None else False


@PROOFS("primitive_node_to_sklearn constructs the component with exactly its values", covers=("done",))
def construct(ctx):
    it = ctx.interp
    w = World(ctx)
    ch = w.ch
    i = ctx.fresh_int("node")
    ctx.assume(z3.And(0 <= i, i < ch.L))
    made = []

    def con(c, cls, m):
        if not isinstance(m, Mapping):
            raise Unsupported("arguments")
        c.prove("the component's own class", cls.prim == ch.prim(i))
        c.prove("one argument per hyperparameter", to_z3(m.c.length(c)) == ch.nt(i))
        j = c.fresh_int("j")
        c.assume(z3.And(0 <= j, j < ch.nt(i)))
        k, v = it.unpack(m.c.at(c, j), 2)
        c.prove("each argument is a hyperparameter with its value", isinstance(k, Term) and isinstance(v, Term) and z3.And(k.expr == w.out(ch.term(i, j)), v.expr == w.sp.val(ch.term(i, j))))
        made.append(Comp(i))
        return made[-1]
    w.construct = con
    r = it.call(it.get(f"{SK}.primitive_node_to_sklearn"), [ch.node(i)], {})
    ctx.prove("the constructed component is returned", len(made) == 1 and r is made[0])
    frame(ctx, "compiling modifies nothing")
    ctx.cover("done")


class Pre:
    """Fixed preprocessing: steps 0..n-1."""

    def __init__(self, ctx):
        self.n = z3.Int("n_fixed")
        ctx.assume(self.n >= 0)
        self.list = ListObj(FnC(self.n, lambda c, k: (PName(to_z3(k)), PStep(to_z3(k)))), label="fixed steps")


class PName(Model):
    type_name = "name"

    def __init__(self, k):
        self.k = k


class PStep(Model):
    type_name = "transformer"

    def __init__(self, k):
        self.k = k


class Pipe(Model):
    type_name = "Pipeline"

    def __init__(self, steps):
        self.steps = steps

    def py_getattr(self, ctx, name):
        if name == "steps":
            return self.steps
        raise Unsupported(f"pipeline.{name}")


@PROOFS("compile_individual: fixed steps, then the components in order", covers=("with", "without"))
def compiling(ctx):
    it = ctx.interp
    w = World(ctx)
    ch = w.ch
    ctx.contracts[f"{SK}.primitive_node_to_sklearn"] = lambda c, b: Comp(w.node_of(b["primitive_node"]))
    ctx.externals["sklearn.pipeline.Pipeline"] = lambda c, steps, **k: Pipe(steps) if not k else it._unsup("options")
    pre = Pre(ctx)
    which = ctx.choose(3)
    args = [w.ind] if which == 2 else [w.ind, None, (None, pre.list)[which]]
    r = it.call(it.get(f"{SK}.compile_individual"), args, {})
    if not isinstance(r, Pipe):
        ctx.fail("a pipeline is returned")
    n = pre.n if which == 1 else z3.IntVal(0)
    c = it.content(r.steps)
    ctx.prove("one step per component and fixed step", to_z3(c.length(ctx)) == n + ch.L)
    k = ctx.fresh_int("step")
    ctx.assume(z3.And(0 <= k, k < n + ch.L))
    name, s = it.unpack(c.at(ctx, k), 2)
    if ctx.branch(k < n):
        ctx.prove("fixed preprocessing comes first, in order", isinstance(s, PStep) and isinstance(name, PName) and z3.And(s.k == k, name.k == k))
        ctx.cover("with")
    else:
        ctx.prove("the components follow, from the data to the estimator", isinstance(s, Comp) and s.i == ch.L - 1 - (k - n))
        ctx.prove("steps are named by their position", isinstance(name, Txt) and name.how == "str" and eq(ctx, name.of, s.i))
        ctx.cover("without")
    ctx.prove("the given steps are not modified", isinstance(pre.list.content, FnC) and not any(o is pre.list for o, *_ in ctx.mutlog))
    frame(ctx, "compiling modifies nothing")


@PROOFS("Individual.pipeline compiles the individual itself", covers=("compiled", "refused"))
def pipeline(ctx):
    it = ctx.interp
    w = World(ctx)
    got = []
    if ctx.choose(2) == 0:
        res = Opaque("pipeline")
        w.ind.attrs["_to_pipeline"] = Builtin("to_pipeline", lambda c, *a, **k: got.append((a, k)) or res)
        r = it.getattr(w.ind, "pipeline")
        ctx.prove("compiled once, from itself", len(got) == 1 and got[0][0] == (w.ind,) and not got[0][1] and r is res)
        ctx.cover("compiled")
        return
    w.ind.attrs["_to_pipeline"] = None
    try:
        it.getattr(w.ind, "pipeline")
    except PyRaise as e:
        ctx.prove("refused without a compiler", issubclass(e.exc.cls, AttributeError))
        ctx.cover("refused")
        return
    ctx.fail("refused without a compiler")


# ------------------------------------------------------------------ text
def parts(v):
    """Flat list of pieces; neighbouring literal strings joined."""
    if isinstance(v, str):
        out = [v] if v else []
    elif type(v).__name__ == "StrCat":
        out = []
        for p in v.parts:
            out += parts(p)
    elif isinstance(v, Txt) and v.how == "str" and (isinstance(v.of, (str, Txt, lib.Join)) or type(v.of).__name__ == "StrCat"):
        out = parts(v.of)
    else:
        out = [v]
    res = []
    for p in out:
        if isinstance(p, str) and res and isinstance(res[-1], str):
            res[-1] += p
        else:
            res.append(p)
    return res


class Value(Model):
    type_name = "value"

    def __init__(self, ctx):
        self.isstr, self.iscall, self.hasname = z3.Bools("value_is_str value_is_callable value_has_name")

    def py_isinstance(self, ctx, t):
        if getattr(t, "name", None) == "str":
            return self.isstr
        raise Unsupported("type of a value")

    def py_callable(self, ctx):
        return self.iscall

    def py_hasattr(self, ctx, name):
        if name == "__name__":
            return self.hasname
        raise Unsupported("attribute of a value")

    def py_getattr(self, ctx, name):
        if name == "__name__":
            if not ctx.branch(self.hasname):
                raise PyRaise(ExcVal(AttributeError, ("__name__",)))
            return Txt("__name__", self)
        raise Unsupported(f"value.{name}")


@PROOFS("format_hyperparameter_value writes Python text of the value", covers=("str", "callable", "other"))
def fmt(ctx):
    it = ctx.interp
    v = Value(ctx)
    ctx.assume(z3.Not(z3.And(v.isstr, z3.Or(v.iscall, v.hasname))))
    ctx.str_hook = lambda c, x: Txt("str", x) if not isinstance(x, str) else None
    ctx.repr_hook = lambda c, x: Txt("repr", x)
    r = parts(it.call(it.get(f"{GP}.components.terminal.format_hyperparameter_value"), [v], {}))
    one = r[0] if len(r) == 1 else None
    if ctx.branch(v.isstr):
        # the text of a string is its (escaped) literal
        x = one.of if isinstance(one, Txt) and one.how == "repr" else None
        ctx.prove("strings are written as literals", x is v or isinstance(x, Txt) and x.how == "str" and x.of is v)
        ctx.cover("str")
    elif ctx.branch(z3.And(v.iscall, v.hasname)):
        ctx.prove("functions and classes are written by name", isinstance(one, Txt) and one.how == "__name__" and one.of is v)
        ctx.cover("callable")
    else:
        ctx.prove("other values are written as they print", one is v or isinstance(one, Txt) and one.how in ("str", "repr") and one.of is v)
        ctx.cover("other")


def text_world(ctx):
    w = World(ctx)
    ctx.contracts[f"{GP}.components.terminal.format_hyperparameter_value"] = lambda c, b: Txt("value", b["value"])
    return w


@PROOFS("Terminal text names the hyperparameter and its value", covers=("str", "repr"))
def terminal_text(ctx):
    it = ctx.interp
    w = text_world(ctx)
    t = z3.Const("t", w.sp.Tm.sort)
    cls = it.get(f"{GP}.components.terminal.Terminal")
    which = ("__str__", "__repr__")[ctx.choose(2)]
    f = cls.lookup(which)[0]
    p = parts(it.call(f, [Term(t, w.sp.Tm)], {}))
    ok = len(p) == 3 and p[1] == "=" and isinstance(p[2], Txt) and p[2].how == "value" and isinstance(p[2].of, Term)
    shape(ok)
    ctx.prove("of the terminal's own value", p[2].of.expr == w.sp.val(t))
    n = p[0]
    ctx.prove("the hyperparameter is named", isinstance(n, Term) and z3.eq(n.expr, w.out(t) if which == "__str__" else w.sp.ident(t)))
    ctx.cover(which.strip("_"))


def join_part(ctx, p, sep):
    if isinstance(p, lib.Join) and p.sep == sep:
        return p.jcontent
    return None


@PROOFS("str_nonrecursive writes the component with exactly its values", covers=("done",))
def nonrec(ctx):
    it = ctx.interp
    w = text_world(ctx)
    ch = w.ch
    i = ctx.fresh_int("node")
    ctx.assume(z3.And(0 <= i, i < ch.L))
    p = parts(it.getattr(ch.node(i), "str_nonrecursive"))
    shape(len(p) == 4 and p[1] == "(" and p[3] == ")")
    ctx.prove("of the node's component", isinstance(prim_of(p[0]), Term) and prim_of(p[0]).expr == ch.prim(i))
    c = join_part(ctx, p[2], ", ")
    shape(c is not None)
    ctx.prove("one argument per hyperparameter", to_z3(c.length(ctx)) == ch.nt(i))
    j = ctx.fresh_int("j")
    ctx.assume(z3.And(0 <= j, j < ch.nt(i)))
    a = c.at(ctx, j)
    ctx.prove("each argument is a hyperparameter with its value", isinstance(a, Txt) and a.how == "str" and isinstance(a.of, Term) and a.of.expr == ch.term(i, j))
    ctx.cover("done")


def prim_of(v):
    while isinstance(v, Txt) and v.how == "str":
        v = v.of
    return v


@PROOFS("Primitive text is the name of its class", covers=("done",))
def prim_text(ctx):
    it = ctx.interp
    w = text_world(ctx)
    p = z3.Const("p", w.sp.Prim.sort)
    cls = it.get(f"{GP}.components.primitive.Primitive")
    r = parts(it.call(cls.lookup("__str__")[0], [Term(p, w.sp.Prim)], {}))
    ctx.prove("class name", len(r) == 1 and isinstance(r[0], Txt) and r[0].how == "__name__" and z3.eq(r[0].of, p))
    ctx.cover("done")


# ------------------------------------------------------------------ export
class Module(Model):
    """A module path of n >= 1 pieces."""

    type_name = "module path"

    def __init__(self, ctx):
        self.n = z3.Int("n_pieces")
        self.private = z3.Function("piece_is_private", I, B)
        ctx.assume(self.n >= 1)

    def m_split(self, ctx, sep=None):
        if sep != ".":
            raise Unsupported("other separator")
        return ctx.interp.new_list(FnC(self.n, lambda c, k: ModPiece(self, to_z3(k))))


class ModPiece(Model):
    type_name = "piece"

    def __init__(self, m, k):
        self.m, self.k = m, k

    def m_startswith(self, ctx, s):
        if s != "_":
            raise Unsupported("other prefix")
        return self.m.private(self.k)


class Obj_(Model):
    type_name = "object"

    def __init__(self, ctx):
        self.mod = Module(ctx)

    def py_getattr(self, ctx, name):
        if name == "__module__":
            return self.mod
        if name == "__class__":
            return self
        if name == "__name__":
            return Txt("class name", self)
        raise Unsupported(f"object.{name}")

    def py_type(self, ctx):
        return self


@PROOFS("format_import imports the object's class from its public module", covers=("private", "public"))
def imp(ctx):
    it = ctx.interp
    o = Obj_(ctx)
    p = parts(it.call(it.get(f"{EX}.format_import"), [o], {}))
    shape(len(p) == 4 and p[0] == "from " and p[2] == " import " and isinstance(p[3], Txt) and p[3].of is o)
    m = p[1]
    if ctx.branch(o.mod.private(o.mod.n - 1)):
        c = join_part(ctx, m, ".")
        ctx.prove("a private module is imported from its package", c is not None)
        ctx.prove("all but the last piece", to_z3(c.length(ctx)) == o.mod.n - 1)
        k = ctx.fresh_int("k")
        ctx.assume(z3.And(0 <= k, k < o.mod.n - 1))
        x = c.at(ctx, k)
        ctx.prove("in order", isinstance(x, ModPiece) and x.k == k)
        ctx.cover("private")
    else:
        ctx.prove("the module itself", m is o.mod)
        ctx.cover("public")


class Prefix(FnC):
    def __init__(self, ctx, orig):
        n = ctx.fresh_int("n_before")
        ctx.assume(n >= 0)
        self.orig = orig
        super().__init__(n, lambda c, k: Opaque("earlier element"))


class ValueImports(FnC):
    """Imports of the named values of all nodes."""

    def __init__(self, ctx):
        n = ctx.fresh_int("n_imports")
        ctx.assume(n >= 0)
        super().__init__(n, lambda c, k: Opaque("import"))


def added(content, prefix):
    if content is prefix:
        return []
    if isinstance(content, Concat) and content.parts[0] is prefix:
        return list(content.parts[1:])
    raise Unsupported("list in the loop")


def grown(loop):
    """Names of the lists the body of a loop adds to."""
    r = set()
    for n in ast.walk(loop):
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and n.func.attr in ("append", "extend", "insert", "add", "update"):
            r.add(n.func.value.id)
        if isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name):
            r.add(n.target.id)
    return r


def is_import_of(p, module, name):
    p = parts(p)
    return len(p) == 4 and p[0] == "from " and p[2] == " import " and isinstance(p[1], Txt) and p[1].how == "__module__" and p[1].of is module and isinstance(p[3], Txt) and p[3].how == "__name__" and p[3].of is name


def export_world(ctx):
    it = ctx.interp
    w = World(ctx)
    ch, sp = w.ch, w.sp
    iscall, hasname = z3.Function("v_callable", sp.Val.sort, B), z3.Function("v_has_name", sp.Val.sort, B)
    sp.Val.attrs = {"callable": lambda c, e: iscall(e), "has:__name__": lambda c, e: hasname(e), "has:__module__": lambda c, e: hasname(e),
                    "__name__": lambda c, e: VTxt("__name__", e), "__module__": lambda c, e: VTxt("__module__", e)}
    w.named = lambda t: z3.And(iscall(sp.val(t)), hasname(sp.val(t)))
    ctx.contracts[f"{IND}.pipeline"] = lambda c, b: Pipe(ListObj(FnC(ch.L, lambda cc, k: (Txt("str", simp(ch.L - 1 - to_z3(k))), Comp(simp(ch.L - 1 - to_z3(k)))))))
    ctx.contracts[f"{EX}.format_import"] = lambda c, b: Txt("import", b["o"])
    ctx.contracts[f"{NODE}.str_nonrecursive"] = lambda c, b: Txt("node", w.node_of(b["self"]))
    st = {"phase": 0, "lists": []}
    w.loop = st

    def element(ct):
        """(position, node) pairs or nodes, one per node of the chain, in any order."""
        x = ct.at(ctx, z3.Int("probe"))
        n = x[1] if isinstance(x, tuple) and len(x) == 2 else x
        return isinstance(n, Obj) and n.fam is ch.fam

    def match(itp, node, v, env):
        return element(it.content(v))

    def havoc(c, env, k):
        if not st["lists"]:
            # lists the loop adds to: an empty one becomes the list of steps, another has the imports so far
            st["lists"] = [[v, v.content] for n, v in env.vars.items() if isinstance(v, ListObj) and v.kind == "list" and n in st["names"]]
        for rec in st["lists"]:
            p = Prefix(c, rec[1])
            rec[2:] = [p]
            it.lib.set_content(it, rec[0], p)

    def inv(c, env, k):
        st["phase"] += 1
        if st["phase"] != 3:
            return []
        i = st["node"]
        for rec in st["lists"]:
            ad = added(rec[0].content, rec[2])
            if not ad:
                c.prove("each component gives one step" if rec[1].items() == [] else "values are imported", False)
            elif len(ad) == 1 and ad[0].items() is not None and len(ad[0].items()) == 1 and isinstance(ad[0].items()[0], tuple) and rec[1].items() == []:
                n, t = ad[0].items()[0]
                # the k-th step is the (L-1-k)-th component
                c.prove("steps go from the data to the estimator", i == ch.L - 1 - st["k"])
                c.prove("the step is the component with its values", isinstance(t, Txt) and t.how == "node" and eq(c, t.of, i))
                c.prove("the step is named by its position", isinstance(n, Txt) and n.how == "str" and eq(c, n.of, i))
            elif len(ad) == 1 and isinstance(ad[0], FilterC) and rec[1].items() != []:
                f = ad[0]
                c.prove("the values of the node are looked at", to_z3(f.base.length(c)) == ch.nt(i))
                j = c.fresh_int("j")
                c.assume(z3.And(0 <= j, j < ch.nt(i)))
                t = f.base.at(c, j)
                c.prove("each value of the node is looked at", isinstance(t, Term) and t.expr == ch.term(i, j))
                want = c.branch(w.named(ch.term(i, j)))
                c.prove("functions and classes used as values are imported, only", c.test(f.pred(c, t)) == want)
                if want:
                    x = parts(f.fn(c, t) if f.fn else t)
                    c.prove("import of the value", len(x) == 4 and x[0] == "from " and x[2] == " import " and isinstance(x[1], VTxt) and x[1].how == "__module__" and isinstance(x[3], VTxt) and x[3].how == "__name__"
                            and z3.And(x[1].of == sp.val(ch.term(i, j)), x[3].of == sp.val(ch.term(i, j))))
            else:
                raise Unsupported("list in the loop")
        return []

    class Spec(LoopSpec):
        def run(self, itp, node, iterable, env):
            ct = itp.content(iterable)
            ctx.prove("one step per component", to_z3(ct.length(ctx)) == ch.L)
            at = ct.at

            def spy(cc, k):
                r = at(cc, k)
                n = r[1] if isinstance(r, tuple) else r
                st["node"] = to_z3(n.idx)
                st["k"] = to_z3(k)
                cc.assume(z3.And(0 <= st["node"], st["node"] < ch.L))
                return r
            ct.at = spy
            st["names"] = grown(node)
            if not st["names"]:
                raise Unsupported("loop over the components which adds to no list")
            super().run(itp, node, iterable, env)
            # after the loop: what an arbitrary iteration adds, for every node
            for rec in st["lists"]:
                if rec[1].items() == []:
                    it.lib.set_content(it, rec[0], FnC(ch.L, lambda c, k: (Txt("str", simp(ch.L - 1 - to_z3(k))), Txt("node", simp(ch.L - 1 - to_z3(k))))))
                else:
                    it.lib.set_content(it, rec[0], it.lib.concat(rec[1], ValueImports(ctx)))
    ctx.loop_specs.append(Spec(None, match, havoc, inv, label="steps"))
    return w


class VTxt(Txt):
    pass


def imported(ctx, it, content, w, fixed=None):
    """Prove that a collection of import statements has everything the steps use."""
    ps = content.parts if isinstance(content, Concat) else [content]
    lits = [x for p in ps if p.items() is not None for x in p.items()]
    ctx.prove("Pipeline is imported", "from sklearn.pipeline import Pipeline" in lits)
    ctx.prove("nan is imported", "from numpy import nan" in lits)
    ok = []
    for p in ps:
        if isinstance(p, MapC):
            k = ctx.fresh_int("k")
            n = p.length(ctx)
            ctx.assume(z3.And(0 <= k, k < n))
            x = p.at(ctx, k)
            if isinstance(x, Txt) and x.how == "import" and isinstance(x.of, Comp) and ctx._discharge(z3.And(to_z3(n) == w.ch.L, x.of.i == w.ch.L - 1 - k))[0] == "proved":
                ok.append("components")
            if fixed is not None and isinstance(x, Txt) and x.how == "import" and isinstance(x.of, PStep) and ctx._discharge(z3.And(to_z3(n) == fixed.n, x.of.k == k))[0] == "proved":
                ok.append("fixed")
    ctx.prove("every component is imported", "components" in ok)
    ctx.prove("functions and classes used as values are imported", any(isinstance(p, ValueImports) for p in ps))
    if fixed is not None:
        ctx.prove("every fixed step is imported", "fixed" in ok)


@PROOFS("imports_and_steps_for_individual: the same steps, and imports of what they use", covers=("done",), timeout=60)
def imports_steps(ctx):
    it = ctx.interp
    w = export_world(ctx)
    ch = w.ch
    r = it.call(it.get(f"{EX}.imports_and_steps_for_individual"), [w.ind], {})
    imports, steps = it.unpack(r, 2)
    c = it.content(steps)
    ctx.prove("one step per component", to_z3(c.length(ctx)) == ch.L)
    k = ctx.fresh_int("step")
    ctx.assume(z3.And(0 <= k, k < ch.L))
    n, t = it.unpack(c.at(ctx, k), 2)
    ctx.prove("components from the data to the estimator", isinstance(t, Txt) and t.how == "node" and eq(ctx, t.of, ch.L - 1 - k))
    ctx.prove("names differ", isinstance(n, Txt) and eq(ctx, n.of, ch.L - 1 - k))
    imported(ctx, it, it.content(imports), w)
    ctx.cover("done")


def code_world(ctx):
    """imports_and_steps_for_individual and transformers_to_str through their contracts."""
    it = ctx.interp
    w = World(ctx)
    ch = w.ch
    w.asked = []

    def ias(c, b):
        i = b["individual"]
        w.asked.append(i)
        imports = Concat([Conc(["from numpy import nan", "from sklearn.pipeline import Pipeline"]),
                          MapC(FnC(ch.L, lambda cc, k: Comp(simp(ch.L - 1 - to_z3(k)))), lambda cc, v: Txt("import", v)), ValueImports(c)])
        steps = FnC(ch.L, lambda cc, k: (Txt("str", simp(ch.L - 1 - to_z3(k))), Txt("node", simp(ch.L - 1 - to_z3(k)))))
        return (it.new_list(imports, kind="set"), it.new_list(steps))
    for mod in (EX, "gama.postprocessing.best_fit", "gama.postprocessing.ensemble"):
        ctx.contracts[f"{mod}.imports_and_steps_for_individual"] = ias
    ctx.contracts[f"{EX}.format_import"] = lambda c, b: Txt("import", b["o"])
    ctx.contracts[f"{EX}.transformers_to_str"] = lambda c, b: it.new_list(MapC(it.content(b["transformers"]), lambda cc, v: Txt("transformer", v)))
    w.pre = Pre(ctx)
    return w


def quoted(p):
    """("('", name, "', ", step, ")") -> (name, step)"""
    p = parts(p)
    if len(p) == 5 and p[0] == "('" and p[2] == "', " and p[4] == ")":
        return p[1], p[3]
    if len(p) == 3 and isinstance(p[0], str) and p[0].startswith("('") and p[0].endswith("', ") and p[2] == ")":
        return p[0][2:-3], p[1]
    if len(p) == 1 and isinstance(p[0], str) and p[0].startswith("('") and "', " in p[0]:
        return tuple(p[0][2:-1].split("', ", 1))
    return None


def pipeline_steps(ctx, w, content, n):
    """The text lists the fixed steps, then the components."""
    ch = w.ch
    ctx.prove("one step per component and fixed step", to_z3(content.length(ctx)) == n + ch.L)
    k = ctx.fresh_int("step")
    ctx.assume(z3.And(0 <= k, k < n + ch.L))
    q = quoted(content.at(ctx, k))
    shape(q is not None)
    name, s = q
    if ctx.branch(k < n):
        ctx.prove("fixed preprocessing comes first, in order", isinstance(s, Txt) and s.how == "transformer" and isinstance(s.of, PStep) and isinstance(name, PName) and z3.And(s.of.k == k, name.k == k))
    else:
        ctx.prove("the components follow, from the data to the estimator", isinstance(s, Txt) and s.how == "node" and eq(ctx, s.of, ch.L - 1 - (k - n)))
        ctx.prove("steps are named by their position", isinstance(prim_of(name), z3.ExprRef) and eq(ctx, prim_of(name), ch.L - 1 - (k - n)))


@PROOFS("BestFitPostProcessing.to_code exports the selected pipeline", covers=("with", "without", "refused"), timeout=60)
def best_fit(ctx):
    it = ctx.interp
    w = code_world(ctx)
    cls = it.get("gama.postprocessing.best_fit.BestFitPostProcessing")
    b = Inst(cls, {"_selected_individual": w.ind, "_time_fraction": Opaque("t"), "_hyperparameters": DictObj([])}, label="post-processing")
    which = ctx.choose(3)
    if which == 2:
        b.attrs["_selected_individual"] = None
        try:
            it.call(it.getattr(b, "to_code"), [None], {})
        except PyRaise as e:
            ctx.prove("refused before fitting", issubclass(e.exc.cls, RuntimeError))
            ctx.cover("refused")
            return
        ctx.fail("refused before fitting")
    p = parts(it.call(it.getattr(b, "to_code"), [(None, w.pre.list)[which]], {}))
    shape(len(p) == 4 and p[1] == "\n\npipeline = Pipeline([" and p[3] == "])\n")
    imp_, st = join_part(ctx, p[0], "\n"), join_part(ctx, p[2], ",\n")
    shape(imp_ is not None and st is not None)
    ctx.prove("of the selected individual", len(w.asked) == 1 and w.asked[0] is w.ind)
    n = w.pre.n if which == 1 else z3.IntVal(0)
    imported(ctx, it, unsort(imp_), w, w.pre if which == 1 else None)
    pipeline_steps(ctx, w, st, n)
    ctx.cover("with" if which else "without")


def unsort(c):
    while hasattr(c, "sorted_of"):
        c = c.sorted_of[0]
    return c


@PROOFS("post_process of the best fit fits the first pipeline of the selection on all data", covers=("done",))
def best_fit_post(ctx):
    it = ctx.interp
    w = World(ctx)
    fitted = []

    class P(Model):
        type_name = "pipeline"

        def m_fit(self, c, x, y=None):
            fitted.append((self, x, y))
            return self
    pipe = P()
    ctx.contracts[f"{IND}.pipeline"] = lambda c, b: pipe if b["self"] is w.ind else P()
    others = Inst(it.get(IND), {"_to_pipeline": Opaque("x")}, label="other")
    b = Inst(it.get("gama.postprocessing.best_fit.BestFitPostProcessing"), {"_selected_individual": None}, label="post-processing")
    x, y = Opaque("x"), Opaque("y")
    r = it.call(it.getattr(b, "post_process"), [x, y, z3.Real("timeout"), ListObj([w.ind, others])], {})
    ctx.prove("the best pipeline is fitted on all data and returned", r is pipe and fitted == [(pipe, x, y)])
    ctx.prove("the individual is remembered for export", b.attrs["_selected_individual"] is w.ind)
    ctx.cover("done")


@PROOFS("individual_to_python exports the individual", covers=("with", "without"), timeout=60)
def to_python(ctx):
    it = ctx.interp
    w = code_world(ctx)
    which = ctx.choose(2)
    ctx.sorted_hook = lambda c, v, key, reverse: it.new_list(it.content(v)) if isinstance(v, ListObj) and v.kind == "set" else None
    p = parts(it.call(it.get(f"{EX}.individual_to_python"), [w.ind] + ([w.pre.list] if which else []), {}))
    shape(len(p) == 4 and p[1] == "\n\npipeline = Pipeline([" and p[3] == "])\n")
    imp_, st = join_part(ctx, p[0], "\n"), join_part(ctx, p[2], ",\n")
    shape(imp_ is not None and st is not None)
    n = w.pre.n if which == 1 else z3.IntVal(0)
    imported(ctx, it, imp_, w, w.pre if which == 1 else None)
    pipeline_steps(ctx, w, st, n)
    ctx.cover("with" if which else "without")


@PROOFS("Gama.export_script exports the fitted preprocessing and the model", covers=("encoded", "plain", "refused"))
def export_script(ctx):
    it = ctx.interp
    got = []

    class Post(Model):
        type_name = "post-processing"

        def m_to_code(self, c, pre=None):
            got.append(pre)
            return text
    text = Opaque("script")
    pre = Pre(ctx)
    enc = FnC(z3.Int("n_encoders"), lambda c, k: (Txt("name", k), Txt("encoder", to_z3(k))))
    ctx.assume(z3.Int("n_encoders") >= 0)
    which = ctx.choose(3)
    g = Inst(it.get("gama.gama.Gama"), {"model": Opaque("model") if which < 2 else None, "_basic_encoding_pipeline": Pipe(ListObj(enc)) if which == 0 else None,
                                        "_fixed_pipeline_extension": pre.list, "_post_processing": Post()}, label="gama")
    if which < 2:
        g.attrs["model"].memo["isnone"] = z3.BoolVal(False)
    try:
        r = it.call(it.getattr(g, "export_script"), [], {"file": None})
    except PyRaise as e:
        ctx.prove("refused before fitting", which == 2 and issubclass(e.exc.cls, RuntimeError))
        ctx.cover("refused")
        return
    ctx.prove("only after fitting", which < 2)
    ctx.prove("the script is returned", r is text and len(got) == 1)
    c = it.content(got[0])
    n = z3.Int("n_encoders") if which == 0 else z3.IntVal(0)
    ctx.prove("all fixed steps are exported", to_z3(c.length(ctx)) == n + pre.n)
    k = ctx.fresh_int("k")
    ctx.assume(z3.And(0 <= k, k < n + pre.n))
    _, s = it.unpack(c.at(ctx, k), 2)
    if ctx.branch(k < n):
        ctx.prove("encoders first", isinstance(s, Txt) and s.how == "encoder" and eq(ctx, s.of, k))
    else:
        ctx.prove("then the fixed steps of every pipeline", isinstance(s, PStep) and s.k == k - n)
    ctx.cover("encoded" if which == 0 else "plain")


@PROOFS("Gama.export_script writes the script to the file asked for, and replaces a file only if allowed", covers=("written", "replaced", "refused", "returned"))
def export_file(ctx):
    from contracts.fs import FS
    it = ctx.interp

    class Post(Model):
        type_name = "post-processing"

        def m_to_code(self, c, pre=None):
            return text
    text = Opaque("script")
    exists, strict, target = ctx.choose(2), ctx.choose(3), ctx.choose(3)
    path = ("some/file.py", "gama_pipeline.py", None)[target]   # given, by default, none
    other = ("another.py", ["kept"])
    fs = FS(ctx, ([(path, ["old"])] if exists and path else []) + [other])
    there = lambda c, p: fs.find(p) is not None
    ctx.externals.update({"os.path.isfile": there, "os.path.exists": there})
    called = []

    def formatter(c, cmd, *a, **k):
        called.append(cmd)
        return 0
    ctx.externals["subprocess.call"] = ctx.externals["subprocess.run"] = formatter
    ctx.assumption("library contract: the formatter (black) changes only the layout of the file it is given")
    g = Inst(it.get("gama.gama.Gama"), {"model": Opaque("model"), "_basic_encoding_pipeline": None, "_fixed_pipeline_extension": Pre(ctx).list,
                                        "_post_processing": Post()}, label="gama")
    g.attrs["model"].memo["isnone"] = z3.BoolVal(False)
    kw = {} if target == 1 else {"file": path}
    if strict:
        kw["raise_if_exists"] = strict == 1
    try:
        r = it.call(it.getattr(g, "export_script"), [], kw)
    except PyRaise as e:
        ctx.prove("refused only if the file exists and must not be replaced", bool(exists and strict == 1 and path) and issubclass(e.exc.cls, FileExistsError))
        ctx.prove("an existing file is not touched", len(fs.files) == 2 and fs.files[0][1] == ["old"] and fs.files[1] is other and not fs.written and not called)
        ctx.cover("refused")
        return
    ctx.prove("an existing file is not replaced if that was not allowed", not (exists and strict == 1 and path))
    ctx.prove("the script is returned", r is text)
    ctx.prove("no other file is touched", fs.files[0] is other if not exists or not path else any(f is other for f in fs.files))
    ctx.prove("nothing is removed", not fs.removed)
    if path:
        k = fs.find(path)
        ctx.prove("the file contains exactly the script", k is not None and len(fs.files) == 2 and isinstance(fs.files[k][1], list) and len(fs.files[k][1]) == 1 and fs.files[k][1][0] is text)
        ctx.prove("only the exported file is formatted", all(isinstance(c, ListObj) and it.content(c).length(ctx) == 2 and it.content(c).at(ctx, 1) == path for c in called))
        ctx.cover("replaced" if exists else "written")
    else:
        ctx.prove("no file is written", len(fs.files) == 1 and not called)
        ctx.cover("returned")


# ------------------------------------------------------------------ fixed steps and ensembles as text
class Copy(Model):
    """A copy of transformer k; `mapping` is learned data, not a parameter."""
    type_name = "copied transformer"

    def __init__(self, tw, k):
        self.tw, self.k = tw, k

    def py_hasattr(self, ctx, name):
        if name == "mapping":
            return self.tw.has(self.k)
        raise Unsupported("attribute of a transformer")

    def py_setattr(self, ctx, name, value):
        ctx.prove("only the learned mapping of a copy is removed", name == "mapping" and value is None)
        ctx.prove("a mapping is removed only where there is one", self.tw.has(self.k))
        self.tw.cleared = self.k
        ctx.log_mut(self, name)

    def py_getattr(self, ctx, name):
        raise Unsupported("attribute of a transformer")


class Original(Copy):
    type_name = "transformer"

    def py_setattr(self, ctx, name, value):
        ctx.fail("the transformers of the instance are not changed", name)


@PROOFS("transformers_to_str writes each transformer with its own parameters, in order", covers=("done", "mapping: an iteration is possible"))
def to_str(ctx):
    it = ctx.interp

    class TW:
        has = z3.Function("has_mapping", I, B)
        cleared, phase = None, 0

    def havoc(c, env, k):
        TW.cleared = None

    def inv(c, env, k):
        TW.phase += 1
        if TW.phase == 3:      # after an arbitrary iteration
            i = to_z3(k) - 1
            c.prove("a learned mapping is not written", z3.Implies(TW.has(i), TW.cleared == i if TW.cleared is not None else False))
        return []
    n = z3.Int("n_transformers")
    ctx.assume(n >= 0)
    ctx.externals["copy.copy"] = lambda c, t: Copy(t.tw, t.k) if isinstance(t, Copy) else unsupported("copy")
    ctx.contracts[f"{EX}.format_transformer"] = lambda c, b: Txt("transformer", b["transformer"])
    ctx.assumption("library contract: copy.copy gives an equal object whose attributes can be set without changing the original")
    ctx.loop_specs.append(LoopSpec(None, lambda itp, node, v, env: isinstance(it.content(v).at(ctx, z3.Int("probe")), Copy), havoc, inv, label="mapping"))
    r = it.content(it.call(it.get(f"{EX}.transformers_to_str"), [ListObj(FnC(n, lambda c, k: Original(TW, to_z3(k))))], {}))
    ctx.prove("one text per transformer", to_z3(r.length(ctx)) == n)
    k = ctx.fresh_int("k")
    ctx.assume(z3.And(0 <= k, k < n))
    t = r.at(ctx, k)
    shape(isinstance(t, Txt) and t.how == "transformer")
    ctx.prove("of that transformer", isinstance(t.of, Copy) and t.of.k == k)
    ctx.cover("done")


def unsupported(m):
    raise Unsupported(m)


class RTxt(Model):
    """repr of a value; equal texts are given by an uninterpreted relation on (value, default)."""
    type_name = "text"

    def __init__(self, how, of):
        self.how, self.of = how, of

    def py_eq(self, ctx, other):
        a, b = self.of, getattr(other, "of", None)
        if isinstance(other, RTxt) and isinstance(a, PVal) and isinstance(b, PVal):
            if a.what == b.what:
                return a.j == b.j if a.j is not b.j else True
            return z3.And(a.j == b.j, a.tw.same(a.j))
        raise Unsupported("comparison of texts")


class PVal(Model):
    """Value (or default) of parameter j."""

    def __init__(self, tw, what, j):
        self.tw, self.what, self.j = tw, what, j
        self.type_name = what

    def py_getattr(self, ctx, name):
        if self.what == "parameter" and name == "default":
            return PVal(self.tw, "default", self.j)
        raise Unsupported(f"{self.what}.{name}")

    def py_eq(self, ctx, other):
        raise Unsupported("comparison of values")


@PROOFS("format_transformer writes the class with every parameter that is not at its default", covers=("done",))
def fmt_transformer(ctx):
    it = ctx.interp
    n = z3.Int("n_parameters")
    ctx.assume(n >= 0)

    class TW:
        same = z3.Function("prints_like_default", I, B)

    class Name(Model):
        type_name = "parameter name"

        def __init__(self, j):
            self.j = j

    class Params(Model):
        type_name = "parameters"

        def m_items(self, c):
            return it.new_list(FnC(n, lambda cc, j: (Name(to_z3(j)), PVal(TW, "value", to_z3(j)))))

        def py_getitem(self, c, k):
            if isinstance(k, Name):
                return PVal(TW, "value", k.j)
            raise Unsupported("parameter by name")

        def py_content(self, c):
            return FnC(n, lambda cc, j: Name(to_z3(j)))

    class Sig(Model):
        type_name = "signature"

        def py_getattr(self, c, name):
            if name == "parameters":
                return self
            return super().py_getattr(c, name)

        def py_getitem(self, c, k):
            if isinstance(k, Name):
                return PVal(TW, "parameter", k.j)
            raise Unsupported("signature")

    class Cls(Model):
        type_name = "class"

        def py_getattr(self, c, name):
            if name in ("__name__", "__qualname__"):
                return Txt("class name", self)
            if name == "__init__":
                return self
            return super().py_getattr(c, name)

    class T(Model):
        type_name = "transformer"

        def m_get_params(self, c, deep=True):
            c.prove("its own parameters, not those of parts", deep is False)
            return Params()

        def py_type(self, c):
            return cls

        def py_getattr(self, c, name):
            if name == "__class__":
                return cls
            return super().py_getattr(c, name)

        def py_setattr(self, c, name, v):
            c.fail("the transformer is not changed", name)
    cls = Cls()
    ctx.externals["inspect.signature"] = lambda c, o: Sig() if o is cls else unsupported("signature of something else")
    ctx.repr_hook = lambda c, v: RTxt("repr", v)
    ctx.str_hook = lambda c, v: v if isinstance(v, (str, Txt, RTxt, Name)) else unsupported("str of a value")
    ctx.assumption("library contract: get_params gives the constructor parameters; a parameter printed like its default equals it; the printed value of any other evaluates to it")
    p = parts(it.call(it.get(f"{EX}.format_transformer"), [T()], {}))
    shape(len(p) == 4 and p[1] == "(" and p[3] == ")" and isinstance(p[0], Txt) and p[0].how == "class name")
    ctx.prove("of its class", p[0].of is cls)
    c = join_part(ctx, p[2], ", ")
    shape(c is not None and isinstance(c, (FilterC, FnC, MapC)))
    f = c if isinstance(c, FilterC) else None
    base = f.base if f else c
    ctx.prove("every parameter is looked at", to_z3(base.length(ctx)) == n)
    j = ctx.fresh_int("j")
    ctx.assume(z3.And(0 <= j, j < n))
    e = base.at(ctx, j)
    kept = ctx.test(f.pred(ctx, e)) if f else True
    if not kept:
        ctx.prove("only parameters at their default are left out", TW.same(j))
    else:
        x = parts(f.fn(ctx, e) if f and f.fn else e)
        shape(len(x) == 3 and x[1] == "=")
        ctx.prove("the parameter is named", isinstance(x[0], Name) and x[0].j == j)
        ctx.prove("with its value", isinstance(x[2], RTxt) and isinstance(x[2].of, PVal) and x[2].of.what == "value" and x[2].of.j == j)
    ctx.cover("done")


@PROOFS("format_pipeline assigns a pipeline with the given steps, in order", covers=("done",))
def fmt_pipeline(ctx):
    it = ctx.interp
    n = z3.Int("n_steps")
    ctx.assume(n >= 0)
    steps = ListObj(FnC(n, lambda c, k: (Txt("name", to_z3(k)), Txt("step", to_z3(k)))))
    default = ctx.choose(2)
    name = Txt("variable", None)
    p = parts(it.call(it.get(f"{EX}.format_pipeline"), [steps], {} if default else {"name": name}))
    if default:
        shape(len(p) == 3 and p[0].endswith(" = Pipeline([") and p[2] == "])\n")
        ctx.prove("assigned to `pipeline`", p[0] == "pipeline = Pipeline([")
        c = join_part(ctx, p[1], ",\n")
    else:
        shape(len(p) == 4 and p[1] == " = Pipeline([" and p[3] == "])\n")
        ctx.prove("assigned to the given name", p[0] is name)
        c = join_part(ctx, p[2], ",\n")
    shape(c is not None)
    ctx.prove("one entry per step", to_z3(c.length(ctx)) == n)
    k = ctx.fresh_int("k")
    ctx.assume(z3.And(0 <= k, k < n))
    q = quoted(c.at(ctx, k))
    shape(q is not None)
    ctx.prove("each step with its name, in order", all(isinstance(x, Txt) for x in q) and q[0].how == "name" and q[1].how == "step" and z3.And(q[0].of == k, q[1].of == k))
    ctx.cover("done")


class Member(Model):
    """The evaluation of member i of the ensemble."""
    type_name = "model"

    def __init__(self, i):
        self.i = i

    def py_getattr(self, ctx, name):
        if name == "individual":
            return MemberInd(self.i)
        return super().py_getattr(ctx, name)


class MemberInd(Model):
    type_name = "individual of a model"

    def __init__(self, i):
        self.i = i


class Weight(Model):
    type_name = "weight"

    def __init__(self, i):
        self.i = i


class Part(FnC):
    """Imports of one member, or of all of them."""

    def __init__(self, ctx, what, i=None):
        self.what, self.i = what, i
        n = ctx.fresh_int("n_imports")
        ctx.assume(n >= 0)
        super().__init__(n, lambda c, k: Opaque("import"))


def flat_parts(c):
    return [q for p in c.parts for q in flat_parts(p)] if isinstance(c, Concat) else [c]


@PROOFS("EnsemblePostProcessing.to_code: every member with its steps and its weight, after the fixed steps", covers=("soft", "hard", "regressor", "with", "without", "refused", "members: an iteration is possible"), timeout=60)
def ensemble_code(ctx):
    it = ctx.interp
    EN = "gama.postprocessing.ensemble"
    m = z3.Int("n_models")
    ctx.assume(m >= 0)
    pre = Pre(ctx)
    kind = ctx.choose(3)
    with_pre = ctx.choose(2)

    class Models(Model):
        type_name = "models"

        def m_values(self, c):
            return it.new_list(FnC(m, lambda cc, k: (Member(to_z3(k)), Weight(to_z3(k)))))

        def m_items(self, c):
            return it.new_list(FnC(m, lambda cc, k: (Opaque("id"), (Member(to_z3(k)), Weight(to_z3(k))))))

        def py_len(self, c):
            return m
    soft = z3.Bool("metric_requires_probabilities")

    class Metric(Model):
        type_name = "metric"

        def py_getattr(self, c, name):
            if name == "requires_probabilities":
                return soft
            return super().py_getattr(c, name)
    cls = (f"{EN}.EnsembleClassifier", f"{EN}.EnsembleRegressor", None)[kind]
    ens = Inst(it.get(cls), {"_models": Models(), "_metric": Metric()}, label="ensemble") if cls else None
    post = Inst(it.get(f"{EN}.EnsemblePostProcessing"), {"_ensemble": ens}, label="post-processing")

    def ias(c, b):
        i = b["individual"]
        if not isinstance(i, MemberInd):
            raise Unsupported("individual")
        return (it.new_list(Part(c, "member", i.i), kind="set"), Txt("steps", i.i))
    ctx.contracts[f"{EX}.imports_and_steps_for_individual"] = ias
    ctx.contracts[f"{EX}.format_import"] = lambda c, b: Txt("import", b["o"])
    ctx.contracts[f"{EX}.transformers_to_str"] = lambda c, b: it.new_list(MapC(it.content(b["transformers"]), lambda cc, v: Txt("transformer", v)))
    ctx.contracts[f"{EX}.format_pipeline"] = lambda c, b: Txt("assignment", (b["name"], b["steps"]))
    ctx.sorted_hook = lambda c, v, key, reverse: it.new_list(it.content(v)) if isinstance(v, ListObj) and v.kind == "set" else None
    st = {"phase": 0, "sets": {}, "lists": {}}

    def match(itp, node, v, env):
        x = it.content(v).at(ctx, z3.Int("probe"))
        while isinstance(x, tuple):
            if any(isinstance(y, Member) for y in x):
                return True
            x = x[-1]
        return False

    def havoc(c, env, k):
        for name in st["sets"]:
            p = Concat([st["sets"][name], Part(c, "earlier")])
            st[name] = p.parts[1]
            env.vars[name] = it.new_list(p, kind="set")
        for name in st["lists"]:
            st["lists"][name] = p = FnC(to_z3(k), lambda cc, q: Txt("assigned", to_z3(q)))
            it.lib.set_content(it, env.vars[name], p)

    def inv(c, env, k):
        st["phase"] += 1
        if st["phase"] != 3:
            return []
        i = to_z3(k) - 1
        for name in st["sets"]:
            ps = flat_parts(it.content(env.vars[name]))
            c.prove("no import is lost", any(p is st[name] for p in ps) and all(any(p is q for p in ps) for q in flat_parts(st["sets"][name])))
            mine = [p for p in ps if isinstance(p, Part) and p.what == "member"]
            c.prove("the imports of the member are added", len(mine) == 1 and mine[0].i == i)
        for name, p in st["lists"].items():
            ad = added(env.vars[name].content, p)
            shape(len(ad) == 1 and ad[0].items() is not None and len(ad[0].items()) == 1)
            assignment(c, ad[0].items()[0], i)
        return []

    def assignment(c, t, i):
        shape(isinstance(t, Txt) and t.how == "assignment")
        name, steps = t.of
        c.prove("the steps of the member", isinstance(steps, Txt) and steps.how == "steps" and steps.of == i)
        var(c, name, i)

    def var(c, name, i):
        q = parts(name)
        shape(len(q) == 2 and isinstance(q[0], str))
        c.prove("assigned to its own variable", q[0] == "pipeline_" and eq(c, prim_of(q[1]), i))

    class Spec(LoopSpec):
        def run(self, itp, node, iterable, env):
            for name, v in env.vars.items():
                if isinstance(v, ListObj) and v.kind == "set":
                    st["sets"][name] = it.content(v)
                elif isinstance(v, ListObj) and v.kind == "list" and it.content(v).items() == []:
                    st["lists"][name] = None
            ctx.prove("one pipeline per member", to_z3(itp.content(iterable).length(ctx)) == m)
            super().run(itp, node, iterable, env)
            for name, orig in st["sets"].items():
                env.vars[name] = it.new_list(Concat([orig, Part(ctx, "all members")]), kind="set")
            for name in st["lists"]:
                it.lib.set_content(it, env.vars[name], FnC(m, lambda c, k: Txt("assigned", to_z3(k))))
    ctx.loop_specs.append(Spec(None, match, havoc, inv, label="members"))
    try:
        r = it.call(it.getattr(post, "to_code"), [pre.list] if with_pre else [], {})
    except PyRaise as e:
        ctx.prove("refused before there is an ensemble", kind == 2 and issubclass(e.exc.cls, RuntimeError))
        ctx.cover("refused")
        return
    ctx.prove("refused before there is an ensemble", kind != 2)
    p = parts(r)
    tail = None
    if with_pre:
        tail = p.pop()
        shape(isinstance(tail, Txt) and tail.how == "assignment")
    voter = ("VotingClassifier", "VotingRegressor")[kind]
    # imports, pipelines, members, then how they vote and their weights
    shape(len(p) == 8 and p[1] == "\n\n" and isinstance(p[3], str) and p[3].startswith("\nensemble = ") and p[3].endswith("([")
          and isinstance(p[5], str) and p[5].startswith("]") and p[5].endswith(", weights=") and p[7] == ")\n" and isinstance(p[6], ListObj))
    imp_, pipes, mem = join_part(ctx, p[0], "\n"), join_part(ctx, p[2], "\n\n"), join_part(ctx, p[4], ",")
    shape(None not in (imp_, pipes, mem))
    ctx.prove("voting of the kind of the ensemble", p[3] == f"\nensemble = {voter}([")
    voting = p[5][1:-len(", weights=")]
    if kind == 1:
        ctx.prove("a regressor has no kind of voting", voting == "")
        ctx.cover("regressor")
    elif ctx.branch(soft):
        ctx.prove("votes by probabilities if the metric needs them", voting == ", voting='soft'")
        ctx.cover("soft")
    else:
        ctx.prove("votes by class if the metric does not need probabilities", voting == ", voting='hard'")
        ctx.cover("hard")
    ws = it.content(p[6])
    for what, c in (("pipeline", pipes), ("member", mem), ("weight", ws)):
        ctx.prove(f"one {what} per model", to_z3(c.length(ctx)) == m)
    k = ctx.fresh_int("k")
    ctx.assume(z3.And(0 <= k, k < m))
    x = pipes.at(ctx, k)
    shape(isinstance(x, Txt))
    ctx.prove("each pipeline is defined once", x.how == "assigned" and eq(ctx, x.of, k))
    q = parts(mem.at(ctx, k))
    shape(len(q) == 5 and q[0] == "('" and q[2].startswith("', ") and q[4] == ")")
    ctx.prove("the members are the pipelines that were defined", q[2] == "', pipeline_" and eq(ctx, prim_of(q[3]), k))
    ctx.prove("members have different names", eq(ctx, prim_of(q[1]), k))
    x = ws.at(ctx, k)
    ctx.prove("each with its own weight", isinstance(x, Weight) and x.i == k)
    ps = flat_parts(imp_)
    lits = [x for c in ps if c.items() is not None for x in c.items()]
    ctx.prove("what is used is imported", f"from sklearn.ensemble import {voter}" in lits and "from sklearn.pipeline import Pipeline" in lits)
    ctx.prove("what the members use is imported", any(isinstance(c, Part) and c.what == "all members" for c in ps))
    if not with_pre:
        ctx.cover("without")
        return
    got = False
    for c in ps:
        if isinstance(c, MapC):
            j = ctx.fresh_int("j")
            ctx.assume(z3.And(0 <= j, j < c.length(ctx)))
            x = c.at(ctx, j)
            got = got or isinstance(x, Txt) and x.how == "import" and isinstance(x.of, PStep) and ctx._discharge(z3.And(to_z3(c.length(ctx)) == pre.n, x.of.k == j))[0] == "proved"
    ctx.prove("every fixed step is imported", got)
    name, steps = tail.of
    ctx.prove("the whole is the pipeline", name == "pipeline")
    c = it.content(steps)
    ctx.prove("the fixed steps and the ensemble", to_z3(c.length(ctx)) == pre.n + 1)
    k = ctx.fresh_int("step")
    ctx.assume(z3.And(0 <= k, k <= pre.n))
    if ctx.branch(k < pre.n):
        nm, s = it.unpack(c.at(ctx, k), 2)
        ctx.prove("fixed preprocessing comes first, in order", isinstance(s, Txt) and s.how == "transformer" and isinstance(s.of, PStep) and isinstance(nm, PName) and z3.And(s.of.k == k, nm.k == k))
    else:
        nm, s = it.unpack(c.at(ctx, pre.n), 2)
        ctx.prove("then the ensemble", s == "ensemble" and isinstance(nm, str))
    ctx.cover("with")

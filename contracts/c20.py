"""C20: a pipeline's text form is parsed back to the same pipeline.

The text A(B(data, B.x=1), A.y=2) is modelled by its pieces: the names before each "(", then
"data", then per node (from the data outwards) "" or ", " followed by the node's terminal
texts. `split` on "(", ")", ", " and "=" gives exactly those pieces when no piece contains the
separator (the code documents this assumption); what the code does with the pieces is verified
for every number of nodes and hyperparameters.
Contracts
  PrimitiveNode.__str__     the text of that form with its own component and values
  find_primitive/_terminal  the one element of the search space with that text, else refused
  PrimitiveNode.from_string node i has exactly the component and values named for node i
  Individual.from_string    wraps that node
"""
import z3
from pyvc.driver import *
from contracts.gp import *
from contracts import c19
from contracts.c19 import Txt, parts, shape, eq, text_world, join_part, prim_of

PROOFS = Registry()
PN = f"{GP}.components.primitive_node"
for _n in ("format_hyperparameter_value writes Python text of the value", "Terminal text names the hyperparameter and its value", "Primitive text is the name of its class"):
    PROOFS.extend(p for p in c19.PROOFS if p.name == _n)


@PROOFS("PrimitiveNode.__str__ writes the component, its input and its values", covers=("plain", "values", "inner", "outer"))
def node_text(ctx):
    it = ctx.interp
    w = text_world(ctx)
    ch = w.ch
    i = ctx.fresh_int("node")
    ctx.assume(z3.And(0 <= i, i < ch.L))
    f = it.get(f"{NODE}.__str__")
    p = parts(it.call_func(f, [ch.node(i)], {}, force_inline=True))
    ctx.prove("of the node's component", isinstance(prim_of(p[0]), Term) and prim_of(p[0]).expr == ch.prim(i))
    p = p[1:]
    if ctx.branch(i + 1 < ch.L):
        shape(len(p) >= 3 and p[0] == "(")
        d = prim_of(p[1])
        ctx.prove("the input is the next node", isinstance(d, Obj) and d.fam is ch.fam and eq(ctx, d.idx, i + 1))
        p = p[2:]
        ctx.cover("inner")
    else:
        shape(isinstance(p[0], str) and p[0].startswith("(data"))
        p = ([p[0][5:]] if p[0] != "(data" else []) + p[1:]
        ctx.cover("outer")
    if ctx.branch(ch.nt(i) == 0):
        shape(p == [")"])
        ctx.cover("plain")
        return
    shape(len(p) == 3 and p[0] == ", " and p[2] == ")")
    c = join_part(ctx, p[1], ", ")
    shape(c is not None)
    ctx.prove("one entry per hyperparameter", to_z3(c.length(ctx)) == ch.nt(i))
    j = ctx.fresh_int("j")
    ctx.assume(z3.And(0 <= j, j < ch.nt(i)))
    a = c.at(ctx, j)
    shape(isinstance(a, Txt) and a.how in ("repr", "str") and isinstance(a.of, Term))
    ctx.prove("each entry is a hyperparameter of the component with its value", a.how == "repr" and a.of.expr == ch.term(i, j))
    ctx.cover("values")


# ------------------------------------------------------------------ search space look-up
class Look:
    def __init__(self, ctx):
        self.ctx = ctx
        sp = self.sp = Space(ctx, axioms=False)
        for k in (sp.PRED, sp.DATA):
            ctx.assume(sp.nP(k) >= 0)
        self.Name, self.TText = Schema("Name"), Schema("TermText")
        self.Name.is_str = self.TText.is_str = True
        self.name = z3.Function("class_name", sp.Prim.sort, self.Name.sort)
        self.text = z3.Function("term_text", sp.Tm.sort, self.TText.sort)
        self.tident = z3.Function("text_before_equals", self.TText.sort, sp.Id.sort)
        t = z3.Const("t!l", sp.Tm.sort)
        # text of a terminal: its identifier, "=", its value (proved above)
        ctx.assume(z3.ForAll([t], self.tident(self.text(t)) == sp.ident(t), patterns=[self.text(t)]))

        def rep(c, v):
            if isinstance(v, Term) and v.schema is sp.Prim:
                return Term(self.name(v.expr), self.Name)
            if isinstance(v, Term) and v.schema is sp.Tm:
                return TText(self, self.text(v.expr))
            return None
        ctx.repr_hook = rep
        ctx.str_hook = lambda c, v: (Term(self.name(v.expr), self.Name) if isinstance(v, Term) and v.schema is sp.Prim else Txt("str", v)) if not isinstance(v, str) else None


class TText(Model):
    """Text identifier=value of a terminal."""

    type_name = "str"

    def __init__(self, lk, e):
        self.lk, self.e = lk, e

    def py_eq(self, ctx, other):
        return self.e == other.e if isinstance(other, TText) else False

    def _split(self, ctx, sep, maxsplit):
        if sep != "=":
            raise Unsupported("other separator")
        ident = Term(self.lk.tident(self.e), self.lk.sp.Id)
        if maxsplit == 1:
            return ident, None
        n = ctx.fresh_int("n_equals")
        ctx.assume(n >= 1)
        return ident, n

    def m_split(self, ctx, sep=None, maxsplit=-1):
        ident, n = self._split(ctx, sep, maxsplit)
        if n is None:
            return ctx.interp.new_list(Conc([ident, Opaque("text of the value")]))
        return ctx.interp.new_list(FnC(n + 1, lambda c, k: ident if c.branch(to_z3(k) == 0) else Opaque("piece of the value")))

    def m_partition(self, ctx, sep):
        if sep != "=":
            raise Unsupported("other separator")
        return (Term(self.lk.tident(self.e), self.lk.sp.Id), "=", Opaque("text of the value"))


@PROOFS("find_primitive: the component with that name, or refused", covers=("found", "refused"), timeout=60)
def find_primitive(ctx):
    it = ctx.interp
    lk = Look(ctx)
    sp = lk.sp
    s = z3.Const("wanted", lk.Name.sort)
    q = z3.Int("q!f")
    listed = lambda k: z3.Exists([q], z3.And(0 <= q, q < sp.nP(k), lk.name(sp.Pat(k, q)) == s))
    known = z3.Or(listed(sp.PRED), listed(sp.DATA))
    try:
        r = it.call(it.get(f"{PN}.find_primitive"), [sp.model, Term(s, lk.Name)], {})
    except PyRaise as e:
        ctx.prove("only an unknown component is refused", z3.Not(known))
        ctx.cover("refused")
        return
    ctx.prove("a component is returned", isinstance(r, Term) and r.schema is sp.Prim)
    ctx.prove("with that name", lk.name(r.expr) == s)
    ctx.prove("a transformer or an estimator of the search space", z3.Or([z3.Exists([q], z3.And(0 <= q, q < sp.nP(k), sp.Pat(k, q) == r.expr)) for k in (sp.PRED, sp.DATA)]))
    ctx.cover("found")


@PROOFS("find_terminal: the hyperparameter value with that text, or refused", covers=("found", "refused"), timeout=60)
def find_terminal(ctx):
    it = ctx.interp
    lk = Look(ctx)
    sp = lk.sp
    s = z3.Const("wanted", lk.TText.sort)
    q = z3.Int("q!f")
    d = lk.tident(s)
    ctx.assume(sp.nT(d) >= 0)
    known = z3.Exists([q], z3.And(0 <= q, q < sp.nT(d), lk.text(sp.Tat(d, q)) == s))
    try:
        r = it.call(it.get(f"{PN}.find_terminal"), [sp.model, TText(lk, s)], {})
    except PyRaise as e:
        ctx.prove("only an unknown hyperparameter or value is refused", z3.Not(known))
        ctx.cover("refused")
        return
    ctx.prove("a hyperparameter value is returned", isinstance(r, Term) and r.schema is sp.Tm)
    ctx.prove("with that text", lk.text(r.expr) == s)
    ctx.prove("of the search space", z3.Exists([q], z3.And(0 <= q, q < sp.nT(d), sp.Tat(d, q) == r.expr)))
    ctx.cover("found")


# ------------------------------------------------------------------ parsing
def bounds(key):
    if isinstance(key, slice):
        return (0 if key.start is None else simp(key.start)), key.stop, key.step
    raise Unsupported("index into text")


class Text(Model):
    """The text of a chain, in pieces."""

    type_name = "str"

    def __init__(self, w):
        self.w = w

    def m_split(self, ctx, sep=None, maxsplit=-1):
        w = self.w
        if sep != "(" or maxsplit != -1:
            raise Unsupported("other separator")
        return ctx.interp.new_list(FnC(w.L + 1, lambda c, k: Name(w, to_z3(k)) if c.branch(to_z3(k) < w.L) else Tail(w)))


class Name(Model):
    type_name = "str"

    def __init__(self, w, i):
        self.w, self.i = w, simp(i)


class Tail(Model):
    type_name = "str"

    def __init__(self, w, cut=False):
        self.w, self.cut = w, cut

    def m_startswith(self, ctx, s):
        if s != "data" or self.cut:
            raise Unsupported("other prefix")
        return True

    def m_removeprefix(self, ctx, s):
        if s != "data" or self.cut:
            raise Unsupported("other prefix")
        return Tail(self.w, True)

    def py_getitem(self, ctx, key):
        a, b, step = bounds(key)
        if simp(a) != 4 or b is not None or step is not None or self.cut:
            raise Unsupported("other slice")
        return Tail(self.w, True)

    def m_split(self, ctx, sep=None, maxsplit=-1):
        w = self.w
        if sep != ")" or not self.cut or maxsplit != -1:
            raise Unsupported("other separator")
        return ctx.interp.new_list(FnC(w.L + 1, lambda c, k: Terms(w, w.L - 1 - to_z3(k)) if c.branch(to_z3(k) < w.L) else ""))


class Terms(Model):
    """"" or ", a=1, b=2": the terminal texts of node i."""

    type_name = "str"

    def __init__(self, w, i, cut=False):
        self.w, self.i, self.cut = w, simp(i), cut

    def py_eq(self, ctx, other):
        if other == "" and not self.cut:
            return self.w.nt(self.i) == 0
        raise Unsupported("comparison of text")

    def py_bool(self, ctx):
        if self.cut:
            raise Unsupported("truth of text")
        return self.w.nt(self.i) != 0

    def py_getitem(self, ctx, key):
        a, b, step = bounds(key)
        if simp(a) != 2 or b is not None or step is not None or self.cut:
            raise Unsupported("other slice")
        # "": nothing is left
        return Terms(self.w, self.i, True) if ctx.branch(self.w.nt(self.i) > 0) else ""

    def m_split(self, ctx, sep=None, maxsplit=-1):
        w, i = self.w, self.i
        if sep != ", " or maxsplit != -1:
            raise Unsupported("other separator")
        if self.cut:
            return ctx.interp.new_list(FnC(w.nt(i), lambda c, j: TT(w, i, to_z3(j))))
        return ctx.interp.new_list(FnC(w.nt(i) + 1, lambda c, j: "" if c.branch(to_z3(j) == 0) else TT(w, i, to_z3(j) - 1)))


class TT(Model):
    type_name = "str"

    def __init__(self, w, i, j):
        self.w, self.i, self.j = w, simp(i), simp(j)

    def py_eq(self, ctx, other):
        if other == "":
            return False
        raise Unsupported("comparison of text")

    def py_bool(self, ctx):
        return True


class Parse:
    """A text that names component prim(i) and values term(i, 0..nt(i)-1) for node i. The values
    named may be fewer than the component has hyperparameters."""

    def __init__(self, ctx):
        sp = self.sp = Space(ctx, axioms=False)
        self.L = z3.Int("n_nodes")
        ctx.assume(self.L >= 1)
        self.prim = z3.Function("named_component", I, sp.Prim.sort)
        self.nt = z3.Function("n_named", I, I)
        self.term = z3.Function("named_value", I, I, sp.Tm.sort)
        i = z3.Int("i!p")
        p = z3.Const("p!p", sp.Prim.sort)
        ctx.assume(z3.ForAll([p], sp.nin(p) >= 0, patterns=[sp.nin(p)]))
        ctx.assume(z3.ForAll([i], self.nt(i) >= 0, patterns=[self.nt(i)]))

        def fp(c, b):
            n = b["primitive_string"]
            if b["primitive_set"] is not sp.model:
                raise Unsupported("search space")
            if not isinstance(n, Name):
                raise Unsupported("name of a component")
            c.prove("a name is looked up", z3.And(0 <= n.i, n.i < self.L))
            return Term(self.prim(n.i), sp.Prim)

        def ft(c, b):
            t = b["terminal_string"]
            if b["primitive_set"] is not sp.model:
                raise Unsupported("search space")
            if t == "":
                raise PyRaise(ExcVal(ValueError, ("not enough values to unpack",)))
            if not isinstance(t, TT):
                raise Unsupported("text of a value")
            return Term(self.term(t.i, t.j), sp.Tm)
        ctx.contracts[f"{PN}.find_primitive"] = fp
        ctx.contracts[f"{PN}.find_terminal"] = ft
        ctx.str_hook = lambda c, v: Txt("str", v) if not isinstance(v, str) else None
        ctx.assumption("str.split gives the pieces between separators; the names and values in the text contain no parenthesis and no ', ' (documented in from_string)")

    def named(self, i, q):
        """input q of the component of node i is named"""
        j = z3.Int("j!n")
        return z3.Exists([j], z3.And(0 <= j, j < self.nt(i), self.sp.ident(self.term(i, j)) == self.sp.inp(self.prim(i), q)))

    def complete(self, i):
        q = z3.Int("q!n")
        return z3.ForAll([q], z3.Implies(z3.And(0 <= q, q < self.sp.nin(self.prim(i))), self.named(i, q)))


@PROOFS("PrimitiveNode.from_string: each node gets the component and values the text names", covers=("read", "refused"), timeout=120)
def from_string(ctx):
    it = ctx.interp
    w = Parse(ctx)
    sp = w.sp
    strict = ctx.fresh_bool("strict")
    default = ctx.choose(2) == 0
    if default:
        ctx.assume(strict)       # strict unless asked otherwise
    out = Fam("read", it.get(NODE), {})
    st = {"phase": 0, "var": None}

    def before(k):
        """The node built from the innermost k nodes."""
        return "data" if ctx.branch(to_z3(k) == 0) else Obj(out, simp(w.L - to_z3(k)))

    def match(itp, node, v, env):
        c = it.content(v)
        return eq(ctx, c.length(ctx), w.L)

    def havoc(c, env, k):
        st["k"] = to_z3(k)
        for n in st["var"]:
            env.set(n, before(k))

    def inv(c, env, k):
        st["phase"] += 1
        if st["phase"] == 1:
            names = [n for n, v in env.vars.items() if isinstance(v, str) and v == "data" and n not in ("self", "cls")]
            st["var"] = names
            c.prove("reading starts at the data", len(names) >= 1)
            return []
        if st["phase"] == 2:
            st["was"] = {n: env.get(n) for n in st["var"]}
            return []
        i = simp(w.L - 1 - st["k"])
        moved = [n for n in st["var"] if env.get(n) is not st["was"][n]]
        if len(moved) != 1:
            raise Unsupported("state of the loop")
        new = env.get(moved[0])
        c.prove("a node is made", isinstance(new, Inst) and new.cls is it.get(NODE))
        d = new.attrs["_data_node"]
        was = st["was"][moved[0]]
        c.prove("its input is the node made before", d is was or isinstance(d, Obj) and isinstance(was, Obj) and d.fam is was.fam and eq(c, d.idx, was.idx))
        p = new.attrs["_primitive"]
        c.prove("the component named for this node", isinstance(p, Term) and p.expr == w.prim(i))
        t = it.content(new.attrs["_terminals"])
        c.prove("as many values as are named", to_z3(t.length(c)) == w.nt(i))
        same_elements(c, t, w, i)
        if c.branch(strict):
            c.prove("all hyperparameters are named", w.complete(i))
        return []
    ctx.loop_specs.append(LoopSpec(f"{NODE}.from_string", match, havoc, inv, label="nodes"))
    args = [Text(w), sp.model] + ([] if default else [strict])
    try:
        r = it.call(it.getattr(it.get(NODE), "from_string"), args, {})
    except PyRaise as e:
        if "k" not in st:
            ctx.fail("well-formed text is read", repr(e.exc))
        i = simp(w.L - 1 - st["k"])
        ctx.prove("refused only if a hyperparameter is missing and no leniency was asked for", z3.And(strict, z3.Not(w.complete(i))))
        ctx.prove("with a ValueError", issubclass(e.exc.cls, ValueError))
        ctx.cover("refused")
        return
    ctx.prove("the outermost node is returned", isinstance(r, Obj) and r.fam is out and eq(ctx, r.idx, 0))
    ctx.cover("read")


def same_elements(c, t, w, i):
    """t is a permutation of the named values of node i."""
    so = getattr(t, "sorted_of", None)
    base = so[0] if so else t
    if c.branch(w.nt(i) == 0):
        return
    j = c.fresh_int("j")
    c.assume(z3.And(0 <= j, j < w.nt(i)))
    x = base.at(c, j)
    c.prove("each named value, and no other", isinstance(x, Term) and x.expr == w.term(i, j))
    # so[3], so[4]: the bijection between the positions (sorted returns a permutation)


@PROOFS("Individual.from_string wraps the node read, with the compiler", covers=("done",))
def individual(ctx):
    it = ctx.interp
    node = Inst(it.get(NODE), {}, label="node")
    got = []
    ctx.contracts[f"{NODE}.from_string"] = lambda c, b: got.append((b["string"], b["primitive_set"], b["strict"])) or node
    ctx.externals["uuid.uuid4"] = lambda c: z3.Int("new_id")
    s, pset, tp, strict = Opaque("text"), Opaque("pset"), Opaque("to_pipeline"), ctx.fresh_bool("strict")
    which = ctx.choose(3)
    a = [[s, pset], [s, pset, tp], [s, pset, tp, strict]][which]
    r = it.call(it.getattr(it.get(IND), "from_string"), a, {})
    ctx.prove("read once", len(got) == 1 and got[0][0] is s and got[0][1] is pset)
    ctx.prove("strict unless asked otherwise", z3.BoolVal(got[0][2]) if isinstance(got[0][2], bool) and which < 2 else to_z3(got[0][2]) == strict if which == 2 else False)
    ctx.prove("an individual with that node", isinstance(r, Inst) and r.attrs["main_node"] is node and r.attrs["_to_pipeline"] is (None if which == 0 else tp))
    ctx.cover("done")


@PROOFS("pipeline_str is the text of the main node", covers=("done",))
def pipeline_str(ctx):
    it = ctx.interp
    w = text_world(ctx)
    p = parts(it.call(it.getattr(w.ind, "pipeline_str"), [], {}))
    d = prim_of(p[0]) if len(p) == 1 else None
    ctx.prove("text of the main node", isinstance(d, Obj) and d.fam is w.ch.fam and eq(ctx, d.idx, 0))
    ctx.cover("done")

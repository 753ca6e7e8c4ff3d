"""pyvc: a small deductive verifier for (a subset of) Python.

The verified text is the code that runs: every run parses the source files under
the repository root with `ast` and executes the *real* function bodies symbolically.

* straight-line code and branches : path-wise symbolic execution (all feasible paths)
* loops over concrete sequences    : unrolled completely
* other loops                      : cut with an invariant (`LoopSpec`), or pure
                                     comprehension-like loops via quantifiers
* calls                            : callee contract if one is registered, external
                                     model for libraries, otherwise inlined
* obligations                      : `ctx.prove(name, goal)`, discharged by z3
                                     (cvc5 as second back end)

Anything outside the subset raises `Unsupported`, which makes the result of that proof
*undecided* (never "proved" and never "violated").
"""
import ast
import os
import time
import builtins
import operator
import z3

REPO = os.environ.get("PYVC_REPO", "/repo")


_KEEP = []


def MP(*terms):
    """A z3 multi-pattern (the bindings free the terms too early unless kept)."""
    p = z3.MultiPattern(*terms)
    _KEEP.append((terms, p))
    return p


class Unsupported(Exception):
    pass


class PathAbort(Exception):
    """The current path is infeasible or finished (loop iteration proven)."""


class PyRaise(Exception):
    def __init__(self, exc):
        super().__init__(str(exc))
        self.exc = exc


class _Return(Exception):
    def __init__(self, value):
        self.value = value


class _Break(Exception):
    pass


class _Continue(Exception):
    pass


class _Yielded(Exception):
    """Used by 'pick' evaluation of generators."""

    def __init__(self, value):
        self.value = value


# --------------------------------------------------------------------------- values
class Undefined:
    def __init__(self, name):
        self.name = name


class Opaque:
    """A value about which nothing is known (result of an unmodelled operation)."""

    n = 0

    def __init__(self, what, ctx=None):
        self.what = what
        self.sym_bool = None
        self.memo = {}

    def __repr__(self):
        return f"<opaque {self.what}>"


class External:
    def __init__(self, path):
        self.path = path

    def __repr__(self):
        return f"<external {self.path}>"


class ExcVal:
    def __init__(self, cls, args=(), kwargs=None):
        self.cls, self.args = cls, tuple(args)

    def __repr__(self):
        return f"{self.cls.__name__}{self.args}"


class FuncVal:
    def __init__(self, node, module, env, qualname, defaults=None, kw_defaults=None):
        self.node, self.module, self.env = node, module, env
        self.qualname = qualname
        self.defaults, self.kw_defaults = defaults or [], kw_defaults or {}
        self.cls = None
        self.is_gen = not isinstance(node, ast.Lambda) and _has_yield(node)

    def __repr__(self):
        return f"<function {self.qualname}>"


class BoundMethod:
    def __init__(self, func, self_):
        self.func, self.self_ = func, self_


class Builtin:
    def __init__(self, name, fn):
        self.name, self.fn = name, fn

    def __repr__(self):
        return f"<builtin {self.name}>"


class PartialVal:
    def __init__(self, func, args, kwargs):
        self.func, self.args, self.kwargs = func, list(args), dict(kwargs)


class ClassVal:
    def __init__(self, name, module, node, bases):
        self.name, self.module, self.node, self.bases = name, module, node, bases
        self.attrs = {}
        self.decorators = {}
        self.nt_fields = None

    @property
    def qualname(self):
        return f"{self.module.name}.{self.name}"

    def lookup(self, name):
        if name in self.attrs:
            return self.attrs[name], self
        for b in self.bases:
            if isinstance(b, ClassVal):
                r = b.lookup(name)
                if r is not None:
                    return r
        return None

    def is_subclass(self, other):
        if self is other:
            return True
        for b in self.bases:
            if isinstance(b, ClassVal) and b.is_subclass(other):
                return True
            if isinstance(b, External) and isinstance(other, External):
                if b.path == other.path:
                    return True
        return False

    def __repr__(self):
        return f"<class {self.qualname}>"


class Inst:
    """An object allocated during symbolic execution (or built by a harness)."""

    def __init__(self, cls, attrs=None, label=None):
        self.cls = cls
        self.attrs = dict(attrs or {})
        self.label = label or (cls.name if isinstance(cls, ClassVal) else str(cls))

    def __repr__(self):
        return f"<{self.label} instance>"


class Fam:
    """A symbolic family of objects obj(i) of one class, with base fields f(i)."""

    def __init__(self, name, cls, fields, valid=None):
        self.name, self.cls, self.fields = name, cls, fields
        self.valid = valid
        self.writes = {}  # field -> [(idx, value)]

    def __repr__(self):
        return f"<family {self.name}>"


class Obj:
    def __init__(self, fam, idx):
        self.fam, self.idx = fam, idx

    def __repr__(self):
        return f"<{self.fam.name}[{self.idx}]>"


class Term:
    """A value of an uninterpreted z3 sort; attributes from the sort's schema."""

    def __init__(self, expr, schema=None):
        self.expr, self.schema = expr, schema

    def __repr__(self):
        return f"<{self.expr}>"


class Schema:
    def __init__(self, name, cls=None, attrs=None, eq=True):
        self.name = name
        self.sort = z3.DeclareSort(name)
        self.cls = cls
        self.attrs = attrs or {}

    def const(self, ctx, name):
        return Term(ctx.fresh_const(name, self.sort), self)

    def fun(self, name, rng):
        return z3.Function(f"{self.name}.{name}", self.sort, rng)


class Model:
    """Base class of host-side models for library objects."""

    type_name = "model"

    def py_getattr(self, ctx, name):
        m = getattr(self, "m_" + name, None)
        if m is not None:
            return Builtin(f"{self.type_name}.{name}", m)
        raise Unsupported(f"attribute {name} of {self.type_name}")

    def py_setattr(self, ctx, name, value):
        raise Unsupported(f"setting {name} on {self.type_name}")

    def py_bool(self, ctx):
        return True


# --------------------------------------------------------------------------- contents
class Content:
    """Abstract (immutable) content of a sequence."""

    distinct = False

    def length(self, ctx):
        raise Unsupported(f"length of {type(self).__name__}")

    def at(self, ctx, i):
        raise Unsupported(f"index into {type(self).__name__}")

    def pick(self, ctx):
        n = self.length(ctx)
        i = ctx.fresh_int("pick")
        ctx.assume(z3.And(i >= 0, i < n))
        return self.at(ctx, i)

    def nonempty(self, ctx):
        n = self.length(ctx)
        return n > 0

    def items(self):
        return None  # concrete list of items if known


class Conc(Content):
    def __init__(self, items):
        self._items = list(items)

    def items(self):
        return self._items

    def length(self, ctx):
        return len(self._items)

    def at(self, ctx, i):
        i = simp(i)
        if isinstance(i, int):
            return self._items[i]
        for k, v in enumerate(self._items[:-1]):
            if ctx.branch(i == k):
                return v
        ctx.assume(i == len(self._items) - 1)
        return self._items[-1]


class FnC(Content):
    def __init__(self, n, fn):
        self.n, self.fn = n, fn

    def length(self, ctx):
        return self.n

    def at(self, ctx, i):
        return self.fn(ctx, i)


class Concat(Content):
    def __init__(self, parts):
        self.parts = parts

    def length(self, ctx):
        t = 0
        for p in self.parts:
            t = add(t, p.length(ctx))
        return t

    def at(self, ctx, i):
        for p in self.parts[:-1]:
            n = p.length(ctx)
            if ctx.branch(lt(i, n)):
                return p.at(ctx, i)
            i = simp(i - n)
        return self.parts[-1].at(ctx, i)

    def pick(self, ctx):
        # choose a part, then pick from it
        for p in self.parts[:-1]:
            if ctx.branch(ctx.fresh_bool("pickpart")):
                ctx.assume(truth(p.nonempty(ctx)))
                return p.pick(ctx)
        ctx.assume(truth(self.parts[-1].nonempty(ctx)))
        return self.parts[-1].pick(ctx)

    def nonempty(self, ctx):
        return z3.Or([truth(p.nonempty(ctx)) for p in self.parts])


class SliceC(Content):
    """content[lo:hi] with 0 <= lo <= hi <= len already normalised."""

    def __init__(self, base, lo, hi):
        self.base, self.lo, self.hi = base, lo, hi

    def length(self, ctx):
        return simp(self.hi - self.lo)

    def at(self, ctx, i):
        return self.base.at(ctx, add(self.lo, i))


class RevC(Content):
    def __init__(self, base):
        self.base = base

    def length(self, ctx):
        return self.base.length(ctx)

    def at(self, ctx, i):
        return self.base.at(ctx, simp(self.base.length(ctx) - 1 - i))

    def pick(self, ctx):
        return self.base.pick(ctx)

    def nonempty(self, ctx):
        return self.base.nonempty(ctx)


class EnumC(Content):
    def __init__(self, base, start=0):
        self.base, self.start = base, start

    def length(self, ctx):
        return self.base.length(ctx)

    def at(self, ctx, i):
        return (add(self.start, i), self.base.at(ctx, i))


class ZipC(Content):
    def __init__(self, parts):
        self.parts = parts

    def length(self, ctx):
        n = self.parts[0].length(ctx)
        for p in self.parts[1:]:
            n = ite_min(n, p.length(ctx))
        return n

    def at(self, ctx, i):
        return tuple(p.at(ctx, i) for p in self.parts)


class MapC(Content):
    """fn applied (lazily, purely) to every element."""

    def __init__(self, base, fn):
        self.base, self.fn = base, fn

    def length(self, ctx):
        return self.base.length(ctx)

    def at(self, ctx, i):
        return self.fn(ctx, self.base.at(ctx, i))

    def pick(self, ctx):
        return self.fn(ctx, self.base.pick(ctx))

    def nonempty(self, ctx):
        return self.base.nonempty(ctx)


class FilterC(Content):
    """Elements of base for which pred holds, mapped; only pick / emptiness known."""

    def __init__(self, base, pred, fn=None):
        self.base, self.pred, self.fn = base, pred, fn
        self._len = None

    def length(self, ctx):
        key = ("filterlen", id(self))
        if key not in ctx.run_memo:
            n = ctx.fresh_int("nfiltered")
            ctx.run_memo[key] = (n, self)
            ctx.assume(n >= 0)
            try:
                ctx.assume(n <= self.base.length(ctx))
            except Unsupported:
                pass
            self._define_empty(ctx, n)
        return ctx.run_memo[key][0]

    def _define_empty(self, ctx, n):
        """n == 0  <->  no element satisfies pred (when expressible)."""
        if ctx.branch(n > 0):
            self.pick(ctx)  # a witness exists
        else:
            ctx.assume(n == 0)
            try:
                ctx.assume(ctx.forall_elem(self.base, lambda c, v: z3.Not(
                    ctx.merge(lambda: truth_ctx(c, self.pred(c, v))))))
            except Unsupported:
                ctx.note("emptiness of a filter not expressible: no fact assumed")

    def pick(self, ctx):
        v = self.base.pick(ctx)
        ctx.assume(ctx.branch(truth_ctx(ctx, self.pred(ctx, v))))
        return self.fn(ctx, v) if self.fn else v

    def nonempty(self, ctx):
        return self.length(ctx) > 0


class SetC(Content):
    """Unordered collection of pairwise distinct elements of an uninterpreted sort."""

    distinct = True

    def __init__(self, sort, member, wrap, card=None, unwrap=None):
        self.sort, self.member, self.wrap, self.card = sort, member, wrap, card
        self.unwrap = unwrap or (lambda v: v.expr)

    def length(self, ctx):
        if self.card is None:
            n = ctx.fresh_int("card")
            self.card = n
            x = z3.Const("x!card", self.sort)
            ctx.assume(n >= 0)
            ctx.assume((n == 0) == z3.ForAll([x], z3.Not(self.member(x))))
        return self.card

    def at(self, ctx, i):
        # order is unknown: an arbitrary element
        return self.pick(ctx)

    def pick(self, ctx):
        x = ctx.fresh_const("elem", self.sort)
        ctx.assume(self.member(x))
        return self.wrap(x)

    def nonempty(self, ctx):
        return self.length(ctx) > 0

    def listing(self, ctx):
        """An enumeration of the elements in the (fixed, unknown) order of the list."""
        if getattr(self, "_listing", None) is None:
            n = to_z3(self.length(ctx))
            I = z3.IntSort()
            en, ix = ctx.fresh_fun("en", I, self.sort), ctx.fresh_fun("ix", self.sort, I)
            k, x = z3.Int("k!en"), z3.Const("x!en", self.sort)
            ctx.assume(z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < n), z3.And(self.member(en(k)), ix(en(k)) == k)), patterns=[en(k)]))
            ctx.assume(z3.ForAll([x], z3.Implies(self.member(x), z3.And(0 <= ix(x), ix(x) < n, en(ix(x)) == x)), patterns=[ix(x)]))
            self._listing = FnC(n, lambda c, i: self.wrap(en(to_z3(i))))
            self._listing.en, self._listing.ix = en, ix
        return self._listing


class FlattenC(Content):
    """[e for x in outer for e in inner(x)]; off(k) = number of elements before outer[k]."""

    def __init__(self, outer, inner, off=None):
        self.outer, self.inner, self.off = outer, inner, off
        self._ready = off is not None

    def setup(self, ctx):
        if self._ready:
            return
        self._ready = True
        I = z3.IntSort()
        self.off = off = ctx.fresh_fun("off", I, I)
        n = self.outer.length(ctx)
        ctx.assume(off(0) == 0)
        a, b = z3.Ints("a!off b!off")
        ctx.assume(z3.ForAll([a, b], z3.Implies(z3.And(0 <= a, a <= b, b <= n), off(a) <= off(b)),
                             patterns=[MP(off(a), off(b))]))
        ctx.assume(ctx.forall_index(n, lambda k: ctx.merge(
            lambda: off(k + 1) == off(k) + self.inner(ctx, self.outer.at(ctx, k)).length(ctx)), name="k"))

    def length(self, ctx):
        self.setup(ctx)
        return self.off(to_z3(self.outer.length(ctx)))

    def locate(self, ctx, i):
        self.setup(ctx)
        k = ctx.fresh_int("outer")
        n = self.outer.length(ctx)
        ctx.assume(z3.And(k >= 0, k < n, self.off(k) <= i, i < self.off(k + 1)))
        return k, simp(i - self.off(k))

    def at(self, ctx, i):
        k, j = self.locate(ctx, to_z3(i))
        inner = self.inner(ctx, self.outer.at(ctx, k))
        ctx.assume(simp(self.off(k + 1) == self.off(k) + inner.length(ctx)))
        return inner.at(ctx, j)


class PickC(Content):
    """Content given only by a 'pick an arbitrary element' procedure."""

    def __init__(self, pick, nonempty=None, length=None, empty=None):
        self._pick, self._nonempty, self._length, self._empty = pick, nonempty, length, empty

    def length(self, ctx):
        if self._length is None:
            n = ctx.fresh_int("npick")
            ctx.assume(n >= 0)
            self._length = n
            if ctx.branch(n > 0):
                self._pick(ctx)
            elif self._empty is not None:
                try:
                    ctx.assume(self._empty(ctx))
                except Unsupported as e:
                    ctx.note(f"emptiness of a generator not expressible: no fact assumed ({e})")
        return self._length

    def pick(self, ctx):
        return self._pick(ctx)

    def nonempty(self, ctx):
        if self._nonempty is not None:
            return self._nonempty
        return self.length(ctx) > 0


class ListObj:
    kind = "list"
    stale = []   # lists changed since a comprehension was written (while it is evaluated late)

    @property
    def content(self):
        if ListObj.stale and any(b is self for b in ListObj.stale):
            raise Unsupported("comprehension evaluated after a mutation")
        return self._content

    @content.setter
    def content(self, c):
        self._content = c

    def __init__(self, content, kind="list", label=None):
        if isinstance(content, (list, tuple)):
            content = Conc(content)
        self.content = content
        self.kind = kind
        self.label = label

    def __repr__(self):
        c = getattr(self, "_content", None)
        it = c.items() if c is not None else None
        return f"<{self.kind} {it if it is not None else type(c).__name__}>"


class DictObj:
    def __init__(self, pairs=(), default_factory=None, label=None):
        self.pairs = list(pairs)
        self.default_factory = default_factory
        self.label = label

    def __repr__(self):
        return f"<dict {self.pairs}>"


# --------------------------------------------------------------------------- helpers
def simp(e):
    if isinstance(e, z3.ExprRef):
        e = z3.simplify(e)
        if z3.is_int_value(e):
            return e.as_long()
        if z3.is_true(e):
            return True
        if z3.is_false(e):
            return False
    return e


def is_z3(v):
    return isinstance(v, z3.ExprRef)


def is_num(v):
    return (isinstance(v, (int, float)) and not isinstance(v, bool)) or (
        is_z3(v) and z3.is_arith(v)
    )


def is_boolish(v):
    return isinstance(v, bool) or (is_z3(v) and z3.is_bool(v))


def truth(v):
    if isinstance(v, bool):
        return z3.BoolVal(v)
    return v


def truth_ctx(ctx, v):
    return ctx.truthy(v)


def add(a, b):
    return simp(a + b)


def lt(a, b):
    return simp(a < b)


def ite_min(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return min(a, b)
    return simp(z3.If(truth(a <= b), to_z3(a), to_z3(b)))


def ite_max(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return max(a, b)
    return simp(z3.If(truth(a >= b), to_z3(a), to_z3(b)))


def to_z3(v):
    if isinstance(v, bool):
        return z3.BoolVal(v)
    if isinstance(v, int):
        return z3.IntVal(v)
    if isinstance(v, float):
        return z3.RealVal(repr(v))
    return v


def num_pair(a, b):
    """Coerce two numbers to compatible z3 terms / host numbers."""
    if isinstance(a, bool):
        a = int(a)
    if isinstance(b, bool):
        b = int(b)
    if not is_z3(a) and not is_z3(b):
        return a, b
    a, b = to_z3(a), to_z3(b)
    if z3.is_bool(a):
        a = z3.If(a, z3.IntVal(1), z3.IntVal(0))
    if z3.is_bool(b):
        b = z3.If(b, z3.IntVal(1), z3.IntVal(0))
    if a.is_int() and not b.is_int():
        a = z3.ToReal(a)
    elif b.is_int() and not a.is_int():
        b = z3.ToReal(b)
    return a, b


def _has_yield(node):
    todo = list(node.body)
    while todo:
        n = todo.pop()
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return True
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        todo.extend(ast.iter_child_nodes(n))
    return False


def assigned_names(nodes):
    out = set()
    todo = list(nodes)
    while todo:
        n = todo.pop()
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            out.add(n.id)
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            out.add(n.name)
            continue
        if isinstance(n, ast.Lambda):
            continue
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
            continue
        if isinstance(n, ast.ExceptHandler) and n.name:
            out.add(n.name)
        todo.extend(ast.iter_child_nodes(n))
    return out


class Env:
    def __init__(self, parent=None, module=None):
        self.vars = {}
        self.parent = parent
        self.module = module

    def get(self, name):
        e = self
        while e is not None:
            if name in e.vars:
                return e.vars[name]
            e = e.parent
        raise KeyError(name)

    def has(self, name):
        try:
            self.get(name)
            return True
        except KeyError:
            return False

    def set(self, name, value):
        self.vars[name] = value


# --------------------------------------------------------------------------- modules
class ModuleVal:
    def __init__(self, world, name, path):
        self.world, self.name, self.path = world, name, path
        with open(path) as fh:
            self.source = fh.read()
        self.tree = ast.parse(self.source, filename=path)
        _strip_noops(self.tree)
        self.defs = {}
        self.cache = {}
        self._collect(self.tree.body)

    def _collect(self, body):
        for n in body:
            if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.AsyncFunctionDef)):
                self.defs[n.name] = n
            elif isinstance(n, ast.Import):
                for a in n.names:
                    self.defs[a.asname or a.name.split(".")[0]] = ("import", a)
            elif isinstance(n, ast.ImportFrom):
                for a in n.names:
                    self.defs[a.asname or a.name] = ("from", n, a)
            elif isinstance(n, ast.Assign):
                for t in n.targets:
                    if isinstance(t, ast.Name):
                        self.defs[t.id] = ("value", n.value)
            elif isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name):
                if n.value is not None:
                    self.defs[n.target.id] = ("value", n.value)
            elif isinstance(n, ast.If):
                self._collect(n.body)
                self._collect(n.orelse)
            elif isinstance(n, ast.Try):
                self._collect(n.body)

    def __repr__(self):
        return f"<module {self.name}>"


def _strip_noops(tree):
    """Remove `pass` and constant expression statements (they have no effect)."""
    for n in ast.walk(tree):
        for field in ("body", "orelse", "finalbody"):
            b = getattr(n, field, None)
            if isinstance(b, list) and b and isinstance(b[0], ast.stmt):
                keep = [x for x in b if not (isinstance(x, ast.Pass) or (
                    isinstance(x, ast.Expr) and isinstance(x.value, ast.Constant)))]
                if not keep and field == "body":
                    keep = [ast.copy_location(ast.Pass(), b[0])]
                setattr(n, field, keep)


class World:
    """Parsed source of the repository (no symbolic state)."""

    def __init__(self, repo=REPO):
        self.repo = repo
        self.modules = {}

    def module(self, name):
        if name not in self.modules:
            rel = name.replace(".", "/")
            for cand in (f"{rel}.py", f"{rel}/__init__.py"):
                p = os.path.join(self.repo, cand)
                if os.path.exists(p):
                    self.modules[name] = ModuleVal(self, name, p)
                    break
            else:
                raise Unsupported(f"module {name} not found")
        return self.modules[name]

    def is_repo_module(self, name):
        rel = name.replace(".", "/")
        return any(
            os.path.exists(os.path.join(self.repo, c))
            for c in (f"{rel}.py", f"{rel}/__init__.py")
        )


class Obligation:
    def __init__(self, name, status, seconds, backend, detail=""):
        self.name, self.status, self.seconds = name, status, seconds
        self.backend, self.detail = backend, detail


class Result:
    """Outcome of one proof (one function against its contract)."""

    def __init__(self, proof):
        self.proof = proof
        self.obligations = []
        self.paths = 0
        self.unsupported = None
        self.assumptions = set()
        self.notes = set()
        self.functions = set()
        self.covers = {}
        self.seconds = 0.0
        self.solver_seconds = 0.0
        self.specs = {}     # loop invariants given: was there such a loop?
        self.loose = set()  # functions with loops over symbolic sequences without a given invariant

    @property
    def misfit(self):
        """The code has another shape than the invariants expect: obligations may fail for that reason alone."""
        if self.unsupported and self.unsupported not in ("proof deadline exceeded", "too many paths"):
            return self.unsupported
        m = [f"no loop for the invariant '{l}'" for (l, f), u in self.specs.items() if not u and (f in self.loose or f is None and self.loose)]
        return "; ".join(m) or None

    @property
    def status(self):
        if any(o.status == "refuted" for o in self.obligations):
            return "undecided" if self.misfit else "refuted"
        if self.unsupported:
            return "undecided"
        if any(o.status != "proved" for o in self.obligations):
            return "undecided"
        if not self.obligations:
            return "undecided"
        if any(not v for v in self.covers.values()):
            return "undecided"
        return "proved"


# --------------------------------------------------------------------------- context
def has_quantifier(e, memo):
    if not isinstance(e, z3.ExprRef):
        return False
    r = memo.get(e.get_id())
    if r is None:
        r = memo[e.get_id()] = (_has_quantifier(e), e)  # holds e, so that its id stays taken
    return r[0]


def _has_quantifier(e):
    seen, todo = set(), [e]
    while todo:
        x = todo.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_quantifier(x):
            return True
        todo.extend(x.children())
    return False


class Ctx:
    def __init__(self, world, result, timeout_ms=8000, deadline=None):
        self.world, self.result = world, result
        self.timeout_ms = timeout_ms
        self.deadline = deadline
        self.contracts = {}
        self.externals = {}
        self.loop_specs = []
        self.proved = {}
        self.max_paths = 4000
        self.feas_qf, self.qmemo = False, {}
        self.feas_ms = 150  # per feasibility check; a timeout counts as feasible
        self.env_hooks = {}
        self.class_hooks = {}

    # -- run management
    def start_run(self, prefix):
        self.prefix = list(prefix)
        self.decisions = []
        self.pending = []
        self.pc = []
        self.counter = 0
        self.solver = z3.Solver()
        self.solver.set("timeout", self.feas_ms)
        self.quant = 0
        self.pure = 0
        self.mutlog = []
        self.run_memo = {}
        self.call_depth = 0
        self.exc_stack = []
        self.draws = []
        self.intern = {}
        self.yield_stack = []
        self.module_cache = {}

    def fresh_name(self, name):
        if self.quant:
            raise Unsupported("fresh symbol under a quantifier")
        self.counter += 1
        return f"{name}!{self.counter}"

    def fresh_int(self, name="n"):
        return z3.Int(self.fresh_name(name))

    def fresh_real(self, name="r"):
        return z3.Real(self.fresh_name(name))

    def fresh_bool(self, name="b"):
        return z3.Bool(self.fresh_name(name))

    def fresh_const(self, name, sort):
        return z3.Const(self.fresh_name(name), sort)

    def fresh_fun(self, name, *sorts):
        return z3.Function(self.fresh_name(name), *sorts)

    def note(self, text):
        self.result.notes.add(text)

    def assumption(self, text):
        self.result.assumptions.add(text)

    def _check_time(self):
        if self.deadline and time.time() > self.deadline:
            raise Unsupported("proof deadline exceeded")

    def assume(self, cond):
        cond = simp(cond)
        if cond is True:
            return
        if cond is False:
            raise PathAbort()
        self.pc.append(cond)
        self._add(cond)

    def _add(self, cond):
        """Facts for feasibility checks (feas_qf: quantified facts are left to the obligations)."""
        if self.feas_qf and has_quantifier(cond, self.qmemo):
            return
        self.solver.add(cond)

    def _feasible(self, cond):
        t = time.time()
        r = self.solver.check(cond)
        self.result.solver_seconds += time.time() - t
        return r != z3.unsat

    def branch(self, cond):
        """Decide a condition; forks the path when both outcomes are feasible."""
        cond = simp(cond)
        if isinstance(cond, bool):
            return cond
        self._check_time()
        pos = len(self.decisions)
        if pos < len(self.prefix):
            d = self.prefix[pos]
        else:
            t = self._feasible(cond)
            f = self._feasible(z3.Not(cond))
            if t and f:
                self.pending.append(self.decisions + [False])
                d = True
            elif t:
                d = True
            elif f:
                d = False
            else:
                raise PathAbort()
        self.decisions.append(d)
        c = cond if d else z3.Not(cond)
        self.pc.append(c)
        self._add(c)
        return d

    def choose(self, n):
        """Nondeterministic choice 0..n-1 without a solver condition."""
        for k in range(n - 1):
            pos = len(self.decisions)
            if pos < len(self.prefix):
                d = self.prefix[pos]
            else:
                self.pending.append(self.decisions + [False])
                d = True
            self.decisions.append(d)
            if d:
                return k
        return n - 1

    # -- pure merging
    def merge(self, thunk):
        """Evaluate thunk on all local paths; combine Bool results into one Bool."""
        outs = []
        saved = (self.prefix, self.decisions, self.pending, list(self.pc), self.solver)
        base_pc = list(self.pc)
        stack = [[]]
        self.pure += 1
        saved_clock = getattr(self, "pure_clock", 0)
        if self.pure == 1:
            self.pure_clock = self.clock()
        try:
            while stack:
                if len(outs) > 200:
                    raise Unsupported("merge: too many paths")
                p = stack.pop()
                self.prefix, self.decisions, self.pending = p, [], []
                self.pc = list(base_pc)
                self.solver = z3.Solver()
                self.solver.set("timeout", min(100, self.feas_ms))
                for x in base_pc:
                    self._add(x)
                try:
                    v = thunk()
                    v = self.truthy(v)
                    outs.append((z3.And([truth(x) for x in self.pc[len(base_pc):]])
                                 if len(self.pc) > len(base_pc) else z3.BoolVal(True),
                                 truth(v)))
                except PathAbort:
                    pass
                except PyRaise as e:
                    raise Unsupported(f"exception {e.exc} inside a pure expression")
                stack.extend(self.pending)
        finally:
            self.pure -= 1
            self.pure_clock = saved_clock
            (self.prefix, self.decisions, self.pending, self.pc, self.solver) = saved
        if not outs:
            raise PathAbort()
        return simp_bool(z3.Or([z3.And(c, v) for c, v in outs]))

    def forall_index(self, n, fn, name="i"):
        """ForAll 0<=i<n. fn(i) -> Bool (pure)."""
        if isinstance(n, int):
            return z3.And([truth(fn(k)) for k in range(n)]) if n else z3.BoolVal(True)
        self.qcount = getattr(self, "qcount", 0) + 1
        i = z3.Int(f"{name}!q{self.qcount}")
        return self._quantified([i], z3.And(i >= 0, i < n), lambda: fn(i), True)

    def exists_index(self, n, fn, name="i"):
        if isinstance(n, int):
            return z3.Or([truth(fn(k)) for k in range(n)]) if n else z3.BoolVal(False)
        self.qcount = getattr(self, "qcount", 0) + 1
        i = z3.Int(f"{name}!q{self.qcount}")
        return self._quantified([i], z3.And(i >= 0, i < n), lambda: fn(i), False)

    def _quantified(self, vs, dom, thunk, universal):
        saved_pc, saved_solver = list(self.pc), self.solver
        self.quant += 1
        try:
            self.pc = saved_pc + [dom]
            self.solver = z3.Solver()
            self.solver.set("timeout", min(100, self.feas_ms))
            for x in self.pc:
                self._add(x)
            body = self.merge(thunk)
        except PathAbort:
            body = z3.BoolVal(universal)
        finally:
            self.quant -= 1
            self.pc, self.solver = saved_pc, saved_solver
        body = truth(body)
        if universal:
            return z3.ForAll(vs, z3.Implies(dom, body))
        return z3.Exists(vs, z3.And(dom, body))

    def forall_elem(self, content, fn):
        """ForAll elements v of content: fn(ctx, v) (pure)."""
        items = content.items()
        if items is not None:
            return z3.And([truth(fn(self, v)) for v in items]) if items else z3.BoolVal(True)
        if isinstance(content, SetC):
            self.qcount = getattr(self, "qcount", 0) + 1
            x = z3.Const(f"e!q{self.qcount}", content.sort)
            return self._quantified([x], content.member(x), lambda: fn(self, content.wrap(x)), True)
        if isinstance(content, FilterC):
            def g(c, v):
                p = c.merge(lambda: c.truthy(content.pred(c, v)))
                w = content.fn(c, v) if content.fn else v
                return z3.Implies(truth(p), truth(fn(c, w)))
            return self.forall_elem(content.base, g)
        if isinstance(content, MapC):
            return self.forall_elem(content.base, lambda c, v: fn(c, content.fn(c, v)))
        if isinstance(content, Concat):
            return z3.And([truth(self.forall_elem(p, fn)) for p in content.parts])
        if isinstance(content, FlattenC):
            return self.forall_elem(content.outer, lambda c, v: c.forall_elem(content.inner(c, v), fn))
        if isinstance(content, EnumC) and isinstance(content.base, FlattenC):
            fl = content.base
            fl.setup(self)
            n = fl.outer.length(self)

            def outer(k):
                def f():
                    inner = fl.inner(self, fl.outer.at(self, k))
                    return self.forall_index(inner.length(self), lambda j: self.merge(
                        lambda: fn(self, (simp(fl.off(to_z3(k)) + j + content.start), inner.at(self, j)))), name="j")
                return self.merge(f)
            return self.forall_index(n, outer, name="k")
        n = content.length(self)
        return self.forall_index(n, lambda i: fn(self, content.at(self, i)))

    def exists_elem(self, content, fn):
        return z3.Not(truth(self.forall_elem(content, lambda c, v: z3.Not(truth(fn(c, v))))))

    # -- obligations
    def prove(self, name, goal, hint=None):
        goal = simp(truth(goal)) if not isinstance(goal, bool) else goal
        key = (name, tuple(self.decisions), getattr(self, "prove_seq", 0))
        kk = ("seq", name, tuple(self.decisions))
        n = self.run_memo.get(kk, 0)
        self.run_memo[kk] = n + 1
        key = (name, tuple(self.decisions), n)
        if key in self.proved:
            if self.proved[key] == "proved" and is_z3(goal):
                self.assume(goal)
            return self.proved[key] == "proved"
        self._check_time()
        t = time.time()
        if goal is True:
            status, backend, detail = "proved", "simplifier", ""
        else:
            status, backend, detail = self._discharge(goal)
        dt = time.time() - t
        self.result.solver_seconds += dt
        self.result.obligations.append(Obligation(name, status, dt, backend, detail))
        self.proved[key] = status
        if status == "proved" and is_z3(goal):
            self.assume(goal)
        return status == "proved"

    def _discharge(self, goal):
        neg = z3.Not(truth(goal))
        s = z3.Solver()
        s.set("timeout", self.timeout_ms)
        s.add(self.pc)
        s.add(neg)
        r = s.check()
        if r == z3.unsat:
            return "proved", "z3", ""
        if r == z3.sat:
            return "refuted", "z3", _model_text(s, goal)
        # second back end
        reason = s.reason_unknown()
        cand = ""
        try:
            cand = _model_text(s, goal)
        except Exception:
            pass
        r2 = _cvc5_check(s.to_smt2(), self.timeout_ms)
        if r2 == "unsat":
            return "proved", "cvc5", ""
        if r2 == "sat":
            return "refuted", "cvc5", cand
        if "incomplete" in reason and cand:
            return "refuted", "z3(candidate model; quantifiers incomplete)", cand
        return "unknown", "z3+cvc5", f"{reason}"

    def fail(self, name, detail=""):
        """An obligation that is violated on this (feasible) path."""
        return self.prove(name + (f": {detail}" if detail else ""), z3.BoolVal(False))

    def cover(self, name):
        """Reachability check guarding against vacuous proofs."""
        if not self.result.covers.get(name):
            s = z3.Solver()
            s.set("timeout", 3000)
            s.add(self.pc)
            r = s.check()
            # `unknown` counts as reachable only if no contradiction was found
            self.result.covers[name] = r != z3.unsat

    # -- truthiness
    def truthy(self, v):
        """Return host bool or z3 Bool."""
        if isinstance(v, bool) or v is None:
            return bool(v)
        if is_z3(v):
            if z3.is_bool(v):
                return v
            if z3.is_arith(v):
                return v != 0
        if isinstance(v, (int, float, str, tuple, bytes)):
            return bool(v)
        if isinstance(v, ListObj):
            it = v.content.items()
            return bool(it) if it is not None else v.content.nonempty(self)
        if isinstance(v, DictObj):
            return len(v.pairs) > 0
        if isinstance(v, Model):
            return v.py_bool(self)
        if isinstance(v, Opaque):
            if v.sym_bool is None:
                v.sym_bool = self.fresh_bool("opq")
            return v.sym_bool
        if isinstance(v, Undefined):
            raise Unsupported(f"read of {v.name} after a loop cut")
        if isinstance(v, (Inst, Obj)):
            cls = v.cls if isinstance(v, Inst) else v.fam.cls
            if isinstance(cls, ClassVal):
                r = cls.lookup("__bool__")
                if r:
                    return self.truthy(self.interp.call(BoundMethod(r[0], v), [], {}))
                r = cls.lookup("__len__")
                if r:
                    n = self.interp.call(BoundMethod(r[0], v), [], {})
                    return n > 0
            return True
        if isinstance(v, Term):
            return True
        return True

    def test(self, v):
        return self.branch(self.truthy(v))

    def raise_(self, cls, *args):
        raise PyRaise(ExcVal(cls, args))


def simp_bool(e):
    r = simp(e)
    return truth(r)


def _model_text(s, goal):
    try:
        m = s.model()
    except z3.Z3Exception:
        return ""
    txt = str(m)
    return txt[:3000]


def _cvc5_check(smt2, timeout_ms):
    try:
        import cvc5
        from cvc5 import InputParser, SymbolManager
    except Exception:
        return "unknown"
    try:
        tm = cvc5.TermManager()
        slv = cvc5.Solver(tm)
        slv.setOption("tlimit-per", str(int(timeout_ms)))
        slv.setOption("full-saturate-quant", "true")
        text = "(set-logic ALL)\n" + "\n".join(
            l for l in smt2.splitlines() if not l.startswith("(set-info") and not l.startswith("; ")
        )
        parser = InputParser(slv)
        parser.setStringInput(cvc5.InputLanguage.SMT_LIB_2_6, text, "q")
        sm = parser.getSymbolManager()
        res = ""
        while True:
            cmd = parser.nextCommand()
            if cmd.isNull():
                break
            out = cmd.invoke(slv, sm)
            if out and out.strip() in ("sat", "unsat", "unknown"):
                res = out.strip()
        return res or "unknown"
    except Exception:
        return "unknown"

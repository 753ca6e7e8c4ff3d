"""Models of the library functions used by the verified code.

Every entry is an *assumed* contract of a dependency; the evidence lists those used.
"""
import math
import z3
from .engine import *
from . import lib

EXTERNALS = {}


def ext(*paths, note=None):
    def deco(fn):
        for p in paths:
            def wrapped(ctx, *a, _p=p, **k):
                ctx.assumption(f"library contract: {_p}" + (f" ({note})" if note else ""))
                return fn(ctx, *a, **k)
            EXTERNALS[p] = wrapped
        return fn
    return deco


def noop(ctx, *a, **k):
    return None


class Logger(Model):
    type_name = "Logger"

    def py_getattr(self, ctx, name):
        if name == "level":
            return Opaque("logger.level")
        if name == "handlers":
            return ctx.interp.new_list(Conc([]))
        return Builtin(f"logging.{name}", noop)


LOGGER = Logger()
for _n in ("debug", "info", "warning", "error", "exception", "critical", "log"):
    EXTERNALS[f"logging.{_n}"] = noop
EXTERNALS["logging.getLogger"] = lambda ctx, *a: LOGGER


def install(ctx):
    ctx.externals = dict(EXTERNALS)


# ---------------------------------------------------------------- random
@ext("random.choice", note="returns an element of a non-empty sequence, IndexError if empty")
def random_choice(ctx, seq):
    it = ctx.interp
    c = it.content(seq)
    ne = c.nonempty(ctx)
    if not ctx.branch(truth(ne) if not isinstance(ne, bool) else ne):
        ctx.raise_(IndexError, "Cannot choose from an empty sequence")
    items = c.items()
    if items is not None:
        return items[ctx.choose(len(items))]
    return c.pick(ctx)


@ext("random.sample", note="k elements at pairwise different positions")
def random_sample(ctx, seq, k=None):
    it = ctx.interp
    c = it.content(seq)
    k = simp(k)
    n = c.length(ctx)
    if isinstance(k, int):
        if not ctx.branch(simp(to_z3(n) >= k)):
            ctx.raise_(ValueError, "Sample larger than population")
        idx = []
        for _ in range(k):
            i = ctx.fresh_int("sample")
            ctx.assume(z3.And(i >= 0, i < n))
            for j in idx:
                ctx.assume(i != j)
            idx.append(i)
        return it.new_list(Conc([c.at(ctx, i) for i in idx]))
    if not ctx.branch(simp(z3.And(to_z3(n) >= k, k >= 0))):
        ctx.raise_(ValueError, "Sample larger than population")
    f = ctx.fresh_fun("sample", z3.IntSort(), z3.IntSort())
    i, j = z3.Ints("i!s j!s")
    ctx.assume(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < k), z3.And(f(i) >= 0, f(i) < n))))
    ctx.assume(z3.ForAll([i, j], z3.Implies(z3.And(i >= 0, i < k, j >= 0, j < k, i != j), f(i) != f(j))))
    return it.new_list(FnC(k, lambda cc, x: c.at(cc, f(to_z3(x)))))


@ext("random.randint", note="an integer between both bounds, ValueError if none exists")
def random_randint(ctx, a, b):
    if not ctx.branch(simp(to_z3(a) <= to_z3(b))):
        ctx.raise_(ValueError, "empty range for randrange()")
    i = ctx.fresh_int("randint")
    ctx.assume(z3.And(i >= a, i <= b))
    return i


@ext("random.random", note="a number in [0, 1)")
def random_random(ctx):
    r = ctx.fresh_real("random")
    ctx.assume(z3.And(r >= 0, r < 1))
    return r


EXTERNALS["random.seed"] = noop
EXTERNALS["numpy.random.seed"] = noop


# ---------------------------------------------------------------- misc
class Uid(Model):
    """A freshly drawn uuid: different from every other uuid (probabilistic)."""

    type_name = "uuid"
    n = 0

    def __init__(self, ctx):
        self.e = ctx.fresh_int("uuid")
        old = ctx.run_memo.setdefault("uuids", [])
        for o in old:
            ctx.assume(o != self.e)
        ctx.assume(self.e >= 10**6)  # disjoint from the ids of pre-existing objects
        old.append(self.e)

    def py_eq(self, ctx, other):
        if isinstance(other, Uid):
            return simp(self.e == other.e)
        if is_z3(other) and z3.is_int(other):
            return simp(self.e == other)
        return False


@ext("uuid.uuid4", note="never returns the same value twice")
def uuid4(ctx):
    return Uid(ctx)


@ext("functools.partial")
def partial(ctx, f, *a, **k):
    return PartialVal(f, a, k)


@ext("operator.attrgetter")
def attrgetter(ctx, *names):
    def one(o, name):
        for n in name.split("."):
            o = ctx.interp.getattr(o, n)
        return o
    return Builtin("attrgetter", lambda c, o: one(o, names[0]) if len(names) == 1 else tuple(one(o, n) for n in names))


@ext("operator.itemgetter")
def itemgetter(ctx, *keys):
    return Builtin("itemgetter", lambda c, o: c.interp.getitem(o, keys[0]) if len(keys) == 1 else tuple(c.interp.getitem(o, k) for k in keys))


@ext("functools.cmp_to_key")
def cmp_to_key(ctx, f):
    return CmpKey(f)


class CmpKey(Model):
    type_name = "cmp_to_key"

    def __init__(self, f):
        self.f = f

    def py_call(self, ctx, v):
        return CmpKeyed(self.f, v)


class CmpKeyed(Model):
    type_name = "cmp_to_key object"

    def __init__(self, f, v):
        self.f, self.v = f, v

    def py_compare(self, ctx, name, other):
        r = ctx.interp.call(self.f, [self.v, other.v], {})
        return lib.num_compare(name, r, 0)


@ext("math.floor", note="greatest integer not above")
def math_floor(ctx, v):
    if not is_z3(v):
        return math.floor(v)
    return v if z3.is_int(v) else simp(z3.ToInt(v))


@ext("math.ceil", note="least integer not below")
def math_ceil(ctx, v):
    if not is_z3(v):
        return math.ceil(v)
    return v if z3.is_int(v) else simp(-z3.ToInt(-v))


@ext("typing.cast")
def cast(ctx, t, v):
    return v


@ext("itertools.combinations", note="all pairs of positions i < j")
def combinations(ctx, seq, r):
    it = ctx.interp
    c = it.content(seq)
    items = c.items()
    if items is not None:
        import itertools
        return it.new_list(Conc(list(itertools.combinations(items, r))), kind="iter")
    if r != 2:
        raise Unsupported("combinations with r != 2")
    n = c.length(ctx)

    def pick(cc):
        i, j = cc.fresh_int("ci"), cc.fresh_int("cj")
        cc.assume(z3.And(0 <= i, i < j, j < n))
        return (c.at(cc, i), c.at(cc, j))

    return it.new_list(PickC(pick, nonempty=simp(to_z3(n) >= 2)), kind="iter")


@ext("itertools.chain")
def chain(ctx, *seqs):
    it = ctx.interp
    c = Conc([])
    for s in seqs:
        c = lib.concat(c, it.content(s))
    return it.new_list(c, kind="iter")


@ext("collections.defaultdict")
def defaultdict(ctx, f=None):
    d = DictObj([], default_factory=f)
    d.birth = ctx.clock()
    return d


@ext("copy.copy")
def copy_copy(ctx, v):
    it = ctx.interp
    if isinstance(v, Inst):
        if isinstance(v.cls, ClassVal) and v.cls.lookup("__copy__"):
            return it.call(BoundMethod(v.cls.lookup("__copy__")[0], v), [], {})
        o = Inst(v.cls, dict(v.attrs), label=v.label)
        o.birth = ctx.clock()
        return o
    if isinstance(v, ListObj):
        return it.new_list(v.content, kind=v.kind)
    if isinstance(v, DictObj):
        d = DictObj(list(v.pairs), v.default_factory)
        d.birth = ctx.clock()
        return d
    if isinstance(v, Model) and hasattr(v, "py_copy"):
        return v.py_copy(ctx)
    if isinstance(v, Obj):
        o = Inst(v.fam.cls, {}, label="copy of " + repr(v))
        for f in v.fam.fields:
            o.attrs[f] = it.getattr(v, f)
        o.birth = ctx.clock()
        return o
    raise Unsupported(f"copy of {v!r}")


class Suppress(Model):
    type_name = "suppress"

    def __init__(self, excs):
        self.excs = excs

    def m___enter__(self, ctx):
        return None

    def m___exit__(self, ctx, et, ev, tb):
        if et is None:
            return False
        return any(isinstance(e, type) and issubclass(et, e) for e in self.excs)


@ext("contextlib.suppress")
def suppress(ctx, *excs):
    return Suppress(excs)


@ext("numpy.isinf")
def np_isinf(ctx, v):
    if isinstance(v, float):
        return math.isinf(v)
    if is_z3(v):
        return False
    return Opaque("isinf")

"""Built-in functions, operators and methods of built-in types."""
import ast
import math
import z3
from .engine import *

STR = Schema("Str")
STR.is_str = True
INF = float("inf")


def str_const(ctx, s, schema=None):
    """z3 constant for a concrete string; distinct strings are distinct constants."""
    schema = schema or STR
    d = ctx.intern.setdefault("str:" + schema.name, {})
    if s not in d:
        c = z3.Const("str:" + s, schema.sort)
        for o in d.values():
            ctx.assume(c != o)
        d[s] = c
    return d[s]


def unlist(it, v):
    c = it.content(v)
    return c


def check_mutable(it, o):
    ctx = it.ctx
    if ctx.pure and getattr(o, "birth", 0) <= getattr(ctx, "pure_clock", 0):
        raise Unsupported("mutation in a pure context")


def set_content(it, l, content, field="content"):
    check_mutable(it, l)
    it.ctx.log_mut(l, field)
    l.content = content


# ------------------------------------------------------------------ equality / order
def equal(it, a, b):
    ctx = it.ctx
    if a is b and not isinstance(a, float):
        return True
    if isinstance(a, Undefined) or isinstance(b, Undefined):
        raise Unsupported("read after a loop cut")
    if isinstance(a, Model) and hasattr(a, "py_eq"):
        return a.py_eq(ctx, b)
    if isinstance(b, Model) and hasattr(b, "py_eq"):
        return b.py_eq(ctx, a)
    for x, y in ((a, b), (b, a)):
        if isinstance(x, (Inst, Obj)):
            cls = x.cls if isinstance(x, Inst) else x.fam.cls
            if isinstance(cls, ClassVal) and cls.nt_fields is None:
                r = cls.lookup("__eq__")
                if r is not None:
                    return it.call(BoundMethod(r[0], x), [y], {})
    return identical_or_structural(it, a, b)


def identical_or_structural(it, a, b):
    ctx = it.ctx
    if isinstance(a, Opaque) or isinstance(b, Opaque):
        if a is None or b is None or isinstance(a, Opaque) or isinstance(b, Opaque):
            key = ("opqeq", id(a), id(b))
            if key not in ctx.run_memo:
                ctx.run_memo[key] = (ctx.fresh_bool("opqeq"), a, b)
            return ctx.run_memo[key][0]
    if a is None or b is None:
        return a is b
    if (is_num(a) or is_boolish(a)) and (is_num(b) or is_boolish(b)):
        if is_boolish(a) and is_boolish(b):
            return simp(truth(a) == truth(b)) if (is_z3(a) or is_z3(b)) else a == b
        if isinstance(a, float) and math.isinf(a) or isinstance(b, float) and math.isinf(b):
            if is_z3(a) or is_z3(b):
                return False
            return a == b
        x, y = num_pair(a, b)
        return simp(x == y) if is_z3(x) or is_z3(y) else x == y
    if isinstance(a, Term) and isinstance(b, Term):
        if a.expr.sort() == b.expr.sort():
            return simp(a.expr == b.expr)
        return False
    if isinstance(a, Term) and isinstance(b, str) and getattr(a.schema, "is_str", False):
        return simp(a.expr == str_const(ctx, b, a.schema))
    if isinstance(b, Term) and isinstance(a, str) and getattr(b.schema, "is_str", False):
        return simp(b.expr == str_const(ctx, a, b.schema))
    ta, tb = as_tuple(a), as_tuple(b)
    if ta is not None and tb is not None:
        if len(ta) != len(tb):
            return False
        out = []
        for x, y in zip(ta, tb):
            e = equal(it, x, y)
            if e is False:
                return False
            if e is not True:
                out.append(ctx.truthy(e))
        return simp(z3.And(out)) if out else True
    if isinstance(a, ListObj) and isinstance(b, ListObj):
        ia, ib = a.content.items(), b.content.items()
        if ia is not None and len(ia) == 0:
            t = ctx.truthy(b)
            return (not t) if isinstance(t, bool) else simp(z3.Not(t))
        if ib is not None and len(ib) == 0:
            t = ctx.truthy(a)
            return (not t) if isinstance(t, bool) else simp(z3.Not(t))
        if ia is not None and ib is not None:
            return identical_or_structural(it, tuple(ia), tuple(ib))
        na, nb = a.content.length(ctx), b.content.length(ctx)
        same = ctx.forall_index(na, lambda i: ctx.truthy(equal(it, a.content.at(ctx, i), b.content.at(ctx, i))))
        return simp(z3.And(to_z3(na) == to_z3(nb), same))
    if isinstance(a, Obj) and isinstance(b, Obj):
        if a.fam is not b.fam:
            return False
        return it.idx_eq(a.idx, b.idx)
    if isinstance(a, (str, bytes, int, float, bool, type)) and isinstance(b, (str, bytes, int, float, bool, type)):
        return a == b
    if isinstance(a, External) and isinstance(b, External):
        return a.path == b.path
    kinds = (Inst, Obj, ListObj, DictObj, ClassVal, FuncVal, Term, tuple, str, External, int, float)
    if type(a).__name__ == "StrCat" or type(b).__name__ == "StrCat":
        key = ("streq", id(a), id(b))
        if key not in ctx.run_memo:
            ctx.run_memo[key] = (ctx.fresh_bool("streq"), a, b)
        return ctx.run_memo[key][0]
    return False


def as_tuple(v):
    if isinstance(v, tuple):
        return v
    if isinstance(v, Inst) and isinstance(v.cls, ClassVal) and v.cls.nt_fields is not None:
        return tuple(v.attrs[f] for f, _, _ in v.cls.nt_fields)
    return None


def neg(ctx, v):
    t = ctx.truthy(v)
    return (not t) if isinstance(t, bool) else simp(z3.Not(t))


def num_compare(op, a, b):
    for x in (a, b):
        if isinstance(x, float) and math.isnan(x):
            return False
    inf_a = isinstance(a, float) and math.isinf(a)
    inf_b = isinstance(b, float) and math.isinf(b)
    if (inf_a or inf_b) and (is_z3(a) or is_z3(b)):
        # symbolic reals are finite
        if inf_a:
            return {"Lt": a < 0, "LtE": a < 0, "Gt": a > 0, "GtE": a > 0}[op]
        return {"Lt": b > 0, "LtE": b > 0, "Gt": b < 0, "GtE": b < 0}[op]
    x, y = num_pair(a, b)
    r = {"Lt": lambda: x < y, "LtE": lambda: x <= y, "Gt": lambda: x > y, "GtE": lambda: x >= y}[op]()
    return simp(r) if is_z3(r) else r


def compare(it, op, a, b):
    ctx = it.ctx
    name = type(op).__name__
    if isinstance(a, Model) and hasattr(a, "py_compare"):
        r = a.py_compare(ctx, name, b)
        if r is not NotImplemented:
            return r
    if name == "Eq":
        return equal(it, a, b)
    if name == "NotEq":
        for x, y in ((a, b),):
            if isinstance(x, (Inst, Obj)):
                cls = x.cls if isinstance(x, Inst) else x.fam.cls
                if isinstance(cls, ClassVal) and cls.nt_fields is None:
                    r = cls.lookup("__ne__")
                    if r is not None:
                        return it.call(BoundMethod(r[0], x), [y], {})
        return neg(ctx, equal(it, a, b))
    if name in ("Is", "IsNot"):
        r = is_(it, a, b)
        if name == "IsNot":
            return neg(ctx, r)
        return r
    if name in ("In", "NotIn"):
        r = contains(it, b, a)
        return neg(ctx, r) if name == "NotIn" else r
    if isinstance(b, Model) and hasattr(b, "py_rcompare"):
        return b.py_rcompare(ctx, name, a)
    if (is_num(a) or is_boolish(a)) and (is_num(b) or is_boolish(b)):
        return num_compare(name, a, b)
    meth = {"Lt": "__lt__", "LtE": "__le__", "Gt": "__gt__", "GtE": "__ge__"}[name]
    if isinstance(a, (Inst, Obj)):
        cls = a.cls if isinstance(a, Inst) else a.fam.cls
        if isinstance(cls, ClassVal):
            r = cls.lookup(meth)
            if r is not None:
                return it.call(BoundMethod(r[0], a), [b], {})
    ta, tb = as_tuple(a), as_tuple(b)
    if ta is not None and tb is not None:
        return tuple_compare(it, name, ta, tb)
    if isinstance(a, str) and isinstance(b, str):
        return {"Lt": a < b, "LtE": a <= b, "Gt": a > b, "GtE": a >= b}[name]
    if isinstance(a, Opaque) or isinstance(b, Opaque):
        return ctx.fresh_bool("opqcmp")
    if a is None or b is None:
        ctx.raise_(TypeError, "comparison with None")
    raise Unsupported(f"comparison {name} of {a!r} and {b!r}")


def tuple_compare(it, name, a, b):
    """Lexicographic comparison of concrete-length tuples."""
    ctx = it.ctx
    strict = name in ("Lt", "Gt")
    base = "Lt" if name in ("Lt", "LtE") else "Gt"
    opn = {"Lt": ast.Lt(), "Gt": ast.Gt()}[base]
    if not a or not b:
        if base == "Lt":
            return (len(a) < len(b)) if strict else (len(a) <= len(b))
        return (len(a) > len(b)) if strict else (len(a) >= len(b))
    e = truth(ctx.truthy(equal(it, a[0], b[0])))
    rest = truth(ctx.truthy(tuple_compare(it, name, a[1:], b[1:])))
    first = truth(ctx.truthy(compare(it, opn, a[0], b[0])))
    return simp(z3.If(e, rest, first))


def is_(it, a, b):
    if a is None or b is None:
        for x in (a, b):
            if isinstance(x, Opaque):
                if "isnone" not in x.memo:
                    x.memo["isnone"] = it.ctx.fresh_bool("isnone")
                return x.memo["isnone"]
            if isinstance(x, Model) and hasattr(x, "py_is_none"):
                return x.py_is_none(it.ctx)
        return a is b
    if isinstance(a, Obj) and isinstance(b, Obj):
        return it.idx_eq(a.idx, b.idx) if a.fam is b.fam else False
    if isinstance(a, Term) and isinstance(b, Term):
        return identical_or_structural(it, a, b)
    if isinstance(a, (bool, str, int, type)) and isinstance(b, (bool, str, int, type)):
        return a is b or (type(a) == type(b) and a == b)
    if is_z3(a) or is_z3(b):
        return identical_or_structural(it, a, b)
    if isinstance(a, (Inst, ListObj, DictObj, ClassVal, FuncVal, Model, External)) or isinstance(
        b, (Inst, ListObj, DictObj, ClassVal, FuncVal, Model, External)
    ):
        if isinstance(a, External) and isinstance(b, External):
            return a.path == b.path
        if isinstance(a, Opaque) or isinstance(b, Opaque):
            return it.ctx.fresh_bool("is")
        return a is b
    return a is b


def contains(it, coll, x):
    ctx = it.ctx
    if isinstance(coll, Model) and hasattr(coll, "py_contains"):
        return coll.py_contains(ctx, x)
    if isinstance(coll, Opaque) or isinstance(x, Opaque):
        return ctx.fresh_bool("in")
    if isinstance(coll, str):
        if isinstance(x, str):
            return x in coll
        return ctx.fresh_bool("instr")
    if type(coll).__name__ == "StrCat":
        return ctx.fresh_bool("instr")
    if isinstance(coll, (Inst,)) and isinstance(coll.cls, ClassVal):
        r = coll.cls.lookup("__contains__")
        if r:
            return it.call(BoundMethod(r[0], coll), [x], {})
    if isinstance(coll, DictObj):
        items = [k for k, _ in coll.pairs]
    elif isinstance(coll, range):
        if is_z3(x):
            return simp(z3.And(x >= coll.start, x < coll.stop)) if coll.step == 1 else it._unsup("in range")
        return x in coll
    else:
        c = it.content(coll)
        items = c.items()
        if items is None:
            if isinstance(c, SetC) and isinstance(x, (Term, Obj)):
                try:
                    return simp(c.member(c.unwrap(x)))
                except (AttributeError, z3.Z3Exception):
                    pass
            return simp(ctx.exists_elem(c, lambda cc, v: ctx.truthy(equal(it, v, x))))
    out = []
    for k in items:
        e = ctx.truthy(equal(it, k, x))
        if e is True:
            return True
        if e is not False:
            out.append(e)
    return simp(z3.Or(out)) if out else False


# ------------------------------------------------------------------ arithmetic
def binop(it, op, a, b):
    ctx = it.ctx
    name = type(op).__name__
    if isinstance(a, Model) and hasattr(a, "py_binop"):
        r = a.py_binop(ctx, name, b)
        if r is not NotImplemented:
            return r
    if isinstance(b, Model) and hasattr(b, "py_rbinop"):
        r = b.py_rbinop(ctx, name, a)
        if r is not NotImplemented:
            return r
    if (is_num(a) or is_boolish(a)) and (is_num(b) or is_boolish(b)):
        return arith(it, name, a, b)
    if isinstance(a, str) and isinstance(b, str) and name == "Add":
        return a + b
    if isinstance(a, (str,)) or isinstance(b, str) or type(a).__name__ == "StrCat" or type(b).__name__ == "StrCat":
        from .interp import StrCat

        if name == "Mod":
            return Opaque("formatted string")
        if name == "Add":
            pa = a.parts if isinstance(a, StrCat) else [a]
            pb = b.parts if isinstance(b, StrCat) else [b]
            return StrCat(list(pa) + list(pb))
        if name == "Mult" and isinstance(a, str) and isinstance(b, int):
            return a * b
        return Opaque("string")
    if isinstance(a, tuple) and isinstance(b, tuple) and name == "Add":
        return a + b
    if name == "Add" and {type(a), type(b)} <= {tuple, ListObj} and all(isinstance(v, tuple) or v.kind == "tuple" for v in (a, b)):
        return it.new_list(concat(it.content(a), it.content(b)), kind="tuple")
    if isinstance(a, tuple) and isinstance(b, Opaque) or isinstance(a, Opaque) or isinstance(b, Opaque):
        return Opaque(f"{name}")
    if isinstance(a, ListObj) and isinstance(b, ListObj):
        if name == "Add":
            return it.new_list(concat(a.content, b.content))
        if name == "Sub" and a.kind == "set":
            return set_difference(it, a, b)
        if name == "BitOr" and a.kind == "set" and (a.content.items() is None or b.content.items() is None):
            return it.new_list(concat(a.content, b.content), kind="set")
        if name == "BitOr" and a.kind == "set":
            return make_set(it, list(a.content.items()) + list(b.content.items()))
    if isinstance(a, ListObj) and name == "Mult":
        items = a.content.items()
        n = simp(b)
        if items is not None and isinstance(n, int):
            return it.new_list(Conc(items * n))
        if items is not None and len(items) == 1:
            n = ite_max(b, 0)
            return it.new_list(FnC(n, lambda c, i: items[0]))
    if isinstance(a, DictObj) and isinstance(b, DictObj) and name == "BitOr":
        d = DictObj(list(a.pairs))
        for k, v in b.pairs:
            dict_set(it, d, k, v)
        return d
    raise Unsupported(f"operator {name} on {a!r} and {b!r}")


def concat(c1, c2):
    if c1.items() is not None and c2.items() is not None:
        return Conc(list(c1.items()) + list(c2.items()))
    if c1.items() is not None and not c1.items():
        return c2
    if c2.items() is not None and not c2.items():
        return c1
    parts = (c1.parts if isinstance(c1, Concat) else [c1]) + (
        c2.parts if isinstance(c2, Concat) else [c2]
    )
    return Concat(parts)


def arith(it, name, a, b):
    ctx = it.ctx
    if is_boolish(a) and is_boolish(b) and name in ("BitAnd", "BitOr", "BitXor"):
        x, y = truth(a), truth(b)
        return simp({"BitAnd": z3.And(x, y), "BitOr": z3.Or(x, y), "BitXor": z3.Xor(x, y)}[name])
    if not is_z3(a) and not is_z3(b):
        a2, b2 = a, b
        try:
            return {
                "Add": lambda: a2 + b2, "Sub": lambda: a2 - b2, "Mult": lambda: a2 * b2,
                "Div": lambda: a2 / b2, "FloorDiv": lambda: a2 // b2, "Mod": lambda: a2 % b2,
                "Pow": lambda: a2 ** b2, "BitOr": lambda: a2 | b2, "BitAnd": lambda: a2 & b2,
                "BitXor": lambda: a2 ^ b2,
            }[name]()
        except ZeroDivisionError:
            ctx.raise_(ZeroDivisionError)
    inf = [x for x in (a, b) if isinstance(x, float) and math.isinf(x)]
    if inf and name in ("Add", "Sub"):
        if name == "Add":
            return inf[0]
        return a if isinstance(a, float) and math.isinf(a) else -b
    x, y = num_pair(a, b)
    if name == "Add":
        return simp(x + y)
    if name == "Sub":
        return simp(x - y)
    if name == "Mult":
        return simp(x * y)
    if name == "Div":
        if ctx.branch(simp(y == 0)):
            ctx.raise_(ZeroDivisionError)
        if x.is_int():
            x, y = z3.ToReal(x), z3.ToReal(y)
        return simp(x / y)
    if name == "FloorDiv" and x.is_int() and y.is_int():
        if ctx.branch(simp(y == 0)):
            ctx.raise_(ZeroDivisionError)
        if ctx.branch(simp(y > 0)):
            return simp(x / y)  # z3 integer division floors for positive divisors
        return simp((-x) / (-y)) if False else it._unsup("// with negative divisor")
    if name == "Mod" and x.is_int() and y.is_int():
        if ctx.branch(simp(y == 0)):
            ctx.raise_(ZeroDivisionError)
        if ctx.branch(simp(y > 0)):
            return simp(x % y)
        raise Unsupported("% with negative divisor")
    if name == "Pow":
        h = getattr(ctx, "pow_model", None)
        if h is not None:
            return h(ctx, a, b)
    raise Unsupported(f"arithmetic {name}")


# ------------------------------------------------------------------ items
def norm_index(it, i, n):
    """Python index -> nonnegative index, raising IndexError when out of range."""
    ctx = it.ctx
    i = simp(i)
    if isinstance(i, int) and isinstance(n, int):
        if i < -n or i >= n:
            ctx.raise_(IndexError)
        return i + n if i < 0 else i
    if isinstance(i, int) and i < 0:
        if not ctx.branch(simp(n >= -i)):
            ctx.raise_(IndexError)
        return simp(n + i)
    if isinstance(i, int):
        if not ctx.branch(simp(to_z3(n) > i)):
            ctx.raise_(IndexError)
        return i
    if ctx.branch(simp(i < 0)):
        if not ctx.branch(simp(i >= -to_z3(n))):
            ctx.raise_(IndexError)
        return simp(i + n)
    if not ctx.branch(simp(i < n)):
        ctx.raise_(IndexError)
    return i


def norm_slice(it, s, n):
    ctx = it.ctx
    if s.step is not None and s.step != 1:
        raise Unsupported("slice step")

    def bound(x, default):
        if x is None:
            return default
        x = simp(x)
        if isinstance(x, Opaque) or not is_num(x):
            raise Unsupported("slice bound")
        if isinstance(x, int) and isinstance(n, int):
            return max(0, min(n, x + n if x < 0 else x))
        if isinstance(x, int):
            if x >= 0:
                return ite_min(x, n) if x else 0
            return ite_max(simp(n + x), 0)
        x2 = z3.If(x < 0, x + n, x)
        return simp(z3.If(x2 < 0, z3.IntVal(0), z3.If(x2 > n, to_z3(n), x2)))

    lo, hi = bound(s.start, 0), bound(s.stop, n)
    if isinstance(lo, int) and isinstance(hi, int):
        return lo, max(lo, hi)
    if isinstance(lo, int) and lo == 0:
        return lo, hi
    return lo, ite_max(lo, hi)


def getitem(it, o, k):
    ctx = it.ctx
    if isinstance(o, Model) and hasattr(o, "py_getitem"):
        return o.py_getitem(ctx, k)
    if isinstance(o, Opaque):
        return Opaque(f"{o.what}[]")
    if isinstance(o, Undefined):
        raise Unsupported(f"read of {o.name} after a loop cut")
    if isinstance(o, DictObj):
        return dict_get(it, o, k)
    if isinstance(o, Inst) and isinstance(o.cls, ClassVal) and o.cls.nt_fields is None:
        r = o.cls.lookup("__getitem__")
        if r:
            return it.call(BoundMethod(r[0], o), [k], {})
    if isinstance(o, str):
        k2 = k
        if isinstance(k, slice):
            if all(x is None or isinstance(x, int) for x in (k.start, k.stop, k.step)):
                return o[k]
            return Opaque("substring")
        if isinstance(k, int):
            try:
                return o[k]
            except IndexError:
                ctx.raise_(IndexError)
        return Opaque("char")
    t = as_tuple(o)
    if t is not None:
        if isinstance(k, slice):
            lo, hi = norm_slice(it, k, len(t))
            return t[lo:hi]
        i = norm_index(it, k, len(t))
        return Conc(t).at(ctx, i)
    if isinstance(o, ListObj):
        if isinstance(k, slice):
            items = o.content.items()
            if items is not None:
                lo, hi = norm_slice(it, k, len(items))
                if isinstance(lo, int) and isinstance(hi, int):
                    return it.new_list(Conc(items[lo:hi]))
                return it.new_list(SliceC(o.content, lo, hi))
            if k.start is None and k.stop is None and k.step is None:
                return it.new_list(o.content)
            if k.start is None and k.stop is None and k.step == -1:
                return it.new_list(RevC(o.content))
            n = o.content.length(ctx)
            lo, hi = norm_slice(it, k, n)
            return it.new_list(SliceC(o.content, lo, hi))
        if not is_num(k) and not isinstance(k, bool):
            ctx.raise_(TypeError, "list indices must be integers")
        n = o.content.length(ctx)
        i = norm_index(it, k, n)
        return o.content.at(ctx, i)
    if isinstance(o, range):
        return o[k]
    raise Unsupported(f"subscript of {o!r}")


def setitem(it, o, k, v):
    ctx = it.ctx
    if isinstance(o, Model) and hasattr(o, "py_setitem"):
        check_mutable(it, o)
        ctx.log_mut(o, "item")
        return o.py_setitem(ctx, k, v)
    if isinstance(o, DictObj):
        check_mutable(it, o)
        ctx.log_mut(o, "item")
        return dict_set(it, o, k, v)
    if isinstance(o, ListObj):
        if isinstance(k, slice):
            if k.start is None and k.stop is None and k.step is None:
                return set_content(it, o, it.content(v))
            raise Unsupported("slice assignment")
        items = o.content.items()
        n = o.content.length(ctx)
        i = norm_index(it, k, n)
        if items is not None and isinstance(i, int):
            new = list(items)
            new[i] = v
            return set_content(it, o, Conc(new))
        base = o.content

        def at(c, j):
            if c.branch(simp(j == i)):
                return v
            return base.at(c, j)

        nc = FnC(n, at)
        nc.updated = (base, i, v)
        return set_content(it, o, nc)
    if isinstance(o, Opaque):
        ctx.note(f"item set on {o}")
        return
    raise Unsupported(f"item assignment on {o!r}")


def delitem(it, o, k):
    if isinstance(o, DictObj):
        dict_pop(it, o, k)
        return
    if isinstance(o, Model) and hasattr(o, "py_delitem"):
        it.ctx.log_mut(o, "item")
        return o.py_delitem(it.ctx, k)
    raise Unsupported("del item")


def dict_find(it, d, k):
    ctx = it.ctx
    for i in range(len(d.pairs) - 1, -1, -1):
        e = ctx.truthy(equal(it, d.pairs[i][0], k))
        if ctx.branch(e):
            return i
    return None


def dict_get(it, d, k, default=KeyError):
    i = dict_find(it, d, k)
    if i is not None:
        return d.pairs[i][1]
    if d.default_factory is not None and default is KeyError:
        v = it.call(d.default_factory, [], {})
        it.ctx.log_mut(d, "item")
        d.pairs.append((k, v))
        return v
    if default is KeyError:
        it.ctx.raise_(KeyError, k)
    return default


def dict_set(it, d, k, v):
    i = dict_find(it, d, k)
    if i is None:
        d.pairs.append((k, v))
    else:
        d.pairs[i] = (d.pairs[i][0], v)


def dict_pop(it, d, k, default=KeyError):
    check_mutable(it, d)
    i = dict_find(it, d, k)
    if i is None:
        if default is KeyError:
            it.ctx.raise_(KeyError, k)
        return default
    it.ctx.log_mut(d, "item")
    return d.pairs.pop(i)[1]


def make_set(it, items):
    out = []
    for v in items:
        e = contains(it, tuple(out), v) if out else False
        if not it.ctx.branch(it.ctx.truthy(e)):
            out.append(v)
    return it.new_list(Conc(out), kind="set")


def set_difference(it, a, b):
    ia, ib = a.content.items(), b.content.items()
    if ia is not None and ib is not None:
        return it.new_list(Conc([v for v in ia if not it.ctx.test(contains(it, tuple(ib), v))]), kind="set")
    bc = it.new_list(b.content)
    c = FilterC(a.content, lambda c, v: neg(c, contains(it, bc, v)))
    return it.new_list(c, kind="set")


def list_extend(it, l, v):
    c = it.content(v)
    set_content(it, l, concat(l.content, c))


def append(it, l, v):
    ctx = it.ctx
    c = l.content
    if isinstance(c, SetC):
        try:
            x = c.unwrap(v)
        except AttributeError:
            raise Unsupported("append of a foreign element to a set content")
        h = getattr(c, "on_append", None)
        if h:
            h(ctx, x)
        ctx.prove("list elements stay pairwise distinct", z3.Not(c.member(x)))
        old = c.member
        nc = SetC(c.sort, lambda y: z3.Or(old(y), y == x), c.wrap,
                  None if c.card is None else simp(c.card + 1), c.unwrap)
        nc.on_append = h
        return set_content(it, l, nc)
    set_content(it, l, concat(c, Conc([v])))


def remove(it, l, v):
    ctx = it.ctx
    c = l.content
    items = c.items()
    if items is not None:
        for i, x in enumerate(items):
            if ctx.test(equal(it, x, v)):
                return set_content(it, l, Conc(items[:i] + items[i + 1:]))
        ctx.raise_(ValueError, "list.remove(x): x not in list")
    if isinstance(c, SetC):
        x = c.unwrap(v)
        if not ctx.branch(simp(c.member(x))):
            ctx.raise_(ValueError, "list.remove(x): x not in list")
        old = c.member
        nc = SetC(c.sort, lambda y: z3.And(old(y), y != x), c.wrap,
                  None if c.card is None else simp(c.card - 1), c.unwrap)
        nc.on_append = getattr(c, "on_append", None)
        return set_content(it, l, nc)
    n = c.length(ctx)
    if not ctx.branch(truth(contains(it, l, v))):
        ctx.raise_(ValueError, "list.remove(x): x not in list")
    k = ctx.fresh_int("rm")
    ctx.assume(z3.And(k >= 0, k < n))
    ctx.assume(ctx.truthy(equal(it, c.at(ctx, k), v)))
    ctx.assume(ctx.forall_index(k, lambda i: neg(ctx, equal(it, c.at(ctx, i), v))))

    def at(cc, j):
        if cc.branch(simp(j < k)):
            return c.at(cc, j)
        return c.at(cc, simp(j + 1))

    set_content(it, l, FnC(simp(n - 1), at))


# ------------------------------------------------------------------ methods
def method(it, o, name):
    ctx = it.ctx
    if isinstance(o, ListObj):
        f = LIST_METHODS.get(name)
        if f is None:
            return None
        return Builtin(f"list.{name}", lambda c, *a, **k: f(it, o, *a, **k))
    if isinstance(o, DictObj):
        f = DICT_METHODS.get(name)
        if f is None:
            return None
        return Builtin(f"dict.{name}", lambda c, *a, **k: f(it, o, *a, **k))
    if isinstance(o, str):
        def strm(c, *a, **k):
            if name == "join":
                if all_str(it, a[0]):
                    return o.join(it.content(a[0]).items())
                try:
                    return Join(o, it.content(a[0]))
                except Unsupported:
                    return Opaque("joined string")
            if all(isinstance(x, (str, int)) for x in a):
                try:
                    r = getattr(o, name)(*a, **k)
                except ValueError:
                    c.raise_(ValueError)
                if isinstance(r, list):
                    return it.new_list(Conc(r))
                return r
            return Opaque(f"str.{name}")
        return Builtin(f"str.{name}", strm)
    if type(o).__name__ == "StrCat":
        return Opaque(f"str.{name}")
    if is_num(o):
        if name == "is_integer":
            return Builtin(name, lambda c: simp(z3.IsInt(o)) if is_z3(o) else float(o).is_integer())
        return Opaque(f"number.{name}")
    if isinstance(o, tuple):
        if name == "__lt__":
            return Builtin(name, lambda c, b: compare(it, ast.Lt(), o, b))
        if name == "__le__":
            return Builtin(name, lambda c, b: compare(it, ast.LtE(), o, b))
        if name == "__gt__":
            return Builtin(name, lambda c, b: compare(it, ast.Gt(), o, b))
        if name == "__ge__":
            return Builtin(name, lambda c, b: compare(it, ast.GtE(), o, b))
        if name == "__eq__":
            return Builtin(name, lambda c, b: equal(it, o, b))
        if name == "__ne__":
            return Builtin(name, lambda c, b: neg(c, equal(it, o, b)))
        if name == "index":
            def index(c, v):
                for i, x in enumerate(o):
                    if c.test(equal(it, x, v)):
                        return i
                c.raise_(ValueError)
            return Builtin(name, index)
    if isinstance(o, type) and name == "__name__":
        return o.__name__
    if type(o).__name__ == "PropVal":
        return None
    return None


class Join(Opaque):
    """sep.join(content), structurally."""

    def __init__(self, sep, content):
        super().__init__("joined string")
        self.sep, self.jcontent = sep, content


def all_str(it, v):
    try:
        items = it.content(v).items()
    except Unsupported:
        return False
    return items is not None and all(isinstance(x, str) for x in items)


def l_pop(it, l, i=-1):
    ctx = it.ctx
    items = l.content.items()
    if items is not None and isinstance(simp(i), int):
        if not items:
            ctx.raise_(IndexError)
        new = list(items)
        v = new.pop(i)
        set_content(it, l, Conc(new))
        return v
    n = l.content.length(ctx)
    k = norm_index(it, i, n)
    base = l.content
    v = base.at(ctx, k)

    def at(cc, j):
        if cc.branch(simp(j < k)):
            return base.at(cc, j)
        return base.at(cc, simp(j + 1))

    if i == -1:
        set_content(it, l, SliceC(base, 0, simp(n - 1)))
    else:
        set_content(it, l, FnC(simp(n - 1), at))
    return v


def l_insert(it, l, i, v):
    ctx = it.ctx
    items = l.content.items()
    if items is not None and isinstance(simp(i), int):
        new = list(items)
        new.insert(i, v)
        return set_content(it, l, Conc(new))
    n = l.content.length(ctx)
    lo, _ = norm_slice(it, slice(i, None), n)
    return set_content(it, l, Concat([SliceC(l.content, 0, lo), Conc([v]), SliceC(l.content, lo, n)]))


def l_index(it, l, v):
    items = l.content.items()
    if items is None:
        raise Unsupported("index() on symbolic list")
    for i, x in enumerate(items):
        if it.ctx.test(equal(it, x, v)):
            return i
    it.ctx.raise_(ValueError)


def l_sort(it, l, key=None, reverse=False):
    r = sorted_(it.ctx, l, key=key, reverse=reverse)
    set_content(it, l, r.content)


def l_union(it, l, *others):
    if any(isinstance(o, Opaque) for o in others):
        return Opaque("set union")
    cs = [l.content] + [it.content(o) for o in others]
    if all(c.items() is not None for c in cs):
        return make_set(it, [x for c in cs for x in c.items()])
    c = cs[0]
    for d in cs[1:]:
        c = concat(c, d)
    return it.new_list(c, kind="set")


LIST_METHODS = {
    "append": lambda it, l, v: append(it, l, v),
    "add": lambda it, l, v: set_content(it, l, make_set(it, list(l.content.items()) + [v]).content),
    "extend": lambda it, l, v: list_extend(it, l, v),
    "remove": lambda it, l, v: remove(it, l, v),
    "pop": l_pop,
    "insert": l_insert,
    "clear": lambda it, l: set_content(it, l, Conc([])),
    "copy": lambda it, l: it.new_list(l.content, kind=l.kind),
    "index": l_index,
    "count": lambda it, l, v: Opaque("count"),
    "sort": l_sort,
    "reverse": lambda it, l: set_content(it, l, RevC(l.content) if l.content.items() is None else Conc(l.content.items()[::-1])),
    "union": l_union,
    "update": lambda it, l, v: set_content(it, l, make_set(it, list(l.content.items()) + list(it.content(v).items())).content),
    "difference": lambda it, l, v: set_difference(it, l, it.new_list(it.content(v), kind="set")),
    "discard": lambda it, l, v: set_content(it, l, Conc([x for x in l.content.items() if not it.ctx.test(equal(it, x, v))])),
}


def d_update(it, d, other=None, **kw):
    check_mutable(it, d)
    it.ctx.log_mut(d, "item")
    if isinstance(other, DictObj):
        for k, v in other.pairs:
            dict_set(it, d, k, v)
    elif other is not None:
        raise Unsupported("dict.update of a non-dict")
    for k, v in kw.items():
        dict_set(it, d, k, v)


def d_setdefault(it, d, k, v=None):
    i = dict_find(it, d, k)
    if i is None:
        it.ctx.log_mut(d, "item")
        d.pairs.append((k, v))
        return v
    return d.pairs[i][1]


DICT_METHODS = {
    "get": lambda it, d, k, default=None: dict_get(it, d, k, default),
    "items": lambda it, d: it.new_list(Conc([(k, v) for k, v in d.pairs]), kind="iter"),
    "keys": lambda it, d: it.new_list(Conc([k for k, v in d.pairs]), kind="iter"),
    "values": lambda it, d: it.new_list(Conc([v for k, v in d.pairs]), kind="iter"),
    "pop": dict_pop,
    "update": d_update,
    "setdefault": d_setdefault,
    "copy": lambda it, d: DictObj(list(d.pairs), d.default_factory),
    "clear": lambda it, d: d.pairs.clear(),
}


# ------------------------------------------------------------------ sorted
def key_values(it, key, v):
    return it.call(key, [v], {}) if key is not None else v


def sorted_(ctx, v, key=None, reverse=False):
    """A permutation of the elements of v, ordered by key (stability not modelled)."""
    it = ctx.interp
    h = getattr(ctx, "sorted_hook", None)
    if h is not None:
        r = h(ctx, v, key, reverse)
        if r is not None:
            return r
    c = it.content(v)
    items = c.items()
    if items is not None and len(items) <= 1:
        return it.new_list(Conc(items))
    if items is not None and all(isinstance(x, (int, float, str)) for x in items) and key is None:
        return it.new_list(Conc(sorted(items, reverse=bool(reverse))))
    if isinstance(c, SetC):
        c = c.listing(ctx)
    elif isinstance(c, Concat) and any(isinstance(p, SetC) for p in c.parts):
        c = Concat([p.listing(ctx) if isinstance(p, SetC) else p for p in c.parts])
    n = c.length(ctx)
    pi = ctx.fresh_fun("perm", z3.IntSort(), z3.IntSort())
    inv = ctx.fresh_fun("perminv", z3.IntSort(), z3.IntSort())
    i, j = z3.Ints("i!s j!s")
    ctx.assume(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < n), z3.And(pi(i) >= 0, pi(i) < n, inv(pi(i)) == i)), patterns=[pi(i)]))
    ctx.assume(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < n), z3.And(inv(i) >= 0, inv(i) < n, pi(inv(i)) == i)), patterns=[inv(i)]))
    rc = FnC(n, lambda cc, k: c.at(cc, pi(to_z3(k))))
    rc.sorted_of = (c, key, reverse, pi, inv)
    try:
        def ordered(a, b):
            ka, kb = key_values(it, key, a), key_values(it, key, b)
            if type(ka).__name__ == "StrCat" or isinstance(ka, Opaque):
                raise Unsupported("opaque sort key")
            return neg(ctx, compare(it, ast.Lt(), kb, ka) if not reverse else compare(it, ast.Lt(), ka, kb))

        fact = ctx.forall_index(
            n, lambda x: ctx.forall_index(n, lambda y: z3.Implies(x <= y, truth(ctx.merge(lambda: ordered(rc.at(ctx, x), rc.at(ctx, y)))))))
        ctx.assume(fact)
    except Unsupported as e:
        ctx.note(f"sorted(): order not modelled ({e})")
    return it.new_list(rc)


# ------------------------------------------------------------------ builtins
def isinstance_(it, v, t):
    ctx = it.ctx
    if isinstance(t, tuple):
        out = []
        for x in t:
            r = isinstance_(it, v, x)
            if r is True:
                return True
            if r is not False:
                out.append(truth(r))
        return simp(z3.Or(out)) if out else False
    if isinstance(v, Model) and hasattr(v, "py_isinstance"):
        return v.py_isinstance(ctx, t)
    if isinstance(t, Model) and hasattr(t, "py_instancecheck"):
        return t.py_instancecheck(ctx, v)
    if isinstance(v, Opaque):
        key = f"isinstance:{t!r}"
        if key not in v.memo:
            v.memo[key] = ctx.fresh_bool("isinstance")
        return v.memo[key]
    if isinstance(t, ClassVal):
        if isinstance(v, Inst):
            return isinstance(v.cls, ClassVal) and v.cls.is_subclass(t)
        if isinstance(v, Obj):
            return isinstance(v.fam.cls, ClassVal) and v.fam.cls.is_subclass(t)
        if isinstance(v, Term):
            return v.schema is not None and isinstance(v.schema.cls, ClassVal) and v.schema.cls.is_subclass(t)
        return False
    if isinstance(t, Builtin):
        n = t.name
        if n == "str":
            if isinstance(v, Term):
                return getattr(v.schema, 'is_str', False)
            return isinstance(v, str) or type(v).__name__ == "StrCat"
        if n == "int":
            return isinstance(v, int) or (is_z3(v) and z3.is_int(v))
        if n == "float":
            return isinstance(v, float) or (is_z3(v) and z3.is_real(v))
        if n == "bool":
            return is_boolish(v)
        if n == "list":
            return isinstance(v, ListObj) and v.kind == "list"
        if n == "set":
            return isinstance(v, ListObj) and v.kind == "set"
        if n == "dict":
            return isinstance(v, DictObj)
        if n == "tuple":
            return as_tuple(v) is not None
        if n == "type":
            return isinstance(v, (ClassVal, type)) or (isinstance(v, Builtin) and v.name in ("int", "str", "float", "list"))
        if n == "object":
            return True
    if isinstance(t, type):
        if isinstance(v, ExcVal):
            return issubclass(v.cls, t)
        return False
    if isinstance(t, External):
        h = ctx.externals.get("isinstance:" + t.path)
        if h:
            return h(ctx, v)
        if isinstance(v, Inst) and isinstance(v.cls, External):
            return v.cls.path == t.path
        if v is None or isinstance(v, (str, int, float, bool, tuple, FuncVal)):
            return False
        if t.path.endswith("Iterable") or t.path.endswith("Sequence"):
            return isinstance(v, (ListObj, tuple, DictObj))
        if isinstance(v, (ListObj, DictObj)):
            return False
    if isinstance(t, Opaque):
        return ctx.fresh_bool("isinstance")
    if isinstance(v, Inst) and isinstance(v.cls, ClassVal) and isinstance(t, External):
        return v.cls.is_subclass(t)
    raise Unsupported(f"isinstance({v!r}, {t!r})")


def make_builtins(it):
    ctx = it.ctx
    B = {}

    def reg(name):
        def deco(fn):
            B[name] = Builtin(name, fn)
            return fn
        return deco

    @reg("len")
    def _len(c, v):
        if isinstance(v, Model) and hasattr(v, "py_len"):
            return v.py_len(c)
        if isinstance(v, str):
            return len(v)
        if isinstance(v, Opaque):
            if "len" not in v.memo:
                v.memo["len"] = c.fresh_int("len")
                c.assume(v.memo["len"] >= 0)
            return v.memo["len"]
        if isinstance(v, Inst) and isinstance(v.cls, ClassVal) and v.cls.nt_fields is None:
            r = v.cls.lookup("__len__")
            if r:
                return it.call(BoundMethod(r[0], v), [], {})
        if v is None or is_num(v):
            c.raise_(TypeError, "object has no len()")
        if isinstance(v, DictObj):
            return len(v.pairs)
        return it.content(v).length(c)

    @reg("isinstance")
    def _isinstance(c, v, t):
        return isinstance_(it, v, t)

    @reg("issubclass")
    def _issubclass(c, v, t):
        if isinstance(v, ClassVal) and isinstance(t, (ClassVal, External)):
            return v.is_subclass(t)
        if isinstance(v, Model) and hasattr(v, "py_issubclass"):
            return v.py_issubclass(c, t)
        if isinstance(v, type) and isinstance(t, type):
            return issubclass(v, t)
        return c.fresh_bool("issubclass")

    @reg("hasattr")
    def _hasattr(c, o, n):
        return it.hasattr(o, n)

    @reg("getattr")
    def _getattr(c, o, n, *default):
        if not isinstance(n, str):
            return Opaque("getattr")
        if default:
            h = it.hasattr(o, n)
            if not c.test(h):
                return default[0]
            try:
                return it.getattr(o, n)
            except PyRaise as e:
                if issubclass(e.exc.cls, AttributeError):
                    return default[0]
                raise
        return it.getattr(o, n)

    @reg("setattr")
    def _setattr(c, o, n, v):
        it.setattr(o, n, v)

    @reg("callable")
    def _callable(c, v):
        if isinstance(v, Model) and hasattr(v, "py_callable"):
            return v.py_callable(c)
        if isinstance(v, (FuncVal, BoundMethod, Builtin, PartialVal, ClassVal)):
            return True
        if isinstance(v, Term) and v.schema is not None and "callable" in v.schema.attrs:
            return v.schema.attrs["callable"](c, v.expr)
        if v is None or isinstance(v, (str, int, float, tuple, ListObj, DictObj)):
            return False
        return c.fresh_bool("callable")

    @reg("range")
    def _range(c, *a):
        a = [simp(x) for x in a]
        if all(isinstance(x, int) for x in a):
            return it.new_list(Conc(list(range(*a))), kind="range")
        if any(isinstance(x, Opaque) for x in a):
            raise Unsupported("range of opaque")
        lo, hi = (0, a[0]) if len(a) == 1 else (a[0], a[1])
        if len(a) == 3:
            if a[2] == -1:
                return it.new_list(FnC(ite_max(simp(lo - hi), 0), lambda cc, i: simp(lo - i)), kind="range")
            raise Unsupported("range step")
        n = ite_max(simp(hi - lo), 0)
        return it.new_list(FnC(n, lambda cc, i: add(lo, i)), kind="range")

    @reg("enumerate")
    def _enumerate(c, v, start=0):
        ct = it.content(v)
        if ct.items() is not None:
            return it.new_list(Conc([(add(start, i), x) for i, x in enumerate(ct.items())]), kind="iter")
        if isinstance(ct, (PickC, FilterC)):
            base = ct
            def pick(cc):
                i = cc.fresh_int("pos")
                cc.assume(i >= 0)
                return (add(start, i), base.pick(cc))
            return it.new_list(PickC(pick), kind="iter")
        return it.new_list(EnumC(ct, start), kind="iter")

    @reg("zip")
    def _zip(c, *vs):
        if any(isinstance(v, Opaque) for v in vs):
            raise Unsupported("zip over an opaque value")
        cs = [it.content(v) for v in vs]
        if all(x.items() is not None for x in cs):
            return it.new_list(Conc(list(zip(*[x.items() for x in cs]))), kind="iter")
        return it.new_list(ZipC(cs), kind="iter")

    @reg("reversed")
    def _reversed(c, v):
        ct = it.content(v)
        if ct.items() is not None:
            return it.new_list(Conc(ct.items()[::-1]), kind="iter")
        return it.new_list(RevC(ct), kind="iter")

    @reg("list")
    def _list(c, v=None):
        if v is None:
            return it.new_list(Conc([]))
        if isinstance(v, Opaque):
            return Opaque(f"list({v.what})")
        return it.new_list(it.content(v))

    @reg("tuple")
    def _tuple(c, v=None):
        if v is None:
            return ()
        if isinstance(v, (Opaque,)):
            return v
        if isinstance(v, Model) and getattr(v, "is_tuple", False):
            return v
        ct = it.content(v)
        if ct.items() is not None:
            return tuple(ct.items())
        return it.new_list(ct, kind="tuple")

    @reg("set")
    def _set(c, v=None):
        if v is None:
            return it.new_list(Conc([]), kind="set")
        ct = it.content(v)
        if ct.items() is not None:
            return make_set(it, ct.items())
        return it.new_list(ct, kind="set")

    @reg("dict")
    def _dict(c, v=None, **kw):
        d = DictObj()
        d.birth = c.clock()
        if v is not None:
            if isinstance(v, DictObj):
                d.pairs = list(v.pairs)
            elif isinstance(v, Model) and hasattr(v, "py_dict_copy"):
                return v.py_dict_copy(c)
            else:
                items = it.content(v).items()
                if items is None:
                    h = getattr(c, "dict_from_content", None)
                    if h is not None and not kw:
                        return h(c, it.content(v))
                    raise Unsupported("dict() of a symbolic sequence")
                for x in items:
                    k, val = it.unpack(x, 2)
                    dict_set(it, d, k, val)
        for k, val in kw.items():
            dict_set(it, d, k, val)
        return d

    @reg("filter")
    def _filter(c, f, v):
        ct = it.content(v)
        birth = c.clock()
        if ct.items() is not None:
            out = [x for x in ct.items() if c.test(it.call(f, [x], {}) if f is not None else x)]
            return it.new_list(Conc(out), kind="iter")

        def pred(cc, x):
            cc.check_lazy(birth)
            return it.call(f, [x], {}) if f is not None else x
        return it.new_list(FilterC(ct, pred), kind="iter")

    @reg("map")
    def _map(c, f, *vs):
        cs = [it.content(v) for v in vs]
        birth = c.clock()
        if all(x.items() is not None for x in cs):
            return it.new_list(Conc([it.call(f, list(xs), {}) for xs in zip(*[x.items() for x in cs])]), kind="iter")
        base = cs[0] if len(cs) == 1 else ZipC(cs)

        def fn(cc, x):
            cc.check_lazy(birth)
            return it.call(f, [x] if len(cs) == 1 else list(x), {})
        return it.new_list(MapC(base, fn), kind="iter")

    @reg("all")
    def _all(c, v):
        if isinstance(v, Opaque):
            return c.fresh_bool("all")
        ct = it.content(v)
        items = ct.items()
        if items is not None:
            for x in items:
                if not c.test(x):
                    return False
            return True
        return simp(c.forall_elem(ct, lambda cc, x: c.merge(lambda: c.truthy(x))))

    @reg("any")
    def _any(c, v):
        if isinstance(v, Opaque):
            return c.fresh_bool("any")
        ct = it.content(v)
        items = ct.items()
        if items is not None:
            for x in items:
                if c.test(x):
                    return True
            return False
        return simp(c.exists_elem(ct, lambda cc, x: c.merge(lambda: c.truthy(x))))

    @reg("sum")
    def _sum(c, v, start=0):
        if isinstance(v, Opaque):
            return Opaque("sum")
        h = getattr(c, "sum_hook", None)
        if h is not None:
            r = h(c, v, start)
            if r is not None:
                return r
        items = it.content(v).items()
        if items is None:
            raise Unsupported("sum over a symbolic sequence")
        t = start
        for x in items:
            t = binop(it, ast.Add(), t, x)
        return t

    def minmax(c, name, *a, key=None, default=KeyError):
        h = getattr(c, "minmax_hook", None)
        if h is not None:
            r = h(c, name, a, key, default)
            if r is not None:
                return r
        if len(a) == 1:
            ct = it.content(a[0])
            items = ct.items()
            if items is None:
                if default is not KeyError:
                    if not c.branch(truth(ct.nonempty(c))):
                        return default
                elif not c.branch(truth(ct.nonempty(c))):
                    c.raise_(ValueError, f"{name}() arg is an empty sequence")
                v = ct.pick(c)
                kv = key_values(it, key, v)
                op = ast.Gt() if name == "max" else ast.Lt()
                try:
                    c.assume(c.forall_elem(ct, lambda cc, x: neg(cc, cc.merge(
                        lambda: compare(it, op, key_values(it, key, x), kv)))))
                except Unsupported as e:
                    c.note(f"{name}(): optimality not modelled ({e})")
                return v
            if not items:
                if default is not KeyError:
                    return default
                c.raise_(ValueError, f"{name}() arg is an empty sequence")
        else:
            items = list(a)
        best = items[0]
        bk = key_values(it, key, best)
        for x in items[1:]:
            kx = key_values(it, key, x)
            if key is None and is_num(bk) and is_num(kx) and (is_z3(bk) or is_z3(kx)):
                r = compare(it, ast.Gt() if name == "max" else ast.Lt(), kx, bk)
                if isinstance(r, bool):
                    if r:
                        best = bk = kx
                else:
                    p, q = num_pair(kx, bk)
                    if isinstance(kx, float) or isinstance(bk, float):
                        if c.branch(r):
                            best = bk = kx
                    else:
                        best = bk = simp(z3.If(r, p, q))
                continue
            if c.test(compare(it, ast.Gt() if name == "max" else ast.Lt(), kx, bk)):
                best, bk = x, kx
        return best

    B["min"] = Builtin("min", lambda c, *a, **k: minmax(c, "min", *a, **k))
    B["max"] = Builtin("max", lambda c, *a, **k: minmax(c, "max", *a, **k))
    B["sorted"] = Builtin("sorted", sorted_)

    @reg("abs")
    def _abs(c, v):
        return simp(z3.If(v >= 0, v, -v)) if is_z3(v) else abs(v)

    @reg("round")
    def _round(c, v, nd=None):
        if not is_z3(v) and is_num(v):
            return round(v) if nd is None else round(v, nd)
        if isinstance(v, Opaque):
            return Opaque("round")
        # round half to even: within 1/2
        if z3.is_int(v):
            return v
        r = c.fresh_int("round")
        c.assume(z3.And(z3.ToReal(r) - v <= z3.Q(1, 2), v - z3.ToReal(r) <= z3.Q(1, 2)))
        c.assume(z3.Implies(z3.Or(z3.ToReal(r) - v == z3.Q(1, 2), v - z3.ToReal(r) == z3.Q(1, 2)), r % 2 == 0))
        return r

    @reg("int")
    def _int(c, v=0):
        if isinstance(v, bool):
            return int(v)
        if isinstance(v, float):
            return int(v)
        if is_z3(v):
            if z3.is_bool(v):
                return z3.If(v, z3.IntVal(1), z3.IntVal(0))
            if z3.is_int(v):
                return v
            return simp(z3.If(v >= 0, z3.ToInt(v), -z3.ToInt(-v)))
        if isinstance(v, (int, str)):
            return int(v)
        return Opaque("int()")

    @reg("float")
    def _float(c, v=0.0):
        if isinstance(v, str):
            return float(v)
        if is_z3(v):
            return z3.ToReal(v) if z3.is_int(v) else v
        if isinstance(v, (int, float)):
            return float(v)
        return Opaque("float()")

    @reg("bool")
    def _bool(c, v=False):
        return c.truthy(v)

    @reg("str")
    def _str(c, v=""):
        h = getattr(c, "str_hook", None)
        if h is not None:
            r = h(c, v)
            if r is not None:
                return r
        if isinstance(v, (str, int)) and not isinstance(v, bool):
            return str(v)
        if isinstance(v, Term) and v.schema is STR:
            return v
        from .interp import StrCat
        return StrCat([v])

    B["repr"] = Builtin("repr", lambda c, v: B["str"].fn(c, v) if not hasattr(c, "repr_hook") else c.repr_hook(c, v))

    @reg("type")
    def _type(c, v):
        if isinstance(v, Model) and hasattr(v, "py_type"):
            return v.py_type(c)
        if isinstance(v, Inst):
            return v.cls
        if isinstance(v, Obj):
            return v.fam.cls
        if isinstance(v, ExcVal):
            return v.cls
        if isinstance(v, ListObj):
            return B["list"]
        if isinstance(v, DictObj):
            return B["dict"]
        if is_z3(v) and z3.is_int(v) or (isinstance(v, int) and not isinstance(v, bool)):
            return B["int"]
        if is_z3(v) and z3.is_real(v) or isinstance(v, float):
            return B["float"]
        if isinstance(v, str):
            return B["str"]
        return Opaque(f"type({v!r})")

    @reg("hash")
    def _hash(c, v):
        return Opaque("hash")

    @reg("id")
    def _id(c, v):
        return Opaque("id")

    @reg("print")
    def _print(c, *a, **k):
        return None

    @reg("iter")
    def _iter(c, v):
        return v

    @reg("next")
    def _next(c, v, *default):
        if isinstance(v, Model) and hasattr(v, "py_next"):
            return v.py_next(c)
        if isinstance(v, Opaque):
            return Opaque("next()")
        ct = it.content(v)
        if not c.branch(truth(c.truthy(v))):
            if default:
                return default[0]
            c.raise_(StopIteration)
        items = ct.items()
        if items is not None:
            if isinstance(v, ListObj):
                set_content(it, v, Conc(items[1:]))
            return items[0]
        return ct.pick(c) if isinstance(ct, (FilterC, PickC)) else ct.at(c, 0)

    @reg("vars")
    def _vars(c, v):
        return Opaque("vars")

    B["open"] = Builtin("open", lambda c, *a, **k: c.externals["open"](c, *a, **k) if "open" in c.externals else Opaque("open()"))
    B["object"] = Builtin("object", lambda c: Opaque("object()"))
    B["property"] = Builtin("property", lambda c, f: f)
    B["NotImplemented"] = Opaque("NotImplemented")
    B["Ellipsis"] = Opaque("Ellipsis")
    B["frozenset"] = B["set"]
    return B

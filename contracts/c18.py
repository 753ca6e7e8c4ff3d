"""C18: the search space configuration is read completely and exactly.

A configuration has keys 0..n-1; key i is a name (shared hyperparameter) or a class with
hyperparameters 0..h(i)-1, each with a container of values. Loops over the keys, over the
hyperparameters and over the values are cut with effect invariants: an arbitrary iteration adds exactly
the contribution of its own element (to the component lists, the value lists, the
conditions), and nothing else; as every element occurs once, the whole loop adds exactly
the contributions of all elements.
"""
import z3
from pyvc.driver import *

PROOFS = Registry()
P = "gama.configuration.parser"
I, B = z3.IntSort(), z3.BoolSort()
isstr = z3.Function("key_is_name", I, B)
istype = z3.Function("key_is_class", I, B)
kindT, kindC, kindR = (z3.Function(f"is_{n}", I, B) for n in ("transformer", "classifier", "regressor"))
nhp = z3.Function("n_hyperparameters", I, I)
ischeck = z3.Function("is_param_check", I, I, B)
islist = z3.Function("values_are_list", I, I, B)
nval = z3.Function("n_values", I, I, I)
SHARED = z3.IntVal(-1)


class Key(Model):
    type_name = "key"

    def __init__(self, i):
        self.i = i

    def py_isinstance(self, ctx, t):
        n = getattr(t, "name", None)
        if n == "str":
            return isstr(self.i)
        if n == "type":
            return istype(self.i)
        raise Unsupported("type of a key")

    def py_issubclass(self, ctx, t):
        p = getattr(t, "path", "")
        for n, f in (("TransformerMixin", kindT), ("ClassifierMixin", kindC), ("RegressorMixin", kindR)):
            if p.endswith(n):
                return f(self.i)
        raise Unsupported("base class of a key")

    def py_getattr(self, ctx, name):
        if name == "__name__":
            return Piece("class name", self.i)
        raise Unsupported(f"attribute {name} of a key")

    def py_eq(self, ctx, o):
        return simp(self.i == o.i) if isinstance(o, Key) else False


class Piece(Model):
    """A piece of text: a class name or a hyperparameter name."""

    type_name = "text"

    def __init__(self, what, i, j=None):
        self.what, self.i, self.j = what, i, j

    def py_eq(self, ctx, o):
        if o == "param_check" and self.what == "name":
            return ischeck(self.i, self.j)
        raise Unsupported("comparison of names")

    def py_isinstance(self, ctx, t):
        return getattr(t, "name", None) == "str"


class Vals(Model):
    """What the configuration gives for key i (j = -1) or its hyperparameter j."""

    type_name = "values"

    def __init__(self, i, j):
        self.i, self.j = i, j

    def py_content(self, ctx):
        if self.j is SHARED:
            if not ctx.branch(isstr(self.i)):
                raise Unsupported("iteration over the hyperparameters of a class")
        return FnC(nval(self.i, self.j), lambda c, k: Val(self.i, self.j, to_z3(k)))

    def py_len(self, ctx):
        return nval(self.i, self.j)

    def py_getitem(self, ctx, k):
        return ctx.interp.getitem(ListObj(self.py_content(ctx)), k)

    def py_isinstance(self, ctx, t):
        if getattr(t, "name", None) == "list":
            return islist(self.i, self.j)
        raise Unsupported("type of values")

    def py_bool(self, ctx):
        if not ctx.branch(islist(self.i, self.j)):
            raise PyRaise(ExcVal(ValueError, ("truth value of an array",)))
        return nval(self.i, self.j) > 0

    def m_items(self, ctx):
        return ListObj(HpItems(self.i, lambda k: k), kind="iter")


class Val(Model):
    type_name = "value"

    def __init__(self, i, j, k):
        self.i, self.j, self.k = i, j, k


class HpItems(FnC):
    def __init__(self, i, perm):
        self.i = i
        super().__init__(nhp(i), lambda c, k: (Piece("name", i, perm(to_z3(k))), Vals(i, perm(to_z3(k)))))


class Keys(FnC):
    def __init__(self, n, perm):
        self.n = n
        super().__init__(n, lambda c, k: Key(perm(to_z3(k))))


class Config(Model):
    type_name = "configuration"

    def __init__(self, ctx, n):
        self.n = n

    def py_content(self, ctx):
        return Keys(self.n, lambda k: k)

    def m_keys(self, ctx):
        return ListObj(self.py_content(ctx), kind="iter")

    def m_items(self, ctx):
        return ListObj(Pairs(self.n, lambda k: k), kind="iter")

    def py_getitem(self, ctx, k):
        if not isinstance(k, Key):
            raise Unsupported("look-up of something else")
        return Vals(k.i, SHARED)


class Pairs(FnC):
    def __init__(self, n, perm):
        self.n = n
        super().__init__(n, lambda c, k: (Key(perm(to_z3(k))), Vals(perm(to_z3(k)), SHARED)))


class Pset(Model):
    """The result: additions per slot since the last reset."""

    type_name = "pset"

    def __init__(self):
        self.slots, self.sealed = [], False

    def py_getitem(self, ctx, k):
        ctx.log_mut(self, "slot")
        for s, l in self.slots:
            if s is k or isinstance(s, str) and s == k:
                return l
        l = ctx.interp.new_list(Conc([]))
        self.slots.append((k, l))
        return l

    def py_setitem(self, ctx, k, v):
        raise Unsupported("slot replaced")


class Prefix(FnC):
    """The part of a list that earlier iterations appended."""

    def __init__(self, ctx, what):
        n = ctx.fresh_int("n_before")
        ctx.assume(n >= 0)
        self.what = what
        super().__init__(n, lambda c, k: Opaque("earlier element"))


def is_sub(x, what, i, j=None):
    return isinstance(x, Piece) and x.what == what and z3.eq(simp(x.i), simp(i)) and (j is None or z3.eq(simp(x.j), simp(j)))


def same(ctx, a, b):
    return ctx._discharge(a == b)[0] == "proved"


def is_slot(ctx, x, i, j):
    """x is the text `Class.name`."""
    return type(x).__name__ == "StrCat" and len(x.parts) == 3 and is_sub(x.parts[0], "class name", i) and x.parts[1] == "." and is_sub(x.parts[2], "name", i, j)


def check_values(ctx, it, l, i, j, output, ident):
    """The slot's new content: one terminal per value, in the order of the values."""
    c = l.content
    n = c.length(ctx)
    ctx.prove("one value is offered per configured value", to_z3(n) == nval(i, j))
    k = ctx.fresh_int("value")
    ctx.assume(z3.And(0 <= k, k < nval(i, j)))
    t = c.at(ctx, k)
    if not isinstance(t, Inst):
        raise Unsupported("element of a slot")
    v = t.attrs["value"]
    ctx.prove("exactly the configured values are offered", isinstance(v, Val) and z3.And(v.i == i, to_z3(v.j) == j, v.k == k))
    ctx.prove("the value is for the hyperparameter", bool(output(t.attrs["output"])))
    ctx.prove("the value belongs to its slot", bool(ident(t.attrs["identifier"])))


def parse_world(ctx):
    it = ctx.interp
    n = z3.Int("n_keys")
    i, j = z3.Ints("i!c j!c")
    ctx.assume(n >= 0)
    ctx.assume(z3.ForAll([i], nhp(i) >= 0, patterns=[nhp(i)]))
    ctx.assume(z3.ForAll([i, j], nval(i, j) >= 0, patterns=[nval(i, j)]))
    ctx.assume(z3.ForAll([i], z3.Not(z3.And(isstr(i), istype(i)))))
    # a condition is a list with a callable
    ctx.assume(z3.ForAll([i, j], z3.Implies(ischeck(i, j), nval(i, j) == 1), patterns=[ischeck(i, j)]))
    ctx.assume(z3.ForAll([i, j], z3.Or(islist(i, j), nval(i, j) > 0), patterns=[islist(i, j)]))
    pset = Pset()

    def dd(c, factory=None, *a):
        if getattr(factory, "name", None) != "list" or a:
            raise Unsupported("other default")
        return pset
    ctx.externals["collections.defaultdict"] = dd

    def shook(c, v, key, reverse):
        # every order is possible: the result may not depend on it
        ct = it.content(v)
        perm = c.fresh_fun("order", I, I)
        k = z3.Int("k!o")
        if isinstance(ct, (HpItems, Keys, Pairs)):
            c.assume(z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < to_z3(ct.length(c))), z3.And(0 <= perm(k), perm(k) < to_z3(ct.length(c)))), patterns=[perm(k)]))
            return it.new_list(HpItems(ct.i, perm) if isinstance(ct, HpItems) else type(ct)(ct.n, perm))
        return None
    ctx.sorted_hook = shook
    st = {"lists": {}, "hp": None, "key": None}

    # ---- hyperparameters of one class
    def hp_content(v):
        c = it.content(v)
        return c.inner if isinstance(c, RevC) and hasattr(c, "inner") else c

    def locals_(env, t):
        out = []
        e = env
        while e is not None and getattr(e, "func", None) is None:
            e = e.parent
        for v in (e or env).vars.values():
            if isinstance(v, t) and not any(v is o for o in out):
                out.append(v)
        return out

    def hp_havoc(c, env, k):
        ls = [l for l in locals_(env, ListObj) if l.kind == "list"]
        if len(ls) != 1:
            raise Unsupported("lists in the hyperparameter loop")
        l = ls[0]
        if st["hp"] is None:
            st["hp"] = {"list": l}
            if l.content.items() != [] or pset.slots:
                raise Unsupported("state before the hyperparameters")
        p = Prefix(c, "hyperparameters")
        it.lib.set_content(it, l, p)
        st["hp"]["prefix"] = p
        st["hp"]["iteration"] = True
        pset.slots = []
        for d in locals_(env, DictObj):
            d.pairs.clear()

    def hp_inv(c, env, k):
        h = st["hp"]
        if h is None or not h.get("iteration"):
            return []
        if not h.get("entered"):
            h["entered"] = True     # assumed at the start of the iteration (or after the loop)
            return []
        i, pos = st["key"].i, st["hp_item"]
        j = pos
        l = h["list"].content
        added = []
        if isinstance(l, Concat) and l.parts[0] is h["prefix"]:
            for p in l.parts[1:]:
                if p.items() is None:
                    raise Unsupported("hyperparameters added")
                added += p.items()
        elif l is not h["prefix"]:
            raise Unsupported("hyperparameters")
        pairs = [p for d in locals_(env, DictObj) for p in d.pairs]
        shared = z3.And(islist(i, j), nval(i, j) == 0)
        slots = [(s, x) for s, x in pset.slots if x.content.items() != []]
        if c.branch(ischeck(i, j)):
            c.prove("a condition is not a hyperparameter", not added and not slots)
            c.prove("the condition is attached to its component", len(pairs) == 1 and is_sub(pairs[0][0], "class name", i) and isinstance(pairs[0][1], Val))
            v = pairs[0][1]
            c.prove("the configured condition", z3.And(v.i == i, v.j == j, v.k == 0))
            return []
        c.prove("only conditions are attached as conditions", not pairs)
        c.prove("the component gets exactly one input for the hyperparameter", len(added) == 1)
        if c.branch(shared):
            c.prove("a shared hyperparameter is referred to by its name", is_sub(added[0], "name", i, j))
            c.prove("a shared hyperparameter adds no values of its own", not slots)
        else:
            c.prove("an own hyperparameter has its own slot", is_slot(c, added[0], i, j))
            mine = pset.slots
            c.prove("values go to the hyperparameter's slot only", len(mine) == 1 and is_slot(c, mine[0][0], i, j))
            check_values(c, it, mine[0][1], i, j, lambda o: is_sub(o, "name", i, j), lambda o: is_slot(c, o, i, j))
        return []

    class HpSpec(LoopSpec):
        def run(self, itp, node, iterable, env):
            c = itp.ctx
            ct = itp.content(iterable)
            if st["key"] is None or not same(c, ct.i, st["key"].i):
                raise Unsupported("hyperparameters of another class")
            # remember which element an iteration looks at
            at = ct.at

            def spy(cc, k):
                r = at(cc, k)
                st["hp_item"] = r[0].j
                return r
            ct.at = spy
            st["hp"] = None
            super().run(itp, node, iterable, env)
            st["hp"]["done"] = True
    ctx.loop_specs.append(HpSpec(None, lambda itp, node, v, env: isinstance(hp_content(v), HpItems), hp_havoc, hp_inv, label="hyperparameters"))

    # ---- keys
    ks = {}

    def key_havoc(c, env, k):
        if "dicts" not in ks:
            ks["dicts"] = locals_(env, DictObj)
            if pset.slots or any(d.pairs for d in ks["dicts"]):
                raise Unsupported("state before the keys")
        pset.slots = []
        for d in ks["dicts"]:
            d.pairs.clear()
        ks["phase"] = 1
        st["hp"] = None

    def key_inv(c, env, k):
        if ks.get("phase") == 1:
            ks["phase"] = 2
            return []
        if ks.get("phase") != 2:
            return []
        i = st["key"].i
        h = st["hp"]
        if c.branch(isstr(i)):
            c.prove("a shared hyperparameter has one slot under its name", len(pset.slots) == 1 and isinstance(pset.slots[0][0], Key) and same(c, pset.slots[0][0].i, i) and h is None)
            me = lambda o: isinstance(o, Key) and same(c, o.i, i)
            check_values(c, it, pset.slots[0][1], i, SHARED, me, me)
            c.cover("shared")
            return []
        if h is None or not h.get("done"):
            c.fail("the hyperparameters of each class are read")
        slots = pset.slots
        c.prove("one component per class", len(slots) == 1 and slots[0][0] in ("data", "prediction") and slots[0][1].content.items() is not None and len(slots[0][1].content.items()) == 1)
        slot, p = slots[0][0], slots[0][1].content.items()[0]
        c.prove("preprocessors are preprocessing components", z3.Implies(kindT(i), slot == "data"))
        c.prove("other algorithms are estimators", z3.Implies(z3.Not(kindT(i)), slot == "prediction"))
        c.prove("what is neither is refused", z3.Or(kindT(i), kindC(i), kindR(i)))
        c.prove("the component is the class", isinstance(p, Inst) and isinstance(p.attrs["identifier"], Key) and same(c, p.attrs["identifier"].i, i) and p.attrs["output"] == slot)
        c.prove("the component takes exactly the hyperparameters", it.content(p.attrs["input"]) is h["prefix"])
        c.cover("component")
        return []

    class KeySpec(LoopSpec):
        def run(self, itp, node, iterable, env):
            ct = itp.content(iterable)
            at = ct.at

            def spy(cc, k):
                r = at(cc, k)
                st["key"] = r[0] if isinstance(r, tuple) else r
                i = st["key"].i
                cc.assume(z3.And(0 <= i, i < n))
                return r
            ct.at = spy
            super().run(itp, node, iterable, env)
            ks["complete"] = True
            st["key"] = None

    def base(v):
        c = it.content(v)
        return c
    ctx.loop_specs.append(KeySpec(None, lambda itp, node, v, env: isinstance(unrev(base(v)), (Keys, Pairs)), key_havoc, key_inv, label="keys"))
    return n, pset, ks, st


def unrev(c):
    while isinstance(c, RevC):
        c = c.c if hasattr(c, "c") else c.base
    return c


@PROOFS("pset_from_config reads every component, hyperparameter, value and condition exactly once", covers=("shared", "component", "done", "refused"), timeout=60)
def parse(ctx):
    it = ctx.interp
    n, pset, ks, st = parse_world(ctx)
    conf = Config(ctx, n)
    try:
        r = it.call(it.get(f"{P}.pset_from_config"), [conf], {})
    except PyRaise as e:
        i = st["key"].i
        ctx.prove("only invalid keys are refused", issubclass(e.exc.cls, TypeError) and z3.Not(z3.Or(isstr(i), z3.And(istype(i), z3.Or(kindT(i), kindC(i), kindR(i))))))
        ctx.cover("refused")
        return
    ps, checks = it.unpack(r, 2)
    ctx.prove("the result of reading all keys is returned", ps is pset and ks.get("complete") is True)
    ctx.prove("the conditions are returned", isinstance(checks, DictObj) and any(checks is d for d in ks["dicts"]))
    ctx.cover("done")


# ------------------------------------------------------------------ merging
inc = {s: z3.Function(f"algorithm_in_{s}", I, B) for s in (1, 2)}
inh = {s: z3.Function(f"hyperparameter_in_{s}", I, I, B) for s in (1, 2)}
isl = {s: z3.Function(f"entry_is_list_{s}", I, B) for s in (1, 2)}
mem = {s: z3.Function(f"value_of_{s}", I, I, I, B) for s in (1, 2)}
kd = {s: z3.Function(f"kind_of_values_{s}", I, I, I) for s in (1, 2)}   # 0: dict, else a sequence type


class At(Model):
    """An algorithm (or hyperparameter) of a configuration."""

    type_name = "key"

    def __init__(self, a):
        self.a = a

    def py_eq(self, ctx, o):
        return simp(self.a == o.a) if isinstance(o, At) else False


class MVals(Model):
    """Values of hyperparameter h (or -1: the whole entry is a list) of algorithm a in configuration s."""

    type_name = "values"

    def __init__(self, s, a, h):
        self.s, self.a, self.h = s, a, h

    def kind(self):
        return z3.IntVal(1) if self.h is SHARED else kd[self.s](self.a, self.h)

    def py_content(self, ctx):
        return ValC(self)

    def py_isinstance(self, ctx, t):
        n = getattr(t, "name", None)
        if n == "dict":
            return simp(self.kind() == 0)
        if n == "list":
            return simp(self.kind() == 1)
        if isinstance(t, TypeOf):
            return simp(self.kind() == t.v.kind())
        raise Unsupported("type of values")

    def py_type(self, ctx):
        return TypeOf(self)

    def py_binop(self, ctx, name, o):
        if name == "Add" and ctx.branch(self.kind() == 1):
            return ctx.interp.new_list(lib_concat(ctx, self, o))
        return NotImplemented

    def py_rbinop(self, ctx, name, o):
        if name == "Add" and ctx.branch(self.kind() == 1):
            return ctx.interp.new_list(lib_concat(ctx, o, self))
        return NotImplemented

    def py_dict_spread(self, ctx, d):
        if isinstance(d, Spread):
            return Spread(d.parts + [self])
        if d.pairs:
            raise Unsupported("dict with more")
        return Spread([self])


class Spread(Model):
    type_name = "dict"

    def __init__(self, parts):
        self.parts = parts


def lib_concat(ctx, a, b):
    return ctx.interp.lib.concat(ctx.interp.content(a), ctx.interp.content(b))


class ValC(Content):
    def __init__(self, v):
        self.v = v


class TypeOf(Model):
    type_name = "type"

    def __init__(self, v):
        self.v = v


def members(c, x):
    if isinstance(c, ValC):
        return mem[c.v.s](c.v.a, c.v.h, x)
    if isinstance(c, Concat):
        return z3.Or([members(p, x) for p in c.parts])
    if c.items() == []:
        return z3.BoolVal(False)
    raise Unsupported("list of values")


class Entry(Model):
    """What configuration s has for algorithm a: a list of values or hyperparameters."""

    type_name = "entry"

    def __init__(self, s, a, owned=False):
        self.s, self.a, self.owned = s, a, owned
        self.writes, self.complete = [], False

    def py_isinstance(self, ctx, t):
        n = getattr(t, "name", None)
        if n == "list":
            return isl[self.s](self.a)
        if n == "dict":
            return simp(z3.Not(isl[self.s](self.a)))
        raise Unsupported("type of an entry")

    def py_content(self, ctx):
        if not ctx.branch(isl[self.s](self.a)):
            raise Unsupported("iteration over hyperparameter names")
        return ValC(MVals(self.s, self.a, SHARED))

    def py_binop(self, ctx, name, o):
        if name == "Add":
            return ctx.interp.new_list(lib_concat(ctx, self, o))
        return NotImplemented

    def py_rbinop(self, ctx, name, o):
        if name == "Add":
            return ctx.interp.new_list(lib_concat(ctx, o, self))
        return NotImplemented

    def py_dict_copy(self, ctx):
        if ctx.branch(isl[self.s](self.a)):
            raise PyRaise(ExcVal(TypeError, ("not a mapping",)))
        e = Entry(self.s, self.a, owned=True)
        e.writes, e.complete = list(self.writes), self.complete
        return e

    m_copy = lambda self, ctx: self.py_dict_copy(ctx)

    def m_items(self, ctx):
        return ListObj(HpPairs(ctx, self), kind="iter")

    def py_contains(self, ctx, h):
        if self.complete:
            raise Unsupported("look-up after merging")
        return inh[self.s](self.a, h.a)

    def py_getitem(self, ctx, h):
        if self.complete or self.writes:
            raise Unsupported("look-up after merging")
        ctx.prove("only existing hyperparameters are looked up", inh[self.s](self.a, h.a))
        return MVals(self.s, self.a, h.a)

    def py_setitem(self, ctx, h, v):
        ctx.prove("neither configuration is modified", self.owned)
        self.writes.append((h, v))


class HpPairs(FnC):
    def __init__(self, ctx, e):
        n = ctx.fresh_int("n_hyperparameters")
        ctx.assume(n >= 0)
        f = ctx.fresh_fun("hyperparameter", I, I)
        self.e = e
        super().__init__(n, lambda c, k: (At(f(to_z3(k))), MVals(e.s, e.a, f(to_z3(k)))))
        k = z3.Int("k!h")
        ctx.assume(z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < n), inh[e.s](e.a, f(k))), patterns=[f(k)]))


class AlgPairs(FnC):
    def __init__(self, ctx, conf):
        n = ctx.fresh_int("n_algorithms")
        ctx.assume(n >= 0)
        f = ctx.fresh_fun("algorithm", I, I)
        self.conf = conf
        super().__init__(n, lambda c, k: (At(f(to_z3(k))), Entry(conf.s, f(to_z3(k)))))
        k = z3.Int("k!a")
        ctx.assume(z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < n), inc[conf.s](f(k))), patterns=[f(k)]))


class Conf(Model):
    type_name = "configuration"

    def __init__(self, s):
        self.s = s

    def m_items(self, ctx):
        return ListObj(AlgPairs(ctx, self), kind="iter")

    def py_contains(self, ctx, a):
        return inc[self.s](a.a)

    def py_getitem(self, ctx, a):
        ctx.prove("only existing algorithms are looked up", inc[self.s](a.a))
        return Entry(self.s, a.a)

    def py_setitem(self, ctx, a, v):
        ctx.fail("neither configuration is modified")

    def py_dict_copy(self, ctx):
        return Merged(lambda c, a: Entry(self.s, a))


class Merged(Model):
    type_name = "merged"

    def __init__(self, of):
        self.of, self.cache, self.writes, self.complete = of, None, [], False

    def cur(self, ctx, a):
        if self.complete:
            raise Unsupported("look-up after merging")
        for x, v in self.writes:
            if not same(ctx, x.a, a.a):
                raise Unsupported("another algorithm")
            return v, True
        if self.cache is None:
            self.cache = (a, self.of(ctx, a.a))
        if not same(ctx, self.cache[0].a, a.a):
            raise Unsupported("another algorithm")
        return self.cache[1], False

    def py_contains(self, ctx, a):
        return inc[1](a.a)

    def py_getitem(self, ctx, a):
        if not ctx.branch(inc[1](a.a)):
            return None
        return self.cur(ctx, a)[0]

    def py_setitem(self, ctx, a, v):
        self.writes.append((a, v))


def union_ok(ctx, it, v, a, h):
    if not isinstance(v, ListObj):
        ctx.fail("values are united in a list")
    x = ctx.fresh_int("value")
    hh = SHARED if h is SHARED else h
    ctx.prove("values of both are united", members(it.content(v), x) == z3.Or(mem[1](a, hh, x), mem[2](a, hh, x)))


@PROOFS("merge_configurations unites both configurations and modifies neither", covers=("new", "list", "both", "done", "refused"), timeout=60)
def merging(ctx):
    it = ctx.interp
    a, h = z3.Ints("a!m h!m")
    # the same name is either shared hyperparameter or algorithm in both
    ctx.assume(z3.ForAll([a], z3.Implies(z3.And(inc[1](a), inc[2](a)), isl[1](a) == isl[2](a))))
    c1, c2 = Conf(1), Conf(2)
    ms = []

    def from_content(c, ct):
        if not (isinstance(ct, MapC) and isinstance(ct.base, AlgPairs) and ct.base.conf is c1):
            raise Unsupported("dictionary")

        def of(cc, x):
            k, v = it.unpack(ct.fn(cc, (At(x), Entry(1, x))), 2)
            if not (isinstance(k, At) and same(cc, k.a, x)):
                raise Unsupported("other keys")
            return v
        m = Merged(of)
        ms.append(m)
        return m
    ctx.dict_from_content = from_content

    def dd(c, factory=None, init=None):
        if isinstance(init, Merged):
            return init
        if isinstance(init, Conf) and init is c1:
            m = init.py_dict_copy(c)
            ms.append(m)
            return m
        raise Unsupported("defaultdict")
    ctx.externals["collections.defaultdict"] = dd
    st = {}

    # ---- hyperparameters
    class HSpec(LoopSpec):
        def run(self, itp, node, iterable, env):
            c = itp.ctx
            ct = itp.content(iterable)
            if ct.e.s != 2 or not ms or ms[-1].cache is None:
                raise Unsupported("hyperparameters of something else")
            e = ms[-1].cache[1]
            if not isinstance(e, Entry) or e.writes or not same(c, e.a, ct.e.a):
                raise Unsupported("state before the hyperparameters")
            at = ct.at

            def spy(cc, k):
                r = at(cc, k)
                st["h"] = r[0].a
                return r
            ct.at = spy
            st["e"], st["phase"] = e, 0
            super().run(itp, node, iterable, env)
            e.complete = True

    def h_inv(c, env, k):
        st["phase"] += 1
        if st["phase"] != 3:      # 1: on entry, 2: at the start of an iteration or after the loop
            return []
        e, hh = st["e"], st["h"]
        w = e.writes
        aa = e.a
        c.prove("the hyperparameter is merged", len(w) == 1 and isinstance(w[0][0], At) and same(c, w[0][0].a, hh))
        v = w[0][1]
        if not c.branch(inh[1](aa, hh)):
            c.prove("hyperparameters of the second only are taken over", isinstance(v, MVals) and v.s == 2 and z3.And(v.a == aa, v.h == hh))
            return []
        if c.branch(z3.And(kd[1](aa, hh) == 0, kd[2](aa, hh) == 0)):
            c.prove("mappings are united", isinstance(v, Spread) and [p.s for p in v.parts] == [1, 2] and all(same(c, p.a, aa) and same(c, p.h, hh) for p in v.parts))
            return []
        union_ok(c, it, v, aa, hh)
        c.cover("both")
        return []
    ctx.loop_specs.append(HSpec(None, lambda itp, node, v, env: isinstance(it.content(v), HpPairs), lambda c, env, k: st["e"].writes.clear(), h_inv, label="hyperparameters"))

    # ---- algorithms
    class ASpec(LoopSpec):
        def run(self, itp, node, iterable, env):
            ct = itp.content(iterable)
            if ct.conf is not c2 or len(ms) != 1 or ms[0].writes or ms[0].cache:
                raise Unsupported("algorithms of something else")
            at = ct.at

            def spy(cc, k):
                r = at(cc, k)
                st["a"] = r[0].a
                st["entry2"] = r[1]
                return r
            ct.at = spy
            st["aphase"] = 0
            super().run(itp, node, iterable, env)
            ms[0].complete = True

    def a_havoc(c, env, k):
        ms[0].writes, ms[0].cache = [], None

    def a_inv(c, env, k):
        st["aphase"] += 1
        if st["aphase"] != 3:
            return []
        m, aa = ms[0], st["a"]
        c.prove("only the algorithm itself is changed", all(same(c, x.a, aa) for x, _ in m.writes))
        c.prove("neither configuration is modified", not st["entry2"].writes)
        if not c.branch(inc[1](aa)):
            v = m.writes[-1][1] if m.writes else None
            c.prove("algorithms of the second only are taken over", isinstance(v, Entry) and v.s == 2 and same(c, v.a, aa) and not v.writes)
            c.cover("new")
            return []
        v = m.writes[-1][1] if m.writes else (m.cache[1] if m.cache else None)
        if c.branch(isl[1](aa)):
            union_ok(c, it, v, aa, SHARED)
            c.cover("list")
        else:
            c.prove("hyperparameters of both are merged", isinstance(v, Entry) and v.s == 1 and v.owned and v.complete)
        return []
    ctx.loop_specs.append(ASpec(None, lambda itp, node, v, env: isinstance(it.content(v), AlgPairs), a_havoc, a_inv, label="algorithms"))
    try:
        r = it.call(it.get(f"{P}.merge_configurations"), [c1, c2], {})
    except PyRaise as e:
        aa, hh = st["a"], st.get("h")
        if hh is None:
            raise
        ctx.prove("only values of different types are refused", issubclass(e.exc.cls, TypeError) and z3.And(inc[1](aa), inh[1](aa, hh), kd[1](aa, hh) != kd[2](aa, hh)))
        ctx.cover("refused")
        return
    ctx.prove("the merged configuration is returned", bool(ms) and r is ms[0] and ms[0].complete)
    x = ctx.fresh_int("algorithm")
    ctx.assume(z3.And(inc[1](x), z3.Not(inc[2](x))))
    v = ms[0].of(ctx, x)
    ctx.prove("algorithms of the first only are kept", isinstance(v, Entry) and v.s == 1 and same(ctx, v.a, x) and not v.writes)
    ctx.cover("done")

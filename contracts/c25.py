"""C25: hyperparameters resolve user over dynamic over default.

Any number of hyperparameters of any names; the values are arbitrary, also falsy ones; None means not given.
"""
import z3
from pyvc.driver import *

PROOFS = Registry()
I, B = z3.IntSort(), z3.BoolSort()
BASES = ("gama.search_methods.base_search.BaseSearch", "gama.postprocessing.base_post_processing.BasePostProcessing")
EA, AH, RS = "gama.search_methods.async_ea", "gama.search_methods.asha", "gama.search_methods.random_search"
EN = "gama.postprocessing.ensemble"


def value(what, none, true=None):
    v = Opaque(what)
    v.memo["isnone"] = none
    v.sym_bool = z3.And(z3.Not(none), z3.FreshConst(B, "true") if true is None else true)
    return v


class Table(Model):
    """name -> (value given by the user or None, default): entries 0..n-1."""
    type_name = "dict"

    def __init__(self, ctx):
        self.n = z3.Int("n_hyperparameters")
        ctx.assume(self.n >= 0)
        self.none, self.true = z3.Function("not_given", I, B), z3.Function("given_is_true", I, B)
        self.dnone, self.dtrue = z3.Function("no_default", I, B), z3.Function("default_is_true", I, B)
        self.known = z3.Function("is_hyperparameter", I, B)
        self.writes = []

    def entry(self, k):
        k = to_z3(k)
        s, d = value("given", self.none(k), self.true(k)), value("default", self.dnone(k), self.dtrue(k))
        s.k, s.kind, d.k, d.kind = k, "given", k, "default"
        return (s, d)

    def m_items(self, ctx):
        return ctx.interp.new_list(FnC(self.n, lambda c, k: (Name(k), self.entry(k))))

    def py_content(self, ctx):
        return FnC(self.n, lambda c, k: Name(k))

    m_keys = m___iter__ = lambda self, ctx: ctx.interp.new_list(self.py_content(ctx))

    def py_getitem(self, ctx, k):
        if not isinstance(k, Name):
            raise Unsupported("name of a hyperparameter")
        if not ctx.branch(self.known(k.k)):
            raise PyRaise(ExcVal(KeyError, (k,)))
        return self.entry(k.k)

    def py_contains(self, ctx, k):
        return self.known(k.k)

    def py_setitem(self, ctx, k, v):
        self.writes.append((k, v))

    def m_update(self, ctx, *a, **k):
        raise Unsupported("update")


class Name(Model):
    type_name = "str"

    def __init__(self, k):
        self.k = to_z3(k)

    def py_eq(self, ctx, o):
        return self.k == o.k if isinstance(o, Name) else False


@PROOFS("hyperparameters: the user's value where given, else the default, for every name", covers=("given", "default"))
def resolve(ctx):
    it = ctx.interp
    t = Table(ctx)
    out = []

    def make(c, content):
        out.append(content)
        return Opaque("hyperparameters")
    ctx.dict_from_content = make
    o = Inst(it.get(BASES[ctx.choose(2)]), {"_hyperparameters": t}, label="method")
    k = ctx.fresh_int("k")
    ctx.assume(z3.And(0 <= k, k < t.n))
    it.getattr(o, "hyperparameters")
    if len(out) != 1:
        raise Unsupported("made by other means")
    c = out[0]
    ctx.prove("one entry per hyperparameter", to_z3(c.length(ctx)) == t.n)
    name, v = ctx.interp.unpack(c.at(ctx, k), 2)
    ctx.prove("under its own name", isinstance(name, Name) and name.k == k)
    if not isinstance(v, Opaque) or not hasattr(v, "kind"):
        ctx.fail("a value that was given or its default", repr(v))
        return
    ctx.prove("the value of that hyperparameter", v.k == k)
    if ctx.branch(t.none(k)):
        # the default; a user's None is no value
        ctx.prove("the default where nothing was given", v.kind == "default")
        ctx.cover("default")
    else:
        ctx.prove("the user's value where given", v.kind == "given")
        ctx.cover("given")
    ctx.prove("reading changes nothing", not t.writes and o.attrs["_hyperparameters"] is t)


@PROOFS("_overwrite_hyperparameter_default changes the default of that hyperparameter only; unknown names are refused", covers=("known", "unknown"))
def overwrite(ctx):
    it = ctx.interp
    t = Table(ctx)
    o = Inst(it.get(BASES[ctx.choose(2)]), {"_hyperparameters": t}, label="method")
    name, v = Name(z3.Int("name")), value("dynamic", z3.Bool("dynamic_is_none"))
    try:
        it.call(it.getattr(o, "_overwrite_hyperparameter_default"), [name, v], {})
    except PyRaise as e:
        ctx.prove("refused only if unknown", z3.And(z3.Not(t.known(name.k)), z3.BoolVal(not t.writes)))
        ctx.cover("unknown")
        return
    ctx.prove("unknown names are refused", t.known(name.k))
    ctx.prove("one hyperparameter is changed", len(t.writes) == 1 and o.attrs["_hyperparameters"] is t)
    k, new = t.writes[0]
    ctx.prove("the one named", k is name)
    s, d = it.unpack(new, 2)
    if not isinstance(s, Opaque):
        return ctx.prove("the user's value stays", z3.And(z3.BoolVal(s is None), t.none(name.k)))
    ctx.prove("the user's value stays", getattr(s, "kind", "") == "given" and s.k is name.k)
    ctx.prove("the default is the dynamic value", d is v)
    ctx.cover("known")


SPECS = {
    EA + ".AsyncEA": dict(population_size=50, max_n_evaluations=None, restart_callback=None),
    AH + ".AsynchronousSuccessiveHalving": dict(reduction_factor=3, minimum_resource=0.125, maximum_resource=1.0, minimum_early_stopping_rate=0),
    EN + ".EnsemblePostProcessing": dict(ensemble_size=25, hillclimb_size=10_000, max_models=200),
}


def same(a, b):
    return a is b or type(a) is type(b) and not isinstance(a, Opaque) and a == b


def construct(ctx, cls):
    """A method whose hyperparameters are given, given as None, or left out."""
    it = ctx.interp
    kw, want = {}, {}
    for name, default in SPECS[cls].items():
        how = ctx.choose(3)
        if how == 0:
            v = Opaque("given " + name)
            v.memo["isnone"] = z3.BoolVal(False)
            kw[name] = want[name] = v
        else:
            if how == 1:
                kw[name] = None
            want[name] = default
    return it.call(it.get(cls), [], kw), want


@PROOFS("every hyperparameter of a method has the value given for it, or its documented default", covers=("done",))
def constructors(ctx):
    it = ctx.interp
    cls = list(SPECS)[ctx.choose(3)]
    o, want = construct(ctx, cls)
    hp = it.getattr(o, "hyperparameters")
    if not isinstance(hp, DictObj):
        raise Unsupported("other mapping")
    d = dict(hp.pairs)
    for name, v in want.items():
        ctx.prove("the value given, else the documented default", name in d and same(unbox(d[name]), v))
    ctx.cover("done")


def unbox(v):
    if is_z3(v) and z3.is_int_value(v):
        return v.as_long()
    return v


@PROOFS("searches run with the resolved hyperparameters", covers=("ea", "asha", "random"))
def searching(ctx):
    it = ctx.interp
    ops, start = Opaque("operations"), Opaque("start candidates")
    which = ctx.choose(3)
    got = []
    out = Opaque("output")

    def run(c, b):
        got.append(b)
        return out
    for f in (EA + ".async_ea", AH + ".asha", RS + ".random_search"):
        ctx.contracts[f] = run
    if which == 2:
        s, want = it.call(it.get(RS + ".RandomSearch"), [], {}), {}
    else:
        s, want = construct(ctx, list(SPECS)[which])
    x, y = Opaque("x"), Rows(z3.Int("n_rows"))
    it.call(it.getattr(s, "search"), [ops, start], {})
    ctx.prove("one search with the given operations and candidates", len(got) == 1 and ops in got[0].values() and start in got[0].values())
    for name, v in want.items():
        ctx.prove("with the resolved value", name in got[0] and same(unbox(got[0][name]), v))
    if which < 2:
        ctx.prove("its result is the output", s.attrs["output"] is out or any(v is s.attrs["output"] for v in got[0].values()))
    ctx.cover(("ea", "asha", "random")[which])


class Rows(Model):
    type_name = "targets"

    def __init__(self, n):
        self.n = n

    def py_len(self, ctx):
        return self.n


@PROOFS("dynamic defaults of the searches change nothing the user set, except a maximum resource beyond the data", covers=("kept", "reverted"))
def dynamic(ctx):
    it = ctx.interp
    which = ctx.choose(2)
    cls = list(SPECS)[which]
    n = z3.Int("n_rows")
    ctx.assume(n >= 1)
    kw, want = {}, dict(SPECS[cls])
    for name in SPECS[cls]:
        if ctx.choose(2):
            if name == "maximum_resource":
                v = ctx.fresh_real("maximum_resource") if ctx.choose(2) else ctx.fresh_int("maximum_resource")
            else:
                v = Opaque(name)
                v.memo["isnone"] = z3.BoolVal(False)
            kw[name] = want[name] = v
    s = it.call(it.get(cls), [], dict(kw))
    it.call(it.getattr(s, "dynamic_defaults"), [Opaque("x"), Rows(n), z3.Real("time")], {})
    d = dict(it.getattr(s, "hyperparameters").pairs)
    for name, v in want.items():
        got = unbox(d[name])
        if name == "maximum_resource" and name in kw:
            if ctx.branch(to_z3(v) > n):
                ctx.prove("a maximum beyond the data reverts to the default", same(got, 1.0) or got is v)
                ctx.cover("reverted")
            else:
                ctx.prove("the user's value stays", got is v)
        else:
            ctx.prove("the user's value or the default stays", same(got, v))
    ctx.cover("kept")


@PROOFS("an ensemble gets the metric and evaluations of the search, its size and the stored models as configured", covers=("done",))
def ensemble(ctx):
    it = ctx.interp
    p, want = construct(ctx, EN + ".EnsemblePostProcessing")
    made = []

    def build(c, b):
        made.append(b)
        return Opaque("ensemble")
    ctx.contracts[f"{EN}.build_fit_ensemble"] = build
    met, evlib = Opaque("metric"), Opaque("library")
    for v in (met, evlib):
        v.memo["isnone"] = z3.BoolVal(False)
    gm = Inst(None, {"_metrics": (met, Opaque("length")), "_evaluation_library": evlib}, label="gama")
    it.call(it.getattr(p, "dynamic_defaults"), [gm], {})
    d = dict(it.getattr(p, "hyperparameters").pairs)
    for name, v in want.items():
        ctx.prove("values stay as given", same(unbox(d[name]), v))
    it.call(it.getattr(p, "post_process"), [Opaque("x"), Opaque("y"), z3.Real("timeout"), Opaque("selection")], {})
    ctx.prove("with the metric, the evaluations and the configured size", len(made) == 1 and made[0]["metric"] is met and made[0]["evaluation_library"] is evlib
              and same(unbox(made[0]["ensemble_size"]), want["ensemble_size"]))
    ctx.cover("done")


@PROOFS("the evaluation library keeps as many models and predictions as the ensemble is configured for", covers=("ensemble", "none"))
def library(ctx):
    from contracts.gm import Init
    w = Init(ctx)
    if w.run() is not None:
        raise PathAbort()      # refused settings (C15, C22)
    made = w.of("library")
    ctx.prove("one evaluation library", len(made) == 1)
    a, k = made[0]
    m = k.get("m", a[0] if a else None)
    if w.ensemble:
        n = k.get("n", a[1] if len(a) > 1 else None)
        ctx.prove("as configured", m is w.hp["max_models"] and n is w.hp["hillclimb_size"])
        ctx.cover("ensemble")
    else:
        ctx.prove("no models need to be kept", unbox(m) == 0)
        ctx.cover("none")


@PROOFS("start candidates other than a list of individuals are refused", covers=("list", "element", "accepted"))
def start_candidates(ctx):
    it = ctx.interp
    IND = it.get("gama.genetic_programming.components.individual.Individual")
    n, good = z3.Int("n_candidates"), z3.Function("is_individual", I, B)
    ctx.assume(n >= 0)

    class E(Model):
        type_name = "candidate"

        def __init__(self, k):
            self.k = to_z3(k)

        def py_isinstance(self, c, t):
            if t is IND:
                return good(self.k)
            raise Unsupported("type of a candidate")
    is_list = ctx.choose(2)
    cand = ListObj(FnC(n, lambda c, k: E(k))) if is_list else ("text", (), None, 3)[ctx.choose(4)]
    j = z3.Int("j!g")
    allg = z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < n), good(j)))
    try:
        it.call(it.get("gama.search_methods.base_search._check_base_search_hyperparameters"), [Opaque("operations"), ListObj([]), cand], {})
    except PyRaise as e:
        ctx.prove("with a type error", e.exc.cls is TypeError if hasattr(e.exc, "cls") else True)
        if is_list:
            ctx.prove("only if some element is no individual", z3.Not(allg))
            ctx.cover("element")
        else:
            ctx.cover("list")
        return
    ctx.prove("accepted only if all are individuals", z3.And(z3.BoolVal(bool(is_list)), allg))
    ctx.cover("accepted")

"""Shared contracts for the methods of Gama (C15, C16, C21, C22, C24, C29).

`Fit` is a Gama object in an arbitrary state between two calls: any settings, any number of activities of
earlier fits, any population. The functions `fit` calls are replaced by their contracts; each of them may take
any time, and the ones running user code may raise.
"""
import z3
from pyvc.driver import *
from pyvc.interp import TimeoutException, StrCat

GM = "gama.gama.Gama"
I, R, B = z3.IntSort(), z3.RealSort(), z3.BoolSort()
TK = "gama.utilities.generic.timekeeper"
SW = "gama.utilities.generic.stopwatch"


class Own(Exception):
    """Any exception of the code called."""


class Clock(Model):
    """A clock that never goes back."""
    type_name = "clock"

    def __init__(self, ctx):
        self.now = ctx.fresh_real("t")

    def py_call(self, ctx):
        t = ctx.fresh_real("t")
        ctx.assume(t >= self.now)
        self.now = t
        return t

    def tick(self, ctx):
        self.py_call(ctx)


def activities(ctx, it):
    """n recorded activities with elapsed times el(i)."""
    n = z3.Int("n_activities")
    ctx.assume(n >= 0)
    el = z3.Function("elapsed", I, R)
    sf = Fam("stopwatch", None, {"elapsed_time": lambda c, i: el(to_z3(i))})
    af = Fam("activity", None, {"stopwatch": lambda c, i: Obj(sf, i), "name": lambda c, i: Opaque("name"), "time_limit": lambda c, i: Opaque("limit")})
    return n, el, ListObj(FnC(n, lambda c, i: Obj(af, i)))


class Lex(Model):
    """fitness.values of individual i; compared lexicographically (a linear order, given by its rank)."""
    type_name = "fitness values"
    rank = z3.Function("lex_rank", I, I)

    def __init__(self, i):
        self.i = to_z3(i)

    def py_compare(self, ctx, name, other):
        if not isinstance(other, Lex):
            raise Unsupported("comparison of fitness values with something else")
        a, b = Lex.rank(self.i), Lex.rank(other.i)
        return {"Lt": a < b, "Gt": a > b, "LtE": a <= b, "GtE": a >= b}[name]

    def py_eq(self, ctx, other):
        return simp(Lex.rank(self.i) == Lex.rank(other.i))


class Table(Model):
    """A data frame or column known by its name only."""

    def __init__(self, ctx, name):
        self.type_name = name
        self.rows, self.cols = ctx.fresh_int("rows"), ctx.fresh_int("cols")
        ctx.assume(z3.And(self.rows >= 0, self.cols >= 0))
        self.dtypes = Opaque(f"dtypes of {name}")

    def py_getattr(self, ctx, name):
        if name == "shape":
            return (self.rows, self.cols)
        if name == "dtypes":
            return self.dtypes
        raise Unsupported(f"attribute {name} of {self.type_name}")

    def py_isinstance(self, ctx, t):
        return isinstance(t, External) and t.path == "pandas.DataFrame"

    def py_len(self, ctx):
        return self.rows


class Fit:
    def __init__(self, ctx, **kw):
        it = ctx.interp
        self.ctx, self.it = ctx, it
        self.clock = Clock(ctx)
        ctx.externals["time.time"] = lambda c: self.clock.py_call(c)
        self.events = []
        self.total = z3.Real("max_total_time")
        self.frac = z3.Real("time_fraction")
        ctx.assume(z3.And(self.total > 0, 0 <= self.frac, self.frac <= 1))
        keeper = it.call(it.get(f"{TK}.TimeKeeper"), [self.total], {})
        _, _, keeper.attrs["activities"] = activities(ctx, it)
        self.classification = kw.get("classification")
        if self.classification is None:
            self.classification = bool(ctx.choose(2))
        self.store = kw.get("store", "all")
        self.post = Post(self)
        self.x, self.y = Table(ctx, "x as given"), Table(ctx, "y as given")
        self.fx, self.fy, self.ex = Table(ctx, "formatted x"), Table(ctx, "formatted y"), Table(ctx, "encoded x")
        self.enc, self.ext = Opaque("encoding pipeline"), Opaque("pipeline extension")
        self.n = z3.Int("n_population")
        ctx.assume(self.n >= 0)
        self.indf = Fam("individual", it.get("gama.genetic_programming.components.individual.Individual"),
                        {"fitness": lambda c, i: Inst(None, {"values": Lex(i)}, label="fitness")})
        self.final = ListObj(FnC(self.n, lambda c, i: Obj(self.indf, i)))
        self.m = kw.get("m")
        ident = Schema("Component")
        ident.sort
        self.pf = Fam("primitive", None, {"identifier": lambda c, i: Opaque("identifier")})
        npred = z3.Int("n_predictors")
        ctx.assume(npred >= 0)
        self.compiled = []
        self.compile = Builtin("compile", lambda c, *a, **k: self.compiled.append((a, k)))
        attrs = {
            "_time_manager": keeper, "_post_processing": self.post, "_search_method": Searcher(self),
            "_evaluation_library": Inst(None, {"_m": 0 if self.m is None else self.m}, label="library"),
            "_operator_set": Inst(None, {"_compile": self.compile, "_safe_compile": None, "evaluate": None}, label="operator set"),
            "_pset": DictObj([("prediction", ListObj(FnC(npred, lambda c, i: Obj(self.pf, i)))), ("data", ListObj(FnC(npred, lambda c, i: Obj(self.pf, i))))]),
            "_store": self.store, "_final_pop": ListObj(Conc([])), "model": None, "_max_eval_time": z3.Real("max_eval_time"),
            "_metrics": Opaque("metrics"), "_regularize_length": Opaque("regularize"), "_x": None, "_y": None, "_inferred_dtypes": ListObj(Conc([])),
            "_basic_encoding_pipeline": None, "_fixed_pipeline_extension": ListObj(Conc([])), "output_directory": "out",
        }
        if self.classification:
            attrs["_label_encoder"] = Opaque("label encoder")
        cls = it.get("gama.GamaClassifier.GamaClassifier" if self.classification else "gama.GamaRegressor.GamaRegressor")
        self.g = Inst(cls, attrs, label="gama")
        C = ctx.contracts
        C["gama.data_formatting.format_x_y"] = self.c_format
        C["gama.utilities.preprocessing.basic_encoding"] = self.c_encode
        C["gama.utilities.preprocessing.basic_pipeline_extension"] = self.c_extend
        C[f"{GM}._search_phase"] = self.c_search
        C[f"{GM}.cleanup"] = self.c_cleanup

        def sum_hook(c, v, start):
            if it.content(v).items() is None:
                return c.fresh_real("sum")  # a sum about which nothing is known
        ctx.sum_hook = sum_hook
        ctx.assumption("time.time never goes back")

    limits = ()

    def limit_open(self):
        return [m for m in self.limits if m.entered]

    def tick(self):
        self.clock.tick(self.ctx)

    def activity(self):
        return self.g.attrs["_time_manager"].attrs["current_activity"]

    def log(self, kind, **d):
        self.events.append((kind, d))

    def of(self, kind):
        return [d for k, d in self.events if k == kind]

    # contracts of the callees
    def c_format(self, c, b):
        self.tick()
        self.log("format", x=b["x"], y=b["y"], rest=b)
        return (self.fx, self.fy)

    def c_encode(self, c, b):
        self.tick()
        self.log("encode", x=b["x"], classification=b["is_classification"])
        return (self.ex, self.enc)

    def c_extend(self, c, b):
        self.tick()
        self.log("extend", x=b["x"], classification=b["is_classification"])
        return self.ext

    def c_search(self, c, b):
        self.log("search", warm=b["warm_start"], timeout=b["timeout"], activity=self.activity(), x=self.g.attrs["_x"], y=self.g.attrs["_y"])
        self.tick()
        if c.choose(2):
            self.log("raise search")
            self.exc = ExcVal(Own)
            raise PyRaise(self.exc)
        self.g.attrs["_final_pop"] = self.final

    def c_cleanup(self, c, b):
        self.log("cleanup", which=b["which"], model=self.g.attrs["model"])

    def run(self, warm=None):
        """fit, through the base class (returns the exception that ended it)."""
        self.warm = warm
        try:
            r = self.it.call(self.it.get(f"{GM}.fit"), [self.g, self.x, self.y, warm], {})
            self.log("return", value=r)
            return None
        except PyRaise as e:
            return e.exc


class Post(Model):
    type_name = "post-processing"

    def __init__(self, w):
        self.w = w

    def py_getattr(self, ctx, name):
        if name == "time_fraction":
            return self.w.frac
        if name == "__class__":
            return Inst(None, {"__name__": "Post"}, label="class")
        return super().py_getattr(ctx, name)

    def m_dynamic_defaults(self, ctx, g):
        self.w.tick()
        self.w.log("post defaults", g=g)

    def m_post_process(self, ctx, *a, **k):
        names = ("x", "y", "timeout", "selection")
        b = dict(zip(names, a))
        b.update(k)
        w = self.w
        w.log("post", activity=w.activity(), **b)
        w.tick()
        if ctx.choose(2):
            w.exc = ExcVal(Own)
            w.log("raise post")
            raise PyRaise(w.exc)
        w.model = Opaque("model")
        return w.model


class Searcher(Model):
    type_name = "search method"

    def __init__(self, w):
        self.w = w
        self.result = Opaque("output")

    def py_getattr(self, ctx, name):
        if name == "__class__":
            return Inst(None, {"__name__": "Search"}, label="class")
        if name == "output":
            return self.result
        return super().py_getattr(ctx, name)

    OUTCOMES = (None, TimeoutException, KeyboardInterrupt, Own)

    def m_dynamic_defaults(self, ctx, x, y, t):
        self.w.log("search defaults", x=x, y=y, timeout=t, limited=self.w.limit_open())

    def m_search(self, ctx, ops, start_candidates):
        w = self.w
        w.log("search", ops=ops, start=start_candidates, evaluate=w.g.attrs["_operator_set"].attrs["evaluate"], limited=w.limit_open(),
              shared=w.it.getattr(w.defaults, "defaults"))
        w.tick()
        self.result = Opaque("output of this search")
        w.raised = self.OUTCOMES[ctx.choose(4)]
        if w.raised:
            w.exc = ExcVal(w.raised)
            raise PyRaise(w.exc)


class Limit(Model):
    """stopit.ThreadingTimeout"""
    type_name = "ThreadingTimeout"

    def __init__(self, w, t):
        self.w, self.t, self.entered = w, t, False
        w.limits = w.limits + (self,)

    def m___enter__(self, ctx):
        self.entered = True
        return self

    def m___exit__(self, ctx, et, ev, tb):
        self.entered = False
        return et is not None and issubclass(et, TimeoutException)


class SearchPhase(Fit):
    """Fit, with _search_phase itself interpreted and the search method replaced by its contract."""

    def __init__(self, ctx, **kw):
        super().__init__(ctx, **kw)
        it = self.it
        del ctx.contracts[f"{GM}._search_phase"]
        ctx.externals["stopit.ThreadingTimeout"] = lambda c, t, *a, **k: Limit(self, t)
        ctx.assumption("stopit.ThreadingTimeout raises TimeoutException inside the block at its limit and swallows it on exit")
        g = self.g
        g.attrs["_x"], g.attrs["_y"] = self.ex, self.fy
        n = z3.Int("n_previous")
        ctx.assume(n >= 0)
        self.prev = ListObj(FnC(n, lambda c, i: Obj(self.indf, i)))
        self.n_prev = n
        g.attrs["_final_pop"] = self.prev
        self.raised = None
        self.new = []

        class Ops(Model):
            type_name = "operator set"
            attrs = {"evaluate": None}

            def m_individual(s, c):
                o = Opaque("new individual")
                self.new.append(o)
                return o

            def py_getattr(s, c, name):
                if name in s.attrs:
                    return s.attrs[name]
                return super().py_getattr(c, name)

            def py_setattr(s, c, name, v):
                s.attrs[name] = v
        self.ops = Ops()
        self.ops.attrs = {"evaluate": None}
        g.attrs["_operator_set"] = self.ops
        g.attrs["_evaluation_library"] = Inst(None, {"evaluations": ListObj(Conc([]))}, label="library")
        self.defaults = it.get("gama.utilities.generic.async_evaluator.AsyncEvaluator")

    def phase(self, warm, timeout):
        try:
            self.it.call(self.it.get(f"{GM}._search_phase"), [self.g, warm, timeout], {})
            return None
        except PyRaise as e:
            return e.exc


def evaluated(w):
    """What evaluate_pipeline gets when a worker evaluates an individual during the search: the job
    is ops.evaluate(individual), called with the shared arguments (AsyncFuture.execute, C13);
    evaluate_individual passes them on to the evaluate_pipeline it is given (proved in C11)."""
    ctx, it = w.ctx, w.it
    s = w.of("search")[0]
    SK = "gama.genetic_programming.compilers.scikitlearn"
    got, inner = {}, {}
    ctx.contracts[f"{SK}.evaluate_individual"] = lambda c, b: got.update(b)
    ctx.contracts[f"{SK}.evaluate_pipeline"] = lambda c, b: inner.update(b)
    shared = s["shared"]
    if not isinstance(shared, DictObj):
        raise Unsupported("shared arguments of the jobs")
    it.call(s["evaluate"], [Opaque("individual")], {k: v for k, v in shared.pairs})
    f = got.get("evaluate_pipeline")
    extra = got.get("kwargs")
    extra = dict(extra.pairs) if isinstance(extra, DictObj) else dict(extra or {})
    if f is None:
        return inner
    it.call(f, [Opaque("pipeline")], {"timeout": z3.Real("timeout!e"), **extra})
    return inner


class Init:
    """Gama.__init__ for any settings; the functions it calls are replaced by their contracts."""

    def __init__(self, ctx, ensemble=None, **given):
        it = ctx.interp
        self.ctx, self.it = ctx, it
        self.events = []
        X, C = ctx.externals, ctx.contracts
        self.cpu = z3.Int("cpu_count")
        ctx.assume(self.cpu >= 1)
        X["multiprocessing.cpu_count"] = lambda c: self.cpu
        X["os.path.abspath"] = X["os.path.expanduser"] = lambda c, p: p
        from contracts.fs import FS
        self.fs = FS(ctx)
        self.dir_exists, self.dir_empty = ctx.fresh_bool("directory exists"), ctx.fresh_bool("directory empty")
        X["os.path.exists"] = lambda c, p: self.dir_exists
        nfiles = ctx.fresh_int("n_files")
        ctx.assume(z3.And(nfiles >= 0, self.dir_empty == (nfiles == 0)))
        X["os.listdir"] = lambda c, p: ListObj(FnC(nfiles, lambda cc, i: Opaque("file")))
        X["os.mkdir"] = lambda c, p, *a: self.events.append(("mkdir", p))
        ctx.assumption("library contracts: os.mkdir, os.path.exists, os.listdir, os.path.abspath, multiprocessing.cpu_count() >= 1, logging")
        C["gama.logging.utility_functions.register_stream_log"] = lambda c, b: None
        self.metrics = Opaque("metrics")
        C["gama.utilities.metrics.scoring_to_metric"] = self.c_metrics
        self.pset_has_data = ctx.fresh_bool("search space has preprocessing steps")
        self.pset = PSet(self)
        C["gama.configuration.parser.pset_from_config"] = self.c_pset
        C[f"{GM}.cleanup"] = lambda c, b: self.events.append(("cleanup", b["which"]))
        self.lib = None
        it_lib = it.get("gama.utilities.evaluation_library.EvaluationLibrary")
        ctx.class_hooks[it_lib.qualname if hasattr(it_lib, "qualname") else "gama.utilities.evaluation_library.EvaluationLibrary"] = self.c_lib
        X["functools.partialmethod"] = lambda c, f, *a, **k: PartialVal(f, a, k)
        ev = it.get("gama.utilities.generic.async_evaluator.AsyncEvaluator")
        self.evaluator = ev
        self.save, self.logf = Opaque("save_evaluation"), Opaque("log_evaluation")
        w = self

        class Search(Model):
            type_name = "search method"

            def m_logger(s, c, p, *a):
                w.events.append(("logger", p))
                return Inst(None, {"log_evaluation": w.logf}, label="logger")

            def py_str(s, c):
                return Opaque("search as text")
        self.search = Search()
        ens = it.get("gama.postprocessing.ensemble.EnsemblePostProcessing")
        self.ensemble = bool(ctx.choose(2)) if ensemble is None else ensemble
        self.hp = {"max_models": ctx.fresh_int("max_models"), "hillclimb_size": ctx.fresh_int("hillclimb_size")}
        cls = ens if self.ensemble else it.get("gama.postprocessing.best_fit.BestFitPostProcessing")
        self.post = Inst(cls, {"_hyperparameters": DictObj([(k, (v, None)) for k, v in self.hp.items()])}, label="post-processing")
        ctx.str_hook = lambda c, v: Opaque("text")
        self.kw = dict(search_space=Opaque("search space"), scoring=Opaque("scoring"), regularize_length=Opaque("regularize"), max_pipeline_length=None,
                       random_state=None, max_total_time=3600, max_eval_time=None, n_jobs=1, max_memory_mb=Opaque("max_memory"), verbosity=30,
                       search=self.search, post_processing=self.post, output_directory="out", store="nothing")
        self.kw.update(given)
        self.g = Inst(it.get("gama.GamaRegressor.GamaRegressor"), {}, label="gama")

    def c_metrics(self, c, b):
        self.scored = b["scoring"]
        return self.metrics

    def c_pset(self, c, b):
        self.events.append(("pset", next(iter(b.values()))))
        return (self.pset, Opaque("checks"))

    def c_lib(self, c, *a, **k):
        self.events.append(("library", a, k))
        self.lib = Inst(None, {"save_evaluation": self.save, "lookup": Opaque("lookup")}, label="library")
        return self.lib

    def of(self, kind):
        return [e[1:] for e in self.events if e[0] == kind]

    def run(self):
        self.before = self.evaluator.attrs.get("__init__")
        try:
            self.it.call(self.it.get(f"{GM}.__init__"), [self.g], dict(self.kw))
            return None
        except PyRaise as e:
            return e.exc


class PSet(Model):
    type_name = "primitive set"

    def __init__(self, w):
        self.w = w

    def py_contains(self, ctx, k):
        if k == "data":
            return self.w.pset_has_data
        raise Unsupported("key of the primitive set")

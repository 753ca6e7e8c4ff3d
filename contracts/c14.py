"""C14: ensembles weight, average and grow their models correctly.

Predictions are vectors; the proofs look at one arbitrary entry of them (all operations used are
entrywise), so a vector is a real number with a record of the models it was made from.
Ghost state of an ensemble: `models`, a finite map from the identity of a pipeline to
(evaluation, weight), with total weight W and weighted sum S of the models' predictions.

Contracts
  _add_model                         weight of that pipeline + add_weight, all others unchanged
  _total_model_weights               W
  _averaged_validation_predictions   S / W
  _ensemble_validation_score         the metric's (higher is better) score against the same rows
  build_initial_ensemble(n)          the first n of the model library, each with weight 1
  expand_ensemble(n)                 n times: the weight of a model with the best resulting score + 1
  model_library                      the best evaluations in order; predictions transformed, then sampled
  fit / _total_fit_weights / _get_weighted_mean_predictions / predict / predict_proba
  build_fit_ensemble                 total weight = requested size
"""
import z3
from pyvc.driver import *
from pyvc.interp import StrCat

PROOFS = Registry()
EN = "gama.postprocessing.ensemble"
ENS, CLF, REG = f"{EN}.Ensemble", f"{EN}.EnsembleClassifier", f"{EN}.EnsembleRegressor"
I, R, B = z3.IntSort(), z3.RealSort(), z3.BoolSort()


def real(v):
    v = to_z3(v)
    return z3.ToReal(v) if z3.is_int(v) else v


class Vec(Model):
    """One arbitrary entry of an array; `uses`: candidate models it depends on; `ops`: steps applied to raw predictions."""
    type_name = "array"

    def __init__(self, val, uses=(), ops=()):
        self.val, self.uses, self.ops = val, tuple(uses), tuple(ops)

    def py_is_none(self, ctx):
        return False

    def py_isinstance(self, ctx, t):
        return False

    def _bin(self, ctx, name, a, b, uses):
        if name == "Add":
            return Vec(a + b, uses)
        if name == "Sub":
            return Vec(a - b, uses)
        if name == "Mult":
            return Vec(a * b, uses)
        if name == "Div":
            ctx.prove("no division by zero", b != 0)
            return Vec(a / b, uses)
        raise Unsupported(f"{name} of arrays")

    def py_binop(self, ctx, name, other):
        o = other.val if isinstance(other, Vec) else real(other)
        return self._bin(ctx, name, self.val, o, self.uses + (other.uses if isinstance(other, Vec) else ()))

    def py_rbinop(self, ctx, name, other):
        return self._bin(ctx, name, real(other), self.val, self.uses)

    def m_toarray(self, ctx):
        return Vec(self.val, self.uses, self.ops)

    def py_getitem(self, ctx, k):
        if k is None or not isinstance(k, (Sample, Opaque)):
            raise Unsupported("selection of entries")
        return Vec(self.val, self.uses, self.ops + (("sample", k),))


class Sample(Model):
    """A non-empty list of row positions."""
    type_name = "sample of rows"

    def py_bool(self, ctx):
        return True

    def py_is_none(self, ctx):
        return False


class Models(Model):
    """The map identity -> (evaluation, weight) of an ensemble."""
    type_name = "models"

    def __init__(self, w, ctx, tag="old"):
        self.w = w
        self.has = ctx.fresh_fun("has_" + tag, w.ident.sort, B)
        self.weight = ctx.fresh_fun("weight_" + tag, w.ident.sort, I)
        self.n = ctx.fresh_int("n_models")
        self.at = ctx.fresh_fun("model_" + tag, I, I)          # k-th stored evaluation
        self.wt = ctx.fresh_fun("kth_weight_" + tag, I, I)
        ctx.assume(self.n >= 0)
        self.log = []                                           # (id, None or (evaluation, weight))
        self.total, self.sum = ctx.fresh_int("W"), ctx.fresh_real("S")
        k = z3.Int("k!m")
        # every stored weight is positive, so the total is positive if there are models
        ctx.assume(z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < self.n), self.wt(k) >= 1), patterns=[self.wt(k)]))
        ctx.assume(z3.If(self.n > 0, self.total >= self.n, self.total == 0))
        ctx.assume(z3.Implies(self.n == 0, self.sum == 0))

    def key(self, k):
        if not (isinstance(k, Term) and k.schema is self.w.ident):
            raise Unsupported("models are kept by something else than the identity of their pipeline")
        return k.expr

    def _find(self, ctx, k):
        e = self.key(k)
        for o, v in reversed(self.log):
            if ctx.branch(o == e):
                return v
        if ctx.branch(self.has(e)):
            i = ctx.fresh_int("stored")
            ctx.assume(self.w.idof(i) == e)
            return (Obj(self.w.fam, i), self.weight(e))
        return None

    def _log(self, ctx, k, v):
        self.log.append((self.key(k), v))
        ctx.log_mut(self, "items")

    def py_len(self, ctx):
        if self.log:
            raise Unsupported("number of models after a change")
        return self.n

    def py_bool(self, ctx):
        return simp(to_z3(self.py_len(ctx)) > 0)

    def py_is_none(self, ctx):
        return False

    def py_contains(self, ctx, k):
        return self._find(ctx, k) is not None

    def py_getitem(self, ctx, k):
        v = self._find(ctx, k)
        if v is None:
            ctx.raise_(KeyError, "model")
        return v

    def m_get(self, ctx, k, d=None):
        v = self._find(ctx, k)
        return d if v is None else v

    def m_pop(self, ctx, k, *d):
        v = self._find(ctx, k)
        if v is None:
            if not d:
                ctx.raise_(KeyError, "model")
            return d[0]
        self._log(ctx, k, None)
        return v

    def m_setdefault(self, ctx, k, d=None):
        v = self._find(ctx, k)
        if v is None:
            self._log(ctx, k, d)
            return d
        return v

    def py_setitem(self, ctx, k, v):
        self._log(ctx, k, v)

    def py_delitem(self, ctx, k):
        self.m_pop(ctx, k)

    def entry(self, c, k):
        return (Obj(self.w.fam, self.at(to_z3(k))), self.wt(to_z3(k)))

    def m_values(self, ctx):
        if self.log:
            raise Unsupported("models after a change")
        return ctx.interp.new_list(FnC(self.n, self.entry), kind="iter")

    def m_items(self, ctx):
        if self.log:
            raise Unsupported("models after a change")
        return ctx.interp.new_list(FnC(self.n, lambda c, k: (Term(self.w.idof(self.at(to_z3(k))), self.w.ident), self.entry(c, k))), kind="iter")


class W_:
    """Evaluations with predictions P(i), score, individual with identity id(i)."""

    def __init__(self, ctx):
        it = ctx.interp
        self.ctx = ctx
        self.ident = Schema("PipelineId")
        self.idof = z3.Function("id", I, self.ident.sort)
        self.P = z3.Function("P", I, R)
        ind = Fam("individual", it.get("gama.genetic_programming.components.individual.Individual"), {
            "_id": lambda c, i: Term(self.idof(to_z3(i)), self.ident),
            "short_name": lambda c, i: Builtin("short_name", lambda cc, *a: Opaque("name"))})
        self.fam = Fam("evaluation", it.get("gama.utilities.evaluation_library.Evaluation"), {
            "individual": lambda c, i: Obj(ind, i),
            "_predictions": lambda c, i: self.pred(i),
            "predictions": lambda c, i: self.pred(i),
            "score": lambda c, i: (c.fresh_real("score"), c.fresh_int("length")),
            "_estimators": lambda c, i: Opaque("estimators")})
        ctx.contracts["gama.utilities.evaluation_library.Evaluation.predictions"] = lambda c, b: self.pred(b["self"].idx)
        ctx.assumption("arithmetic of numpy arrays and sparse matrices is entrywise; floats are treated as real numbers; scores are finite numbers")

    def pred(self, i):
        return Vec(self.P(to_z3(i)), (to_z3(i),))

    def obj(self, i):
        return Obj(self.fam, i)

    def ens(self, cls, **attrs):
        a = {"_models": Models(self, self.ctx), "_metric": Opaque("metric"), "_y": Opaque("y"), "_internal_score": float("-inf"), "_fit_models": None,
             "_prediction_transformation": None, "_prediction_sample": None, "_model_library": self.ctx.interp.new_list(Conc([])),
             "_use_top_n_only": z3.Int("top_n"), "evaluation_library": Opaque("library"), "_shrink_on_pickle": True, "_maximize": True,
             "_label_encoder": None}
        a.update(attrs)
        return Inst(self.ctx.interp.get(cls), a, label="ensemble")


def summing(ctx, cases):
    """sum over a sequence: `cases` = [(n, elem(k), total)]; proves that the summands are those of a case."""
    it = ctx.interp

    def hook(c, v, start):
        ct = it.content(v)
        if ct.items() is not None:
            return None
        n = to_z3(ct.length(c))
        k = c.fresh_int("k")
        c.assume(z3.And(0 <= k, k < n))
        e = ct.at(c, k)
        isvec = isinstance(e, Vec)
        val = e.val if isvec else real(e)
        for size, elem, total, vec in cases:
            if vec == isvec and c._discharge(z3.And(n == size, val == elem(k)))[0] == "proved":
                if vec and not (start == 0 and not isinstance(start, bool)):
                    raise Unsupported("sum with a start value")
                t = total if vec or z3.is_real(total) else total
                return Vec(t) if vec else (t if isinstance(start, int) and start == 0 else simp(real(t) + real(start)))
        for size, elem, total, vec in cases:
            if vec == isvec:
                c.prove("the summands are those of the models", z3.And(n == size, val == elem(k)))
        raise Unsupported("sum of something else")
    ctx.sum_hook = hook


# ------------------------------------------------------------------ weights and averages
def model_sums(ctx, m):
    w = m.w
    summing(ctx, [(m.n, lambda k: z3.ToReal(m.wt(k)), m.total, False), (m.n, lambda k: w.P(m.at(k)) * z3.ToReal(m.wt(k)), m.sum, True)])


@PROOFS("the size is the sum of the weights", covers=("post",))
def total(ctx):
    w = W_(ctx)
    e = w.ens(REG)
    m = e.attrs["_models"]
    model_sums(ctx, m)
    r = ctx.interp.call(ctx.interp.getattr(e, "_total_model_weights"), [], {})
    ctx.prove("sum of the weights", real(r) == z3.ToReal(m.total))
    ctx.cover("post")


@PROOFS("an intermediate ensemble predicts the weighted average of its models", covers=("post",))
def average(ctx):
    w = W_(ctx)
    e = w.ens(REG)
    m = e.attrs["_models"]
    ctx.assume(m.n >= 1)
    model_sums(ctx, m)
    r = ctx.interp.call(ctx.interp.getattr(e, "_averaged_validation_predictions"), [], {})
    if not isinstance(r, Vec):
        return ctx.fail("the average is an array")
    ctx.prove("weighted average", r.val * z3.ToReal(m.total) == m.sum)
    ctx.cover("post")


@PROOFS("_add_model adds to the weight of that pipeline only", covers=("new", "known"))
def add_model(ctx):
    it = ctx.interp
    w = W_(ctx)
    e = w.ens(REG)
    m = e.attrs["_models"]
    i = z3.Int("model")
    kw = {}
    add = 1
    if ctx.choose(2):
        add = z3.Int("add_weight")
        ctx.assume(add >= 1)
        kw["add_weight"] = add
    x = ctx.fresh_const("other", w.ident.sort)
    r = it.call(it.getattr(e, "_add_model"), [w.obj(i)], kw)
    ctx.prove("the same ensemble", e.attrs["_models"] is m)
    before_has, before = m.has(x), m.weight(x)
    mine = x == w.idof(i)
    if ctx.branch(mine):
        now = m._find(ctx, Term(x, w.ident))
        if now is None:
            return ctx.fail("the model is in the ensemble")
        t = lib.as_tuple(now)
        if t is None or not isinstance(t[0], Obj):
            return ctx.fail("the model is kept with its weight")
        ctx.prove("kept under its own identity", w.idof(to_z3(t[0].idx)) == x)
        ctx.prove("weight = number of times it was included", to_z3(t[1]) == z3.If(before_has, before, 0) + add)
        ctx.cover("known" if ctx.branch(before_has) else "new")
    else:
        now = m._find(ctx, Term(x, w.ident))
        if now is None:
            ctx.prove("other models stay", z3.Not(before_has))
        else:
            t = lib.as_tuple(now)
            ctx.prove("other models keep their weight", z3.And(before_has, to_z3(t[1]) == before))


# ------------------------------------------------------------------ scores
class Metric(Model):
    type_name = "metric"

    def __init__(self, proba):
        self.proba, self.args, self.kw = proba, None, DictObj([("average", Opaque("average"))])
        self.result = z3.Real("score_of_metric")
        self.calls = 0

    def py_getattr(self, ctx, name):
        if name == "requires_probabilities":
            return self.proba
        if name == "scorer":
            return Inst(None, {"_kwargs": self.kw, "_sign": z3.Int("sign")}, label="scorer")
        return super().py_getattr(ctx, name)

    def m_maximizable_score(self, ctx, *a, **k):
        self.calls += 1
        self.args, self.kwargs = a, k
        return self.result


class OneHot(Model):
    """OneHotEncoder fitted on all targets: categories are the sorted classes (assumed)."""
    type_name = "one-hot encoder"

    def __init__(self):
        self.fitted = None

    def m_fit(self, ctx, v):
        self.fitted = v
        return self

    def m_transform(self, ctx, v):
        return Hot(self, v)

    def m_inverse_transform(self, ctx, v):
        return Classes(self, v)


class Hot(Model):
    type_name = "one-hot encoded"

    def __init__(self, enc, of, dense=False):
        self.enc, self.of, self.dense = enc, of, dense

    def m_toarray(self, ctx):
        return Hot(self.enc, self.of, True)


class Classes(Model):
    """The class with the highest value for each row."""
    type_name = "classes"

    def __init__(self, enc, of, via=None):
        self.enc, self.of, self.via = enc, of, via

    def m_ravel(self, ctx):
        return Classes(self.enc, self.of, self.via)


@PROOFS("the score of an ensemble is the metric's score of its averaged predictions", covers=("regressor", "probabilities", "labels"))
def score(ctx):
    it = ctx.interp
    w = W_(ctx)
    kind = ctx.choose(3)
    met, y, oh = Metric(kind == 1), Opaque("y"), OneHot()
    e = w.ens(CLF if kind else REG, _metric=met, _y=y, _one_hot_encoder=oh)
    ctx.contracts[f"{ENS}._averaged_validation_predictions"] = lambda c, b: avg
    avg, given = Vec(z3.Real("average")), Vec(z3.Real("given"))
    use = ctx.choose(2)
    r = it.call(it.getattr(e, "_ensemble_validation_score"), [given] if use else [], {})
    want = given if use else avg
    ctx.prove("the metric's score", met.calls == 1 and r is met.result and len(met.args) == 2)
    ctx.prove("against the targets of the same rows", met.args[0] is y)
    p = met.args[1]
    if kind == 2:
        ctx.prove("the predicted classes are those of the highest average", isinstance(p, Classes) and p.enc is oh and isinstance(p.of, Vec) and z3.simplify(p.of.val == want.val).eq(z3.BoolVal(True)))
        ctx.prove("with the metric's settings", set(met.kwargs) == {"average"} and met.kwargs["average"] is met.kw.pairs[0][1])
        ctx.cover("labels")
    else:
        ctx.prove("of the averaged predictions", isinstance(p, Vec) and z3.simplify(p.val == want.val).eq(z3.BoolVal(True)))
        ctx.cover("probabilities" if kind else "regressor")


# ------------------------------------------------------------------ growth
def library_of(ctx, w):
    """The model library: L evaluations of different pipelines."""
    L = z3.Int("n_library")
    ctx.assume(L >= 1)
    a, b = z3.Ints("a!l b!l")
    ctx.assume(z3.ForAll([a, b], z3.Implies(z3.And(0 <= a, a < b, b < L), w.idof(a) != w.idof(b)), patterns=[MP(w.idof(a), w.idof(b))]))
    ctx.contracts[f"{ENS}.model_library"] = lambda c, bd: ListObj(FnC(L, lambda cc, i: w.obj(simp(to_z3(i)))))
    return L


@PROOFS("build_initial_ensemble: the requested number of best single models", covers=("post", "refused"))
def initial(ctx):
    it = ctx.interp
    w = W_(ctx)
    L = library_of(ctx, w)
    n = z3.Int("n")
    e = w.ens(REG)
    m0 = e.attrs["_models"]
    st = {"count": z3.IntVal(0)}

    def add(c, b):
        if e.attrs["_models"] is m0:
            c.prove("the ensemble starts empty", m0.n == 0)
        else:
            d = e.attrs["_models"]
            c.prove("the ensemble starts empty", isinstance(d, DictObj) and not d.pairs)
        v = b["model"]
        c.prove("models are added from best to worst, each once", isinstance(v, Obj) and simp(to_z3(v.idx) == st["count"]) is True or
                (to_z3(v.idx) == st["count"] if isinstance(v, Obj) else False))
        c.prove("with weight one", simp(to_z3(b["add_weight"]) == 1))
        st["count"] = simp(st["count"] + 1)
        c.log_mut(e, "_models")
    ctx.contracts[f"{ENS}._add_model"] = add
    ctx.contracts[f"{REG}._ensemble_validation_score"] = lambda c, b: c.fresh_real("score")
    ctx.contracts[f"{ENS}._ensemble_validation_score"] = lambda c, b: c.fresh_real("score")

    def havoc(c, env, k):
        st["count"] = to_z3(k)

    def inv(c, env, k):
        return [("one model per step", st["count"] == to_z3(k))]
    ctx.loop_specs.append(LoopSpec(f"{ENS}.build_initial_ensemble", lambda *a: True, havoc, inv, label="initial models"))
    try:
        it.call(it.getattr(e, "build_initial_ensemble"), [n], {})
    except PyRaise as x:
        ctx.prove("only an empty ensemble is refused", z3.And(n <= 0, z3.BoolVal(issubclass(x.exc.cls, ValueError))))
        ctx.cover("refused")
        return
    ctx.prove("an empty ensemble is refused", n >= 1)
    ctx.prove("n models, or all there are", st["count"] == z3.If(n < L, n, L))
    ctx.cover("post")


class ArgmaxSpec(LoopSpec):
    pass


@PROOFS("expand_ensemble: each step includes a model with the best resulting score", covers=("post", "refused", "growth: an iteration is possible", "candidates: an iteration is possible"), timeout=200)
def expand(ctx):
    it = ctx.interp
    w = W_(ctx)
    L = library_of(ctx, w)
    n = z3.Int("n")
    e = w.ens(REG)
    m0 = e.attrs["_models"]
    ctx.assume(m0.n >= 1)
    st = {"W": m0.total, "S": m0.sum, "adds": z3.IntVal(0), "SC": None, "step": None}
    W0 = m0.total

    def new_step(c):
        st["SC"] = c.fresh_fun("resulting_score", I, R)
        st["step"] = None
    new_step(ctx)

    def averaged(c, b):
        a = c.fresh_real("avg")
        c.assume(a * z3.ToReal(st["W"]) == st["S"])
        return Vec(a)

    def val_score(c, b):
        p = b["prediction_to_validate"]
        if not isinstance(p, Vec) or p.uses == ():
            return c.fresh_real("score of the ensemble")
        i = p.uses[-1]
        if any(not u.eq(i) for u in p.uses):
            c.fail("a candidate adds one model")
        c.prove("the candidate is the average with that model included once more", p.val * z3.ToReal(st["W"] + 1) == st["S"] + w.P(i))
        return st["SC"](i)
    ctx.contracts[f"{ENS}._averaged_validation_predictions"] = averaged
    ctx.contracts[f"{ENS}._total_model_weights"] = lambda c, b: st["W"]
    ctx.contracts[f"{REG}._ensemble_validation_score"] = val_score
    ctx.contracts[f"{ENS}._ensemble_validation_score"] = val_score

    def add(c, b):
        v = b["model"]
        c.prove("one model is added per step", st["step"] is None)
        if not isinstance(v, Obj):
            return c.fail("a model of the library is added")
        i = to_z3(v.idx)
        c.prove("a model of the library", z3.And(0 <= i, i < L))
        c.prove("included once more", simp(to_z3(b["add_weight"]) == 1))
        j = c.fresh_int("j")
        c.prove("no other model gives a better score", z3.Implies(z3.And(0 <= j, j < L), st["SC"](j) <= st["SC"](i)))
        st["step"] = i
        st["W"] = simp(st["W"] + 1)
        st["S"] = c.fresh_real("S")
        st["adds"] = simp(st["adds"] + 1)
        c.log_mut(e, "_models")
    ctx.contracts[f"{ENS}._add_model"] = add

    def havoc_o(c, env, k):
        st["W"] = simp(W0 + to_z3(k))
        st["S"] = c.fresh_real("S")
        st["adds"] = to_z3(k)
        new_step(c)

    def inv_o(c, env, k):
        r = [("one inclusion per step", st["adds"] == to_z3(k)), ("the size grows by one per step", st["W"] == W0 + to_z3(k))]
        return r

    def is_library(it_, node, iterable, env):
        ct = it_.content(iterable)
        try:
            return isinstance(ct.at(ctx, z3.Int("probe")), Obj)
        except Exception:
            return False
    best = {}

    def names(env):
        return None

    def havoc_i(c, env, k):
        k = to_z3(k)
        s, mdl = env_best(env)
        if c.branch(k == 0):
            env.set(s, float("-inf"))
            return
        b = c.fresh_int("best")
        j = z3.Int("j!b")
        c.assume(z3.And(0 <= b, b < k))
        c.assume(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < k), st["SC"](j) <= st["SC"](b)), patterns=[st["SC"](j)]))
        env.set(s, st["SC"](b))
        env.set(mdl, w.obj(b))

    def env_best(env):
        """Names of the best score so far and the model it belongs to."""
        return st["names"]

    def inv_i(c, env, k):
        k = to_z3(k)
        s, mdl = env_best(env)
        sv = env.get(s)
        if isinstance(sv, float):
            return [("nothing considered yet", z3.And(k == 0, z3.BoolVal(sv == float("-inf"))))]
        v = env.get(mdl)
        if not isinstance(v, Obj):
            return [("the best model so far is one of the library", z3.BoolVal(False))]
        i = to_z3(v.idx)
        j = z3.Int("j!b")
        return [("the best model so far was considered", z3.And(0 <= i, i < k)),
                ("its score is known", real(sv) == st["SC"](i)),
                ("no considered model gives a better score", z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < k), st["SC"](j) <= st["SC"](i)), patterns=[st["SC"](j)]))]

    def match_inner(it_, node, iterable, env):
        if not is_library(it_, node, iterable, env):
            return False
        st["names"] = guess(node)
        return st["names"] is not None
    ctx.loop_specs.append(LoopSpec(None, match_inner, havoc_i, inv_i, label="candidates"))
    ctx.loop_specs.append(LoopSpec(f"{ENS}.expand_ensemble", lambda i_, nd, itb, env: not is_library(i_, nd, itb, env), havoc_o, inv_o, label="growth"))
    try:
        it.call(it.getattr(e, "expand_ensemble"), [n], {})
    except PyRaise as x:
        if any("empty" in a for a in x.exc.args if isinstance(a, str)):
            raise Unsupported("the best of a selection of the library")
        ctx.prove("only growing by nothing is refused", z3.And(n <= 0, z3.BoolVal(issubclass(x.exc.cls, ValueError))))
        ctx.cover("refused")
        return
    ctx.prove("growing by nothing is refused", n >= 1)
    ctx.prove("n inclusions", st["adds"] == n)
    ctx.prove("the size grows by n", st["W"] == W0 + n)
    ctx.cover("post")


def guess(node):
    """(name of the best score, name of the best model): assigned in the loop; the model is assigned the loop variable."""
    if not isinstance(node.target, ast.Name):
        return None
    mdl = sc = None
    pairs = []
    for x in ast.walk(node):
        if isinstance(x, ast.Assign) and len(x.targets) == 1:
            t, v = x.targets[0], x.value
            if isinstance(t, ast.Tuple) and isinstance(v, ast.Tuple) and len(t.elts) == len(v.elts):
                pairs += list(zip(t.elts, v.elts))
            else:
                pairs.append((t, v))
    for t, v in pairs:
        if isinstance(t, ast.Name) and isinstance(v, ast.Name):
            if v.id == node.target.id:
                mdl = t.id
            else:
                sc = t.id
    return (sc, mdl) if sc and mdl else None


# ------------------------------------------------------------------ model library
@PROOFS("model_library: the best evaluations in order, predictions transformed then sampled", covers=("post", "kept", "collect: an iteration is possible"))
def model_library(ctx):
    it = ctx.interp
    w = W_(ctx)
    n = z3.Int("n_best")
    ctx.assume(n >= 0)
    trans = Builtin("transformation", lambda c, v: Vec(v.val, v.uses, v.ops + (("transformed",),))) if ctx.choose(2) else None
    smp = Sample() if ctx.choose(2) else None
    top = z3.Int("top_n")
    fresh = it.get(ENS)
    cls = it.get("gama.utilities.evaluation_library.Evaluation")

    def nbest(c, *a, **k):
        v = a[0] if a else k.get("n")
        c.prove("the requested number of best evaluations is used", z3.BoolVal(v is top or (is_z3(v) and v.eq(top))))
        return ListObj(FnC(n, lambda cc, i: w.obj(simp(to_z3(i)))))
    library = Inst(None, {"n_best": Builtin("n_best", nbest)}, label="evaluation library")
    e = w.ens(REG, _prediction_transformation=trans, _prediction_sample=smp, evaluation_library=library, _use_top_n_only=top)
    old = None
    if ctx.choose(2):
        old = ListObj(FnC(z3.Int("known"), lambda c, i: w.obj(i)))
        ctx.assume(z3.Int("known") >= 1)
        e.attrs["_model_library"] = old

    class Copy(Model):
        type_name = "copied evaluation"

        def __init__(self, i, preds=None):
            self.i, self.preds = i, preds

        def py_setattr(self, c, name, v):
            c.prove("only the predictions of the copy are replaced", name == "_predictions")
            self.preds = v
            c.log_mut(self, name)
    ctx.externals["copy.copy"] = lambda c, v: Copy(to_z3(v.idx)) if isinstance(v, Obj) else Opaque("copy")
    want = ((("transformed",),) if trans else ()) + ((("sample", smp),) if smp else ())

    def good(c, i):
        return Copy(to_z3(i), Vec(w.P(to_z3(i)), (to_z3(i),), want))

    def the_list(env):
        """The list that is filled in the loop."""
        l = e.attrs["_model_library"]
        return l

    def is_good(v, i):
        if not (isinstance(v, Copy) and isinstance(v.preds, Vec)):
            return z3.BoolVal(False)
        ops = v.preds.ops
        same = len(ops) == len(want) and all(a[0] == b[0] and (len(a) == 1 or a[1] is b[1]) for a, b in zip(ops, want))
        return z3.And(v.i == i, v.preds.val == w.P(i), z3.BoolVal(same))

    def havoc(c, env, k):
        l = ListObj(FnC(to_z3(k), good))
        e.attrs["_model_library"] = l
        for name, v in list(env.vars.items()):
            if isinstance(v, ListObj) and v is st["filled"]:
                env.set(name, l)
        st["filled"] = l

    st = {"filled": None}

    def inv(c, env, k):
        l = e.attrs["_model_library"]
        if st["filled"] is None:
            st["filled"] = l
        if not isinstance(l, ListObj):
            raise Unsupported("models are collected elsewhere")
        ct = it.content(l)
        k = to_z3(k)
        r = [("one model per evaluation", to_z3(ct.length(c)) == k)]
        if not (is_z3(k) or k == 0) or not z3.is_int_value(z3.simplify(k)):
            r.append(("the newest is the copy with its predictions", c.merge(lambda: z3.Implies(k > 0, is_good(ct.at(c, simp(k - 1)), k - 1)))))
        return r
    ctx.loop_specs.append(LoopSpec(f"{ENS}.model_library", lambda *a: True, havoc, inv, label="collect"))
    r = it.getattr(e, "model_library")
    if old is not None:
        ctx.prove("the library is made once", r is old)
        ctx.cover("kept")
        return
    ct = it.content(r)
    ctx.prove("as many as there are", to_z3(ct.length(ctx)) == n)
    j = ctx.fresh_int("j")
    ctx.assume(z3.And(0 <= j, j < n))
    ctx.prove("in order, with predictions of the rows used", is_good(ct.at(ctx, j), j))
    ctx.prove("remembered", e.attrs["_model_library"] is r)
    ctx.cover("post")


# ------------------------------------------------------------------ targets
class Targets(Model):
    """A series of targets: rows selected by `steps` from the given one."""
    type_name = "targets"

    def __init__(self, n, steps=()):
        self.n, self.steps = n, steps

    def py_len(self, ctx):
        return self.n

    def py_is_none(self, ctx):
        return False

    def py_isinstance(self, ctx, t):
        return True

    def py_getattr(self, ctx, name):
        if name == "iloc":
            return TIloc(self)
        return super().py_getattr(ctx, name)

    def m_to_numpy(self, ctx):
        return self

    def m_reshape(self, ctx, *a):
        return self


class TIloc(Model):
    type_name = "iloc"

    def __init__(self, t):
        self.t = t

    def py_getitem(self, ctx, k):
        if isinstance(k, Rows):
            return Targets(k.n, self.t.steps + (k,))
        raise Unsupported("selection of targets")


class Rows(Sample):
    def __init__(self, n, of):
        self.n, self.of = n, of

    def py_len(self, ctx):
        return self.n


@PROOFS("a new ensemble: targets of the rows that predictions are kept for, no models", covers=("all", "downsampled", "probabilities", "labels"))
def construct(ctx):
    it = ctx.interp
    kind = ctx.choose(3)
    n = z3.Int("n_rows")
    ctx.assume(n >= 1)
    y = Targets(n)
    sampled = Rows(z3.Int("n_sample"), None) if ctx.choose(2) else None
    if sampled:
        ctx.assume(z3.And(sampled.n >= 1, sampled.n <= n))
    m = sampled.n if sampled else n
    library = Inst(it.get("gama.utilities.evaluation_library.EvaluationLibrary"), {"_sample": sampled}, label="library")
    met = Inst(it.get("gama.utilities.metrics.Metric"), {"requires_probabilities": kind == 1}, label="metric")
    made = []

    def rsample(c, pop, k=None, **kw):
        ct = it.content(pop)
        kk = k
        i = c.fresh_int("i")
        c.assume(z3.And(0 <= i, i < to_z3(ct.length(c))))
        c.prove("the rows are chosen among the stored ones", z3.And(to_z3(ct.length(c)) == m, to_z3(ct.at(c, i)) == i))
        r = Rows(to_z3(kk), pop)
        made.append(r)
        return r
    ctx.externals["random.sample"] = rsample
    oh = OneHot()
    ctx.externals["sklearn.preprocessing.OneHotEncoder"] = lambda c, *a, **k: oh
    down = (None, z3.Int("downsample_to"))[ctx.choose(2)]
    if down is not None:
        ctx.assume(down >= 1)
    kw = {"evaluation_library": library, "downsample_to": down, "use_top_n_only": z3.Int("top")}
    e = it.call(it.get(CLF if kind else REG), [met, y], kw)
    rows = (sampled,) if sampled else ()
    if down is not None and ctx.branch(down < m):
        ctx.prove("downsampled to the requested size", len(made) == 1 and e.attrs["_prediction_sample"] is made[0])
        ctx.prove("requested number of rows", made[0].n == down)
        rows = rows + (made[0],)
        ctx.cover("downsampled")
    else:
        ctx.prove("all stored rows are used", e.attrs["_prediction_sample"] is None)
        ctx.cover("all")

    def same(t):
        return isinstance(t, Targets) and len(t.steps) == len(rows) and all(a is b for a, b in zip(t.steps, rows))
    t = e.attrs["_y"]
    if kind == 1:
        ctx.prove("targets of the same rows, one column per class", isinstance(t, Hot) and t.dense and t.enc is oh and same(t.of))
        ctx.prove("probabilities are averaged as they are", e.attrs["_prediction_transformation"] is None)
        ctx.cover("probabilities")
    else:
        ctx.prove("targets of the same rows", same(t))
    if kind:
        ctx.prove("classes are those of all targets", isinstance(oh.fitted, Targets) and oh.fitted.steps == ())
    if kind == 2:
        v = Vec(z3.Real("p"))
        v.m_reshape = lambda c, *a: v
        f = e.attrs["_prediction_transformation"]
        r = it.call(f, [v], {})
        ctx.prove("class predictions become one column per class", isinstance(r, Hot) and r.enc is oh and r.of is v)
        ctx.cover("labels")
    if kind == 0:
        ctx.prove("values are averaged as they are", e.attrs["_prediction_transformation"] is None)
    ms = e.attrs["_models"]
    ctx.prove("no models yet", isinstance(ms, DictObj) and not ms.pairs and it.content(e.attrs["_model_library"]).items() == [])
    ctx.prove("nothing fitted yet", e.attrs["_fit_models"] is None)
    ctx.prove("as configured", e.attrs["_use_top_n_only"] is kw["use_top_n_only"] and e.attrs["evaluation_library"] is library and e.attrs["_metric"] is met)


# ------------------------------------------------------------------ prediction
@PROOFS("fit: all fitted pipelines of a model, with the weight of the model", covers=("post", "refused", "no time"))
def fit(ctx):
    it = ctx.interp
    w = W_(ctx)
    e = w.ens(REG)
    m = e.attrs["_models"]
    ne = z3.Function("n_estimators", I, I)
    est = z3.Function("estimator", I, I, I)
    k = z3.Int("k!e")
    ctx.assume(z3.ForAll([k], ne(k) >= 0, patterns=[ne(k)]))
    efam = Fam("estimator", None, {})
    w.fam.fields["estimators"] = lambda c, i: ListObj(FnC(ne(to_z3(i)), lambda cc, j: Obj(efam, est(to_z3(i), to_z3(j)))))
    ctx.contracts["gama.utilities.evaluation_library.Evaluation.estimators"] = lambda c, b: w.fam.fields["estimators"](c, b["self"].idx)
    t = z3.Real("timeout")
    try:
        it.call(it.getattr(e, "fit"), [Opaque("x"), Opaque("y"), t], {})
    except PyRaise as x:
        ctx.prove("only refused without models or time", z3.Or(m.n == 0, t <= 0))
        ctx.cover("refused" if issubclass(x.exc.cls, RuntimeError) else "no time")
        return
    ctx.prove("an ensemble without models is refused", m.n >= 1)
    ct = it.content(e.attrs["_fit_models"])
    if not isinstance(ct, FlattenC):
        raise Unsupported("fitted models collected by other means")
    ctx.prove("all models", to_z3(ct.outer.length(ctx)) == m.n)
    a, b = ctx.fresh_int("a"), ctx.fresh_int("b")
    ctx.assume(z3.And(0 <= a, a < m.n, 0 <= b, b < ne(m.at(a))))
    inner = ct.inner(ctx, ct.outer.at(ctx, a))
    ctx.prove("all its fitted pipelines", to_z3(inner.length(ctx)) == ne(m.at(a)))
    p, wt = it.unpack(inner.at(ctx, b), 2)
    ctx.prove("its own pipelines", to_z3(p.idx) == est(m.at(a), b) if isinstance(p, Obj) and p.fam is efam else False)
    ctx.prove("with the weight of the model", to_z3(wt) == m.wt(a))
    ctx.cover("post")


def fitted(ctx, w, st):
    """_fit_models: N pipelines with weights; predictions depend on pipeline, method and data."""
    N = z3.Int("n_fitted")
    ctx.assume(N >= 1)
    wt = z3.Function("fit_weight", I, I)
    Q = z3.Function("prediction", I, I, R)
    k = z3.Int("k!f")
    ctx.assume(z3.ForAll([k], wt(k) >= 1, patterns=[wt(k)]))
    FW = z3.Int("total_fit_weight")
    ctx.assume(FW >= N)

    class Pipe(Model):
        type_name = "fitted pipeline"

        def __init__(self, i):
            self.i = i

        def call(self, c, which, a):
            c.prove("the given data are predicted", len(a) == 1 and a[0] is st["X"])
            return Vec(Q(self.i, which), (self.i,))

        def m_predict(self, c, *a):
            return self.call(c, 0, a)

        def m_predict_proba(self, c, *a):
            return self.call(c, 1, a)
    st.update(N=N, wt=wt, Q=Q, FW=FW)
    return ListObj(FnC(N, lambda c, i: (Pipe(to_z3(i)), wt(to_z3(i)))))


@PROOFS("the prediction is the average of the models' predictions by weight", covers=("post", "transformed"))
def weighted(ctx):
    it = ctx.interp
    w = W_(ctx)
    st = {"X": Opaque("X")}
    T = z3.Function("one_hot", R, R)
    tr = Builtin("transformation", lambda c, v: Vec(T(v.val), v.uses)) if ctx.choose(2) else None
    fm = fitted(ctx, w, st)
    e = w.ens(CLF, _fit_models=fm, _prediction_transformation=tr)
    meth = ctx.choose(2)
    N, wt, FW = st["N"], st["wt"], st["FW"]
    raw = lambda k: st["Q"](k, meth)
    val = (lambda k: T(raw(k))) if tr else raw
    S = z3.Real("weighted_sum")
    summing(ctx, [(N, lambda k: z3.ToReal(wt(k)), FW, False), (N, lambda k: val(k) * z3.ToReal(wt(k)), S, True)])
    r = it.call(it.getattr(e, "_get_weighted_mean_predictions"), [st["X"]] + (["predict_proba"] if meth else []), {})
    if not isinstance(r, Vec):
        return ctx.fail("an array")
    ctx.prove("weighted average over all pipelines", r.val * z3.ToReal(FW) == S)
    ctx.cover("transformed" if tr else "post")


@PROOFS("lemma: folds of a model share its weight, so the average is by model weight", covers=("post",))
def folds(ctx):
    """With f fitted pipelines per model: sum_m sum_f w_m q_mf / sum_m (f w_m) = sum_m w_m mean_f(q_mf) / sum_m w_m.
    Step of the induction over models, for partial sums A (numerator) and F, W (weights)."""
    A, M, Wt, q = z3.Reals("numerator mean_numerator weights sum_q")
    f, wm = z3.Ints("folds weight")
    ctx.assume(z3.And(f >= 1, wm >= 1, Wt >= 0))
    rf, rw = z3.ToReal(f), z3.ToReal(wm)
    ctx.assume(A == rf * M)          # numerator = folds * sum of w * mean
    F = rf * Wt                      # total weight over pipelines
    A2, M2, W2, F2 = A + rw * q, M + rw * (q / rf), Wt + rw, F + rf * rw
    ctx.prove("numerators keep the same ratio", A2 == rf * M2)
    ctx.prove("weights keep the same ratio", F2 == rf * W2)
    ctx.prove("so the averages are equal", A2 / F2 == M2 / W2)
    ctx.cover("post")


@PROOFS("predict and predict_proba use the averaged predictions", covers=("regressor", "classes", "classes by label", "probabilities", "label shares"))
def predicting(ctx):
    it = ctx.interp
    w = W_(ctx)
    X = Opaque("X")
    kind = ctx.choose(3)
    oh, enc = OneHot(), None
    calls = []

    def mean(c, b):
        c.prove("the given data", b["X"] is X)
        calls.append(b["predict_method"])
        return Vec(z3.Real("mean_" + b["predict_method"]))
    ctx.contracts[f"{ENS}._get_weighted_mean_predictions"] = mean
    e = w.ens(CLF if kind else REG, _metric=Metric(kind == 1), _one_hot_encoder=oh)

    class Enc(Model):
        type_name = "label encoder"

        def m_inverse_transform(self, c, v):
            return Classes(v.enc, v.of, self)
    if kind and ctx.choose(2):
        enc = e.attrs["_label_encoder"] = Enc()
    want = "predict_proba" if kind == 1 else "predict"
    which = "predict" if kind == 0 or ctx.choose(2) else "predict_proba"
    r = it.call(it.getattr(e, which), [X], {})
    ctx.prove("the models' " + ("probabilities" if kind == 1 else "predictions") + " are averaged", calls == [want])
    isavg = lambda v: isinstance(v, Vec) and simp(v.val == z3.Real("mean_" + want)) is True
    if kind == 0:
        ctx.prove("the average is the prediction", isavg(r))
        ctx.cover("regressor")
    elif which == "predict_proba":
        ctx.prove("the average is the class probability", isavg(r))
        ctx.cover("probabilities" if kind == 1 else "label shares")
    else:
        ctx.prove("the class of the highest average", isinstance(r, Classes) and r.enc is oh and isavg(r.of))
        ctx.prove("in the original labels", r.via is enc)
        ctx.cover("classes" if kind == 1 else "classes by label")


# ------------------------------------------------------------------ building
@PROOFS("build_fit_ensemble: an ensemble of the requested size, fitted", covers=("regressor", "classifier", "failed"))
def build(ctx):
    it = ctx.interp
    x, y, library = Opaque("x"), Opaque("y"), Opaque("library")
    MT = it.get("gama.utilities.metrics.MetricType")
    reg = ctx.choose(2) == 1
    met = Inst(None, {"task_type": it.getattr(MT, "REGRESSION" if reg else "CLASSIFICATION")}, label="metric")
    size, L = z3.Ints("ensemble_size n_library")
    ctx.assume(z3.And(size >= 1, L >= 1))
    st = {"W": None, "fit": 0, "made": [], "failed": False}
    tm = z3.Real("timeout")

    def make(cname):
        def f(c, b):
            i = Inst(it.get(cname), {"_models": DictObj([])}, label="new ensemble")
            st["made"].append((cname, i, b))
            return i
        return f

    def init(cname):
        def f(c, b):
            st["made"].append((cname, b["self"], b))
        return f
    ctx.contracts[f"{CLF}.__init__"] = init(CLF)
    ctx.contracts[f"{ENS}.__init__"] = init(REG)
    ctx.externals["time.time"] = lambda c: c.fresh_real("now")

    def fault(c):
        if c.choose(2):
            st["failed"] = True
            raise PyRaise(ExcVal(ValueError, ("fails",)))

    def initial_(c, b):
        c.prove("starts from nothing", st["W"] is None)
        n = to_z3(b["n"])
        c.prove("one model for small ensembles, else ten", n == z3.If(size <= 10, 1, 10))
        fault(c)
        st["W"] = z3.If(n < L, n, L)

    def expand_(c, b):
        fault(c)
        c.prove("starts with the best models", st["W"] is not None)
        c.prove("growing by at least one", to_z3(b["n"]) >= 1)
        st["W"] = simp(st["W"] + to_z3(b["n"]))

    def fit_(c, b):
        c.prove("fitted on the given data", b["x"] is x and b["y"] is y)
        fault(c)
        st["fit"] += 1
    ctx.contracts[f"{ENS}.build_initial_ensemble"] = initial_
    ctx.contracts[f"{ENS}.expand_ensemble"] = expand_
    ctx.contracts[f"{ENS}._total_model_weights"] = lambda c, b: st["W"]
    ctx.contracts[f"{ENS}.fit"] = fit_
    try:
        r = it.call(it.get(f"{EN}.build_fit_ensemble"), [x, y, size, tm, met, library], {})
    except PyRaise as e:
        return ctx.fail("problems while building do not escape", repr(e.exc))
    ctx.prove("one ensemble", len(st["made"]) == 1 and st["made"][0][1] is r)
    cname, _, b = st["made"][0]
    ctx.prove("of the kind of the metric", (cname == REG) == reg)
    ctx.prove("for the given metric", b["metric"] is met)
    if st["failed"]:
        ctx.cover("failed")
        return
    ctx.prove("an ensemble of the requested size", st["W"] == size)
    ctx.prove("fitted once", st["fit"] == 1)
    ctx.cover("regressor" if reg else "classifier")

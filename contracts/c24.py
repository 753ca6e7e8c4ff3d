"""C24: predictions are given in the label space of the training targets.

The labels are numbered by their sorted order 0..N-1; N and the labels are arbitrary. Either all labels are text or
none is (LabelEncoder, like sorting, refuses mixtures). A model trained on targets predicts only values that occur
in them, and its probability columns are in their sorted order (assumed contract of scikit-learn estimators).
"""
import z3
from pyvc.driver import *
from contracts import c14, c16, c19

PROOFS = Registry()
GC = "gama.GamaClassifier.GamaClassifier"
EN = "gama.postprocessing.ensemble"
I, B = z3.IntSort(), z3.BoolSort()

PROOFS("Gama.fit: search and post-processing get the formatted rows with their targets", covers=("done",), timeout=100)(c16.fit)
PROOFS("post_process of the best fit fits the first pipeline of the selection on all data", covers=("done",))(c19.best_fit_post)
PROOFS("a new ensemble: the classes are those of all targets", covers=("all", "downsampled", "probabilities", "labels"))(c14.construct)
PROOFS("an ensemble predicts the class of the highest averaged probability", covers=("regressor", "classes", "classes by label", "probabilities", "label shares"))(c14.predicting)


class World:
    def __init__(self, ctx):
        self.N, self.n = z3.Int("n_classes"), z3.Int("n_rows")
        self.text = z3.Bool("labels_are_text")
        self.cls = z3.Function("class_of_row", I, I)
        self.same = z3.Function("label_equals_number", I, I, B)
        ctx.assume(z3.And(self.N >= 1, self.n >= 1))

    def row(self, ctx, k):
        k = to_z3(k)
        ctx.assume(z3.Implies(z3.And(0 <= k, k < self.n), z3.And(0 <= self.cls(k), self.cls(k) < self.N)))
        return self.cls(k)


class Val(Model):
    """One label (`number` false) or the number of a label."""
    type_name = "label"

    def __init__(self, w, number, i):
        self.w, self.number, self.i = w, number, to_z3(i)

    def py_eq(self, ctx, o):
        if not isinstance(o, Val):
            raise Unsupported("comparison of a label")
        if self.number == o.number:
            return self.i == o.i
        lab, num = (o, self) if self.number else (self, o)
        return z3.And(z3.Not(self.w.text), self.w.same(lab.i, num.i))

    def py_isinstance(self, ctx, t):
        if getattr(t, "name", None) == "str" or t is str:
            return False if self.number else self.w.text
        raise Unsupported("type of a label")


class Pred(Model):
    """Labels or numbers of labels, one per row."""
    type_name = "ndarray"

    def __init__(self, w, number):
        self.w, self.number = w, number

    def py_getitem(self, ctx, k):
        if isinstance(k, (slice, tuple)):
            raise Unsupported("part of the predictions")
        k = to_z3(k)
        ctx.prove("the index is within the predictions", z3.And(0 <= k, k < self.w.n))
        return Val(self.w, self.number, self.w.row(ctx, k))

    def py_content(self, ctx):
        return FnC(self.w.n, lambda c, k: Val(self.w, self.number, self.w.row(c, k)))

    def py_len(self, ctx):
        return self.w.n


class Classes(Model):
    type_name = "ndarray"

    def __init__(self, w):
        self.w = w

    def py_content(self, ctx):
        return FnC(self.w.N, lambda c, k: Val(self.w, False, k))

    def py_contains(self, ctx, v):
        if not isinstance(v, Val):
            raise Unsupported("label")
        if not v.number:
            return z3.And(0 <= v.i, v.i < self.w.N)
        j = z3.Int("j!c")
        return z3.And(z3.Not(self.w.text), z3.Exists([j], z3.And(0 <= j, j < self.w.N, self.w.same(j, v.i))))

    def m_tolist(self, ctx):
        return ctx.interp.new_list(self.py_content(ctx))

    def py_getitem(self, ctx, k):
        if isinstance(k, Pred):
            ctx.prove("only numbers of labels are decoded", k.number)
            return Pred(self.w, False)
        raise Unsupported("class")


class Encoder(Model):
    type_name = "LabelEncoder"

    def __init__(self, w):
        self.w, self.classes = w, Classes(w)

    def py_getattr(self, ctx, name):
        return self.classes if name == "classes_" else super().py_getattr(ctx, name)

    def m_inverse_transform(self, ctx, p):
        if not isinstance(p, Pred):
            raise Unsupported("decoding")
        ctx.prove("only numbers of labels are decoded", p.number)
        return Pred(self.w, False)


def fitted(ctx):
    """A classifier after `fit`, whose model was trained on the targets that `fit` passed on."""
    it = ctx.interp
    w = World(ctx)
    w.st = st = c16.classifier_fit(ctx)
    ctx.assume(w.text == st["any_text"])
    w.x, w.asked, w.proba = Opaque("x"), [], Opaque("probabilities")
    y = st["fit"]["y"]
    if not isinstance(y, c16.Targets) or y is not st["fy"] and y.of is not st["fy"]:
        raise Unsupported("other targets")
    w.number = number = y is not st["fy"]
    w.g = st["g"]
    e = w.g.attrs["_label_encoder"]
    if isinstance(e, c16.Enc_):
        ctx.prove("the encoder is fitted on the labels without unlabelled rows", e.fitted is st["fy"])
        ctx.prove("the numbers are those of the kept encoder", not number or y.le is e)
        w.g.attrs["_label_encoder"] = Encoder(w)
    elif number:
        ctx.prove("the encoder of the numbers is kept", any(v is y.le for v in w.g.attrs.values()))
    if not number:
        # scikit-learn does not accept all text labels as they are
        ctx.prove("text labels are numbered", z3.Not(w.text))

    class M(Model):
        type_name = "model"

        def m_predict(self, c, x):
            w.asked.append(("predict", x))
            return Pred(w, number)

        def m_predict_proba(self, c, x):
            w.asked.append(("predict_proba", x))
            return w.proba
    w.g.attrs["model"] = w.model = M()
    ctx.assumption("a model predicts only values of the targets it was trained on; its probability columns follow their sorted order (scikit-learn)")
    ctx.assumption("sklearn LabelEncoder: classes_ are the sorted distinct labels (it refuses text mixed with other labels), transform gives their position, inverse_transform the label of a position")
    return w


@PROOFS("after fit, _predict gives labels of the training targets, whether they were numbered for training or not", covers=("text", "other"))
def predict(ctx):
    w = fitted(ctx)
    r = ctx.interp.call(ctx.interp.getattr(w.g, "_predict"), [w.x], {})
    ctx.prove("the model predicts for the given data", bool(w.asked) and all(a[0] == "predict" and a[1] is w.x for a in w.asked))
    if not isinstance(r, Pred):
        raise Unsupported("other form of predictions")
    ctx.prove("the predictions are the labels", not r.number)
    ctx.cover("text" if w.number else "other")


@PROOFS("_predict_proba gives the model's probabilities, columns in sorted order of the labels", covers=("done",))
def predict_proba(ctx):
    w = fitted(ctx)
    r = ctx.interp.call(ctx.interp.getattr(w.g, "_predict_proba"), [w.x], {})
    ctx.prove("the model's probabilities for the given data", w.asked == [("predict_proba", w.x)] and r is w.proba)
    ctx.cover("done")


@PROOFS("predict and predict_proba prepare the data and predict for it", covers=("done",))
def public(ctx):
    it = ctx.interp
    w = fitted(ctx)
    raw, out = Opaque("raw x"), Opaque("out")
    got = []
    proba = ctx.choose(2)
    ctx.contracts["gama.gama.Gama._prepare_for_prediction"] = lambda c, b: w.x if b["x"] is raw and b["self"] is w.g else Opaque("other")

    def c_pred(name):
        def f(c, b):
            got.append((name, b["x"]))
            return out
        return f
    ctx.contracts[f"{GC}._predict"] = c_pred("predict")
    ctx.contracts[f"{GC}._predict_proba"] = c_pred("proba")
    r = it.call(it.getattr(w.g, "predict_proba" if proba else "predict"), [raw], {})
    ctx.prove("the prediction for the prepared data is returned", r is out and len(got) == 1 and got[0][0] == ("proba" if proba else "predict") and got[0][1] is w.x)
    ctx.cover("done")


@PROOFS("_encode_labels numbers the labels with the encoder it keeps", covers=("done",))
def encode_labels(ctx):
    it = ctx.interp
    ctx.externals["sklearn.preprocessing.LabelEncoder"] = lambda c: c16.Enc_()
    g = Inst(it.get(GC), {"_label_encoder": None}, label="classifier")
    y = c16.Targets(ctx)
    r = it.call(it.getattr(g, "_encode_labels"), [y], {})
    e = g.attrs["_label_encoder"]
    ctx.prove("numbers of the labels", isinstance(r, c16.Targets) and r.of is y and r.le is e and e.fitted is y)
    ctx.cover("done")


@PROOFS("an ensemble is built for the targets of the training, and does not decode labels a second time", covers=("done",))
def ensemble_post(ctx):
    it = ctx.interp
    x, y, sel = Opaque("x"), Opaque("y"), Opaque("selection")
    made = []
    ens = Opaque("ensemble")

    def build(c, b):
        made.append(b)
        return ens
    ctx.contracts[f"{EN}.build_fit_ensemble"] = build
    p = it.call(it.get(f"{EN}.EnsemblePostProcessing"), [], {})
    met, evlib = Opaque("metric"), Opaque("library")
    gm = Inst(None, {"_metrics": (met, Opaque("length")), "_evaluation_library": evlib}, label="gama")
    it.call(it.getattr(p, "dynamic_defaults"), [gm], {})
    r = it.call(it.getattr(p, "post_process"), [x, y, z3.Real("timeout"), sel], {})
    ctx.prove("one ensemble, of the training data", r is ens and len(made) == 1 and made[0]["x"] is x and made[0]["y"] is y)
    if made[0].get("encoder") is not None:
        raise Unsupported("the ensemble decodes labels")
    ctx.prove("for the metric and evaluations of the search", made[0]["metric"] is met and made[0]["evaluation_library"] is evlib)
    ctx.cover("done")

"""C19 run-time contracts: compiled and exported pipelines equal the individual they come from."""
import numpy as np
import pandas as pd
import gphelp as gp
from common import need

SK = "gama.genetic_programming.compilers.scikitlearn"


def run(c):
    c.section("compile", compiling)
    c.section("best fit", best_fit)
    c.section("individual_to_python", to_python)
    c.section("ensemble", ensemble)
    c.section("wiring", wiring)


def spaces(c):
    parse = need("gama.configuration.parser", "pset_from_config")
    out = [gp.real_space(), gp.small_real_space(), parse(need("gama.configuration.regression", "reg_config"))[0]]
    from sklearn.base import BaseEstimator, ClassifierMixin, TransformerMixin
    from sklearn.neural_network import MLPClassifier
    from sklearn.ensemble import HistGradientBoostingClassifier
    from sklearn.feature_selection import SelectPercentile, f_classif, chi2
    from sklearn.impute import SimpleImputer
    out.append(parse({HistGradientBoostingClassifier: {"max_depth": [2, None], "learning_rate": [0.1, 0.01]},
                      MLPClassifier: {"hidden_layer_sizes": [(10,), (10, 5)], "alpha": list(np.logspace(-5, -1, 3)), "activation": ["relu", "tanh"]},
                      SelectPercentile: {"percentile": range(1, 100, 10), "score_func": {f_classif: None, chi2: None}},
                      SimpleImputer: {"missing_values": [np.nan, -1], "strategy": ["mean", "most_frequent"], "fill_value": [None, 0, "it's"]}})[0])
    return out


def same(a, b):
    if isinstance(a, float) and isinstance(b, float) and np.isnan(a) and np.isnan(b):
        return True
    try:
        return bool(a == b) and isinstance(a, bool) == isinstance(b, bool)
    except ValueError:
        return False


def individuals(c, n):
    ss = spaces(c)
    comp = need(SK, "compile_individual")
    for t in c.trials(n):
        pset = ss[t % len(ss)]
        yield gp.gen_individual(c.rng, pset, c.rng.choice([1, 1, 2, 3, 4, 6]), to_pipeline=comp)


def steps_ok(c, steps, ind, pre=(), what=""):
    ns = list(reversed(gp.nodes(ind)))
    if not c.check(len(steps) == len(pre) + len(ns), f"{what}: one step per component, in order", got=[str(s) for s in steps]):
        return
    c.check(len({n for n, _ in steps}) == len(steps), f"{what}: steps have different names", names=[n for n, _ in steps])
    for (name, s), n in zip(steps[len(pre):], ns):
        if not c.check(type(s) is n._primitive.identifier, f"{what}: one step per component, in order", got=[str(s) for s in steps], expected=[m._primitive for m in ns]):
            continue
        params = s.get_params(deep=False)
        for t in n._terminals:
            c.check(t.output in params and same(params[t.output], t.value), f"{what}: exactly the individual's hyperparameter values", step=name, hyperparameter=t.output, got=params.get(t.output), expected=t.value)
        dflt = type(s)().get_params(deep=False)
        for k, v in params.items():
            if k not in {t.output for t in n._terminals}:
                c.check(same(v, dflt[k]) or str(v) == str(dflt[k]), f"{what}: other hyperparameters have their defaults", hyperparameter=k, got=v)
    for (name, s), (pn, p) in zip(steps, pre):
        c.check(name == pn and type(s) is type(p), f"{what}: fixed preprocessing comes first, in order", got=[str(x) for x in steps])


def compiling(c):
    from sklearn.preprocessing import MinMaxScaler, StandardScaler, Normalizer
    comp = need(SK, "compile_individual")
    for ind in individuals(c, 120):
        pre = c.rng.choice([None, [], [("a", MinMaxScaler())], [("a", MinMaxScaler()), ("b", StandardScaler()), ("c", Normalizer())]])
        before = list(pre) if pre else []
        text = ind.pipeline_str()
        with c.case("compile", individual=text, preprocessing=pre):
            p = comp(ind, preprocessing_steps=pre)
            steps_ok(c, p.steps, ind, before, "compiled")
            c.check(all(s is q for (_, s), (_, q) in zip(p.steps, before)), "fixed preprocessing steps are used as they are")
            c.check((pre or []) == before and ind.pipeline_str() == text, "compiling modifies nothing")
            steps_ok(c, ind.pipeline.steps, ind, (), "pipeline")
            q = ind.pipeline
            c.check(all(a is not b for (_, a), (_, b) in zip(q.steps, ind.pipeline.steps)), "each compilation makes new components")


def preprocessing(c, t):
    be, ext = need("gama.utilities.preprocessing", "basic_encoding", "basic_pipeline_extension")
    rng = c.rng
    n = 40
    cols = {}
    for j in range(rng.choice([1, 3, 8, 45])):
        kind = rng.randint(0, 4)
        name = rng.choice(["col%d", "a b%d", "it's %d", "x%d"]) % j if rng.random() < 0.8 else j
        if kind == 0:
            cols[name] = pd.Series([float(i % 7) for i in range(n)])
        else:
            k = (0, 2, 5, 14, 2)[kind]
            cols[name] = pd.Series(["v%d" % (i % k) for i in range(n)]).astype("category")
    x = pd.DataFrame(cols)
    x.columns = list(cols)
    cls = bool(rng.randint(0, 1))
    enc, pipe = be(x, cls)
    return x, pipe.steps + ext(enc, cls)


def execute(c, script):
    ns = {}
    exec(compile(script, "<exported>", "exec"), ns)
    return ns


def transformers_ok(c, steps, pre, what):
    for (n, s), (pn, p) in zip(steps, pre):
        a, b = s.get_params(deep=False), p.get_params(deep=False)
        c.check(n == pn and type(s) is type(p), f"{what}: fixed preprocessing comes first, in order", got=n)
        for k in b:
            if k != "mapping":
                c.check(same(a[k], b[k]), f"{what}: fixed preprocessing has its parameters", step=n, parameter=k, got=a[k], expected=b[k])


def best_fit(c):
    BF = need("gama.postprocessing.best_fit", "BestFitPostProcessing")
    t = 0
    for ind in individuals(c, 60):
        t += 1
        pre = None
        if t % 2:
            _, pre = preprocessing(c, t)
        with c.case("export of the best pipeline", individual=ind.pipeline_str(), preprocessing=None if pre is None else [n for n, _ in pre]):
            b = BF()
            b._selected_individual = ind
            script = b.to_code(pre)
            ns = execute(c, script)
            steps_ok(c, ns["pipeline"].steps, ind, pre or (), "exported")
            transformers_ok(c, ns["pipeline"].steps, pre or (), "exported")


def to_python(c):
    f = need("gama.utilities.export", "individual_to_python")
    from sklearn.preprocessing import MinMaxScaler, StandardScaler
    for ind in individuals(c, 60):
        pre = c.rng.choice([None, [("a", MinMaxScaler()), ("b", StandardScaler(with_mean=False))]])
        with c.case("individual_to_python", individual=ind.pipeline_str(), preprocessing=pre):
            ns = execute(c, f(ind, pre))
            steps_ok(c, ns["pipeline"].steps, ind, pre or (), "exported")
            transformers_ok(c, ns["pipeline"].steps, pre or (), "exported")


def ensemble(c):
    Post, EC, ER = need("gama.postprocessing.ensemble", "EnsemblePostProcessing", "EnsembleClassifier", "EnsembleRegressor")
    Ev, Lib = need("gama.utilities.evaluation_library", "Evaluation", "EvaluationLibrary")
    stm = need("gama.utilities.metrics", "scoring_to_metric")
    comp = need(SK, "compile_individual")
    ss = spaces(c)
    for t in c.trials(24):
        cls = t % 3 != 2
        pset = ss[0] if cls else ss[2]
        inds = [gp.gen_individual(c.rng, pset, c.rng.choice([1, 2, 3]), to_pipeline=comp) for _ in range(c.rng.randint(1, 4) if t % 6 else 12)]
        weights = [c.rng.randint(1, 5) for _ in inds]
        metric = c.rng.choice(["accuracy", "neg_log_loss"]) if cls else "neg_mean_squared_error"
        pre = preprocessing(c, t)[1] if t % 2 else None
        with c.case("export of an ensemble", metric=metric, weights=weights, individuals=[i.pipeline_str() for i in inds]):
            with c.scratch() as d:
                y = pd.Series([0, 1, 0, 1, 1, 0]) if cls else pd.Series([0.5, 1.5, 2.5, 3.5])
                e = (EC if cls else ER)(stm(metric)[0], pd.DataFrame(y), evaluation_library=Lib(m=5, n=None, cache=d))
                e._models = {i._id: (Ev(i, None, (0.5, -1)), w) for i, w in zip(inds, weights)}
                p = Post()
                p._ensemble = e
                script = p.to_code(pre)
            ns = execute(c, script)
            v = ns["ensemble"]
            c.check(len(v.estimators) == len(inds) and list(v.weights) == weights, "exported ensemble: one member per model with its weight", got=(len(v.estimators), v.weights))
            for (_, q), i in zip(v.estimators, inds):
                steps_ok(c, q.steps, i, (), "exported ensemble")
            if cls:
                c.check(v.voting == ("soft" if metric == "neg_log_loss" else "hard"), "exported ensemble: votes by probabilities if the metric needs them", got=v.voting)
            if pre is not None:
                st = ns["pipeline"].steps
                c.check(len(st) == len(pre) + 1 and st[-1][1] is v, "exported ensemble: fixed preprocessing comes first")
                transformers_ok(c, st, pre, "exported ensemble")


def wiring(c):
    """export_script of a fitted instance."""
    import gamahelp as g
    BF = need("gama.postprocessing.best_fit", "BestFitPostProcessing")
    Search, Post = g.stand_ins()
    for t in c.trials(3):
        kind = "classification" if t % 2 == 0 else "regression"
        with c.case("export_script", kind=kind), c.scratch():
            x, y = g.data(c.rng, kind=kind)
            x["c"] = pd.Series([("u", "v", "w")[i % 3] for i in range(len(x))]).astype("category")
            got = []

            def hook(ops, start):
                i = start[0]
                got.append(i)
                need("gama.genetic_programming.components", "Fitness")
                Fitness = need("gama.genetic_programming.components", "Fitness")
                i.fitness = Fitness((1.0, -1), 0, 0, 0)
                return [i]
            a = g.make(kind, search=Search(hook), post=BF())
            try:
                a.fit(x, y)
                script = a.export_script(file=None)
                files(c, a, script)
            finally:
                try:
                    a.cleanup("all")
                except Exception:
                    pass
            ns = execute(c, script)
            pre = a._basic_encoding_pipeline.steps + a._fixed_pipeline_extension
            steps_ok(c, ns["pipeline"].steps, got[0], pre, "export_script")
            transformers_ok(c, ns["pipeline"].steps, pre, "export_script")
            m = a.model.steps
            steps_ok(c, m, got[0], a._fixed_pipeline_extension, "final model")


def files(c, a, script):
    """Where export_script writes."""
    import os
    with open("black", "w") as fh:      # stands in for the formatter
        fh.write("#!/bin/sh\nexit 0\n")
    os.chmod("black", 0o755)
    path = os.environ.get("PATH", "")
    os.environ["PATH"] = os.getcwd() + os.pathsep + path
    read = lambda p: open(p).read()
    norm = lambda t: sorted(t.split("\n"))      # the order of import statements is free
    try:
        before = {p for p in os.listdir(".")}
        with open("other.py", "w") as fh:
            fh.write("kept")
        r = a.export_script(file="one.py", raise_if_exists=True)
        c.check(norm(r) == norm(script) and norm(read("one.py")) == norm(script), "the file contains the script")
        with open("one.py", "w") as fh:
            fh.write("old")
        c.raises(FileExistsError, lambda: a.export_script(file="one.py", raise_if_exists=True), "an existing file is not replaced unless allowed")
        c.check(read("one.py") == "old", "an existing file is not replaced unless allowed", got=read("one.py")[:60])
        a.export_script(file="one.py")
        c.check(norm(read("one.py")) == norm(script), "by default an existing file is replaced by the script")
        a.export_script()
        c.check(norm(read("gama_pipeline.py")) == norm(script), "the default file contains the script")
        c.check(norm(a.export_script(file=None, raise_if_exists=True)) == norm(script), "without a file the script is returned")
        c.check(read("other.py") == "kept" and set(os.listdir(".")) == before | {"other.py", "one.py", "gama_pipeline.py"}, "no other file is touched", got=sorted(os.listdir(".")))
    finally:
        os.environ["PATH"] = path

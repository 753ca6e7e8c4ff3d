"""C18 run-time contracts: the search space configuration is read completely and exactly."""
import copy
import numpy as np
from common import need


def run(c):
    c.section("parse", parse)
    c.section("bundled", bundled)
    c.section("merge", merge)


def classes():
    from sklearn.base import BaseEstimator, ClassifierMixin, RegressorMixin, TransformerMixin
    from sklearn.tree import DecisionTreeClassifier, DecisionTreeRegressor
    from sklearn.linear_model import Ridge, LogisticRegression
    from sklearn.preprocessing import MinMaxScaler, Binarizer
    from sklearn.discriminant_analysis import LinearDiscriminantAnalysis
    out = {"T": [MinMaxScaler, Binarizer], "C": [DecisionTreeClassifier, LogisticRegression], "R": [DecisionTreeRegressor, Ridge]}
    out["T"] += [type("Own%dT" % i, (TransformerMixin, BaseEstimator), {}) for i in range(3)]
    out["C"] += [type("Own%dC" % i, (ClassifierMixin, BaseEstimator), {}) for i in range(3)]
    out["R"] += [type("Own%dR" % i, (RegressorMixin, BaseEstimator), {}) for i in range(3)]
    out["T"].append(LinearDiscriminantAnalysis)  # transformer and classifier
    return out


NAMES = ["alpha", "tol", "C", "max_depth", "criterion", "zeta", "n"]


def values(rng):
    k = rng.randint(0, 5)
    if k == 5:
        return rng.sample([1, 1.0, 0, 0.0, "1", 2], rng.randint(2, 6))  # equal, but of another kind
    if k == 0:
        return [rng.random() for _ in range(rng.randint(1, 4))]
    if k == 1:
        return rng.sample(["gini", "entropy", "x=y", "None", None, True, False, 0], rng.randint(1, 5))
    if k == 2:
        return range(1, rng.randint(2, 6))
    if k == 3:
        return np.arange(0.1, 0.55, 0.1)
    return [None] if rng.random() < 0.8 else [i / 64 for i in range(rng.randint(20, 150))]


def config(rng):
    cl = classes()
    shared = {n: [rng.random() for _ in range(rng.randint(1, 3))] if rng.random() < 0.6 else values(rng) for n in rng.sample(NAMES, rng.randint(0, 3))}
    conf, kinds = [], {}
    for k in "TCR":
        for a in rng.sample(cl[k], rng.randint(0 if k != "C" else 1, 3)):
            kinds[a] = k
            hp = {}
            for n in rng.sample(NAMES, rng.randint(0, 4)):
                hp[n] = [] if n in shared and rng.random() < 0.6 else values(rng)
            if rng.random() < 0.3:
                hp["param_check"] = [lambda p: True]
            conf.append((a, hp))
    conf += list(shared.items())
    rng.shuffle(conf)
    return dict(conf), kinds


def eq(a, b):
    return type(a) is type(b) and a == b


def parse(c):
    pset_from_config = need("gama.configuration.parser", "pset_from_config")
    for t in c.trials(250):
        conf, kinds = config(c.rng)
        with c.case("parse", configuration={getattr(k, "__name__", k): v for k, v in conf.items()}):
            before = {k: copy.copy(v) for k, v in conf.items()}
            pset, checks = pset_from_config(conf)
            check(c, conf, kinds, pset, checks)
            c.check(list(conf) == list(before) and all(str(conf[k]) == str(before[k]) for k in conf), "the configuration is not modified")
    for bad in ({3: {}}, {None: {}}, {object: {}}, {dict: {}}):
        with c.case("invalid", configuration=str(bad)):
            c.raises(TypeError, lambda: pset_from_config(bad), "anything but components and names is refused")


def check(c, conf, kinds, pset, checks):
    slots = dict(pset)
    data, pred = list(slots.pop("data", [])), list(slots.pop("prediction", []))
    c.check([p.identifier for p in data if kinds[p.identifier] == "T"] == [p.identifier for p in data] and {p.identifier for p in data} == {a for a, k in kinds.items() if k == "T"} and len(data) == sum(k == "T" for k in kinds.values()),
            "each preprocessor gives exactly one preprocessing component", got=[p.identifier.__name__ for p in data])
    c.check({p.identifier for p in pred} == {a for a, k in kinds.items() if k != "T"} and len(pred) == sum(k != "T" for k in kinds.values()),
            "each other component gives exactly one estimator", got=[p.identifier.__name__ for p in pred])
    c.check(all(p.output == "data" for p in data) and all(p.output == "prediction" for p in pred), "components have the kind of their base class")
    want_slots = {k: list(v) for k, v in conf.items() if isinstance(k, str)}
    for p in data + pred:
        hp = conf[p.identifier]
        want = []
        for n, vs in hp.items():
            if isinstance(vs, list) and not vs:
                want.append(n)
            elif n != "param_check":
                want.append(f"{p.identifier.__name__}.{n}")
                want_slots[f"{p.identifier.__name__}.{n}"] = list(vs)
        c.check(sorted(p.input) == sorted(want), "a component has exactly its configured hyperparameters", component=p.identifier.__name__, got=p.input, expected=want)
        if "param_check" in hp:
            c.check(checks.get(p.identifier.__name__) is hp["param_check"][0], "conditions are attached to their own component")
    c.check(set(checks) == {p.identifier.__name__ for p in data + pred if "param_check" in conf[p.identifier]}, "conditions are attached to their own component", got=list(checks))
    c.check({k for k, v in slots.items() if v} == {k for k, v in want_slots.items() if v}, "exactly the configured hyperparameters are offered", got=sorted(slots), expected=sorted(want_slots))
    for k, vs in want_slots.items():
        ts = slots.get(k, [])
        c.check(len(ts) == len(vs) and all(eq(t.value, v) for t, v in zip(sorted(ts, key=lambda t: (str(t.value), str(type(t.value)))), sorted(vs, key=lambda v: (str(v), str(type(v)))))), "a hyperparameter offers exactly its configured values", hyperparameter=k, got=[t.value for t in ts], expected=vs)
        c.check(all(t.identifier == k and t.output == k.split(".")[-1] for t in ts), "values are named after their hyperparameter", hyperparameter=k)


def bundled(c):
    pset_from_config = need("gama.configuration.parser", "pset_from_config")
    from sklearn.base import TransformerMixin
    import importlib
    for m, n in (("gama.configuration.classification", "clf_config"), ("gama.configuration.regression", "reg_config")):
        conf = need(m, n)
        with c.case("bundled configuration", module=m):
            kinds = {k: "T" if issubclass(k, TransformerMixin) else "C" for k in conf if not isinstance(k, str)}
            pset, checks = pset_from_config(conf)
            check(c, conf, kinds, pset, checks)


def merge(c):
    mc = need("gama.configuration.parser", "merge_configurations")
    cl = classes()
    algs = cl["T"] + cl["C"]
    for t in c.trials(250):
        rng = c.rng

        def one():
            out = {}
            for a in rng.sample(algs, rng.randint(0, 3)):
                hp = {}
                for n in rng.sample(NAMES, rng.randint(0, 3)):
                    hp[n] = [rng.choice([0.1, 0.2, 1, "x", None]) for _ in range(rng.choice([0, 1, 2, 3, 3]))] if n not in ("zeta", "n") else (range(1, rng.randint(2, 5)) if n == "n" else np.arange(0.5, 2))
                out[a] = hp
            for n in rng.sample(["alpha", "tol"], rng.randint(0, 2)):
                out[n] = [rng.choice([0.5, 1.5, 2.5]) for _ in range(2)]
            if t % 5 == 0:      # long lists of values
                out.setdefault(algs[0], {})["many"] = [i / 64 for i in range(rng.randint(60, 300))] + [str(i) for i in range(rng.randint(0, 200))]
            return out
        c1, c2 = one(), one()
        show = lambda d: {getattr(k, "__name__", k): v for k, v in d.items()}
        with c.case("merge", first=show(c1), second=show(c2)):
            b1, b2 = str(show(c1)), str(show(c2))
            m = mc(c1, c2)
            c.check(str(show(c1)) == b1 and str(show(c2)) == b2, "neither configuration is modified")
            c.check(set(m) == set(c1) | set(c2), "algorithms of both are united", got=show(m))
            for k in set(c1) | set(c2):
                if isinstance(k, str):
                    c.check(sorted(set(m[k])) == sorted(set(c1.get(k, [])) | set(c2.get(k, []))), "values of shared hyperparameters are united", name=k)
                    continue
                h1, h2 = c1.get(k, {}), c2.get(k, {})
                c.check(set(m[k]) == set(h1) | set(h2), "hyperparameters of both are united", algorithm=k.__name__, got=list(m[k]))
                for n in set(h1) | set(h2):
                    want = {str(v) for v in h1.get(n, [])} | {str(v) for v in h2.get(n, [])}
                    c.check({str(v) for v in m[k][n]} == want, "values of both are united", algorithm=k.__name__, name=n, got=list(m[k][n]))
                    if n in h1 and n in h2:
                        c.check(len(set(m[k][n])) == len(list(m[k][n])), "values of both are united once")
            try:
                mc(m, one())
            except TypeError:
                pass  # a merged value is a list; merging it with a range or an array is refused
            c.check(str(show(c1)) == b1 and str(show(c2)) == b2, "neither configuration is modified, also by merging the result again")
    with c.case("values that cannot be merged"):
        a = algs[0]
        c.raises(TypeError, lambda: mc({a: {"x": {"p": 1}}}, {a: {"x": [1]}}), "values of different kinds are refused")

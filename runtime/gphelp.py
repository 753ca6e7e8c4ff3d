"""Search spaces, individuals and structural snapshots built without the code under test's own
generators."""
import random
from collections import defaultdict
from common import need, Inapplicable

C = "gama.genetic_programming.components"


def comps():
    return need(C, "Individual", "PrimitiveNode", "Primitive", "Terminal")


_made = {}


def fake_class(name, kind):
    key = (name, kind)
    if key not in _made:
        from sklearn.base import BaseEstimator, ClassifierMixin, TransformerMixin
        base = (TransformerMixin, BaseEstimator) if kind == "data" else (ClassifierMixin, BaseEstimator)
        _made[key] = type(name, base, {})
    return _made[key]


def make_space(rng, minimal=False, n_est=None, n_pre=None):
    Individual, PrimitiveNode, Primitive, Terminal = comps()
    pset = defaultdict(list)
    shared = [f"shared{i}" for i in range(rng.choice([0, 1, 2]))]
    pool = [1, 2, 3, 0.5, "a", "b", None, True, -4, 1e-05, "x y", 10.0, False]
    for s in shared:
        for v in distinct(rng, pool, rng.randint(1, 4)):
            pset[s].append(Terminal(value=v, output=s, identifier=s))
    for kind, prefix, n in (("prediction", "Est", n_est or rng.randint(1, 3)), ("data", "Pre", n_pre or rng.randint(1, 3))):
        for i in range(n):
            name = f"{prefix}{i}"
            inputs = []
            for h in range(0 if minimal else rng.choice([0, 1, 2, 3, 4])):
                hp = f"{name}.{'zyxw'[h]}p"
                inputs.append(hp)
                for v in distinct(rng, pool, rng.choice([1, 2, 3, 5])):
                    pset[hp].append(Terminal(value=v, output=f"{'zyxw'[h]}p", identifier=hp))
            for s in shared:
                if rng.random() < .5:
                    inputs.append(s)
            rng.shuffle(inputs)
            pset[kind].append(Primitive(input=tuple(inputs), output=kind, identifier=fake_class(name, kind)))
    return pset


def distinct(rng, pool, n):
    out = []
    for v in rng.sample(pool, len(pool)):
        if not any(v == w and str(v) == str(w) for w in out) and not any(v == w for w in out):
            out.append(v)
        if len(out) == n:
            break
    return out


def real_space():
    cfg = need("gama.configuration.classification", "clf_config")
    parse = need("gama.configuration.parser", "pset_from_config")
    return parse(cfg)[0]


def small_real_space():
    cfg = need("gama.configuration.testconfiguration", "clf_config")
    parse = need("gama.configuration.parser", "pset_from_config")
    return parse(cfg)[0]


def gen_node(rng, pset, kind, nxt):
    _, PrimitiveNode, _, _ = comps()
    p = rng.choice(pset[kind])
    return PrimitiveNode(p, nxt, [rng.choice(pset[i]) for i in p.input])


def gen_individual(rng, pset, length, to_pipeline=None):
    Individual, *_ = comps()
    node = "data"
    for i in range(length - 1):
        node = gen_node(rng, pset, "data", node)
    node = gen_node(rng, pset, "prediction", node)
    return Individual(node, to_pipeline=to_pipeline)


def nodes(ind):
    _, PrimitiveNode, _, _ = comps()
    n = ind if isinstance(ind, PrimitiveNode) else ind.main_node
    out = []
    while isinstance(n, PrimitiveNode):
        out.append(n)
        if len(out) > 500:
            raise AssertionError("cyclic pipeline")
        n = n._data_node
    if n != "data":
        raise AssertionError(f"chain does not start from data but {n!r}")
    return out


def snap(ind):
    """Structure from the estimator backwards: (component, {hyperparameter: value})."""
    return [(n._primitive, sorted(((t.identifier, type(t.value).__name__, repr(t.value)) for t in n._terminals)))
            for n in nodes(ind)]


def problems(ind, pset):
    """Why the individual is not well formed (empty = well formed)."""
    out = []
    try:
        ns = nodes(ind)
    except AssertionError as e:
        return [str(e)]
    for i, n in enumerate(ns):
        kind = "prediction" if i == 0 else "data"
        p = n._primitive
        if not any(p is q or p == q for q in pset[kind]):
            out.append(f"step {i}: {p} is not a {kind} component of the search space")
        ids = sorted(t.identifier for t in n._terminals)
        if ids != sorted(p.input):
            out.append(f"step {i}: hyperparameters {ids}, declared {sorted(p.input)}")
        for t in n._terminals:
            if not any(t is u or (t == u and type(t.value) is type(u.value)) for u in (pset[t.identifier] if t.identifier in pset else [])):
                out.append(f"step {i}: value {t!r} not allowed")
    return out


def guarded(pset):
    """Snapshot of the search space to detect modification."""
    return {k: list(v) for k, v in pset.items()}


def spaces(c, n):
    for t in c.trials(n):
        yield t, make_space(c.rng, minimal=(t % 7 == 3))


def has_alternative_step(ind, pset):
    return any(len(pset[n._primitive.output]) > 1 for n in nodes(ind))


def has_alternative_value(ind, pset):
    return any(len(pset[t.identifier]) > 1 for n in nodes(ind) for t in n._terminals)


def swappable(a, b):
    return any(t.identifier == u.identifier and t.value != u.value
               for n in nodes(a) for t in n._terminals for m in nodes(b) for u in m._terminals)


def opset(pset, max_length=None, completed=None, max_retry=5):
    """An OperatorSet wired as Gama wires it."""
    from functools import partial
    OperatorSet = need("gama.genetic_programming.operator_set", "OperatorSet")
    mut = need("gama.genetic_programming.mutation", "random_valid_mutation_in_place")
    cx = need("gama.genetic_programming.crossover", "random_crossover")
    expr = need("gama.genetic_programming.operations", "create_random_expression")
    cfp, elim = need("gama.genetic_programming.selection", "create_from_population", "eliminate_from_pareto")
    return OperatorSet(
        mutate=partial(mut, primitive_set=pset, max_length=max_length),
        mate=partial(cx, max_length=max_length),
        create_from_population=partial(cfp, cxpb=0.2, mutpb=0.8),
        create_new=partial(expr, primitive_set=pset, max_length=max_length or 3),
        compile_=None, eliminate=elim, evaluate_callback=lambda e: None,
        max_retry=max_retry, completed_evaluations=completed if completed is not None else {})

"""C20 run-time contracts: a pipeline's text form is parsed back to the same pipeline."""
import gphelp as gp
from common import need

C = "gama.genetic_programming.components"


def run(c):
    c.section("round trip", trip)
    c.section("refusal", refusal)


def all_spaces(c):
    parse = need("gama.configuration.parser", "pset_from_config")
    yield gp.real_space()
    yield gp.small_real_space()
    yield parse(need("gama.configuration.regression", "reg_config"))[0]
    Individual, PrimitiveNode, Primitive, Terminal = gp.comps()
    while True:
        s = gp.make_space(c.rng)
        if c.rng.random() < 0.4:       # unusual names and values
            for kind, name in (("data", "Metadata"), ("data", "data0"), ("prediction", "Est_data")):
                hp = f"{name}.dataset"
                for v in ("x=y", "data", "it's", 'say "hi"', "a\\b", "=", 0.1 + 0.2, 1e-300, -0.0, None, "None", "1", 1):
                    s[hp].append(Terminal(value=v, output="dataset", identifier=hp))
                s[kind].append(Primitive(input=(hp,), output=kind, identifier=gp.fake_class(name, kind)))
        yield s


def samples(c, n):
    sp = all_spaces(c)
    fixed = [next(sp) for _ in range(3)]
    for t in c.trials(n):
        pset = fixed[t % 3] if t % 2 else next(sp)
        yield t, pset, gp.gen_individual(c.rng, pset, c.rng.choice([1, 1, 2, 3, 4, 7]))


def trip(c):
    Individual = need(C, "Individual")
    for t, pset, ind in samples(c, 400):
        text = ind.pipeline_str()
        with c.case("round trip", text=text):
            tp = (lambda i: "pipeline") if t % 3 == 0 else None
            strict = bool(c.rng.randint(0, 1))
            back = Individual.from_string(text, pset, to_pipeline=tp, strict=strict)
            c.check(gp.snap(back) == gp.snap(ind), "same steps and hyperparameter values", got=back.pipeline_str())
            c.check(back.pipeline_str() == text and str(back.main_node) == text, "same text", got=back.pipeline_str())
            c.check(gp.problems(back, pset) == [], "the pipeline read is well formed", problems=gp.problems(back, pset))
            c.check(back._to_pipeline is tp, "the compiler is attached")
            c.check(all(any(x is y for y in pset[x.identifier]) for n in gp.nodes(back) for x in n._terminals) and all(any(n._primitive is q for q in pset["data"] + pset["prediction"]) for n in gp.nodes(back)),
                    "steps and values are those of the search space")


def text_of(ns, drop=None, rename=None, value=None):
    """Text of a chain of nodes (estimator first), built independently."""
    s = "data"
    for i, n in reversed(list(enumerate(ns))):
        name = n._primitive.identifier.__name__ if rename != i else "Nonexistent"
        ts = [repr(t) for t in n._terminals]
        if drop is not None and drop[0] == i:
            del ts[drop[1]]
            if len(drop) > 2:
                ts += [ts[drop[2] % len(ts)]]
        if value is not None and value[0] == i:
            ts[value[1]] = ts[value[1]].split("=", 1)[0] + "='no such value'"
        s = f"{name}({', '.join([s] + ts)})"
    return s


def refusal(c):
    Individual = need(C, "Individual")
    for t, pset, ind in samples(c, 250):
        ns = gp.nodes(ind)
        with c.case("text", text=ind.pipeline_str()):
            c.check(text_of(ns) == ind.pipeline_str(), "documented form of the text", got=ind.pipeline_str(), expected=text_of(ns))
        i = c.rng.randrange(len(ns))
        for strict in (True, False):
            bad = text_of(ns, rename=i)
            with c.case("unknown component", text=bad, strict=strict):
                c.raises(Exception, lambda: Individual.from_string(bad, pset, strict=strict), "an unknown component is refused")
        if not ns[i]._terminals:
            continue
        j = c.rng.randrange(len(ns[i]._terminals))
        for strict in (True, False):
            bad = text_of(ns, value=(i, j))
            with c.case("unknown value", text=bad, strict=strict):
                c.raises(Exception, lambda: Individual.from_string(bad, pset, strict=strict), "an unknown value is refused")
        less = text_of(ns, drop=(i, j))
        if len(ns[i]._terminals) > 1:
            twice = text_of(ns, drop=(i, j, c.rng.randrange(5)))
            with c.case("missing hyperparameter, another one repeated", text=twice):
                c.raises(ValueError, lambda: Individual.from_string(twice, pset), "a missing hyperparameter is refused")
        with c.case("missing hyperparameter", text=less):
            c.raises(ValueError, lambda: Individual.from_string(less, pset), "a missing hyperparameter is refused")
            back = Individual.from_string(less, pset, strict=False)
            want = gp.snap(ind)
            del_ = ns[i]._terminals[j]
            p, hs = want[i]
            want[i] = (p, [h for h in hs if h[0] != del_.identifier])
            c.check(gp.snap(back) == want, "with leniency the named steps and values are kept", got=back.pipeline_str())

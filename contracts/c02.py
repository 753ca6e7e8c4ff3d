"""C02: pipelines never exceed the maximum length."""
import z3
from pyvc.driver import *
from .gp import *
from .c01 import start, rvm, cre, _maxlen
from .c03 import Fn, operator_set, try_until_new, mate
from .c04 import cross_contracts, insert, shrink, replace_primitive, cross_primitives

PROOFS = Registry()
X = f"{GP}.crossover"

PROOFS("create_random_expression respects its length bounds", covers=("post",))(cre)
PROOFS("random_valid_mutation_in_place respects max_length", covers=("post", "too long"), timeout=100)(rvm)
PROOFS("mut_insert adds one step", covers=("post",))(insert)
PROOFS("mut_shrink removes the announced number of steps", covers=("post", "given", "refused"))(shrink)
PROOFS("mut_replace_primitive keeps the length", covers=("post",))(replace_primitive)
PROOFS("crossover_primitives keeps the total length", covers=("post",))(cross_primitives)


@PROOFS("random_crossover: the first result respects max_length", covers=("post", "refused"))
def random_crossover(ctx):
    it = ctx.interp
    sp, (A, Bc), (a, b) = start(ctx, 2)
    ctx.contracts[f"{IND}.pipeline_str"] = lambda c, args: Opaque("pipeline text")
    ctx.contracts[f"{IND}.__str__"] = lambda c, args: Opaque("individual text")
    cross_contracts(ctx, sp)
    m = _maxlen(ctx)
    try:
        r1, r2 = it.unpack(it.call(it.get(f"{X}.random_crossover"), [a, b, m], {}), 2)
    except PyRaise as e:
        if not issubclass(e.exc.cls, ValueError):
            raise
        ctx.cover("refused")
        return
    if not isinstance(r1, Inst):
        ctx.fail("an individual is returned", repr(r1))
        return
    pieces = walk(ctx, r1.attrs["main_node"])
    ctx.prove("the first returned individual is at most max_length long", to_z3(total(pieces)) <= m)
    ctx.cover("post")


PROOFS("OperatorSet.mate returns the first result of the crossover", covers=("post",))(mate)
PROOFS("try_until_new returns a product of the operator", covers=("post",))(try_until_new)


@PROOFS("Gama.__init__ gives every operator the configured maximum length", covers=("limited", "unlimited", "refused", "no preprocessing"), timeout=100)
def wiring(ctx):
    from .gm import Init
    it = ctx.interp
    m = (None, z3.Int("max_pipeline_length"))[ctx.choose(2)]
    if m is not None:
        ctx.assume(m >= 1)
    w = Init(ctx, max_pipeline_length=m)
    exc = w.run()
    if w.of("mkdir") == [] and exc is not None and ctx._discharge(z3.And(w.dir_exists, z3.Not(w.dir_empty)))[0] == "proved":
        return  # an output directory in use is refused
    data = w.pset_has_data
    if exc is not None:
        ctx.prove("only lengths that cannot be reached are refused", z3.And(z3.Not(data), m > 1) if m is not None else False)
        ctx.cover("refused")
        return
    ctx.prove("without preprocessing steps longer pipelines are refused", z3.Or(data, m <= 1) if m is not None else True)
    ops = w.g.attrs["_operator_set"]
    got = {}

    def probe(name):
        def f(c, b):
            got[name] = b
            return Opaque(name)
        return f
    for mod, name in (("mutation", "random_valid_mutation_in_place"), ("crossover", "random_crossover"), ("operations", "create_random_expression")):
        ctx.contracts[f"{GP}.{mod}.{name}"] = probe(name)
    ind = Opaque("individual")
    it.call(ops.attrs["_mutate"], [ind], {})
    it.call(ops.attrs["_mate"], [ind, Opaque("other")], {})
    it.call(ops.attrs["_create_new"], [], {})
    mu, ma, cr = got.get("random_valid_mutation_in_place"), got.get("random_crossover"), got.get("create_random_expression")
    ctx.prove("the search uses the verified operators", mu is not None and ma is not None and cr is not None)
    ctx.prove("the operators use the configured search space", mu["primitive_set"] is w.pset and cr["primitive_set"] is w.pset)
    for what, b in (("mutation", mu), ("crossover", ma), ("creation", cr)):
        v = b["max_length"]
        if m is not None:
            ctx.prove(f"{what} gets the configured maximum length", v is not None and simp(to_z3(v) == m))
        elif what != "creation":
            ctx.prove(f"{what}: without a maximum only if there are preprocessing steps, else 1", data if v is None else simp(z3.And(z3.Not(data), to_z3(v) == 1)))
        else:
            ctx.prove("creation: at least one step, one if there are no preprocessing steps", z3.And(to_z3(v) >= 1, z3.Implies(z3.Not(data), to_z3(v) == 1)))
    ctx.prove("creation: the minimum is not above the maximum", z3.And(1 <= to_z3(cr["min_length"]), to_z3(cr["min_length"]) <= to_z3(cr["max_length"])))
    ctx.cover("limited" if m is not None else "unlimited")
    if ctx._discharge(z3.Not(data))[0] == "proved":
        ctx.cover("no preprocessing")

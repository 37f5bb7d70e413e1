"""The evolution strategy against a reference definition."""
import random
from common import *
import evo

LEVEL = "translation_validation"
TECHNIQUE = ("static analysis: value graphs of especia::optimize and especia::postopti compared with those of reference definitions, the generation "
             "loop as a recurrence")
RULE = ("as functions of arguments, random draws, objective function, constraint and decomposition, all results of especia::optimize (state, best "
        "value, verdicts, generation counter), what it hands to the tracer, the draws it consumes and the condition under which it throws have the "
        "same normal forms as the reference; likewise the uncertainties of especia::postopti")
NOTE = ("The generation loop is compared as a recurrence (start, step, exits), so the result covers every number of generations, dimension, parent "
        "and population number. Concurrent evaluation is represented by evaluating one individual after the other (see C02 and C03).")
ASSUME = ["real arithmetic (rounding is not modelled)", "objective function, constraint, deviate and decomposition are uninterpreted"]


def sizes(seed):
    """small sizes and parameters in their ranges"""
    r = random.Random(seed)
    n, k, g = r.choice((2, 3, 2, 1)), r.choice((1, 2, 2)), r.randrange(4)
    d = {2: n, 3: k, 4: 2 * k + r.randrange(2), 14: g, 13: g + r.choice((1, 1, 2)), 11: r.choice((1, 2))}
    for i in (6, 7, 8, 9, 10):
        d[i] = r.uniform(0.1, 0.9)
    if seed % 5 == 4:
        d[r.choice((9, 10))] = 0
    d[12], d[16] = r.choice((0.1, 0.5, 2)), r.choice((0.1, 0.5, 2))
    d = {sym("$%d" % i): x for i, x in d.items()}
    d[sym("numeric_limits<double>::epsilon")] = 0.01 / r.uniform(0.5, 3) if seed % 2 else 10.0 ** -r.randrange(5, 12)
    return d


N, NN = lambda s: s[sym("$2")], lambda s: s[sym("$2")] ** 2
PROBE = {
    "optimize": evo.Probe(sizes, {"*$15": N, "*$17": N, "*$18": NN, "*$19": NN, "*$20": N, "*$21": N}),
    "postopti": evo.Probe(sizes, {"*$8": N}),
}


def run(ctx):
    P = ctx.P
    fs = ctx.fn("especia::optimize")
    fs = sorted(f for f in fs if "Model" in f)
    hk = evo.hooks(P)
    want = {}
    for f in fs if ctx.tier == "thorough" else fs[:1]:
        one(ctx, P, f, "spec::optimize", hk, want, ("rng!", "log!"))
    ctx.minimum("strategies", 1)
    fs = sorted(f for f in ctx.fn("especia::postopti") if "Model" in f)
    for f in fs if ctx.tier == "thorough" else fs[:1]:
        one(ctx, P, f, "spec::postopti", hk, want, ())
    ctx.minimum("strategies", 2)


def one(ctx, P, f, ref, hk, want, ghosts):
    name = P.qn(f).split("::")[-1]
    where = P.where(f)
    ctx.count("strategies")

    def go():
        r = ctx.run(f, hooks=hk, mem=evo.start())
        if ref not in want:
            want[ref] = ctx.spec(ref, hooks=hk, mem=evo.start())
        s = want[ref]
        ctx.agree(name, r, s, where, probe=PROBE[name])
        for g in ghosts:
            ctx.same("%s: %s" % (name, {"rng!": "random draws consumed", "log!": "states handed to the tracer"}[g]), r.mem[g], s.mem[g], where, probe=PROBE[name])
    ctx.guarded(name, where, go)

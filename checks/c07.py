"""Individuals are evaluated within their bounds only."""
import random
from common import *
import c31, evo, modelc
from evo import vector, read
from inst import mpmath

LEVEL = "translation_validation"
TECHNIQUE = ("static analysis: value graph of the generation loop with a ghost state that remembers whether an individual was evaluated while the constraint "
             "rejects it; the bound check by comparison with a reference definition")
RULE = ("the ghost state has the same normal form as in the reference strategy, which redraws a component until the constraint accepts the individual, and no instance of it "
        "reports an evaluation outside the bounds; the mean that is reported lies in the box if the individuals do; the bound check is the "
        "reference comparison of every parameter with its own bounds; the optimizer hands the constraint it is given to the strategy")
NOTE = "Every dimension, population and number of generations, as a recurrence; objective function, deviate and decomposition are uninterpreted."
ASSUME = ["real arithmetic (rounding is not modelled)"]


def hooks(P):
    hk = evo.hooks(P, fails=False)

    def objective(ev, st, this, args, node):
        n = read(ev, st, args[1])
        x = vector(ev, st, args[0], n)
        st.mem["in!"] = ite(atom(mk("violated", x, n)), ZERO, st.mem["in!"])
        return mk("objective", x, n)
    for q in ("especia::Model::operator()", "spec::Objective::operator()"):
        hk[q] = objective
    return hk


def start():
    return dict(evo.start(), **{"in!": ONE})


class Box(evo.Probe):
    """the constraint is a box around the start vector, the weights are positive"""

    def __init__(self, sizes):
        evo.Probe.__init__(self, sizes, {})
        self.seeds = 32
        self.fns["violated"] = self.outside

    def outside(self, I, t, env):
        return any(abs(mpmath.mpf(x) - c) > 1.5 for x, c in zip(self.args(I, t, env), self.centre(I)))

    def centre(self, I):
        return [mpmath.mpf(i) for i in range(self.n(I))]


def run(ctx):
    P = ctx.P
    hk = hooks(P)
    fs = sorted(f for f in ctx.fn("especia::optimize") if "Model" in f)
    for f in fs if ctx.tier == "thorough" else fs[:1]:
        where = P.where(f)
        ctx.count("strategies")

        def go():
            r = ctx.run(f, hooks=hk, mem=start())
            s = ctx.spec("spec::optimize", hooks=hk, mem=start())
            decide(ctx, "individuals are evaluated within their bounds", r.mem["in!"], s.mem["in!"], where, Box(box))
            x, y = r.mem.get("*$15"), s.mem.get("*$15")
            if C.identical(x, y):
                ctx.ok("the mean stays within the bounds", where)
            else:
                w = escape(x, Box(box))
                if w:
                    ctx.bad("the mean stays within the bounds", where, w)
                else:
                    ctx.unknown("the mean stays within the bounds", where, "not the normal form of the reference, no instance leaves the bounds")
        ctx.guarded("individuals are evaluated within their bounds", where, go)
    ctx.minimum("strategies", 1)
    for f in modelc.pick(ctx, modelc.methods(ctx, "Bounded_Constraint::is_violated", 2)):
        where = P.where(f)
        ctx.count("bound checks")

        def check():
            rec_ = [k for k in P.dn(P.dn(f)["rec"]).get("fields", ())]
            r = ctx.run(f)
            s = ctx.spec("spec::Bounds::is_violated")
            ctx.same("a vector is refused if a component lies outside its own bounds", r.ret, s.ret, where, probe=Bounds())
            for pc, e, m in r.throws:
                ctx.bad("the bound check does not fail", where, "throws when " + C.short(pc, 200))
        ctx.guarded("bound check", where, check)
    ctx.minimum("bound checks", 1)
    for f in ctx.fn("especia::Optimizer::optimize"):
        where = P.where(f)
        ctx.count("optimizer entry points")
        seen = []

        def opt(ev, st, this, args, node):
            seen.append((ev.abspc(st), read(ev, st, args[1])))
            return None

        def passes():
            del seen[:]
            ctx.run(f, hooks={"especia::optimize": opt, "especia::postopti": lambda *a: None})
            if not seen:
                return ctx.unknown("the strategy works with the constraint of the caller", where, "no call of the evolution strategy was reached")
            for pc, v in seen:
                ctx.same("the strategy works with the constraint of the caller", v, sym("$4"), where)
        ctx.guarded("the strategy works with the constraint of the caller", where, passes)
    ctx.minimum("optimizer entry points", 1)


def decide(ctx, name, got, want, where, probe):
    """the ghost state is ONE after every run"""
    ctx.compared += 1
    if C.identical(got, want):
        return ctx.ok(name, where)
    w = inst.witness(got, ONE, probe.sizes, None, probe.fns, range(0, 3 * probe.seeds, 3), None) or \
        inst.witness(got, ONE, probe.sizes, None, probe.fns, range(0, 3 * probe.seeds, 3), None, 2)
    if w:
        return ctx.bad(name, where, "an individual is evaluated that the constraint rejects, " + inst.text(w).split(":")[0])
    ctx.unknown(name, where, "not the normal form of the reference, no instance evaluates a rejected individual")


def box(seed):
    d = c31.sizes(seed - seed % 3)          # positive leaves
    n = d[sym("$2")]
    d[sym("*$15")] = tuple(float(i) for i in range(n))
    return d


def escape(x, probe):
    with mpmath.workdps(40):
        for k in range(probe.seeds):
            s = probe.sizes(k * 3)
            n = s[sym("$2")]
            try:
                xs = inst.values(x, s, k * 3, n, probe.fns)
            except (inst.Undefined, OverflowError, RecursionError, TypeError, ZeroDivisionError, ValueError):
                continue
            for i, v in enumerate(xs):
                if abs(v - i) > 1.5 + 1e-9:
                    return "component %d leaves its bounds, " % i + inst.text((s, k, i, v, mpmath.mpf(i))).split(":")[0]
    return None


class Bounds:
    shared, seeds = None, 40
    fns = {}

    def sizes(self, seed):
        r = random.Random(seed)
        n = r.choice((1, 2, 3))
        a = [r.randrange(-3, 2) for _ in range(n)]
        b = [x + r.randrange(1, 4) for x in a]
        x = [r.choice((p - 1, q + 1, (p + q + 0.5) / 2, (p + q + 0.5) / 2, (p + q + 0.5) / 2)) for p, q in zip(a, b)]
        return {sym("this"): {"a": a, "b": b}, sym("*$0"): tuple(x), sym("$1"): n}

    def extent(self, k):
        return None

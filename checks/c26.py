"""The normal deviate against a reference definition of the polar method."""
from fractions import Fraction
from common import *

LEVEL = "translation_validation"
TECHNIQUE = "static analysis: value graph of the functor compared with that of a reference definition lowered by the same tool"
RULE = ("the value handed out and the state kept are the reference functions of the state before, for every sequence of uniform numbers: a point "
        "is used only if its squared radius is below one and not zero, the second coordinate of an accepted point is handed out by the next "
        "call and only once, and a new functor has none in store")
NOTE = "The uniform generator is uninterpreted, the rejection loop is compared as a recurrence: every history is covered."
ASSUME = ["real arithmetic (rounding is not modelled)"]
DRAW = ("especia::Melg::operator()", "especia::Mersenne_Twister::operator()", "especia::Pcg::operator()", "spec::Generator::draw")


def draw(ev, st, this, args, n):
    v = ev.read(st, this)
    ev.write(st, this, app("step", v))
    # u = (1 + z) / 2 with z in [-1, 1]
    return scale(add(ONE, app("draw", v)), Fraction(1, 2))


def run(ctx):
    P = ctx.P
    hooks = {q: draw for q in DRAW}
    cls = "especia::Normal_Deviate"
    mine = [f for f in sorted(P.funcs) if evalv.stripargs(P.qn(P.dn(f).get("rec", ""))) == cls and not P.funcs[f].get("implicit")]
    # which value of the flag stands for "no value in store"
    empty = []
    for f in mine:
        if P.dn(f).get("fk") == "ctor" and not P.dn(f).get("copy"):
            def go():
                s = fld(ctx.run(f).mem["this"], "status")
                if s in (TRUE, FALSE):
                    empty.append((s, P.where(f)))
                else:
                    ctx.unknown("a new deviate holds no second value", P.where(f), "flag is " + C.short(s))
            ctx.guarded("a new deviate holds no second value", P.where(f), go)
    if not empty:
        return ctx.unknown("deviate", "", "no constructor was analysed")
    none = empty[0][0]
    for s, w in empty:
        ctx.same("every constructor leaves a new deviate without second value", s, none, w)
    for f in mine:
        if P.qn(f).split("::")[-1] != "operator()":
            continue
        ctx.count("deviates")
        where = P.where(f)
        for store, what in ((False, "with no value in store"), (True, "with a value in store")):
            def go():
                o = {"uniform_deviate": sym("uniform_deviate"), "x": sym("x"), "y": sym("y")}
                r = ctx.run(f, this=rec(dict(o, status=NOT(none) if store else none)), hooks=hooks)
                s = ctx.spec("spec::Normal::next", this=rec(dict(o, status=TRUE if store else FALSE)), hooks=hooks)
                name = "deviate " + what
                ctx.same(name + ": value handed out", r.ret, s.ret, where)
                a, b = r.mem["this"], s.mem["this"]
                flag = fld(a, "status")
                ctx.same(name + ": a value is in store afterwards", flag if none is FALSE else NOT(flag), fld(b, "status"), where)
                ctx.same(name + ": state of the uniform generator", fld(a, "uniform_deviate"), fld(b, "uniform_deviate"), where)
                if not store:
                    ctx.same(name + ": value kept in store", fld(a, "y"), fld(b, "y"), where)
            ctx.guarded("deviate " + what, where, go)
    ctx.minimum("deviates", 1)

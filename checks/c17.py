"""Dispersion formulas, their derivatives, and the conversion tools."""
from common import *
from tools import tool_main, derivative, VEC

LEVEL = "translation_validation"
RULE = ("value graphs: each formula equals its published expression; the variant with a derivative returns that same value and "
        "the symbolic derivative of it; the tools apply 10/f(10/x) and 10/solve(f, 10/x) to every wavelength and pass "
        "the other columns on")
TECHNIQUE = "static analysis: value numbering over gated value graphs of the resolved program, compared in normal form"
NOTE = ("Every input wavelength and every argument at once, up to the rounding of floating-point arithmetic; assumes the "
        "library model of valarray and streams (engine/stdmodel.py). A shape the value graph cannot represent is recorded as undecided, not reported.")
ASSUME = ["real arithmetic (rounding is not modelled)"]


def q(s):
    return num(Fraction(s))


def disp(x, c0, terms):
    """x (1 + c0 + sum a / (b - x^2))"""
    s = add(ONE, q(c0))
    for a, b in terms:
        s = add(s, div(q(a), sub(q(b), mul(x, x))))
    return mul(s, x)


# coefficients as published, converted from micrometres to nanometres (x in nm-1)
FORMULAS = {
    "birch94": ("8.34254e-5", [("2.406147e-8", "130e-6"), ("1.5998e-10", "38.9e-6")]),
    "edlen53": ("6.43280e-5", [("2.949810e-8", "146e-6"), ("2.5540e-10", "41e-6")]),
    "edlen66": ("8.34213e-5", [("2.406030e-8", "130e-6"), ("1.5997e-10", "38.9e-6")]),
}


def run(ctx):
    P = ctx.P
    for name, (c0, terms) in FORMULAS.items():
        qn = "especia::Equations::" + name
        fs = ctx.fn(qn)
        ones = [f for f in fs if len(P.funcs[f]["params"]) == 1]
        threes = [f for f in fs if len(P.funcs[f]["params"]) == 3]
        ctx.need(ones and threes, qn + ": value and derivative variants not found")
        x = sym("$0")
        want = disp(x, c0, terms)
        for f in ones:
            def go():
                r = ctx.run(f)
                ctx.same(name + ": value is the published expression", r.ret, want, P.where(f))
            ctx.guarded(name, P.where(f), go)
        for f in threes:
            def go():
                r = ctx.run(f)
                y, z = r.mem["$1"], r.mem["$2"]
                ctx.same(name + ": value returned with the derivative", y, want, P.where(f))
                ctx.same(name + ": derivative is the derivative of the value", z, derivative(want, x), P.where(f))
            ctx.guarded(name, P.where(f), go)
    # the tools
    ten = num(10)
    i = fresh("i")
    X = lambda a: sel(fld(a, "a"), i)
    for tool in ("vactoair", "airtovac", "helicorr"):
        t = tool_main(ctx, tool, hooks=("solve", "edlen"))
        where = P.where(t.fid)
        if t.r is None:
            continue
        if not t.puts:
            ctx.bad(tool + ": writes the converted data", where, "no call that writes the data is reached")
            continue
        for put in t.puts:
            g = t.gets[-1] if t.gets else None
            if g is None:
                ctx.bad(tool + ": reads the data it converts", where, "no call that reads data is reached before writing")
                continue
            x0, y0, z0 = g["out"]
            x1, y1, z1 = put["args"]
            xi = X(x0)
            rng = [(lt_atom(i, fld(x0, "n")), True)]
            pre = tuple((a, v) for a, v in inrange(i, fld(x0, "n"))) + pcpath(put["pc"])
            if tool == "vactoair":
                want = div(ten, mk("call", sym("edlen66"), (div(ten, xi),)))
            elif tool == "airtovac":
                want = div(ten, mk("solve", sym("edlen66"), div(ten, xi)))
            else:
                v = t.arg("real", 1)
                b = div(v, num(299792458))
                want = mul(xi, powr(div(add(ONE, b), sub(ONE, b)), Fraction(1, 2)))
            ctx.same(tool + ": wavelength conversion", X(x1), want, where, path=pre)
            for nm, a, b in (("second", y0, y1), ("third", z0, z1)):
                ctx.same(tool + ": the %s column is passed on" % nm, X(b), X(a), where)
            ctx.same(tool + ": number of rows", fld(x1, "n"), fld(x0, "n"), where)
    ctx.minimum("tools", 3)


def lt_atom(i, n):
    return lt0(sub(i, n), True).a[0]


def inrange(v, n):
    return C.Cmp().rangepath(v, n)


def pcpath(pc):
    """conjunction of literals in a path condition"""
    out = []
    while pc.op == "ite":
        if pc.a[1] is FALSE:
            out.append((pc.a[0], False))
            pc = pc.a[2]
        elif pc.a[2] is FALSE:
            out.append((pc.a[0], True))
            pc = pc.a[1]
        else:
            break
    return tuple(out)

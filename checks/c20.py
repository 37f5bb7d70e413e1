"""The quadrature rules integrate polynomials exactly up to their degree."""
from integ import *

LEVEL = "other"
TECHNIQUE = ("static analysis: the linear functional that a part's value graph applies to an uninterpreted integrand is read off as abscissas and weights; "
             "its moments are computed in exact arithmetic")
RULE = ("on [-1, 1] each rule is a weighted sum of integrand samples inside the interval; its moments of order 0 to 13, 19, 27, 41 (the degree of the rule with as many points) are "
        "those of the integral, to a tolerance of 1E-15; on an interval with symbolic ends the result is the same sum at the mapped abscissas, scaled by half the length; "
        "the error is the difference between the results of the two rules")
NOTE = "Exact rational arithmetic on the literals of the source; the moments of the unchanged tables vanish to 1E-49."
ASSUME = ["rounding in the evaluation of the sum is not part of the claim"]
DEGREE = (13, 19, 27, 41)
TOL = Fraction(1, 10 ** 15)


def functional(t):
    """{abscissa: weight} of a linear combination of integrand values"""
    out = {}
    for m, c in mono_of(t).items():
        if len(m) != 1 or m[0][1] != 1 or m[0][0].op != "call" or len(m[0][0].a[1]) != 1 or m[0][0].a[1][0].op != "num":
            raise Unknown("the result is not a sum of samples: " + C.short(t, 100))
        x = m[0][0].a[1][0].a[0]
        out[x] = out.get(x, 0) + c
    return out


def run(ctx):
    def go():
        ps = Parts(ctx)
        w = ps.where
        rules = []
        for q in range(4):
            rules.append(None)
            ctx.guarded(RULES[q], w, lambda: rule(ctx, ps, q, rules, w))
        if all(rules):
            a, b = sym("a"), sym("b")
            h, c = scale(sub(b, a), Fraction(1, 2)), scale(add(a, b), Fraction(1, 2))
            f = sym("$0")
            full = [mul(h, add(*[scale(mk("call", f, (add(c, scale(h, x)),)), k) for x, k in sorted(r.items())])) for r in rules]
            for p in range(4):
                for q in range(4):
                    def pair():
                        r = ps.fresh(a, b, p, q)
                        nm = "%s with %s, ends a and b" % (RULES[p], RULES[q])
                        ctx.same(nm + ": result", expand(result(ctx, ps, r, "result")), full[q], w)
                        ctx.same(nm + ": error", expand(result(ctx, ps, r, "absolute_error")), app("abs", sub(full[q], full[p])) if p != q else ZERO, w)
                    ctx.guarded("%s with %s" % (RULES[p], RULES[q]), w, pair)
    ctx.guarded("rules", "integrator.h", go)


def result(ctx, ps, r, what):
    fs = [x for x in ps.fns if ctx.P.qn(x).endswith("::" + what)]
    if len(fs) != 1:
        raise Unknown("no function " + what)
    return Ev(ctx.P).run(fs[0], r.mem["this"]).ret


def rule(ctx, ps, q, rules, w):
    r = ps.fresh(num(-1), num(1), q, q)
    pts = functional(expand(result(ctx, ps, r, "result")))
    ctx.count("rules")
    ctx.count("abscissas", len(pts))
    nm = RULES[q]
    ctx.check(nm + ": abscissas lie in the interval", all(-1 <= x <= 1 for x in pts), w, "abscissa %s" % [float(x) for x in pts if not -1 <= x <= 1])
    for k in range(DEGREE[q] + 1):
        s = sum(c * x ** k for x, c in pts.items())
        want = Fraction(2, k + 1) if k % 2 == 0 else 0
        ctx.count("moments")
        ctx.check("%s: moment %d" % (nm, k), abs(s - want) <= TOL, w,
                  "the integral of x^%d over [-1, 1] is %.17g, not %.17g (difference %.2g)" % (k, s, want, s - want))
    rules[q] = pts

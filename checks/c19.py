"""Samples reused in a refinement are those of the abscissas they are used for."""
from integ import *

LEVEL = "translation_validation"
TECHNIQUE = "static analysis: value graph of a bisected part compared with that of a part that evaluates the integrand anew, for every pair of rules"
RULE = ("for every pair of quadrature rules other than the first one twice: the lower and the upper half of a part, made from the part's samples, are equal in "
        "every data member to a part constructed for that half alone: same ends, same number of known samples, at every position the integrand at the "
        "position's own abscissa, same result, same error. As the halves equal parts made anew, so do their halves, at every depth")
NOTE = ("The integrand is uninterpreted and the ends of the interval are symbolic, so a sample in the wrong place is a different value; loops of constant "
        "length are written out.")
ASSUME = ["the integrand is a function of its argument", "abscissas are compared as exact numbers"]


def run(ctx):
    a, b = sym("a"), sym("b")
    c = scale(add(a, b), Fraction(1, 2))

    def go():
        ps = Parts(ctx)
        ms = ps.makers()
        if len(ms) != 2:
            ctx.unknown("halves of a part", ps.where, "%d functions make a part from a part" % len(ms))
            return
        for p in range(4):
            for q in range(4):
                if p == q == 0:
                    continue
                ctx.guarded("%s with %s" % (RULES[p], RULES[q]), ps.where, lambda: pair(ctx, ps, ms, a, b, c, p, q))
    ctx.guarded("parts", "integrator.h", go)


def pair(ctx, ps, ms, a, b, c, p, q):
    r = ps.fresh(a, b, p, q)
    halves = {"lower": ps.fresh(a, c, p, q).mem["this"], "upper": ps.fresh(c, b, p, q).mem["this"]}
    halves = {k: expand(v) for k, v in halves.items()}
    got = [expand(ps.child(m, r)) for m in ms]
    for k, want in halves.items():
        where = ps.where
        # the half that claims the same middle
        i = [i for i in range(2) if same_ends(got[i], want)]
        if len(i) != 1:
            known = [g for g in got if fields(g) == fields(want)]
            f = ctx.bad if len(known) == 2 else ctx.unknown
            f("%s half, %s with %s" % (k, RULES[p], RULES[q]), where, "no function makes the part from %s to %s" % (("a", "c") if k == "lower" else ("c", "b")))
            continue
        g = got[i[0]]
        where = ctx.P.where(ms[i[0]])
        if fields(g) != fields(want):
            ctx.unknown("%s half, %s with %s" % (k, RULES[p], RULES[q]), where, "data members " + str(fields(g) ^ fields(want)))
            continue
        for n in sorted(fields(want)):
            ctx.count("data members compared")
            x, y = fld(g, n), fld(want, n)
            nm = "%s half, %s with %s: %s" % (k, RULES[p], RULES[q], n)
            if y.op == "rec" and fld(y, "a").op == "list" and x.op == "rec" and fld(x, "a").op == "list":
                for j, (u, v) in enumerate(zip(fld(x, "a").a[0], fld(y, "a").a[0])):
                    if v is ZERO:
                        continue            # a part made anew has no sample there, so it is not used
                    ctx.count("samples compared")
                    ctx.same("%s[%d]" % (nm, j), u, v, where)
            elif y.op == "num" and x.op == "num" and x is not y:
                ctx.unknown(nm, where, "%s instead of %s" % (x, y))
            else:
                ctx.same(nm, x, y, where)


def fields(t):
    return {k for k, v in t.a[0]} if t.op == "rec" else set()


def same_ends(g, want):
    if fields(g) != fields(want):
        return False
    ends = [k for k in fields(want) if fld(want, k).op in ("poly", "sym") and not any(s.op == "call" for s in deep(fld(want, k)))]
    return all(fld(g, k) is fld(want, k) for k in ends)


def deep(t):
    out, st, seen = [], [t], set()
    while st:
        x = st.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        out.append(x)
        st.extend(subterms(x))
    return out

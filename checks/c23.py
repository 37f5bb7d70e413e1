"""Line profiles against their documented parametrisation."""
from common import *

LEVEL = "translation_validation"
TECHNIQUE = "static analysis: value graphs of constructors and evaluation of every line model, composed and compared with reference definitions in the documented parameters"
RULE = ("the optical depth of each line model, its centre and its redshift factor are the reference functions of the parameter vector (rest wavelength, oscillator strength, "
        "redshift, velocity, broadening, column density, correction coefficient and variation or damping constant) and the wavelength; a model's parameter "
        "count is the length of that vector; the many-multiplet model with vanishing variation is the Doppler model; a superposition is the sum over its lines, "
        "each with its own slice of the parameters; the equivalent width and the convolution integrate the documented integrands")
NOTE = "All parameters and the wavelength are symbolic; private members are not part of the comparison, only what the public operations return."
ASSUME = ["real arithmetic (rounding is not modelled)"]
ROOT = num(evalv.double(Fraction("0.832554611157697756353164644895201047630588852264")))


def made(ev, st, this, args, node):
    ev.write(st, this, mk("shape", *[ev.read(st, a) if isinstance(a, Loc) else a for a in args]))


def shape(ev, st, this, args, node):
    return mk("voigt", ev.read(st, this), *[ev.read(st, a) if isinstance(a, Loc) else a for a in args])


def shape2(ev, st, this, args, node):
    a = [ev.read(st, a) if isinstance(a, Loc) else a for a in args]
    return mk("voigt", mk("shape", a[0], a[1]), a[2])


HOOKS = {"especia::Pseudo_Voigt::Pseudo_Voigt": made, "especia::Extended_Pseudo_Voigt::Extended_Pseudo_Voigt": made,
         "especia::Pseudo_Voigt::operator()": shape, "especia::Extended_Pseudo_Voigt::operator()": shape,
         "spec::pseudo": shape2, "spec::extended": shape2}
MODELS = {"especia::Intergalactic_Doppler": ("doppler", "doppler", 6),
          "especia::Many_Multiplet": ("multiplet", "multiplet", 8),
          "especia::Intergalactic_Voigt<especia::Pseudo_Voigt>": ("voigt_pseudo", "voigt", 7),
          "especia::Intergalactic_Voigt<especia::Extended_Pseudo_Voigt>": ("voigt_extended", "voigt", 7)}


def member(P, cls, name, n=None):
    return [f for f in sorted(P.funcs) if P.qn(f).rsplit("::", 1) == [cls, name] and not P.funcs[f].get("implicit")
            and (n is None or len(P.funcs[f]["params"]) == n)]


def short(c):
    return c.replace("especia::", "")


def run(ctx):
    P = ctx.P
    x = sym("x")
    for cls, (val, acc, n) in MODELS.items():
        cn = cls.rsplit("::", 1)[-1] if "<" not in cls else "Intergalactic_Voigt"
        ct = [f for f in P.funcs if P.dn(f).get("fk") == "ctor" and P.qn(f).startswith(cls + "::") and len(P.funcs[f]["params"]) == 1 and not P.funcs[f].get("implicit")
              and not P.dn(f).get("copy")]
        ctx.need(ct, "no constructor of " + cls)
        for f in ct:
            def go():
                r = ctx.run(f, hooks=HOOKS)
                this = r.mem["this"]
                ctx.count("line models")

                def value():
                    g = member(P, cls, "operator()", 1)
                    ctx.need(g, "no evaluation of " + cls)
                    v = ctx.run(g[0], this=this, args=[x], mem=dict(r.mem), hooks=HOOKS)
                    s = ctx.spec("spec::" + val, args=[None, x], hooks=HOOKS)
                    ctx.same(short(cls) + ": optical depth", v.ret, s.ret, P.where(g[0]))
                ctx.guarded(short(cls) + ": optical depth", P.where(f), value)
                for nm, sp in (("center", acc + "_center"), ("redshift_factor", acc + "_redshift")):
                    def one():
                        g = member(P, cls, nm)
                        ctx.need(g, "no " + nm + " of " + cls)
                        v = ctx.run(g[0], this=this, mem=dict(r.mem))
                        s = ctx.spec("spec::" + sp)
                        ctx.same(short(cls) + ": " + nm, v.ret, s.ret, P.where(g[0]))
                    ctx.guarded(short(cls) + ": " + nm, P.where(f), one)
            ctx.guarded(short(cls), P.where(f), go)

        def cnt():
            g = member(P, cls, "parameter_count")
            ctx.need(g, "no parameter count of " + cls)
            ctx.same(short(cls) + ": number of parameters", ctx.run(g[0]).ret, num(n), P.where(g[0]))
        ctx.guarded(short(cls) + ": number of parameters", "", cnt)
    ctx.guarded("vanishing variation", "", lambda: variation(ctx, x))
    for cls, sp in (("especia::Pseudo_Voigt", "pseudo"), ("especia::Extended_Pseudo_Voigt", "extended")):
        for f in [f for f in P.funcs if P.dn(f).get("fk") == "ctor" and P.qn(f).startswith(cls + "::") and len(P.funcs[f]["params"]) == 2 and not P.funcs[f].get("implicit")]:
            def go():
                # in terms of the width and the shape, which makes the polynomials short
                w, s = sym("w"), sym("s")
                b, d = (div(mul(w, sub(ONE, s)), ROOT), mul(w, s)) if sp == "extended" else (div(mul(w, s), ROOT), w)
                r = ctx.run(f, args=[b, d])
                g = member(P, cls, "operator()", 1)
                v = ctx.run(g[0], this=r.mem["this"], args=[x])
                s = ctx.spec("spec::" + sp, args=[b, d, x])
                ctx.same(short(cls) + ": value", v.ret, s.ret, P.where(g[0]))
                ctx.count("approximations")
            ctx.guarded(short(cls), P.where(f), go)
    ctx.minimum("line models", 4)
    superposition(ctx)
    integrals(ctx)


def variation(ctx, x):
    """the many-multiplet model with q[7] = 0 and the Doppler model of the same first six parameters"""
    P = ctx.P
    val = {}
    for cls in ("especia::Intergalactic_Doppler", "especia::Many_Multiplet"):
        f = [f for f in P.funcs if P.dn(f).get("fk") == "ctor" and P.qn(f).startswith(cls + "::") and len(P.funcs[f]["params"]) == 1 and not P.funcs[f].get("implicit")][0]
        r = ctx.run(f)
        g = member(P, cls, "operator()", 1)[0]
        val[cls] = ctx.run(g, this=r.mem["this"], args=[x]).ret
        w = P.where(g)
    mm = val["especia::Many_Multiplet"]
    mm = tm.subst(mm, {sym("*$0"): sto(sym("*$0"), num(7), ZERO)})
    ctx.same("vanishing variation of the fine-structure constant leaves the Doppler model", mm, val["especia::Intergalactic_Doppler"], w)


def superposition(ctx):
    P = ctx.P
    cs = sorted({P.qn(f).rsplit("::", 1)[0] for f in P.funcs if P.qn(f).startswith("especia::Superposition<") and P.qn(f).endswith("::operator()")})
    ctx.count("superpositions", len(cs))
    ctx.minimum("superpositions", 4)
    N, x = sym("N"), sym("x")

    def line(ev, st, this, args, node):
        ev.write(st, this, mk("line", ev.read(st, ev.deref(st, args[0]))))

    def depth(ev, st, this, args, node):
        return mk("depth", ev.read(st, this), ev.read(st, args[0]) if isinstance(args[0], Loc) else args[0])
    for c in cs:
        el = c[len("especia::Superposition<"):-1]
        if el not in MODELS:
            continue
        n = MODELS[el][2]
        cls = el.split("<")[0]
        hooks = {cls + "::" + cls.split("::")[-1]: line, cls + "::operator()": depth}

        def go():
            f = [f for f in P.funcs if P.dn(f).get("fk") == "ctor" and P.qn(f).startswith(c + "::") and len(P.funcs[f]["params"]) == 2][0]
            r = ctx.run(f, args=[N, None], hooks=hooks)
            g = member(P, c, "operator()", 1)[0]
            v = ctx.run(g, this=r.mem["this"], args=[x], mem=dict(r.mem), hooks=hooks)
            b = tm.fresh("i")
            want = Sum(N, b, mk("depth", mk("line", sel(sym("*$1"), mul(num(n), b))), x))
            ctx.same("superposition of " + short(el) + ": sum over the lines", v.ret, want, P.where(g))
        ctx.guarded("superposition of " + short(el), "", go)


def integrals(ctx):
    """equivalent width and convolution: the integrands and what is made of the integral"""
    P = ctx.P
    u = sym("u")

    def integ(kind):
        def h(ev, st, this, args, node):
            c = args[0]
            while isinstance(c, Loc):
                c = ev.read(st, c)
            if c.op != "clos":
                raise Unknown("the integrand is not written in place")
            body = ev.invoke_closure(c, [u], st)
            while isinstance(body, Loc):
                body = ev.read(st, body)
            return mk("integral", kind, body)
        return h
    obs = lambda k: (lambda ev, st, this, a, n: mk("call", sym(k), (ev.read(st, this),) + tuple(ev.read(st, x) if isinstance(x, Loc) else x for x in a)))
    hk = {"especia::Integrator::integrate_positive_infinite": integ("positive"), "especia::Integrator::integrate_infinite": integ("all")}
    F, x = sym("line"), sym("$1")
    for cls in MODELS:
        c = cls.split("<")[0]
        hooks = dict(hk, **{c + "::operator()": obs("depth"), c + "::center": obs("center"), c + "::redshift_factor": obs("redshift")})
        fs = [f for f in P.funcs if P.qn(f).endswith("::calculate") and P.qn(f).startswith("especia::Equivalent_Width_Calculator<") and
              c.split("::")[-1] in f and (cls != c) == ("Voigt" in f) and ("Extended" in f) == ("Extended" in cls)]
        for f in fs[:1]:
            def go():
                r = ctx.run(f, args=[None, None], hooks=hooks)
                th = sym("$0")
                call = lambda k, *a: mk("call", sym(k), (th,) + a)
                body = sub(ONE, app("exp", neg(call("depth", add(u, call("center"))))))
                want = div(mul(num(2), mk("integral", "positive", body)), mul(sym("$1"), call("redshift")))
                ctx.same("equivalent width of " + short(cls), r.ret, want, P.where(f))
                ctx.count("integrals")
            ctx.guarded("equivalent width of " + short(cls), P.where(f), go)
    for f in [f for f in P.funcs if P.qn(f).startswith("especia::Convolutor<") and P.qn(f).endswith("::convolute")][:1]:
        def go():
            r = ctx.run(f, hooks=hk)
            call = lambda k, *a: mk("call", sym(k), a)
            want = mk("integral", "all", mul(app("exp", neg(call("$0", sub(sym("$2"), u)))), call("$1", u)))
            ctx.same("convolution integral", r.ret, want, P.where(f))
            ctx.count("integrals")
        ctx.guarded("convolution integral", P.where(f), go)

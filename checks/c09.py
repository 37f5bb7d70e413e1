"""Statistics of a section are those of the fitted model."""
from common import *
import sectc

LEVEL = "translation_validation"
TECHNIQUE = "static analysis: value graphs of the evaluation of a section compared with reference definitions"
RULE = ("optical depth, absorption, convolved absorption, continuum, fit, residual and cost are the reference functions of wavelengths, flux, uncertainty, mask, "
        "resolution, lines and continuum degree, both where a trial is evaluated and where the final values are stored; errors of the continuum fit are passed on")
NOTE = "Any number of data points, lines and continuum terms; the optical depth of the lines is uninterpreted (see C23)."
ASSUME = ["real arithmetic (rounding is not modelled)"]
COLUMNS = ("opt", "atm", "cat", "cfl", "tfl", "fit", "res")


def run(ctx):
    P = ctx.P
    n = lambda z: z[sym("this")]["n"]

    def go(f, what, ref, kind, hk, outs, fields=()):
        where = P.where(f)
        ctx.count("functions")

        def work():
            r = ctx.run(f, hooks=hk)
            s = ctx.spec("spec::Section::" + ref, hooks=hk)
            pr = sectc.Probe(kind)
            if isinstance(s.ret, T) and s.retloc is None and s.ret is not UNDEF:
                ctx.same("%s: result" % what, r.ret, s.ret, where, probe=pr)
            for k, name, ext in outs:
                a, b = r.mem.get(k), s.mem.get(k)
                if a is None or b is None:
                    ctx.unknown("%s: %s" % (what, name), where, "not an argument")
                elif ext:
                    ctx.same("%s: %s" % (what, name), fld(a, "a"), fld(b, "a"), where, probe=pr, extent=ext)
                else:
                    ctx.same("%s: %s" % (what, name), a, b, where, probe=pr)
            for x in fields:
                ctx.same("%s: %s" % (what, x), fld(fld(r.mem["this"], x), "a"), fld(fld(s.mem["this"], x), "a"), where, probe=pr, extent=n)
            ctx.agree(what, r, s, where, outs=(), probe=pr)
        ctx.guarded(what, where, work)

    whole, plain = sectc.hooks(), sectc.hooks(False)
    for f in sectc.overloads(ctx, "cost", 0)[:1]:
        go(f, "stored cost", "stored", "stored", {}, ())
    for name, ref, what, fields in (("cost", "cost", "cost of a trial", ()), ("apply", "apply", "stored values", COLUMNS)):
        fs = sectc.overloads(ctx, name, 3)
        for f in fs if ctx.tier == "thorough" else fs[:1]:
            go(f, what, ref, ref, whole, (), fields)
    for name, k, outs in (("primitive", 4, (("$2", "integral of the profile", None), ("$3", "first moment of the profile", None))),
                          ("supersample", 3, (("$2", "samples", lambda z: len(z[sym("$2")])),)),
                          ("continuum", 3, (("$2", "continuum", n),)),
                          ("convolute", 5, (("$2", "optical depth", n), ("$3", "absorption", n), ("$4", "convolved absorption", n)))):
        fs = sectc.private(ctx, name, k)
        if not fs:
            ctx.unknown(name, "section.h", "no such member")
        for f in fs if ctx.tier == "thorough" and name != "convolute" else fs[:1]:
            go(f, name, name, name, plain, outs)
    ctx.minimum("functions", 3)

"""Masked data points never influence the fit."""
import random
from common import *
import sectc

LEVEL = "translation_validation"
TECHNIQUE = "static analysis: value graphs of mask, count, cost and continuum of a section compared with reference definitions; non-interference of masked values"
RULE = ("masking clears the mask of exactly the points in the closed interval and changes nothing else; the count is the number of set mask elements; in cost and "
        "continuum, flux and uncertainty occur under the mask of their own point only, as in the reference, and no pair of instances that differ in masked values "
        "alone has different results")
NOTE = "Any number of data points and continuum terms; the optical depth of the lines is uninterpreted."
ASSUME = ["real arithmetic (rounding is not modelled)", "flux and uncertainty are numbers and the uncertainty is not zero"]
COLUMNS = ("wav", "flx", "unc", "opt", "atm", "cat", "cfl", "tfl", "fit", "res")


def run(ctx):
    P = ctx.P
    n = lambda z: z[sym("this")]["n"]
    for f in sectc.overloads(ctx, "mask", 2)[:1]:
        where = P.where(f)
        ctx.count("functions")

        def mask():
            r, s = ctx.run(f), ctx.spec("spec::Section::mask")
            a, b = r.mem["this"], s.mem["this"]
            ctx.same("mask: changes the mask inside of the interval only", fld(fld(a, "msk"), "a"), fld(fld(b, "msk"), "a"), where, probe=sectc.Probe("mask"), extent=n)
            for x in COLUMNS:
                ctx.same("mask: leaves %s alone" % x, fld(fld(a, x), "a"), fld(fld(sym("this"), x), "a"), where, probe=sectc.Probe("mask"), extent=n)
            for pc, e, m in r.throws:
                ctx.bad("mask: does not fail", where, "throws when " + C.short(pc, 200))
        ctx.guarded("mask", where, mask)
    for f in sectc.overloads(ctx, "valid_data_count", 0)[:1]:
        where = P.where(f)
        ctx.count("functions")

        def count():
            r, s = ctx.run(f), ctx.spec("spec::Section::counted")
            ctx.same("number of valid points", r.ret, s.ret, where, probe=sectc.Probe("stored"))
        ctx.guarded("number of valid points", where, count)
    for f in sectc.overloads(ctx, "data_count", 0)[:1]:
        where = P.where(f)
        ctx.count("functions")
        ctx.guarded("number of points", where, lambda: ctx.same("number of points", ctx.run(f).ret, ctx.spec("spec::Section::size").ret, where, probe=sectc.Probe("stored")))
    whole, plain = sectc.hooks(), sectc.hooks(False)
    for what, fs, ref, kind, hk, out in (
            ("stored cost", sectc.overloads(ctx, "cost", 0), "stored", "stored", plain, None),
            ("cost of a trial", sectc.overloads(ctx, "cost", 3), "cost", "cost", whole, None),
            ("continuum", sectc.private(ctx, "continuum", 3), "continuum", "continuum", plain, "$2")):
        for f in fs if ctx.tier == "thorough" else fs[:1]:
            where = P.where(f)
            ctx.count("functions")

            def go():
                r = ctx.run(f, hooks=hk)
                s = ctx.spec("spec::Section::" + ref, hooks=hk)
                a, b = (r.ret, s.ret) if out is None else (fld(r.mem[out], "a"), fld(s.mem[out], "a"))
                name = "%s: independent of masked values" % what
                ctx.compared += 1
                if C.identical(a, b):
                    return ctx.ok(name, where)
                w = depends(a, sectc.Probe(kind), n if out else None)
                if w:
                    ctx.bad(name, where, w)
                else:
                    ctx.unknown(name, where, "not the normal form of the reference, no pair of instances depends on masked values")
            ctx.guarded(what, where, go)
    ctx.minimum("functions", 5)


def depends(x, probe, extent):
    """two instances that differ in masked values only and have different results"""
    found = 0
    with mpmath.workdps(40):
        for seed in range(2 * probe.seeds):
            s, t = probe.sizes(seed), probe.sizes(seed)
            q = t[sym("this")]
            if all(q["msk"]):
                continue
            r = random.Random(seed)
            for k in ("flx", "unc", "res"):
                if k != "res" or probe.kind == "stored":
                    q[k] = [v if m else round(v + r.uniform(1, 9), 3) for v, m in zip(q[k], q["msk"])]
            n = extent(s) if extent else None
            try:
                a, b = inst.values(x, s, seed, n, probe.fns), inst.values(x, t, seed, n, probe.fns)
            except (inst.Undefined, OverflowError, RecursionError, TypeError, ZeroDivisionError, ValueError):
                continue
            if any(not inst.close(u, v) for u, v in zip(a, b)):
                found += 1
                if found >= 2:
                    return "values of masked points change the result: mask %s, %s and %s" % (
                        "".join("01"[m] for m in q["msk"]), *(", ".join(mpmath.nstr(u, 6) for u in v) for v in (a, b)))
    return None


from inst import mpmath                                               # noqa

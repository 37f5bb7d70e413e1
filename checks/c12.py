"""Free parameters and the optimizer's vector."""
from common import *
import modelc

LEVEL = "translation_validation"
TECHNIQUE = "static analysis: value graphs of the accessors, the evaluation and the update of a model compared with reference definitions in one index table"
RULE = ("number of free parameters, start values, step sizes, bounds, evaluation and update of a model are the reference functions of its index table: "
        "element ind[i] of the optimizer's vector belongs to parameter i if msk[i], other parameters keep their value; each section is evaluated and updated with "
        "its own resolution, lines and continuum degree taken from the vector of parameters")
NOTE = "Every model at once, any number of sections, lines and references; the cost and the application of a section are uninterpreted (see C09)."
ASSUME = ["real arithmetic (rounding is not modelled)"]
FNS = (("get_parameter_count", 0, "count", None), ("get_initial_parameter_values", 0, "middle", "v"), ("get_initial_local_step_sizes", 0, "half", "v"),
       ("get_constraint", 0, "bounds", "b"), ("operator()", 2, "evaluate", None), ("set", 2, "store", "m"))


def run(ctx):
    P = ctx.P
    for name, n, ref, kind in FNS:
        for f in modelc.pick(ctx, modelc.methods(ctx, name, n)):
            where = P.where(f)
            label = "%s: %s" % (modelc.flavour(P, f), name) if ctx.tier == "thorough" else name
            ctx.count("methods")

            def go():
                k = modelc.parameter_count(ctx, f)
                hk = modelc.hooks(k)
                probe = modelc.Probe(int(k.a[0]))
                r = ctx.run(f, hooks=hk)
                s = ctx.spec("spec::Table::" + ref, hooks=hk)
                def vec(what, a, b):
                    ctx.same("%s: number of %s" % (label, what), fld(a, "n"), fld(b, "n"), where, probe=probe)
                    p = modelc.Probe(int(k.a[0]))
                    ctx.same("%s: %s" % (label, what), fld(a, "a"), fld(b, "a"), where, probe=p, extent=size)
                if kind == "v":
                    vec("values", r.ret, s.ret)
                elif kind == "b":
                    fs = [x for x, _ in r.ret.a[0]] if r.ret.op == "rec" else []
                    if len(fs) != 2:
                        raise Unknown("the bounds")
                    vec("lower bounds", fld(r.ret, "a"), fld(s.ret, "a"))
                    vec("upper bounds", fld(r.ret, "b"), fld(s.ret, "b"))
                elif kind == "m":
                    for x in ("val", "unc"):
                        ctx.same("%s: %s" % (label, {"val": "values", "unc": "uncertainties"}[x]), fld(fld(r.mem["this"], x), "a"), fld(fld(s.mem["this"], x), "a"), where,
                                 probe=probe, extent=lambda z: len(z[sym("this")]["val"]))
                    ctx.same("%s: sections" % label, fld(fld(r.mem["this"], "sections"), "a"), fld(fld(s.mem["this"], "sections"), "a"), where, probe=Sections(int(k.a[0])),
                             extent=lambda z: len(z[sym("this")]["isc"]))
                    for x in ("isc", "nle", "nli", "lo", "up", "msk", "ind"):
                        ctx.same("%s: leaves %s alone" % (label, x), fld(r.mem["this"], x), fld(sym("this"), x), where)
                else:
                    ctx.same("%s: result" % label, r.ret, s.ret, where, probe=probe)
            ctx.guarded(label, where, go)
    ctx.minimum("methods", len(FNS))


def size(z):
    m = z[sym("this")]
    return max([i for i, k in zip(m["ind"], m["msk"]) if k] or [0]) + 1


class Sections(modelc.Probe):
    """sections as numbers that tell them apart"""

    def applied(self, I, t, env):
        return I.leaf("applied", modelc.Probe.applied(self, I, t, env))

"""Strategy parameters are a function of the final dimension and parent number."""
from common import *

LEVEL = "translation_validation"
TECHNIQUE = ("static analysis: object invariant proved inductively over the public methods of the builder by value numbering; "
             "the invariant is a reference definition lowered by the same tool")
RULE = ("invariant of Optimizer::Builder: every derived field is the reference function of the fields n and parent_number; it holds after "
        "the constructor and is preserved by every public method that can change the object, getters return the field they name, "
        "and Optimizer::optimize passes each derived value in its own position")
NOTE = "All sequences of configuration calls at once, by induction; real arithmetic, the order of a sum is not distinguished."
ASSUME = ["real arithmetic (rounding is not modelled)", "the builder's state is changed through its own methods only"]
B = "especia::Optimizer::Builder"
DERIVED = ("weights", "wv", "cs", "cc", "acov", "ccov", "step_size_damping")
GET = {"get_problem_dimension": "n", "get_parent_number": "parent_number", "get_population_size": "population_size",
       "get_weights": "weights", "get_step_size_cumulation_rate": "cs", "get_distribution_cumulation_rate": "cc",
       "get_rank_1_covariance_matrix_adaption_rate": "ccov", "get_rank_m_covariance_matrix_adaption_rate": "acov",
       "get_step_size_damping": "step_size_damping"}


def derived(ctx, n, m):
    s = ctx.spec("spec::Strategy::derive", this=rec({"n": n, "parent_number": m}))
    return {f: fld(s.mem["this"], f) for f in DERIVED}


def run(ctx):
    P = ctx.P
    def fields(name, o, where, when=TRUE):
        n, m = fld(o, "n"), fld(o, "parent_number")
        want = derived(ctx, n, m)
        for f in DERIVED:
            if f == "wv":
                continue
            ctx.same("%s: %s" % (name, f), fld(o, f), want[f], where)
    ctor = [f for f in P.funcs if P.dn(f).get("fk") == "ctor" and P.qn(P.dn(f).get("rec", "")) == B
            and not P.funcs[f]["params"] and not P.funcs[f].get("implicit")]
    ctx.need(ctor, "constructor of the builder not found")
    for f in ctor:
        def go():
            r = ctx.run(f)
            fields("after construction", r.mem["this"], P.where(f))
        ctx.guarded("after construction", P.where(f), go)
        ctx.count("constructors")
    n, m = sym("n"), sym("m")
    inv = derived(ctx, n, m)
    others = {k: sym("old." + k) for k in ("population_size", "update_modulus", "accuracy_goal", "random_seed", "stop_generation")}
    pre = rec(dict(inv, n=n, parent_number=m, **others))
    methods = [f for f in P.funcs if P.qn(P.dn(f).get("rec", "")) == B and not P.dn(f).get("fk") and not P.dn(f).get("priv") and not P.dn(f).get("static")
               and not P.dn(f).get("constm") and not P.funcs[f].get("implicit")]
    for f in sorted(methods):
        nm = P.dn(f).get("n") or P.qn(f).split("::")[-1]
        if P.dn(f).get("copyassign"):
            continue
        ctx.count("methods that may change the builder")
        def go():
            r = ctx.run(f, this=pre)
            fields("after " + nm, r.mem["this"], P.where(f))
            # the settings themselves
            if nm.startswith("with_") and nm != "with_defaults" and len(P.funcs[f]["params"]) == 1:
                k = {"with_problem_dimension": "n", "with_parent_number": "parent_number"}.get(nm)
                if k:
                    ctx.same("after %s: %s" % (nm, k), fld(r.mem["this"], k), sym("$0"), P.where(f))
        ctx.guarded("after " + nm, P.where(f), go)
    ctx.minimum("methods that may change the builder", 8)
    for g, k in GET.items():
        for f in ctx.fn(B + "::" + g):
            def go():
                r = ctx.run(f)
                v = r.ret
                ctx.same(g + " returns " + k, v, fld(sym("this"), k), P.where(f))
            ctx.guarded(g, P.where(f), go)
            ctx.count("getters")
    ctx.minimum("getters", 9)
    passes(ctx)
    for f in P.funcs:
        d = P.dn(f)
        if d.get("fk") == "ctor" and P.qn(d.get("rec", "")) == "especia::Optimizer" and not d.get("copy"):
            def go():
                r = ctx.run(f, opaque=("especia::R_Decompose::R_Decompose", "especia::D_Decompose::D_Decompose",
                                       "especia::X_Decompose::X_Decompose", "especia::Normal_Deviate::Normal_Deviate"))
                ctx.same("the optimizer keeps the configuration it is built from", fld(r.mem["this"], "config"), sym("$0"), P.where(f))
            ctx.guarded("the optimizer keeps the configuration it is built from", P.where(f), go)
            ctx.count("optimizer constructors")
    ctx.minimum("optimizer constructors", 1)


SLOT = {2: "n", 3: "parent_number", 4: "population_size", 6: "step_size_damping", 7: "cs", 8: "cc", 9: "ccov", 10: "acov"}


def passes(ctx):
    """what the optimizer hands to the evolution strategy"""
    P = ctx.P
    for f in ctx.fn("especia::Optimizer::optimize"):
        seen = []

        def opt(ev, st, this, args, node):
            seen.append((ev.abspc(st), [ev.read(st, a) if isinstance(a, Loc) else ev.view(st, a) if a.op == "ptr" else a for a in args]))
            return None
        where = P.where(f)

        def go():
            del seen[:]
            ctx.run(f, hooks={"especia::optimize": opt, "especia::postopti": lambda *a: None})
            cfg = fld(sym("this"), "config")
            if not seen:
                return ctx.unknown("optimizer passes its configuration", where, "no call of the evolution strategy was reached")
            for pc, v in seen:
                for i, k in SLOT.items():
                    ctx.same("argument %d of the evolution strategy is %s" % (i, k), v[i], fld(cfg, k), where)
                ctx.same("argument 5 of the evolution strategy is weights", v[5], fld(fld(cfg, "weights"), "a"), where)
        ctx.guarded("optimizer passes its configuration", where, go)
        ctx.count("optimizer entry points")
    ctx.minimum("optimizer entry points", 1)

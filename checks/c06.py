"""Every command-line argument controls the setting it names."""
from common import *
from mains import *

LEVEL = "translation_validation"
TECHNIQUE = "static analysis: value numbering of every main function over symbolic arguments (gated value graphs), compared at the library entry points"
RULE = ("in the value graph of every main function the value that arrives at each setting (optimizer, generator, tracer, reader) is the "
        "conversion of the argument that names it; every other number of arguments leads to exit code 8, none to 0 and the usage message")
NOTE = ("All argument lists at once. Conversion is an uninterpreted function of the argument whose own definition is a separate "
        "obligation; the optimizer's entry function is the observation point.")
ASSUME = ["argv has argc elements"]

OPT = {3: ("parent number", "u32", 2), 4: ("population size", "u32", 3), 12: ("accuracy goal", "real", 5),
       13: ("stop generation", "u32", 6), 16: ("global step size", "real", 4)}


def run(ctx):
    P = ctx.P
    argc = sym("$0")
    ne = lambda *ks: tuple((eq(argc, num(k)).a[0], False) for k in ks)
    for app in FITS:
        where = P.where(main_of(ctx, app))
        t = fit_main(ctx, app, 8)
        if t.r is not None:
            fit(ctx, app, t, where)
        t1 = fit_main(ctx, app, 1)
        if t1.r is not None:
            ctx.same(app + ": no argument: exit code 0", t1.r.ret, ZERO, where)
            usage(ctx, app, t1.r, where)
            ctx.check(app + ": no argument: nothing is computed", not t1.opt and not t1.parse, where, "the model is read or optimized")
        t2 = fit_main(ctx, app, None)
        if t2.r is not None:
            ctx.same(app + ": wrong number of arguments: exit code 8", t2.r.ret, num(8), where, path=ne(1, 8))
    for u in UTILS:
        skip = {"helicorr": 2, "ezip": 3}.get(u, 1)
        where = P.where(main_of(ctx, u))
        for n in (skip, skip + 1):
            t = tool_main(ctx, u, argc=n)
            if t.r is None:
                continue
            ctx.check(u + ": data are read (%d arguments)" % (n - 1), len(t.gets) == (2 if u == "ezip" else 1), where,
                      "%d calls read data" % len(t.gets))
            for k, g in enumerate(t.gets):
                pc = lits(g["pc"])
                if n > skip:
                    ctx.same(u + ": argument %d is the number of lines to skip (read %d)" % (skip, k + 1), g["in"][-1], t.arg("u32", skip), where, path=pc)
                else:
                    ctx.same(u + ": no lines are skipped by default (read %d)" % (k + 1), g["in"][-1], ZERO, where, path=pc)
                if u == "ezip":
                    ctx.same(u + ": argument %d is the %s file (%d arguments)" % (k + 1, ("flux", "uncertainty")[k], n - 1),
                             g["from"], mk("file", t.argv(k + 1)), where, path=pc)
                else:
                    ctx.check(u + ": standard input is read", repr(g["stream"]) == "Loc(g:std::cin)", where, "read from %r" % g["stream"])
        t = tool_main(ctx, u)
        if t.r is not None:
            ctx.same(u + ": wrong number of arguments: exit code 8", t.r.ret, num(8), where, path=ne(1, skip, skip + 1))
        if skip > 1:
            t = tool_main(ctx, u, argc=1)
            if t.r is not None:
                ctx.same(u + ": no argument: exit code 0", t.r.ret, ZERO, where)
                usage(ctx, u, t.r, where)
    conv(ctx)
    ctx.minimum("program runs", 12)
    ctx.minimum("tools", 14)


def fit(ctx, app, t, where):
    P = ctx.P
    if not t.opt:
        ctx.bad(app + ": runs the optimizer", where, "no call of the optimization function is reached from main")
    for o in t.opt:
        path = lits(o["pc"])
        for i, (nm, kind, k) in OPT.items():
            ctx.same(app + ": argument %d is the %s" % (k, nm), o["vals"][i], t.arg(kind, k), where, path=path)
        ctx.same(app + ": the function that is optimised is the model read", o["vals"][0], sym("model"), where, path=path)
        ctx.same(app + ": the constraint is the model's", o["vals"][1], mk("constraint", sym("model")), where, path=path)
        ctx.same(app + ": the dimension is the number of free parameters", o["vals"][2], mk("count", sym("model")), where, path=path)
        st, ev = o["state"], o["ev"]
        ctx.same(app + ": initial values are the model's", ev.view(st, o["vals"][15]), mk("x0", sym("model")), where, path=path)
        ctx.same(app + ": initial step sizes are the model's", ev.view(st, o["vals"][17]), mk("d0", sym("model")), where, path=path)
        ctx.same(app + ": generation counter starts at zero", o["vals"][14], ZERO, where, path=path)
        g = sym("g!")

        def tracing():
            tr = o["args"][-1]
            tv = ev.read(st, tr) if isinstance(tr, Loc) else tr
            cn = P.ty(P.dn(P.funcs[o["node"]["f"]]["params"][-1])["t"])
            rn = P.ty(cn["e"]) if cn["k"] == "ref" else cn
            cls = P.qn(rn["d"])
            fs = [f for f in P.funcs if evalv.stripargs(P.qn(f)) == evalv.stripargs(cls) + "::is_tracing"]
            ctx.need(fs, "is_tracing of %s not found" % cls)
            r = ctx.run(fs[0], tv, [g])
            m = t.arg("u32", 7)
            want = AND(NOT(eq(m, ZERO)), eq(app_mod(g, m), ZERO))
            ctx.same(app + ": argument 7 is the trace modulus", r.ret, want, where, path=path)
        ctx.guarded(app + ": trace modulus", where, tracing)
    if not t.seeds:
        ctx.bad(app + ": a random generator is seeded", where, "no generator is constructed")
    for s in t.seeds:
        ctx.check(app + ": generator has one seed value", len(s["vals"]) == 1, where, "constructed from %d values" % len(s["vals"]))
        ctx.same(app + ": argument 1 is the random seed", s["vals"][0], t.arg("u64", 1), where, path=lits(s["pc"]))
    for p in t.parse:
        ctx.check(app + ": reads standard input", repr(p["args"][0]) == "Loc(g:std::cin)", where, "reads %r" % p["args"][0])
        ctx.check(app + ": writes standard output", repr(p["args"][1]) == "Loc(g:std::cout)", where, "writes %r" % p["args"][1])


def usage(ctx, app, r, where):
    out = stream(r, "std::cout")
    ctx.check(app + ": no argument: the usage message is printed", "usage" in C.short(out, 4000).lower(), where,
              "standard output is " + C.short(out, 200))


def app_mod(a, b):
    return app("imod", a, b)


def conv(ctx):
    """convert<T>(s) is the value extracted from s, or throws"""
    P = ctx.P
    fs = [f for f in P.funcs if P.qn(f) == "especia::convert"]
    ctx.need(fs, "especia::convert not found")
    for f in fs:
        t = P.ty(P.dn(f).get("ret"))
        k = evalv.stdmodel.kind_of(t)

        def go():
            r = ctx.run(f)
            tok, can = mk("tok", k, sym("$0")), atom(mk("can", k, sym("$0")))
            ctx.same("convert to %s: value is the number read" % k, r.ret, tok, P.where(f), path=lits(can))
            ctx.same("convert to %s: returns exactly if a number can be read" % k, r.pc, can, P.where(f))
            for pc, exc, mem in r.throws:
                ctx.check("convert to %s: throws a logic error" % k, exc.op == "exc" and evalv.catches("std::logic_error", exc.a[0]), P.where(f),
                          "throws " + C.short(exc, 80))
            ctx.same("convert to %s: throws exactly if no number can be read" % k, OR(*[x[0] for x in r.throws]), NOT(can), P.where(f))
        ctx.guarded("convert to " + k, P.where(f), go)

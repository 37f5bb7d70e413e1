"""An integral is the sum over a partition of its interval."""
from integ import *

LEVEL = "translation_validation"
TECHNIQUE = "static analysis: value graphs of the partition's operations and of the transformations of infinite ranges, against the definition of the adaptive scheme"
RULE = ("the partition starts with one part for the whole interval; refining takes out the part that the error comparison selects and puts in exactly the lower and the upper "
        "half of that part; result and error are the sums over all parts, of any number; integrate() refines until the error is below the goal or the number of steps is used "
        "up and returns the result; an integral to infinity is that of f(-log u)/u over (0,1) with zero at u = 0, one from minus infinity that of f(-x), one over "
        "all numbers the sum of both; goal and step limit are passed on")
NOTE = "The number of parts, the integrand, the goal and the limit are symbolic; the order of the parts in their container is not part of the comparison."
ASSUME = ["std::push_heap and std::pop_heap permute their range; the latter moves the largest element to the end"]


def partition(ctx):
    P = ctx.P
    F = [x for x in P.funcs if P.qn(x).startswith("especia::Integrator<>::Partition<double (*)(double)") and not P.funcs[x].get("implicit")]
    named = lambda n: [x for x in F if P.qn(x).split("::")[-1] == n]
    half = lambda k: (lambda ev, st, this, a, n: mk("half", k, ev.read(st, this)))
    hk = {"especia::Integrator::Part::new_lower_part": half("lower"), "especia::Integrator::Part::new_upper_part": half("upper")}
    N, A = sym("N"), sym("A")
    ctor = [x for x in F if P.dn(x).get("fk") == "ctor"]

    def state():
        """the object with N parts: the only container is the one of the parts"""
        r = Ev(P, hooks=new(P)).run(ctor[0], None, [None, sym("a"), sym("b"), sym("p"), sym("q")])
        t = r.mem["this"]
        vs = [k for k, v in t.a[0] if v.op == "rec" and {x for x, _ in v.a[0]} == {"a", "n"}]
        if len(vs) != 1:
            raise Unknown("the parts of a partition")
        return vs[0], t, r

    def go():
        k, t, r = state()
        ps = fld(t, k)
        w = P.where(ctor[0])
        ctx.same("a new partition has one part", fld(ps, "n"), ONE, w)
        ctx.same("a new partition's part covers the whole interval", target(r, bag(fld(ps, "a"), ONE)[0][0]), mk("part", sym("a"), sym("b"), sym("p"), sym("q")), w)
        this = setf(t, k, rec({"n": N, "a": A}))
        for x in named("refine"):
            w = P.where(x)
            u = Ev(P, hooks=hk).run(x, this)
            ctx.fns |= u.ev.inlined
            q = fld(u.mem["this"], k)
            ctx.same("refining adds one part", fld(q, "n"), add(N, ONE), w)
            new_, base, m = bag(fld(q, "a"), fld(q, "n"))
            halves = [v for v in new_ if v.op == "half"]
            ctx.check("refining adds the halves of one part", len(new_) == 2 and {v.a[0] for v in new_ if v.op == "half"} == {"lower", "upper"}, w,
                      "the parts added are " + ", ".join(C.short(v, 80) for v in new_))
            ctx.same("refining removes one part", m, sub(N, ONE), w)
            if len(halves) == 2:
                ctx.same("both halves are those of one part", halves[0].a[1], halves[1].a[1], w)
                ctx.same("the part removed is the part bisected", halves[0].a[1], mk("tgt", sel(base, m)), w)
            if base.op == "heap" and base.a[0] == "pop_heap":
                ctx.same("the part bisected is the one the comparison selects", base.a[2], N, w)
            ctx.count("operations")
        for nm in ("result", "absolute_error"):
            pf = [x for x in P.funcs if P.qn(x).startswith("especia::Integrator<>::Part<double (*)(double)") and P.qn(x).endswith("::" + nm)]
            for x in named(nm):
                u = Ev(P).run(x, this)
                ctx.fns |= u.ev.inlined
                I = tm.fresh()
                one = lambda i: Ev(P).run(pf[0], mk("tgt", sel(A, i))).ret
                ctx.same(nm.replace("_", " ") + " is the sum over the parts", u.ret, Sum(N, I, one(I)), P.where(x))
                ctx.count("operations")
    ctx.guarded("partition", "integrator.h", go)
    for x in [x for x in P.funcs if P.qn(x).startswith("especia::Integrator<>::Part_Compare<especia::Integrator<>::Part<double (*)(double)") and P.qn(x).endswith("operator()")]:
        def cmp():
            r = ctx.run(x)
            e = [y for y in P.funcs if P.qn(y).startswith("especia::Integrator<>::Part<double (*)(double)") and P.qn(y).endswith("::absolute_error")]
            a, b = [Ev(P).run(e[0], sym(s)).ret for s in ("*$0", "*$1")]
            ctx.same("parts are compared by their errors", r.ret, lt0(sub(a, b), False), P.where(x))
            ctx.count("operations")
        ctx.guarded("comparison", P.where(x), cmp)


def target(r, p):
    return r.mem[p.a[0]] if p.op == "ptr" and p.a[0] in r.mem else p


def new(P):
    def make(ev, st, this, a, n):
        if this is not None:
            v = mk("part", *[ev.read(st, x) if isinstance(x, Loc) else x for x in a[1:]])
            ev.write(st, this, v)
            return v
        return mk("part", *[ev.read(st, x) if isinstance(x, Loc) else x for x in a[1:]])
    return {"especia::Integrator::Part::Part": make}


def bag(a, n):
    """([elements added], base, number of elements of the base that are kept)"""
    out = []
    while True:
        if a.op == "heap" and a.a[0] != "pop_heap":
            n2 = a.a[2]
            if n2 is not n:
                raise Unknown("a heap of %s elements among %s" % (n2, n))
            a = a.a[1]
        elif a.op == "sto":
            b, i, v = a.a
            if i is not sub(n, ONE):
                raise Unknown("a part stored at %s of %s" % (i, n))
            out.append(v)
            a, n = b, i
        elif a.op == "list":
            return out + list(a.a[0]), None, ZERO
        else:
            return out, a, n


def run(ctx):
    P = ctx.P
    partition(ctx)
    f, x = sym("$0"), sym("u")

    def integ(ev, st, this, args, node):
        c = args[0]
        while isinstance(c, Loc):
            c = ev.read(st, c)
        if c.op == "clos":
            body = ev.invoke_closure(c, [x], st)
        else:
            body = mk("call", c, (x,))
        while isinstance(body, Loc):
            body = ev.read(st, body)
        return mk("integral", body, *[ev.read(st, a) if isinstance(a, Loc) else a for a in args[1:]])

    fptr = lambda n: [y for y in P.funcs if P.qn(y) == "especia::Integrator<>::" + n and ("IPFddE" in y.split(n)[1][:8])]
    goal, lim = sym("$1"), sym("$2")
    F = lambda arg: mk("call", sym("*f"), (arg,))
    logx = app("log", x)
    pos = mk("integral", ite(lt0(neg(x), False), mul(F(neg(logx)), powr(x, -1)), ZERO), ZERO, ONE, goal, lim)
    negv = mk("integral", ite(lt0(neg(x), False), mul(F(logx), powr(x, -1)), ZERO), ZERO, ONE, goal, lim)
    for nm, want in (("integrate_positive_infinite", pos), ("integrate_negative_infinite", negv), ("integrate_infinite", add(pos, negv))):
        fs = fptr(nm)
        if not fs:
            ctx.need(any(P.qn(y) == "especia::Integrator<>::" + nm for y in P.funcs), nm + " not found")
            ctx.unknown(nm, "integrator.h", "no instance for functions")
            continue
        ctx.count("transformations")

        def go():
            r = ctx.run(fs[0], None, None, {}, hooks={"especia::Integrator::integrate": integ})
            got = r.ret
            ctx.same(nm.replace("_", " "), tm.replacefn(got, lambda t: sym("*f") if t is sym("$0") else None), want, P.where(fs[0]))
        ctx.guarded(nm, P.where(fs[0]), go)
    for y in fptr("integrate"):
        def go():
            S0 = sym("whole")

            def make(ev, st, this, args, node):
                vs = [ev.read(st, a) if isinstance(a, Loc) else a for a in args]
                v = mk("partition", *vs)
                if this is not None:
                    ev.write(st, this, v)
                return v

            def refine(ev, st, this, args, node):
                ev.write(st, this, mk("refined", ev.read(st, this)))
                return None
            obs = lambda k: (lambda ev, st, this, a, n: mk("call", sym(k), (ev.read(st, this),)))
            hk = {"especia::Integrator::Partition::Partition": make, "especia::Integrator::Partition::refine": refine,
                  "especia::Integrator::Partition::absolute_error": obs("err"), "especia::Integrator::Partition::result": obs("res")}
            r = ctx.run(y, None, None, None, hooks=hk)
            th = sym("this")
            whole = mk("partition", sym("$0"), sym("$1"), sym("$2"), fld(th, "p"), fld(th, "q"))
            hs = {"spec::Whole::refine": refine, "spec::Whole::error": obs("err"), "spec::Whole::value": obs("res")}
            s = ctx.spec("spec::integrate", None, [None, sym("$3"), sym("$4")], {}, hooks=hs)
            want = tm.replacefn(s.ret, lambda t: whole if t is sym("$0") else None)
            ctx.same("integrate", r.ret, want, P.where(y))
            ctx.count("transformations")
        ctx.guarded("integrate", P.where(y), go)
    ctx.minimum("transformations", 1)

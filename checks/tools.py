"""Value graphs of the programs' main functions, with the library entry points as events."""
from common import *


def VEC(name):
    return sym(name)


def derivative(t, x):
    """d t / d x of a rational expression"""
    if t is x:
        return ONE
    if not occurs(x, t):
        return ZERO
    if t.op == "poly":
        out = []
        for m, c in t.a[0]:
            for k, (a, e) in enumerate(m):
                da = derivative(a, x)
                if da is ZERO:
                    continue
                rest = tuple((b, g) for j, (b, g) in enumerate(m) if j != k)
                p = num(c * e)
                for b, g in rest:
                    p = mul(p, powr(b, g))
                out.append(mul(p, powr(a, e - 1), da))
        return add(*out)
    if t.op == "app" and t.a[0] == "exp":
        return mul(t, derivative(t.a[1], x))
    if t.op == "app" and t.a[0] == "log":
        return div(derivative(t.a[1], x), t.a[1])
    raise Unknown("derivative of " + t.op)


class Tool:
    pass


def main_of(ctx, name):
    P = ctx.P
    for f in P.funcs:
        if f.startswith("f:main@") and os.path.basename(f.split("@")[1]) == name + ".cxx":
            return f
    raise AnalysisBroken("no main function of %s found" % name)


def conv_name(P, node, ev):
    """target type of a convert<> call"""
    t = ev.P.ty(P.dn(node["f"]).get("ret"))
    return {"float": "real", "uint": "u%s" % t.get("bits"), "int": "i%s" % t.get("bits")}.get(t["k"], t["k"])


def tool_main(ctx, name, hooks=(), extra=None, budget=600000, argc=None, faulty=False):
    """run the value-graph evaluator over a program's main"""
    P = ctx.P
    t = Tool()
    t.name, t.fid = name, main_of(ctx, name)
    t.gets, t.puts, t.converts, t.events, t.sites = [], [], [], [], []
    from mains import faults
    hk = {}

    def get(ev, st, this, args, node):
        ins, outs = [], []
        for k, a in enumerate(args):
            if k == 0:
                continue
            if isinstance(a, Loc):
                v = sym("data%d.%d" % (len(t.gets), k - 1))
                outs.append(v)
                st.mem[a.root] = evalv.wrpath(st.mem[a.root], a.path, v)
            else:
                ins.append(a)
        t.gets.append({"pc": ev.abspc(st), "out": outs, "in": ins, "stream": args[0],
                       "from": fld(ev.read(st, args[0]), "in")})
        if faulty:
            faults(ev, t, st, "get%d" % len(t.gets))
        okv = atom(mk("readok", num(len(t.gets))))
        t.gets[-1]["ok"] = okv.a[0]
        l = args[0]
        ev.write(st, l + (("f", "fail"),), NOT(okv))
        ev.write(st, l + (("f", "bad"),), FALSE)
        return l

    def put(ev, st, this, args, node):
        t.puts.append({"pc": ev.abspc(st), "args": [ev.read(st, a) if isinstance(a, Loc) else a for a in args[1:]],
                       "stream": args[0], "node": node})
        if faulty:
            faults(ev, t, st, "put%d" % len(t.puts))
        return args[0]

    def convert(ev, st, this, args, node):
        k = conv_name(P, node, ev)
        s = args[0]
        s = ev.read(st, s) if isinstance(s, Loc) else s
        v = mk("conv", k, s)
        cok = atom(mk("convok", k, s))
        t.converts.append((k, s, ev.abspc(st)))
        s2 = st.copy()
        s2.pc = AND(st.pc, NOT(cok))
        ev.throws.append((s2.pc, mk("exc", "std::invalid_argument", mk("convmsg", s)), dict(st.mem)))
        st.pc = AND(st.pc, cok)
        return v

    def solve(ev, st, this, args, node):
        vs = [ev.read(st, a) if isinstance(a, Loc) else a for a in args]
        f = vs[0]
        nm = evalv.stdmodel.last(P.qn(f.a[0])) if f.op == "fn" else None
        return mk("solve", sym(nm) if nm else f, vs[1])

    def edlen(ev, st, this, args, node):
        x = ev.read(st, args[0]) if isinstance(args[0], Loc) else args[0]
        nm = evalv.stdmodel.last(P.qn(node["f"]))
        return mk("call", sym(nm), (x,))
    hk["especia::get"] = get
    hk["especia::put"] = put
    hk["especia::convert"] = convert
    if "solve" in hooks:
        hk["especia::solve"] = solve
    if "edlen" in hooks:
        for n in ("edlen66", "edlen53", "birch94"):
            hk["especia::Equations::" + n] = edlen
    hk.update(extra or {})
    t.r = None
    t.ev = None
    ctx.count("tools")

    def go():
        t.ev = Ev(P, budget=budget, hooks=hk)
        r = t.ev.run(t.fid, None, [num(argc), None] if argc is not None else None)
        ctx.fns |= t.ev.inlined
        t.r = r
    ctx.guarded(name + ": main function", P.where(t.fid), go)
    t.argc = sym("$0")
    t.argv = lambda k: sel(sym("*$1"), num(k))
    t.arg = lambda kind, k: mk("conv", kind, t.argv(k))
    return t

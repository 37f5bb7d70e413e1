"""Value graphs of the fitting programs' main functions with the library entry points as events, and of every main
function with a fault at every library entry point."""
from common import *
from tools import main_of, conv_name, tool_main, Tool

FITS = ("azafran", "curcuma", "mascada", "oregano")
UTILS = ("vactoair", "airtovac", "helicorr", "ezip")
EXTRACT = ("ecom", "edat", "elog", "emes", "emod")
KINDS = ("std::logic_error", "std::runtime_error", "std::bad_alloc")
CODE = {"std::logic_error": 8, "std::runtime_error": 16, "std::bad_alloc": 64}


def lits(pc):
    """literals common to all paths of a condition, as a list of (atom variable, value)"""
    out = []
    changed = True
    while changed and pc.op == "ite":
        if pc.a[1] is FALSE:
            out.append((pc.a[0], False))
            pc = pc.a[2]
        elif pc.a[2] is FALSE:
            out.append((pc.a[0], True))
            pc = pc.a[1]
        else:
            break
    return tuple(out)


def faults(ev, t, st, site):
    """an operation that may throw: one alternative per kind of exception"""
    t.sites.append((site, ev.abspc(st)))
    for k in KINDS:
        a = atom(mk("fault", site, k))
        ev.throws.append((AND(st.pc, a), mk("exc", k, mk("msg", site, k)), dict(st.mem)))
        st.pc = AND(st.pc, NOT(a))


def append(ev, st, loc, piece):
    l = loc + (("f", "out"),)
    ev.write(st, l, cat(ev.read(st, l), piece))


class Fit:
    pass


def fit_main(ctx, app, argc=8, budget=600000):
    P = ctx.P
    t = Fit()
    t.name, t.fid = app, main_of(ctx, app)
    t.sites, t.parse, t.opt, t.post, t.set, t.put, t.seeds, t.throws = [], [], [], [], [], [], [], []
    t.order = []
    R = lambda ev, st, a: ev.read(st, a) if isinstance(a, Loc) else a

    def convert(ev, st, this, args, node):
        k = conv_name(P, node, ev)
        s = R(ev, st, args[0])
        v = mk("conv", k, s)
        cok = atom(mk("convok", k, s))
        ev.throws.append((AND(st.pc, NOT(cok)), mk("exc", "std::invalid_argument", mk("convmsg", s)), dict(st.mem)))
        st.pc = AND(st.pc, cok)
        return v

    def parse(ev, st, this, args, node):
        t.order.append("parse")
        t.parse.append({"pc": ev.abspc(st), "args": args})
        faults(ev, t, st, "parse")
        append(ev, st, args[1], mk("doc", "parse"))
        return sym("model")

    def optimize(ev, st, this, args, node):
        # f, constraint, n, parents, population, w, damping, cs, cc, ccov, acov, modulus, accuracy, stop, g, xw, step, d,
        # B, C, ps, pc, yw, optimized, underflow, deviate, decompose, compare, tracer
        fn = P.funcs[node["f"]] if node["f"] in P.funcs else None
        vals = [R(ev, st, a) for a in args]
        t.order.append("optimize")
        t.opt.append({"pc": ev.abspc(st), "args": args, "vals": vals, "node": node, "state": st.copy(), "ev": ev})
        faults(ev, t, st, "optimize")
        for i, a in enumerate(args):
            if isinstance(a, Loc) and 13 < i < 25:
                ev.write(st, a, atom(sym("opt.%d" % i)) if i in (23, 24) else sym("opt.%d" % i))
            elif not isinstance(a, Loc) and a.op == "ptr" and 13 < i < 25:
                ev.write(st, Loc(a.a[0], a.a[1]), sym("opt.%d" % i))
        l = args[-1]
        return None

    def postopti(ev, st, this, args, node):
        t.order.append("postopti")
        t.post.append({"pc": ev.abspc(st), "args": args, "vals": [R(ev, st, a) for a in args],
                       "views": [ev.view(st, a) if not isinstance(a, Loc) and a is not None and a.op == "ptr" else R(ev, st, a) for a in args[:-1]]})
        faults(ev, t, st, "postopti")
        a = args[-1]
        ev.write(st, Loc(a.a[0], a.a[1]), sym("post.z"))
        return None

    def mset(ev, st, this, args, node):
        t.order.append("set")
        t.set.append({"pc": ev.abspc(st), "vals": [ev.view(st, a) if not isinstance(a, Loc) and a.op == "ptr" else R(ev, st, a) for a in args],
                      "model": R(ev, st, this)})
        faults(ev, t, st, "set")
        ev.write(st, this, mk("fitted", R(ev, st, this)))
        return UNDEF

    def mput(ev, st, this, args, node):
        t.order.append("put")
        t.put.append({"pc": ev.abspc(st), "model": R(ev, st, this), "stream": args[0]})
        faults(ev, t, st, "put")
        append(ev, st, args[0], mk("doc", "put"))
        return args[0]

    def deviate(ev, st, this, args, node):
        vals = [R(ev, st, a) for a in args]
        t.seeds.append({"pc": ev.abspc(st), "vals": vals})
        return mk("gen", *vals)

    def decomp(ev, st, this, args, node):
        faults(ev, t, st, "decompose")
        return mk("decomp", *[R(ev, st, a) for a in args])
    hk = {"especia::convert": convert, "especia::Model::parse": parse, "especia::optimize": optimize, "especia::postopti": postopti,
          "especia::Model::set": mset, "especia::Model::put": mput, "especia::Normal_Deviate::Normal_Deviate": deviate,
          "especia::Model::get_parameter_count": lambda ev, st, this, a, n: mk("count", R(ev, st, this)),
          "especia::Model::get_initial_parameter_values": lambda ev, st, this, a, n: rec({"n": mk("count", R(ev, st, this)), "a": mk("x0", R(ev, st, this))}),
          "especia::Model::get_initial_local_step_sizes": lambda ev, st, this, a, n: rec({"n": mk("count", R(ev, st, this)), "a": mk("d0", R(ev, st, this))}),
          "especia::Model::get_constraint": lambda ev, st, this, a, n: mk("constraint", R(ev, st, this)),
          "especia::R_Decompose::R_Decompose": decomp, "especia::D_Decompose::D_Decompose": decomp, "especia::X_Decompose::X_Decompose": decomp}
    t.r = None
    ctx.count("program runs")

    def go():
        ev = Ev(P, budget=budget, hooks=hk)
        r = ev.run(t.fid, None, [num(argc) if argc is not None else None, None])
        ctx.fns |= ev.inlined
        t.r, t.ev = r, ev
    ctx.guarded(app + ": main function", P.where(t.fid), go)
    t.argv = lambda k: sel(sym("*$1"), num(k))
    t.arg = lambda kind, k: mk("conv", kind, t.argv(k))
    return t


def stream(r, name):
    return fld(r.mem["g:" + name], "out") if "g:" + name in r.mem else EMPTY

"""Failures end in the documented exit code with a message."""
from common import *
from mains import *
import re

LEVEL = "translation_validation"
TECHNIQUE = ("static analysis: value graphs of every main function with a fault alternative at every library entry point; "
             "exception-flow rules over the whole program")
RULE = ("with an exception of each kind at each operation a main function reaches, the exit code is 8 / 16 / 64 and standard error is that "
        "exception's message and a newline, nothing escapes; no thrown type lies outside std::exception, no function that may throw "
        "is noexcept, nothing ends the process, no handler outside main drops an exception; input that cannot be read leads to 16")
NOTE = "Every operation at which a fault is placed is a library entry point reached from main; output errors are not part of the claim."
ASSUME = ["library entry points throw only at the calls (model: std::logic_error, std::runtime_error, std::bad_alloc and their subclasses)"]
ENDERS = ("exit", "abort", "_exit", "_Exit", "quick_exit", "terminate", "raise", "longjmp", "kill", "__assert_fail", "at_quick_exit", "set_terminate", "signal")


def faultatoms(site, k):
    return atom(mk("fault", site, k)).a[0]


def fault_obligations(ctx, nm, t, where, success=True):
    r = t.r
    if r is None:
        return
    for i, (site, pc) in enumerate(t.sites):
        for k in KINDS:
            ctx.count("fault sites")
            cond = AND(pc, *([NOT(atom(faultatoms(site, j))) for j in KINDS[:KINDS.index(k)]] + [atom(faultatoms(site, k))]))
            ctx.when("%s: %s in %s: exit code" % (nm, k, site), cond, r.ret, num(CODE[k]), where)
            ctx.when("%s: %s in %s: message on standard error" % (nm, k, site), cond, stream(r, "std::cerr"), cat(mk("msg", site, k), string("\n")), where)
    ctx.ok("%s: exceptions leaving main enumerated" % nm, where)
    for pc, exc, mem in r.throws:
        if pc is not FALSE and C.feasible(lits(pc)):
            ctx.bad("%s: no exception leaves main" % nm, where, "%s leaves main when %s" % (C.short(exc, 120), C.short(pc, 300)))


def run(ctx):
    P = ctx.P
    argc = sym("$0")
    for app in FITS:
        t = fit_main(ctx, app, 8)
        where = P.where(t.fid)
        if t.r is None:
            continue
        ctx.check(app + ": operations that may fail", len({s for s, _ in t.sites}) >= 5, where, "only %s are reached" % sorted({s for s, _ in t.sites}))
        fault_obligations(ctx, app, t, where)
        # every argument that cannot be converted
        good = TRUE
        for k, kind in ((1, "u64"), (2, "u32"), (3, "u32"), (4, "real"), (5, "real"), (6, "u32"), (7, "u32")):
            a = atom(mk("convok", kind, t.argv(k)))
            ctx.when(app + ": argument %d is not a number: exit code" % k, NOT(a), t.r.ret, num(8), where)
            ctx.when(app + ": argument %d is not a number: message" % k, AND(good, NOT(a)), stream(t.r, "std::cerr"),
                     cat(mk("convmsg", t.argv(k)), string("\n")), where)
            good = AND(good, a)
        ok = AND(*[NOT(atom(faultatoms(s, k))) for s, _ in t.sites for k in KINDS])
        for o in t.put:
            ctx.when(app + ": nothing on standard error without a failure", AND(o["pc"], ok), stream(t.r, "std::cerr"), EMPTY, where)
        if not t.put:
            ctx.bad(app + ": the result is written", where, "no call writes the model")
        counts(ctx, app, fit_main(ctx, app, None), where, (1, 8))
    for u in UTILS:
        skip = {"helicorr": 2, "ezip": 3}.get(u, 1)
        where = P.where(main_of(ctx, u))
        for n in (skip, skip + 1):
            t = tool_main(ctx, u, argc=n, faulty=True)
            if t.r is None:
                continue
            nm = "%s (%d arguments)" % (u, n - 1)
            fault_obligations(ctx, nm, t, where)
            ok = AND(*[NOT(atom(faultatoms(s, k))) for s, _ in t.sites for k in KINDS])
            for s, k, pc in t.converts:
                a = atom(mk("convok", s, k))
                ctx.when(nm + ": argument is not a number: exit code", AND(pc, NOT(a)), t.r.ret, num(8), where)
            good = TRUE
            err = stream(t.r, "std::cerr")
            for k, g in enumerate(t.gets):
                cond = AND(g["pc"], ok, NOT(atom(g["ok"])))
                ctx.when(nm + ": read %d fails: exit code" % (k + 1), cond, t.r.ret, num(16), where)
                ctx.when(nm + ": read %d fails: message on standard error" % (k + 1), cond, ite(eq(err, EMPTY), TRUE, FALSE), FALSE, where)
                ctx.check(nm + ": read %d fails: nothing is written" % (k + 1), AND(cond, OR(*[p["pc"] for p in t.puts])) is FALSE, where,
                          "data are written when " + C.short(AND(cond, OR(*[p["pc"] for p in t.puts])), 200))
                good = AND(good, atom(g["ok"]))
            if u == "ezip" and len(t.gets) == 2:
                y, z = t.gets[0]["out"][1], t.gets[1]["out"][1]
                e = eq(fld(y, "n"), fld(z, "n"))
                ctx.when(nm + ": numbers of data points differ: exit code", AND(t.gets[1]["pc"], ok, good, NOT(e)), t.r.ret, num(16), where)
            for p in t.puts:
                ctx.when(nm + ": success: exit code", AND(p["pc"], ok), t.r.ret, ZERO, where)
                ctx.when(nm + ": success: nothing on standard error", AND(p["pc"], ok), err, EMPTY, where)
        counts(ctx, u, tool_main(ctx, u), where, (1, skip, skip + 1))
    rules(ctx)
    ctx.minimum("fault sites", 100)


def counts(ctx, nm, t, where, valid):
    """every number of arguments the program does not take"""
    if t.r is None:
        return
    path = tuple((eq(sym("$0"), num(k)).a[0], False) for k in valid)
    ctx.same(nm + ": wrong number of arguments: exit code", t.r.ret, num(8), where, path=path)
    ctx.same(nm + ": wrong number of arguments: message on standard error", ite(eq(stream(t.r, "std::cerr"), EMPTY), TRUE, FALSE), FALSE, where, path=path)


STD_OK = set(evalv.BASES)


def exc_type(P, n):
    e = n.get("e")
    return P.ty(e.get("t")) if e else None


def rules(ctx):
    P = ctx.P
    mains = {f for f in P.funcs if f.startswith("f:main@")}
    for omp in (False, True):
        Q = ctx.prog(omp)
        mains = {f for f in Q.funcs if f.startswith("f:main@")}
        tag = " [OpenMP]" if omp else ""
        for f, fn in Q.funcs.items():
            d = Q.dn(f)
            if not fn.get("body") or Q.qn(f).startswith("vh_") or fn.get("implicit"):
                continue
            ctx.count("functions scanned" + tag)
            throws = False
            for n in nodes(fn["body"]):
                k = n.get("k")
                if k == "throw" and n.get("e"):
                    ctx.count("throw expressions" + tag)
                    throws = True
                    t = exc_type(Q, n)
                    nm = Q.qn(t.get("d", "")) if t["k"] == "rec" else t.get("s", t["k"])
                    if not derived(Q, nm):
                        ctx.bad("thrown types derive from std::exception" + tag, Q.where(f, n), "throws " + nm)
                elif k == "call" and n.get("f"):
                    c = Q.dn(n["f"])
                    q = Q.qn(n["f"])
                    ctx.count("calls scanned" + tag)
                    if q.split("::")[-1] in ENDERS and n["f"] not in Q.funcs:
                        ctx.bad("nothing ends the process" + tag, Q.where(f, n), "call of " + q)
                    if not c.get("noexcept") and q not in SAFE:
                        throws = True
                elif k == "new" or (k == "ctor" and not Q.dn(n["f"]).get("noexcept")):
                    throws = True
            nx = d.get("noexcept") or d.get("fk") == "dtor"
            if nx and not d.get("defaulted"):
                ctx.count("functions that must not throw" + tag)
                if throws and may_throw(Q, f):
                    ctx.bad("functions that must not throw cannot throw" + tag, Q.where(f), Q.qn(f) + " is noexcept and contains an operation that may throw")
            for n in nodes(fn["body"]):
                if n.get("k") == "try":
                    for h in n["h"]:
                        ctx.count("handlers" + tag)
                        if f in mains:
                            continue
                        if not keeps(Q, h):
                            ctx.bad("no handler outside main drops an exception" + tag, Q.where(f, h["b"]),
                                    "the handler of %s in %s neither rethrows nor stores the exception" %
                                    (Q.ty(h["t"])["s"] if h.get("t") else "...", Q.qn(f)))
        for r in ("thrown types derive from std::exception", "nothing ends the process", "functions that must not throw cannot throw",
                  "no handler outside main drops an exception"):
            if not any(o[0] == r + tag and o[1] == "violated" for o in ctx.obs):
                ctx.ok(r + tag, "whole program")
        ctx.minimum("throw expressions" + tag, 15)
        ctx.minimum("handlers" + tag, 20)
        ctx.minimum("calls scanned" + tag, 1000)


SAFE = {"std::move", "std::forward"}


def derived(Q, nm, depth=0):
    if nm in STD_OK or nm.startswith("std::") and (nm.endswith("_error") or nm.endswith("exception")):
        return True
    for d, x in Q.decls.items():
        if d.startswith("r:") and Q.qn(d) == nm:
            return any(derived(Q, Q.qn(b) if isinstance(b, str) else Q.qn(b.get("d", "")), depth + 1) for b in x.get("bases", [])) if depth < 6 else False
    return False


MATHS = {"abs", "sqrt", "exp", "log", "max", "min", "size", "swap", "fabs", "pow", "sin", "cos", "floor", "ceil", "isfinite", "operator[]", "begin", "end"}
_mt = {}


def may_throw(Q, f, stack=()):
    """does a function contain a throw expression, an allocation or a call of a function that does, outside a catch-all"""
    key = (id(Q), f)
    if key in _mt:
        return _mt[key]
    if f in stack:
        return False
    fn = Q.funcs.get(f)
    if fn is None:
        d = Q.dn(f)
        return not d.get("noexcept") and Q.qn(f).split("::")[-1] not in MATHS

    def go(n):
        if isinstance(n, list):
            return any(go(x) for x in n)
        if not isinstance(n, dict):
            return False
        k = n.get("k")
        if k == "lam":
            return False
        if k == "try" and any(not h.get("t") for h in n["h"]):
            return any(go(h["b"]) for h in n["h"])
        if k == "throw" or k == "new":
            return True
        if k in ("call", "ctor") and n.get("f"):
            d = Q.dn(n["f"])
            if not d.get("noexcept") and not (d.get("defaulted") and n["f"] not in Q.funcs) and may_throw(Q, n["f"], stack + (f,)):
                return True
        return any(go(v) for kk, v in n.items() if isinstance(v, (dict, list)))
    r = go(fn.get("body")) or any(go(i.get("e")) for i in fn.get("inits", []))
    _mt[key] = r
    return r


def keeps(Q, h):
    """a handler that throws on every path that leaves it normally, or stores the current exception"""
    b = h["b"]
    for n in nodes(b):
        if n.get("k") == "call" and n.get("f") and Q.qn(n["f"]) in ("std::current_exception", "std::rethrow_exception", "std::throw_with_nested"):
            return True
    return ends_in_throw(b)


def ends_in_throw(n):
    k = n.get("k") if isinstance(n, dict) else None
    if k == "throw":
        return True
    if k == "block":
        return any(ends_in_throw(s) for s in n["s"])
    if k == "if":
        return bool(n.get("y")) and ends_in_throw(n["x"]) and ends_in_throw(n["y"])
    return False

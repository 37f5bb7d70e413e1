"""Value graphs of the integrator's parts: one subinterval with symbolic ends, an uninterpreted integrand and fixed rules."""
from common import *

RULES = ("Q13", "Q19", "Q27", "Q41")


def expand(t):
    """sums, arrays and recurrences of a constant number of terms written out"""
    def f(x):
        if x.op == "sum" and x.a[0].op == "num" and x.a[0].a[0] <= 64:
            return add(*[expand(tm.inst(x.a[1], num(i))) for i in range(int(x.a[0].a[0]))])
        if x.op == "rec" and {k for k, v in x.a[0]} == {"a", "n"} and fld(x, "n").op == "num" and fld(x, "n").a[0] <= 64:
            n = int(fld(x, "n").a[0])
            return rec({"n": fld(x, "n"), "a": mk("list", tuple(expand(sel(fld(x, "a"), num(i))) for i in range(n)))})
        if x.op == "muval":
            return unroll(x)
        return None
    return tm.replacefn(t, f)


def unroll(x):
    mu = x.a[0]
    l, n = mu.a[0], len(mu.a[1])
    if n > 6 or len(mu.a[3]) < 1:
        return None
    cur = [expand(v) for v in mu.a[1]]
    for k in range(65):
        m = {mk("lv", l, -1): num(k)}
        m.update({mk("lv", l, i): cur[i] for i in range(n)})
        es = [expand(subst(e, m)) for e in mu.a[3]]
        if any(e is TRUE for e in es):
            return expand(subst(x.a[1], m)) if es[0] is TRUE else None
        if any(e is not FALSE for e in es):
            return None
        cur = [expand(subst(v, m)) for v in mu.a[2]]
    return None


class Parts:
    def __init__(self, ctx):
        self.ctx = ctx
        P = ctx.P
        self.fns = [x for x in P.funcs if P.qn(x).startswith("especia::Integrator<>::Part<") and "(*)(" in P.qn(x) and not P.funcs[x].get("implicit")]
        ct = [x for x in self.fns if P.dn(x).get("fk") == "ctor" and len(P.funcs[x]["params"]) == 5]
        if len(ct) != 1:
            raise Unknown("the constructor of a part of the integration interval is not found")
        self.ctor = ct[0]
        self.where = P.where(self.ctor)

    def fresh(self, a, b, p, q):
        """a part that has evaluated the integrand at all its abscissas itself"""
        ev = Ev(self.ctx.P, budget=400000)
        r = ev.run(self.ctor, None, [None, a, b, num(p), num(q)])
        self.ctx.fns |= ev.inlined
        if r.pc is not TRUE:
            raise Unknown("constructing a part: " + C.short(r.pc, 100))
        return r

    def makers(self):
        P = self.ctx.P
        out = []
        for x in self.fns:
            f = P.funcs[x]
            d = P.dn(x)
            ret = P.ty(d["ret"]) if d.get("ret") else None
            if not f["params"] and d.get("fk") != "ctor" and ret and ret["k"] == "ptr" and P.ty(ret["e"])["k"] == "rec" and P.qn(P.ty(ret["e"])["d"]).split("::")[-1].startswith("Part"):
                out.append(x)
        return sorted(out)

    def child(self, maker, r):
        ev = Ev(self.ctx.P, budget=400000)
        c = ev.run(maker, r.mem["this"], None, {"$0": r.mem.get("$0", sym("*$0"))})
        self.ctx.fns |= ev.inlined
        if c.ret is None or c.ret.op != "ptr":
            raise Unknown("what %s returns" % self.ctx.P.qn(maker))
        return c.mem[c.ret.a[0]]

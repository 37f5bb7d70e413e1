"""The model class: its methods per line model, and instances of models that reading a definition can produce."""
import random
from common import *
from evo import vector, read

M = "especia::Model"


def methods(ctx, name, n=None):
    P = ctx.P
    fs = [f for f in sorted(P.funcs) if evalv.stripargs(P.qn(f)) == M + "::" + name and not P.funcs[f].get("implicit")
          and P.funcs[f].get("body") is not None and (n is None or len(P.funcs[f]["params"]) == n)]
    if not fs:
        raise AnalysisBroken("no definition of %s::%s found" % (M, name))
    return fs


def flavour(P, f):
    return P.qn(f)[len(M) + 1:].rsplit(">::", 1)[0].replace("especia::", "")


def pick(ctx, fs):
    """one instance of a template suffices in the quick tier: the instances share their source"""
    if ctx.tier == "thorough":
        return fs
    seen, out = set(), []
    for f in fs:
        if ctx.P.where(f) not in seen:
            seen.add(ctx.P.where(f))
            out.append(f)
    return out


def parameter_count(ctx, f):
    """number of parameters of the line model"""
    P = ctx.P
    line = P.qn(f)[len(M) + 1:].rsplit(">::", 1)[0]
    g = [x for x in P.funcs if P.qn(x) == line + "::parameter_count"]
    if len(g) != 1:
        raise Unknown("number of parameters of " + line)
    n = ctx.run(g[0]).ret
    if n.op != "num":
        raise Unknown("number of parameters of " + line)
    return n


def hooks(count):
    """cost and application of a section as functions of section, lines, resolution and degree"""
    def lines(ev, st, this, args, node):
        n, q = read(ev, st, args[0]), args[1]
        a = ev.view(st, q)
        v = tm.fresh("v")
        ev.write(st, this, mk("lines", n, mk("lam", tm.mkabs(v, tm.ranged(mul(n, count), v, sel(a, v))))))

    def cost(ev, st, this, args, node):
        l, r, m = (read(ev, st, a) for a in args)
        return mk("sectioncost", ev.read(st, this), l, r, m)

    def apply(ev, st, this, args, node):
        xs = [read(ev, st, a) for a in args]
        m, r, l = xs
        ev.write(st, this, mk("applied", ev.read(st, this), l, r, m))
        return this
    return {"especia::Superposition::Superposition": lines, "spec::Lines::Lines": lines, "especia::Superposition::~Superposition": lambda *a: UNDEF,
            "spec::Lines::~Lines": lambda *a: UNDEF,
            "especia::Section::cost": cost, "spec::Part::cost": cost, "especia::Section::apply": apply, "spec::Part::apply": apply}


class Probe:
    """models that reading a definition can produce: free parameters are numbered in order, references copy what they refer to"""
    shared = None
    seeds = 24

    def __init__(self, count=2, extents=None, more=None):
        self.count, self.extents, self.more = count, extents or {}, more
        self.fns = {"lines": self.lines, "sectioncost": self.cost, "applied": self.applied}

    def extent(self, k):
        return self.extents.get(k)

    def sizes(self, seed):
        r = random.Random(seed)
        nsec = r.choice((1, 2, 2, 3))
        nli = [r.choice((0, 1, 2)) for _ in range(nsec)]
        isc, n = [], 0
        for k in nli:
            isc.append(n)
            n += 1 + k * self.count
        val, lo, up, unc = ([round(r.uniform(1, 9), 3) for _ in range(n)] for _ in range(4))
        ind, msk, k = [0] * n, [True] * n, 0
        for i in range(n):
            u = r.random()
            lo[i], up[i] = min(lo[i], up[i]), max(lo[i], up[i])
            if u < 0.2 and i + 1 < n or i and u > 0.8:
                msk[i] = False
            elif u < 0.4 and i:
                j = r.randrange(i)
                val[i], lo[i], up[i], msk[i], ind[i] = val[j], lo[j], up[j], msk[j], ind[j]
                continue
            else:
                ind[i] = k
                k += 1
        if not k:
            msk[n - 1], ind[n - 1] = True, 0
        for i in range(n):
            if not msk[i]:
                lo[i] = up[i] = 0
        m = {"isc": isc, "nle": [r.randrange(4) for _ in nli], "nli": nli, "val": val, "unc": unc, "lo": lo, "up": up, "msk": msk, "ind": ind}
        # a vector has nothing in common with what lies beyond its end
        x = [round(r.uniform(-5, 5), 3) for _ in range(n + 9)]
        return {sym("this"): Base(m, nsec), sym("*$0"): tuple(x), sym("*$1"): tuple(abs(v) + 1 for v in x), sym("$1"): k or 1}

    def lines(self, I, t, env):
        n = I.index(I.ev(t.a[0], env))
        return ("lines", n) + inst.vec(I.ev(t.a[1], env), I, n * self.count)

    def cost(self, I, t, env):
        s = I.ev(t.a[0], env)
        return I.leaf("cost", I.key(s), I.ev(t.a[1], env), I.key(I.n(t.a[2], env)), I.key(I.n(t.a[3], env)))

    def applied(self, I, t, env):
        s = I.ev(t.a[0], env)
        return ("applied", I.key(s), I.ev(t.a[1], env), I.key(I.n(t.a[2], env)), I.key(I.n(t.a[3], env)))


def Base(m, nsec):
    d = dict(m)
    d["sections"] = [("section %d" % i) for i in range(nsec)]
    return d

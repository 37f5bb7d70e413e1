"""Sections of a spectrum: convolution and continuum as functions of what they depend on, instances of sections."""
import random
from common import *
from evo import read

S = "especia::Section"


def overloads(ctx, name, n):
    P = ctx.P
    fs = [f for f in sorted(ctx.fn(S + "::" + name)) if P.funcs[f].get("body") is not None and len(P.funcs[f]["params"]) == n]
    if not fs:
        raise AnalysisBroken("no definition of %s::%s with %d parameters found" % (S, name, n))
    return fs


def private(ctx, name, n):
    """members a caller of the library cannot see may be renamed or merged"""
    P = ctx.P
    return [f for f in sorted(P.find(S + "::" + name)) if P.funcs[f].get("body") is not None and len(P.funcs[f]["params"]) == n]


def depth(ev, st, this, args, node):
    return mk("call", ev.read(st, this), (read(ev, st, args[0]),))


def hooks(parts=True):
    hk = {"especia::Superposition::operator()": depth, "spec::Depth::operator()": depth}
    if not parts:
        return hk

    def convolute(ev, st, this, args, node):
        s = ev.read(st, this)
        r, tau = read(ev, st, args[0]), read(ev, st, args[1])
        n, wav = fld(s, "n"), fld(fld(s, "wav"), "a")
        v = tm.fresh("v")
        w = mk("lam", tm.mkabs(v, tm.ranged(n, v, sel(wav, v))))
        for k, a in zip(("opt", "atm", "cat"), args[2:]):
            o = ev.read(st, a)
            i = tm.fresh("i")
            ev.write(st, a, setf(o, "a", mk("lam", tm.mkabs(i, tm.ranged(n, i, mk("convolved", mk("str", k), w, n, r, tau, i))))))
        return UNDEF

    def continuum(ev, st, this, args, node):
        s = ev.read(st, this)
        m, cat = read(ev, st, args[0]), ev.read(st, args[1])
        n = fld(s, "n")

        def col(a):
            v = tm.fresh("v")
            return mk("lam", tm.mkabs(v, tm.ranged(n, v, ite(atom(sel(fld(fld(s, "msk"), "a"), v)), sel(a, v), ZERO))))
        v = tm.fresh("v")
        x = [mk("lam", tm.mkabs(v, tm.ranged(n, v, sel(fld(a, "a"), v)))) for a in (fld(s, "wav"), fld(s, "msk"))]
        x += [col(fld(a, "a")) for a in (fld(s, "flx"), fld(s, "unc"), cat)]
        c = atom(mk("singular", m, n, *x))
        ev.throws.append((AND(st.pc, c), mk("exc", "std::runtime_error", ZERO), dict(st.mem)))
        st.pc = AND(st.pc, NOT(c))
        o = ev.read(st, args[2])
        i = tm.fresh("i")
        ev.write(st, args[2], setf(o, "a", mk("lam", tm.mkabs(i, tm.ranged(n, i, mk("continuum", m, n, *(x + [i])))))))
        return UNDEF
    for c in (S, "spec::Section"):
        hk[c + "::convolute"] = convolute
        hk[c + "::continuum"] = continuum
    return hk


class Probe:
    """sections of a spectrum as reading a data file can produce them"""
    shared, seeds = None, 30

    def __init__(self, kind):
        self.kind = kind
        self.fns = {"convolved": self.args("convolved", 2), "continuum": self.args("continuum", 2), "singular": self.singular}

    def extent(self, k):
        return None

    def section(self, r, other=None):
        n = r.choice((1, 2, 3, 4, 5, 7)) if self.kind != "convolute" else r.choice((2, 3, 4, 5, 7, 9))
        w = [r.uniform(1, 3)]
        for _ in range(n - 1):
            w.append(w[-1] + (r.uniform(0.2, 2) if self.kind != "convolute" else 0.5))
        q = {"wav": w, "msk": [r.random() < 0.7 for _ in range(n)], "n": n}
        for k in ("flx", "unc", "opt", "atm", "cat", "cfl", "tfl", "fit", "res"):
            q[k] = [r.uniform(0.3, 3) for _ in range(n)]
        return {k: [round(x, 4) for x in v] if isinstance(v, list) and k != "msk" else v for k, v in q.items()}

    def sizes(self, seed):
        r = random.Random(seed)
        q = self.section(r)
        n = q["n"]
        d = {sym("this"): q}
        if self.kind == "mask":
            a, b = sorted(r.choice(q["wav"]) + r.choice((0, 0, 0.1, -0.1)) for _ in range(2))
            d[sym("$0")], d[sym("$1")] = a, b
        elif self.kind == "continuum":
            # as many independent points as coefficients
            m = r.choice((0, 1, 2, 3))
            k = q["msk"].count(True)
            m = min(m, k)
            d[sym("$0")] = m
            d[sym("$1")] = d[sym("*$1")] = [round(r.uniform(0.2, 1), 4) for _ in range(n)]
            d[sym("$2")] = d[sym("*$2")] = [0.0] * n
        elif self.kind == "convolute":
            d[sym("$0")] = r.choice((0.2, 0.5, 1, 2, 3, 5, 9, 20)) * (q["wav"][0] + q["wav"][-1]) / 2 / 1000
            d[sym("$1")] = "tau"
            for i in (2, 3, 4):
                d[sym("$%d" % i)] = d[sym("*$%d" % i)] = [0.0] * n
        elif self.kind == "cost":
            d[sym("$0")], d[sym("$1")], d[sym("$2")] = "tau", round(r.uniform(1, 9), 3), r.choice((0, 1, 2, 3))
        elif self.kind == "apply":
            d[sym("$2")], d[sym("$1")], d[sym("$0")] = "tau", round(r.uniform(1, 9), 3), r.choice((0, 1, 2, 3))
        elif self.kind == "primitive":
            d[sym("$0")], d[sym("$1")] = r.choice((0, 0.5, 1, 2)), r.choice((0.5, 1, 2))
        elif self.kind == "supersample":
            k = r.choice((1, 2, 3, 4))
            d[sym("$0")] = d[sym("*$0")] = [round(r.uniform(1, 9), 3) for _ in range(n)]
            d[sym("$1")] = k
            d[sym("$2")] = d[sym("*$2")] = [0.0] * (k * (n - 1) + 1)
        return d

    def args(self, name, skip=0):
        def f(I, t, env):
            return I.leaf(name, *self.keys(I, t, env))
        return f

    def keys(self, I, t, env):
        out = []
        n = None
        for a in t.a:
            v = I.ev(a, env)
            if isinstance(v, (inst.Arr, inst.Rec)) and n is None:
                n = self.count(I)
            out.append(I.key(v, n) if not isinstance(v, str) else v)
        return out

    def count(self, I):
        return I.index(I.force(I.base.vals[sym("this")], "n"))

    def singular(self, I, t, env):
        return False

"""The evolution strategy with uninterpreted objective function, constraint, deviate, decomposition and tracer."""
from common import *
from evalv import Loc, NOFF

G = ("rng!", "log!")


def read(ev, st, a):
    return ev.read(st, a) if isinstance(a, Loc) else a


def vector(ev, st, p, n):
    """contents of the first n elements"""
    a = ev.view(st, p)
    v = tm.fresh("v")
    return mk("lam", tm.mkabs(v, tm.ranged(n, v, sel(a, v))))


def hooks(P, fails=True):
    def objective(ev, st, this, args, node):
        n = read(ev, st, args[1])
        x = vector(ev, st, args[0], n)
        if fails:
            c = atom(mk("fails", x, n))
            ev.throws.append((AND(st.pc, c), mk("exc", "fault", mk("of", x)), dict(st.mem)))
            st.pc = AND(st.pc, NOT(c))
        return mk("objective", x, n)

    def draw(ev, st, this, args, node):
        c = st.mem["rng!"]
        st.mem["rng!"] = add(c, ONE)
        return mk("draw", c)

    def violated(ev, st, this, args, node):
        return atom(mk("violated", vector(ev, st, args[0], read(ev, st, args[1])), read(ev, st, args[1])))

    def cost(ev, st, this, args, node):
        return mk("penalty", vector(ev, st, args[0], read(ev, st, args[1])), read(ev, st, args[1]))

    def decompose(ev, st, this, args, node):
        a, z, w = args
        n = sym("$2")
        m = ev.view(st, a)
        ev.write(st, Loc(z.a[0], z.a[1]), mk("eigenvectors", m))
        ev.write(st, Loc(w.a[0], w.a[1]), mk("eigenvalues", m))
        return UNDEF

    def tracing(ev, st, this, args, node):
        return atom(mk("tracing", read(ev, st, args[0])))

    def trace(ev, st, this, args, node):
        st.mem["log!"] = cat(st.mem["log!"], mk("traced", tuple(read(ev, st, a) for a in args)))
        return UNDEF

    def select(ev, st, this, args, node):
        """reference: order positions by value"""
        y, p, m, n = args
        ya, pa = read(ev, st, y), read(ev, st, p)
        a, b = tm.fresh("x"), tm.fresh("y")
        o = lam(a, lam(b, ite(lt0(sub(sel(fld(ya, "a"), a), sel(fld(ya, "a"), b)), False), ONE, ZERO)))
        ev.write(st, p, setf(pa, "a", mk("sorted", fld(pa, "a"), read(ev, st, n), read(ev, st, m), o)))
        return UNDEF

    hk = {}
    for q in ("especia::Model::operator()", "spec::Objective::operator()"):
        hk[q] = objective
    for q in ("especia::Normal_Deviate::operator()", "spec::Deviate::operator()"):
        hk[q] = draw
    for q in ("especia::Model::Bounded_Constraint::is_violated", "spec::Constraint::is_violated"):
        hk[q] = violated
    for q in ("especia::Model::Bounded_Constraint::cost", "spec::Constraint::cost"):
        hk[q] = cost
    for q in ("especia::R_Decompose::operator()", "spec::Decompose::operator()"):
        hk[q] = decompose
    for q in ("especia::Runner::Tracer::is_tracing", "spec::Tracer::is_tracing"):
        hk[q] = tracing
    for q in ("especia::Runner::Tracer::trace", "spec::Tracer::trace"):
        hk[q] = trace
    hk["spec::select"] = select
    return hk


class Probe:
    """instances in which two normal forms are told apart"""

    def __init__(self, sizes, extents):
        self.sizes, self.extents = sizes, extents
        self.seeds, self.shared = 48, {}
        self.fns = {"objective": self.positive, "penalty": self.positive, "violated": self.violated, "fails": self.fails,
                    "tracing": self.tracing, "draw": self.draw, "eigenvalues": self.spectrum, "eigenvectors": self.spectrum}

    def extent(self, k):
        return self.extents.get(k)

    def n(self, I):
        return int(I.base.vals[sym("$2")])

    def args(self, I, t, env):
        x = I.ev(t.a[0], env)
        return inst.vec(x, I, I.index(I.ev(t.a[1], env)))

    def positive(self, I, t, env):
        x = abs(I.leaf(t.op, self.args(I, t, env)))
        if I.seed % 4 == 1:
            return inst.mpmath.mpf(1 + int(10 * x) % 2)         # equal values occur
        return x

    def violated(self, I, t, env):
        return I.chance(0.25, t.op, self.args(I, t, env))

    def fails(self, I, t, env):
        return I.chance(0.04 if I.seed % 4 == 3 else 0, t.op, self.args(I, t, env))

    def tracing(self, I, t, env):
        return I.chance(0.5, t.op, I.key(I.n(t.a[0], env)))

    def draw(self, I, t, env):
        u = I.leaf(t.op, I.key(I.n(t.a[0], env)))
        return -u if I.hash("sign", I.key(u))[0] & 1 else u

    def spectrum(self, I, t, env):
        n, m = self.n(I), I.ev(t.a[0], env)
        k = tuple(I.key(I.num(I.element(m, i + j * n))) for j in range(n) for i in range(j + 1))
        return inst.Arr(lambda i: abs(I.leaf(t.op, k, i)))


def start():
    return {"rng!": sym("rng"), "log!": sym("log")}

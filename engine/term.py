"""Hash-consed value graphs (gated SSA values) with algebraic normal forms.

Numbers are exact rationals; arithmetic is kept as polynomials over atoms with
rational exponents; conditions and conditional values are ordered decision
diagrams over comparison atoms.  fp() maps a graph to an element of a prime
field by random interpretation (Gulwani & Necula, POPL 2004): graphs that are
equal as rational expressions over their atoms get equal elements.
"""
from fractions import Fraction
import hashlib, sys
sys.setrecursionlimit(20000)

_table = {}
_cnt = [0]


class T:
    __slots__ = ("op", "a", "id", "_fp", "_fv", "__weakref__")

    def __repr__(self):
        return show(self)

    def __lt__(self, o):
        return self.id < o.id


def mk(op, *a):
    k = (op,) + tuple(("T", x.id) if isinstance(x, T) else (type(x).__name__, x) if not isinstance(x, tuple) else ("U", _tk(x)) for x in a)
    t = _table.get(k)
    if t is None:
        t = T()
        t.op, t.a = op, a
        _cnt[0] += 1
        t.id = _cnt[0]
        t._fp = None
        t._fv = None
        _table[k] = t
    return t


def _tk(x):
    return tuple(("T", y.id) if isinstance(y, T) else ("U", _tk(y)) if isinstance(y, tuple) else (type(y).__name__, y) for y in x)


def num(c):
    return mk("num", Fraction(c))


ZERO, ONE = num(0), num(1)
TRUE, FALSE = mk("true"), mk("false")
UNDEF = mk("undef")
DC = mk("dc")


def sym(name):
    return mk("sym", name)


def string(s):
    return mk("str", s)


def isnum(t):
    return t.op == "num"


def val(t):
    return t.a[0]


LIMIT = 48          # leaves of a decision diagram that arithmetic is pushed into
PLIMIT = 600        # monomials


# ---------------------------------------------------------------- ite / bdd
def top(*ts):
    vs = [t.a[0] for t in ts if t.op == "ite"]
    return min(vs, key=lambda v: v.id) if vs else None


def cof(t, v, b):
    if t.op == "ite" and t.a[0] is v:
        return t.a[1] if b else t.a[2]
    return t


_ite_memo = {}


def ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if a is UNDEF:
        return b
    if b is UNDEF:
        return a
    if c.op not in ("ite",):
        if a is TRUE and b is FALSE and c.op != "ite":
            c = atom(c)
            return c
        c = atom(c)
        if c is TRUE:
            return a
        if c is FALSE:
            return b
    k = (c.id, a.id, b.id)
    r = _ite_memo.get(k)
    if r is None:
        v = top(c, a, b)
        h = ite(cof(c, v, 1), cof(a, v, 1), cof(b, v, 1))
        l = ite(cof(c, v, 0), cof(a, v, 0), cof(b, v, 0))
        r = node(v, h, l)
        _ite_memo[k] = r
    return r


def node(v, h, l):
    if h is l:
        return h
    if h.op == "sto" and l.op == "sto" and h.a[0] is l.a[0] and h.a[1] is l.a[1]:
        # the same element is replaced either way
        return mk("sto", h.a[0], h.a[1], ite(atom(v), h.a[2], l.a[2]))
    # x == y ? x : y  is  y
    if v.op == "eqt":
        if h in v.a and l in v.a:
            return l
    elif v.op == "eq0" and h.op in _PLAIN and l.op in _PLAIN:
        d = sub(h, l)
        if d.op == "poly" and scale(d, 1 / lead(d)[1]) is v.a[0]:
            return l
    elif v.op == "lt" and v.a[1] == "r" and h.op == "poly" and l.op == "poly" and scale(h, 1 / lead(h)[1]) is scale(v.a[0], 1 / lead(v.a[0])[1]) \
            and neg(h) is l:
        # x < 0 ? -x : x
        k = lead(l)[1] / lead(v.a[0])[1]
        return scale(app("abs", v.a[0]), k)
    elif v.op == "lt" and v.a[1] == "r" and h.op in _PLAIN2 and l.op in _PLAIN2 and lead(v.a[0])[1] < 0:
        # the smaller or larger of two values: the strictness of the comparison does not matter
        d = sub(h, l)
        if d.op == "poly" and scale(d, 1 / abs(lead(d)[1])) in (v.a[0], neg(v.a[0])):
            return ite(lt0(neg(v.a[0]), False), l, h)
    return mk("ite", v, h, l)


_PLAIN2 = {"num", "poly", "sym", "sel", "fld", "bv", "lv", "app", "sum", "cst", "call"}
_PLAIN = {"num", "poly", "sym", "sel", "fld", "bv", "lv"}


def ranged(n, v, body):
    """body with the conditions decided that hold for every 0 <= v < n"""
    if body.op in ("poly", "num") and not any(True for _ in subterms(body)):
        return body
    d = literals(AND(NOT(lt0(v, True)), lt0(sub(v, n), True)))
    return decide(body, d) if d else body


def atom(v):
    if v in (TRUE, FALSE) or v.op == "ite":
        return v
    return mk("ite", v, TRUE, FALSE)


def AND(*xs):
    r = TRUE
    for x in xs:
        r = ite(r, x, FALSE)
    return r


def OR(*xs):
    r = FALSE
    for x in xs:
        r = ite(r, TRUE, x)
    return r


def NOT(x):
    return ite(x, FALSE, TRUE)


_con = {}


def constrain(f, c):
    """Generalised cofactor: depends only on f's values where c holds."""
    if c is TRUE or f.op != "ite":
        return f
    if c is FALSE:
        return f
    if c.op != "ite":
        c = atom(c)
    k = (f.id, c.id)
    r = _con.get(k)
    if r is None:
        v = top(f, c)
        c1, c0 = cof(c, v, 1), cof(c, v, 0)
        if c1 is FALSE:
            r = constrain(cof(f, v, 0), c0)
        elif c0 is FALSE:
            r = constrain(cof(f, v, 1), c1)
        else:
            r = ite(atom(v), constrain(cof(f, v, 1), c1), constrain(cof(f, v, 0), c0))
        _con[k] = r
    return r


def decide(t, dec):
    """t with the condition atoms in dec (atom -> bool) decided, at every depth"""
    dec = {k: v for k, v in dec.items() if freesyms(k) <= freesyms(t)}
    if not dec:
        return t
    memo = {}
    fvs = [freesyms(k) for k in dec]

    def go(t):
        r = memo.get(t.id)
        if r is None:
            if t in dec:
                r = TRUE if dec[t] else FALSE
            elif not any(True for _ in subterms(t)):
                r = t
            elif not any(k <= freesyms(t) for k in fvs):
                r = t
            else:
                r = rebuild(t, go)
            memo[t.id] = r
        return r
    return go(t)


def replace(t, x, y):
    """every occurrence of the subterm x becomes y"""
    memo = {}
    fx = freesyms(x)

    def go(t):
        r = memo.get(t.id)
        if r is None:
            if t is x:
                r = y
            elif not fx <= freesyms(t) or not any(True for _ in subterms(t)):
                r = t
            else:
                r = rebuild(t, go)
            memo[t.id] = r
        return r
    return go(t)


def replacefn(t, f):
    """every outermost subterm for which f returns a term becomes that term"""
    memo = {}

    def go(t):
        r = memo.get(t.id)
        if r is None:
            r = f(t)
            if r is None:
                r = rebuild(t, go) if any(True for _ in subterms(t)) else t
            memo[t.id] = r
        return r
    return go(t)


def literals(c):
    """atoms that a condition decides on every path"""
    out = {}
    while c.op == "ite":
        if c.a[1] is FALSE:
            out[c.a[0]] = False
            c = c.a[2]
        elif c.a[2] is FALSE:
            out[c.a[0]] = True
            c = c.a[1]
        else:
            break
    return out


def leaves(t, lim=10 ** 9):
    seen, out, st = set(), [], [t]
    while st:
        x = st.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        if x.op == "ite":
            st += [x.a[1], x.a[2]]
        else:
            out.append(x)
            if len(out) > lim:
                break
    return out


def lift(f, *xs):
    """Apply f to the leaves of decision diagrams."""
    if not any(x.op == "ite" for x in xs):
        return f(*xs)
    if sum(len(leaves(x, LIMIT + 1)) for x in xs if x.op == "ite") > LIMIT:
        return None
    memo = {}

    def go(ys):
        k = tuple(y.id for y in ys)
        if k in memo:
            return memo[k]
        v = top(*ys)
        if v is None:
            r = f(*ys)
        else:
            r = ite(atom(v), go([cof(y, v, 1) for y in ys]), go([cof(y, v, 0) for y in ys]))
        memo[k] = r
        return r
    return go(list(xs))


# ---------------------------------------------------------------- polynomials
def mono_of(t):
    """dict monomial -> coefficient"""
    if t.op == "num":
        return {(): t.a[0]} if t.a[0] else {}
    if t.op == "poly":
        return dict(t.a[0])
    return {((t, Fraction(1)),): Fraction(1)}


def mk_poly(d):
    d = {m: c for m, c in d.items() if c}
    if not d:
        return ZERO
    if len(d) == 1:
        (m, c), = d.items()
        if m == ():
            return num(c)
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            return m[0][0]
    return mk("poly", tuple(sorted(d.items(), key=lambda mc: _mkey(mc[0]))))


def _mkey(m):
    return tuple((a.id, e) for a, e in m)


def bad(t):
    return t.op in ("dc", "undef")


def add(*xs):
    r = None
    for x in xs:
        r = x if r is None else _add2(r, x)
    return ZERO if r is None else r


def _add2(a, b):
    def f(a, b):
        if bad(a):
            return a
        if bad(b):
            return b
        d = mono_of(a)
        for m, c in mono_of(b).items():
            d[m] = d.get(m, 0) + c
        return mk_poly(d)
    if a.op == "ptr" or b.op == "ptr":
        raise TypeError("pointer arithmetic")
    r = lift(f, a, b)
    return f(a, b) if r is None else r


def scale(a, c):
    c = Fraction(c)
    def f(a):
        if bad(a):
            return a
        return mk_poly({m: k * c for m, k in mono_of(a).items()})
    r = lift(f, a)
    return f(a) if r is None else r


def neg(a):
    return scale(a, -1)


def sub(a, b):
    return add(a, neg(b))


def _mmul(m1, m2):
    d = {}
    for a, e in m1 + m2:
        d[a] = d.get(a, Fraction(0)) + e
    ex = [(a, e) for a, e in d.items() if a.op == "app" and a.a[0] == "exp" and e]
    if len(ex) > 1 or (len(ex) == 1 and ex[0][1] != 1):
        for a, e in ex:
            del d[a]
        arg = add(*[scale(a.a[1], e) for a, e in ex])
        x = app("exp", arg)
        if x is not ONE:
            for (m, c) in mono_of(x).items():
                for a, e in m:
                    d[a] = d.get(a, Fraction(0)) + e
    return tuple(sorted(((a, e) for a, e in d.items() if e), key=lambda ae: (ae[0].id, ae[1])))


def mul(*xs):
    r = None
    for x in xs:
        r = x if r is None else _mul2(r, x)
    return ONE if r is None else r


def _mul2(a, b):
    def f(a, b):
        if bad(a):
            return a
        if bad(b):
            return b
        da, db = mono_of(a), mono_of(b)
        if len(da) * len(db) > PLIMIT:
            if len(da) > 1:
                da = {((a, Fraction(1)),): Fraction(1)}
            if len(db) > 1:
                db = {((b, Fraction(1)),): Fraction(1)}
        d = {}
        again = []
        for m1, c1 in da.items():
            for m2, c2 in db.items():
                m = _mmul(m1, m2)
                # polynomials that became positive integer powers are expanded again
                if any(x.op == "poly" and e > 0 and e.denominator == 1 for x, e in m) and len(da) * len(db) <= PLIMIT:
                    again.append((m, c1 * c2))
                else:
                    d[m] = d.get(m, 0) + c1 * c2
        r = mk_poly(d)
        for m, c in again:
            p = num(c)
            for x, e in m:
                if x.op == "poly" and e > 0 and e.denominator == 1:
                    if len(mono_of(p)) * len(mono_of(x)) ** int(e) > PLIMIT:
                        p = mk_poly({_mmul(mm, ((x, e),)): k for mm, k in mono_of(p).items()})
                        continue
                    for _ in range(int(e)):
                        p = _mul2(p, x)
                else:
                    p = mk_poly({_mmul(mm, ((x, e),)): k for mm, k in mono_of(p).items()})
            r = _add2(r, p)
        return r
    r = lift(f, a, b)
    return f(a, b) if r is None else r


def lead(t):
    d = mono_of(t)
    return min(d.items(), key=lambda mc: (mc[0] == (), _mkey(mc[0])))


def _mono(d):
    m = ()
    for x, e in d.items():
        m = _mmul(m, ((x, Fraction(e)),))
    return m


def powr(a, q):
    q = Fraction(q)

    def f(a):
        if bad(a):
            return a
        if q == 0:
            return ONE
        if q == 1:
            return a
        if a.op == "num":
            v = a.a[0]
            if q.denominator == 1:
                if v == 0 and q < 0:
                    return app("inf")
                return num(v ** int(q))
            # exact roots of rationals
            if v == 1:
                return ONE
            if v >= 0:
                import math
                n, d = v.numerator, v.denominator
                if q.denominator == 2:
                    rn, rd = math.isqrt(n), math.isqrt(d)
                    if rn * rn == n and rd * rd == d:
                        return num(Fraction(rn, rd) ** q.numerator)
            return mk_poly({((mk("cst", v), q),): Fraction(1)})
        d = mono_of(a)
        if len(d) == 1:
            (m, c), = d.items()
            if q.denominator == 1:
                mm = ()
                for x, e in m:
                    mm = _mmul(mm, ((x, e * q),))
                return mk_poly({mm: c ** int(q)})
            # roots distribute over factors that are known not to be negative
            r = powr(num(abs(c)), q)
            if c > 0:
                inner = []
                for x, e in m:
                    if e.denominator == 1 and e % 2 == 0 and q.denominator == 2 and len(m) == 1 and e * q == 1:
                        r = mul(r, app("abs", x))
                    elif e.denominator == 1 and e % 2 == 0:
                        inner.append((x, e))
                    else:
                        r = mul(r, mk_poly({((x, e * q),): Fraction(1)}))
                for x, e in inner:
                    r = mul(r, mk_poly({((mk_poly({((x, e),): Fraction(1)}), q),): Fraction(1)}))
                return r
            return mk_poly({((a, q),): Fraction(1)})
        if q.denominator == 1 and q > 0 and len(d) ** int(q) <= PLIMIT:
            return mul(*[a] * int(q))
        if q.denominator == 1:
            # negative powers common to the whole sum go outside
            low = {}
            for m in d:
                for x, e in m:
                    if e < 0:
                        low[x] = min(low.get(x, 0), e)
            if low:
                out = mk_poly({_mono(low): Fraction(1)})
                rest = mul(a, mk_poly({_mono({x: -e for x, e in low.items()}): Fraction(1)}))
                dr = mono_of(rest)
                if not any(e < 0 for m in dr for x, e in m):
                    return mul(powr(out, q), powr(rest, q))
        (_, lc) = lead(a)
        if q.denominator == 1:
            base = scale(a, 1 / lc)
            return mk_poly({((base, q),): lc ** int(q)})
        base = scale(a, 1 / abs(lc))
        return mul(powr(num(abs(lc)), q), mk_poly({((base, q),): Fraction(1)}))
    r = lift(f, a)
    return f(a) if r is None else r


def div(a, b):
    return mul(a, powr(b, -1))


PUSH = {"exp", "log", "abs", "erf", "cosh", "sinh", "tanh", "sin", "cos", "tan", "pow", "ceil", "floor", "idiv", "imod", "trunc"}


def app(f, *xs):
    def g(*xs):
        for x in xs:
            if x.op in ("dc",):
                return x
        if f == "exp":
            if xs[0] is ZERO:
                return ONE
        elif f == "log":
            if xs[0] is ONE:
                return ZERO
            if xs[0].op == "app" and xs[0].a[0] == "exp":
                return xs[0].a[1]
        elif f == "abs":
            x = xs[0]
            if x.op == "num":
                return num(abs(x.a[0]))
            (_, c) = lead(x)
            if c < 0:
                x = neg(x)
            return mk("app", "abs", x)
        elif f == "pow":
            if xs[1].op == "num":
                return powr(xs[0], xs[1].a[0])
        elif f in ("idiv", "imod"):
            a, b = xs
            if a.op == "num" and b.op == "num" and b.a[0]:
                q = int(a.a[0] / b.a[0])
                return num(q) if f == "idiv" else num(a.a[0] - q * b.a[0])
            if b is ONE:
                return a if f == "idiv" else ZERO
        elif f in ("ceil", "floor"):
            x = xs[0]
            if x.op == "num":
                import math
                return num(getattr(math, f)(x.a[0]))
        elif f == "trunc":
            if xs[0].op == "num":
                return num(int(xs[0].a[0]))
            if xs[0].op == "app" and xs[0].a[0] in ("ceil", "floor", "trunc"):
                return xs[0]
        elif f in ("max", "min"):
            a, b = xs
            if a is b:
                return a
            if a.op == "num" and b.op == "num":
                return num(max(a.a[0], b.a[0]) if f == "max" else min(a.a[0], b.a[0]))
            xs = tuple(sorted(xs, key=lambda t: t.id))
        elif f == "sizeof_cat":
            pass
        return mk("app", f, *xs)
    if f in PUSH:
        r = lift(g, *xs)
        if r is not None:
            return r
    return g(*xs)


# ---------------------------------------------------------------- comparisons
def _gcdnorm(p):
    import math
    d = mono_of(p)
    ks = [k for m, k in d.items() if m != ()]
    if not ks:
        return p
    den = 1
    for k in d.values():
        den = den * k.denominator // math.gcd(den, k.denominator)
    p = scale(p, den)
    return p


def lt0(p, integer):
    """p < 0"""
    def f(p):
        if bad(p):
            return p
        if p.op == "num":
            return TRUE if p.a[0] < 0 else FALSE
        if integer:
            (m, c) = lead(p)
            if c < 0:
                return NOT(lt0(sub(neg(p), ONE), True))
            return atom(mk("lt", p, "i"))
        (m, c) = lead(p)
        p = scale(p, 1 / abs(c))
        if notneg(p):
            return FALSE
        if notneg(neg(p)) and p.op == "poly":
            return NOT(eq(p, ZERO))
        return atom(mk("lt", p, "r"))
    r = lift(f, p)
    return atom(mk("lt", p, "i" if integer else "r")) if r is None else r


def notneg(p):
    """a sum of even powers, absolute values and square roots with positive coefficients"""
    return all(c >= 0 and all(e.denominator == 1 and e % 2 == 0 or x.op == "app" and x.a[0] in ("abs", "sqrt", "exp") for x, e in m)
               for m, c in mono_of(p).items())


def cmp(op, a, b, integer, unsigned=False):
    if op == ">":
        return cmp("<", b, a, integer, unsigned)
    if op == ">=":
        return cmp("<=", b, a, integer, unsigned)
    if op == "!=":
        return NOT(eq(a, b))
    if op == "==":
        return eq(a, b)
    if unsigned and integer:
        if op == "<=" and b is ZERO:
            return eq(a, b)
        if op == "<" and a is ZERO:
            return NOT(eq(a, b))
        if op == "<" and b is ZERO:
            return FALSE
        if op == "<=" and a is ZERO:
            return TRUE
        if op == "<" and b is ONE:
            return eq(a, ZERO)
        if op == "<=" and a is ONE:
            return NOT(eq(b, ZERO))
    if op == "<":
        return lt0(sub(a, b), integer)
    if integer:
        return lt0(sub(sub(a, b), ONE), True)
    return NOT(lt0(sub(b, a), False))


NUMERIC = {"num", "poly", "sym", "sel", "fld", "app", "sum", "prod", "bv", "lv", "muval", "call", "cst", "len", "tok", "first"}


def eq(a, b):
    def f(a, b):
        if bad(a):
            return a
        if bad(b):
            return b
        if a is b:
            return TRUE
        for x, y in ((a, b), (b, a)):
            if y is ZERO and x.op == "app" and x.a[0] == "strcmp":
                return eq(x.a[1], x.a[2])
        if a.op in ("num", "poly") or b.op in ("num", "poly"):
            p = sub(a, b)
            if p.op == "num":
                return TRUE if p.a[0] == 0 else FALSE
            (m, c) = lead(p)
            for x, y in ((a, b), (b, a)):
                if y.op == "num" and y.a[0] != 0 and x.op == "app" and x.a[0] == "and" and len(x.a) == 3 and y in x.a[1:] \
                        and int(y.a[0]) & (int(y.a[0]) - 1) == 0:
                    # a single bit is set if it is not clear
                    return NOT(eq(x, ZERO))
            return atom(mk("eq0", scale(p, 1 / c)))
        if a.op in ("str", "ptr", "null", "true", "false", "rec") and b.op in ("str", "ptr", "null", "true", "false", "rec"):
            if a.op == "ptr" and b.op == "ptr" and a.a[0] == b.a[0] and a.a[1] == b.a[1]:
                return eq(a.a[2], b.a[2])
            if a in (TRUE, FALSE) or b in (TRUE, FALSE) or a.op != b.op or a.op == "str":
                return FALSE
        if a in (TRUE, FALSE):
            a, b = b, a
        if b is TRUE:
            return a
        if b is FALSE:
            return NOT(a)
        a, b = sorted((a, b), key=lambda t: t.id)
        return atom(mk("eqt", a, b))
    r = lift(f, a, b)
    return atom(mk("eqt", *sorted((a, b), key=lambda t: t.id))) if r is None else r


# ---------------------------------------------------------------- arrays, records
def rec(d):
    return mk("rec", tuple(sorted(d.items())))


def fld(r, f):
    if r.op == "ite":
        x = ite(atom(r.a[0]), fld(r.a[1], f), fld(r.a[2], f))
        return x
    if r.op == "rec":
        for k, v in r.a[0]:
            if k == f:
                return v
        return UNDEF
    if r.op == "upd":
        for k, v in r.a[1]:
            if k == f:
                return v
        return fld(r.a[0], f)
    if bad(r):
        return r
    return mk("fld", r, f)


def setf(r, f, v):
    if r.op == "rec":
        d = dict(r.a[0]); d[f] = v
        return rec(d)
    if r.op == "upd":
        d = dict(r.a[1]); d[f] = v
        return _upd(r.a[0], d)
    if r.op == "undef":
        return rec({f: v})
    if r.op == "ite":
        fs = fields_of(r)
        if fs is not None and all(l.op == "rec" for l in leaves(r)):
            d = {k: fld(r, k) for k in fs}; d[f] = v
            return rec(d)
    return _upd(r, {f: v})


def fields_of(r):
    out = set()
    for l in leaves(r):
        if l.op == "rec":
            out |= {k for k, _ in l.a[0]}
        elif l.op == "upd":
            out |= {k for k, _ in l.a[1]}
        elif l.op in ("undef", "dc"):
            pass
        else:
            pass
    return out


def _upd(base, d):
    d = {k: v for k, v in d.items() if not (v.op == "fld" and v.a[0] is base and v.a[1] == k)}
    if not d:
        return base
    return mk("upd", base, tuple(sorted(d.items())))


def merge(c, a, b):
    """ite on memory values: records are merged field by field."""
    if a is b:
        return a
    if a.op in ("rec", "upd") and b.op in ("rec", "upd", "sym", "fld", "sel", "lv") or \
       b.op in ("rec", "upd") and a.op in ("rec", "upd", "sym", "fld", "sel", "lv"):
        fs = fields_of(a) | fields_of(b)
        ba = a.a[0] if a.op == "upd" else None if a.op == "rec" else a
        bb = b.a[0] if b.op == "upd" else None if b.op == "rec" else b
        if ba is bb:
            d = {k: merge(c, fld(a, k), fld(b, k)) for k in sorted(fs, key=str)}
            return rec(d) if ba is None else _upd(ba, d)
    if a.op == "ptr" and b.op == "ptr" and a.a[:2] == b.a[:2]:
        return mk("ptr", a.a[0], a.a[1], merge(c, a.a[2], b.a[2]))
    return ite(c, a, b)


def sel(a, i):
    """element of an array value"""
    if a.op == "ite":
        return ite(atom(a.a[0]), sel(a.a[1], i), sel(a.a[2], i))
    if i.op == "ite" and len(leaves(i, 9)) <= 8:
        return ite(atom(i.a[0]), sel(a, i.a[1]), sel(a, i.a[2]))
    if bad(a):
        return a
    if a.op == "lam":
        return inst(a.a[0], i)
    if a.op == "sto":
        c = eq(a.a[1], i)
        if c is TRUE:
            return a.a[2]
        if c is FALSE:
            return sel(a.a[0], i)
        return ite(c, a.a[2], sel(a.a[0], i))
    if a.op == "list":
        if i.op == "num" and 0 <= i.a[0] < len(a.a[0]) and i.a[0].denominator == 1:
            return a.a[0][int(i.a[0])]
        if a.a[0] and all(x is a.a[0][0] for x in a.a[0]):
            return a.a[0][0]
    if a.op == "shift":   # array seen from an offset
        return sel(a.a[0], add(a.a[1], i))
    return mk("sel", a, i)


def sto(a, i, v):
    if a.op == "list" and i.op == "num" and 0 <= i.a[0] < len(a.a[0]):
        l = list(a.a[0]); l[int(i.a[0])] = v
        return mk("list", tuple(l))
    if a.op == "sto" and eq(a.a[1], i) is TRUE:
        return sto(a.a[0], i, v)
    if a.op == "sto" and eq(a.a[1], i) is FALSE and (a.a[1].a[0] > i.a[0] if i.op == "num" and a.a[1].op == "num" else fp(a.a[1]) > fp(i)):
        return sto(sto(a.a[0], i, v), a.a[1], a.a[2])
    if v.op == "sel" and v.a[0] is a and v.a[1] is i:
        return a
    if sel(a, i) is v and a.op != "sel":
        return a
    return mk("sto", a, i, v)


# bound variables: bv(level); lam(body) binds bv at its own nesting level
_bvc = [0]


def fresh(prefix="b"):
    _bvc[0] += 1
    return mk("sym", "%%%s%d" % (prefix, _bvc[0]))


def depth(t):
    """1 + highest bound-variable level occurring in t (0: none)"""
    return _depth(t)


_dm = {}


def subterms(t):
    for x in t.a:
        if isinstance(x, T):
            yield x
        elif isinstance(x, tuple):
            st = list(x)
            while st:
                y = st.pop()
                if isinstance(y, T):
                    yield y
                elif isinstance(y, tuple):
                    st.extend(y)


def _depth(t):
    r = _dm.get(t.id)
    if r is None:
        r = 0
        if t.op == "bv":
            r = t.a[0] + 1
        for s in subterms(t):
            r = max(r, _depth(s))
        _dm[t.id] = r
    return r


def bind(v, body):
    """(level, body with symbol v replaced by bv(level))"""
    l = _depth(body)
    for _ in range(4):
        b = mk("bv", l)
        r = subst(body, {v: b})
        l2 = _depth_ex(r, b)
        if l2 == l:
            break
        l = l2
    return r, b


def _depth_ex(t, b):
    """_depth, not counting b itself"""
    memo = {}

    def go(t):
        if t is b:
            return 0
        if _depth(t) <= b.a[0]:
            return _depth(t)
        r = memo.get(t.id)
        if r is None:
            r = 0
            for s in subterms(t):
                r = max(r, go(s))
            memo[t.id] = r
        return r
    return go(t)


def lam(v, body):
    if body.op == "sel" and body.a[1] is v and not occurs(v, body.a[0]):
        return body.a[0]
    b, bv = bind(v, body)
    return mk("lam", mk("abs", bv, b))


def inst(ab, x):
    """instantiate an abstraction mk('abs', bv, body)"""
    return subst(ab.a[1], {ab.a[0]: x})


_fvm = {}


def occurs(v, t):
    return v in freesyms(t)


def freesyms(t):
    r = t._fv
    if r is None:
        if t.op == "sym" or t.op == "bv" or t.op == "lv":
            r = frozenset([t])
        else:
            r = frozenset()
            for s in subterms(t):
                r = r | freesyms(s)
            if t.op == "abs":
                r = r - {t.a[0]}
            elif t.op == "mu":
                r = frozenset(x for x in r if not (x.op == "lv" and x.a[0] == t.a[0]))
            elif t.op == "muval":
                r = frozenset(x for x in r if not (x.op == "lv" and x.a[0] == t.a[0].a[0]))
        t._fv = r
    return r


def subst(t, m):
    """simultaneous substitution of symbols / bound variables, rebuilding normal forms"""
    m = {k: v for k, v in m.items() if k is not v}
    if not m:
        return t
    keys = frozenset(m)
    memo = {}

    def go(t):
        if not (freesyms(t) & keys):
            return t
        r = memo.get(t.id)
        if r is not None:
            return r
        if t in keys:
            r = m[t]
        else:
            r = rebuild(t, go)
        memo[t.id] = r
        return r
    return go(t)


def _gotup(x, go):
    return tuple(go(y) if isinstance(y, T) else _gotup(y, go) if isinstance(y, tuple) else y for y in x)


def rebuild(t, go):
    op, a = t.op, t.a
    if op == "poly":
        r = []
        for m, c in a[0]:
            p = num(c)
            for x, e in m:
                p = mul(p, powr(go(x), e))
            r.append(p)
        return add(*r)
    if op == "ite":
        return ite(go(a[0]), go(a[1]), go(a[2]))
    if op == "lt":
        return lt0(go(a[0]), a[1] == "i")
    if op == "eq0":
        return eq(go(a[0]), ZERO)
    if op == "eqt":
        return eq(go(a[0]), go(a[1]))
    if op == "app":
        return app(a[0], *[go(x) for x in a[1:]])
    if op == "fld":
        return fld(go(a[0]), a[1])
    if op == "upd":
        r = go(a[0])
        for k, v in a[1]:
            r = setf(r, k, go(v))
        return r
    if op == "rec":
        return rec({k: go(v) for k, v in a[0]})
    if op == "sel":
        return sel(go(a[0]), go(a[1]))
    if op == "sto":
        return sto(go(a[0]), go(a[1]), go(a[2]))
    if op == "lam":
        v, b = open_abs(a[0])
        return lam(v, go(b))
    if op == "sum":
        v, b = open_abs(a[1])
        return Sum(go(a[0]), v, go(b))
    if op == "prod":
        v, b = open_abs(a[1])
        return Prod(go(a[0]), v, go(b))
    if op in ("any", "first"):
        v, b = open_abs(a[1])
        return (Any if op == "any" else First)(go(a[0]), v, go(b))
    if op == "catn":
        v, b = open_abs(a[1])
        return CatN(go(a[0]), v, go(b))
    if op == "cat":
        return cat(*[go(x) for x in a[0]])
    if op == "cst":
        return t
    if op == "scat":
        return mk("scat", *[_gotup(x, go) if isinstance(x, tuple) else go(x) for x in a])
    if op == "abs":
        v, b = open_abs(t)
        b2, bv = bind(v, go(b))
        return mk("abs", bv, b2)
    if op == "shift":
        return shift(go(a[0]), go(a[1]))
    return mk(op, *[go(x) if isinstance(x, T) else _gotup(x, go) if isinstance(x, tuple) else x for x in a])


def open_abs(ab):
    v = fresh()
    return v, subst(ab.a[1], {ab.a[0]: v})


def mkabs(v, body):
    b, bv = bind(v, body)
    return mk("abs", bv, b)


def shift(a, off):
    if off is ZERO:
        return a
    if a.op == "shift":
        return shift(a.a[0], add(a.a[1], off))
    if a.op == "lam":
        v = fresh()
        return lam(v, sel(a, add(off, v)))
    return mk("shift", a, off)


# ---------------------------------------------------------------- reductions over 0 <= v < n
def Sum(n, v, body):
    if n.op == "num" and n.a[0] <= 0:
        return ZERO
    if body is ZERO:
        return ZERO
    if n.op == "num" and n.a[0] <= 8:
        return add(*[subst(body, {v: num(k)}) for k in range(int(n.a[0]))])
    if n.op == "ite":
        r = lift(lambda n: Sum(n, v, body), n)
        if r is not None:
            return r
    body = ranged(n, v, body)
    if body is ZERO:
        return ZERO
    if not occurs(v, body):
        return mul(n, body)
    # conditions that do not depend on v come out
    if body.op == "ite":
        inv = [x for x in condatoms(body) if not occurs(v, x)]
        if inv:
            x = inv[0]
            return ite(atom(x), Sum(n, v, cofactor(body, x, 1)), Sum(n, v, cofactor(body, x, 0)))
        # one-sided form: sum of [c] * term
        return _sum_ite(n, v, body)
    out = []
    for m, c in mono_of(body).items():
        inv, dep = [], []
        for x, e in m:
            (dep if occurs(v, x) else inv).append((x, e))
        f = mk_poly({tuple(inv): c})
        if not dep:
            out.append(mul(f, n))
        else:
            d = mk_poly({tuple(dep): Fraction(1)})
            out.append(mul(f, _sum1(n, v, d)))
    return add(*out)


def _sum1(n, v, d):
    if d is v:
        return scale(mul(n, sub(n, ONE)), Fraction(1, 2))
    a1 = mkabs(v, d)
    a2 = mkabs(v, subst(d, {v: sub(sub(n, ONE), v)}))
    if complexity(a2) < complexity(a1):
        a1 = a2
    return mk("sum", n, a1)


def _sum_ite(n, v, body):
    """sum over paths: [path] * leaf, leaves split into monomials"""
    acc = {}

    def go(t, guard):
        if t.op == "ite":
            go(t.a[1], AND(guard, atom(t.a[0])))
            go(t.a[2], AND(guard, NOT(atom(t.a[0]))))
            return
        for m, c in mono_of(t).items():
            inv = tuple((x, e) for x, e in m if not occurs(v, x))
            dep = tuple((x, e) for x, e in m if occurs(v, x))
            d = mk_poly({dep: Fraction(1)})
            k = d
            g, coef = acc.get((d, ), (None, None)) if False else (None, None)
            acc.setdefault((d.id, inv, c), [d, inv, c, FALSE])
            acc[(d.id, inv, c)][3] = OR(acc[(d.id, inv, c)][3], guard)
    if len(leaves(body, LIMIT + 1)) > LIMIT:
        return mk("sum", n, mkabs(v, body))
    go(body, TRUE)
    out = []
    for d, inv, c, g in acc.values():
        f = mk_poly({inv: c})
        if g is TRUE:
            out.append(mul(f, Sum(n, v, d)))
        else:
            out.append(mul(f, mk("sum", n, mkabs(v, ite(g, d, ZERO)))))
    return add(*out)


def complexity(t):
    # structural, independent of creation order
    memo = {}

    def go(t):
        r = memo.get(t.id)
        if r is None:
            r = 1 + sum(go(s) for s in subterms(t))
            memo[t.id] = r
        return r
    return go(t), fp(t)


def condatoms(t):
    out, st, seen = [], [t], set()
    while st:
        x = st.pop()
        if x.op == "ite" and x.id not in seen:
            seen.add(x.id)
            out.append(x.a[0])
            st += [x.a[1], x.a[2]]
    return sorted(set(out), key=lambda t: t.id)


def cofactor(t, v, b):
    if t.op != "ite" or t.a[0].id > v.id:
        return t
    if t.a[0] is v:
        return t.a[1] if b else t.a[2]
    return ite(atom(t.a[0]), cofactor(t.a[1], v, b), cofactor(t.a[2], v, b))


def Prod(n, v, body):
    body = ranged(n, v, body)
    if n is ZERO or body is ONE:
        return ONE
    if not occurs(v, body) and n.op == "num" and n.a[0].denominator == 1:
        return powr(body, n.a[0])
    return mk("prod", n, mkabs(v, body))


def Any(n, v, c):
    """exists 0 <= v < n with c"""
    c = ranged(n, v, c)
    if c is FALSE or n is ZERO:
        return FALSE
    if not occurs(v, c):
        return AND(c, lt0(neg(n), True))
    if n.op == "num" and n.a[0] <= 8:
        return OR(*[subst(c, {v: num(k)}) for k in range(int(n.a[0]))])
    return atom(mk("any", n, mkabs(v, c)))


def First(n, v, c):
    """smallest such v"""
    return mk("first", n, mkabs(v, c))


# ---------------------------------------------------------------- sequences (text, output, push_back)
EMPTY = string("")


def cat(*xs):
    out = []
    for x in xs:
        if x.op == "cat":
            out.extend(x.a[0])
        elif x is EMPTY:
            continue
        else:
            out.append(x)
    r = []
    for x in out:
        if r and x.op == "str" and r[-1].op == "str":
            r[-1] = string(r[-1].a[0] + x.a[0])
        else:
            r.append(x)
    if not r:
        return EMPTY
    if len(r) == 1:
        return r[0]
    return mk("cat", tuple(r))


def CatN(n, v, body):
    body = ranged(n, v, body)
    if body is EMPTY or n is ZERO:
        return EMPTY
    if n.op == "num" and n.a[0] <= 4:
        return cat(*[subst(body, {v: num(k)}) for k in range(int(n.a[0]))])
    return mk("catn", n, mkabs(v, body))


# ---------------------------------------------------------------- fingerprints
P = (1 << 127) - 1


def H(*xs):
    h = hashlib.blake2b(repr(xs).encode(), digest_size=16).digest()
    return int.from_bytes(h, "big") % P


def inv(x):
    return pow(x, P - 2, P)


def fpq(q):
    q = Fraction(q)
    return q.numerator % P * inv(q.denominator % P) % P


def fp(t):
    r = t._fp
    if r is None:
        r = _fp(t, fp)
        t._fp = r
    return r


def fp_with(col):
    """fingerprint with given values for some symbols"""
    keys = frozenset(col)
    memo = {}

    def go(t):
        if not (freesyms(t) & keys):
            return fp(t)
        r = memo.get(t.id)
        if r is None:
            r = col[t] if t in keys else _fp(t, go)
            memo[t.id] = r
        return r
    return go


def iso(col):
    """fingerprint with given values for some symbols that does not depend on the order in which loops list their variables"""
    memo, need, cols = {}, {}, {}

    def has(t):
        """does the term contain a loop or one of the given symbols"""
        r = need.get(t.id)
        if r is None:
            r = need[t.id] = t in col or t.op == "mu" or any(has(x) for x in subterms(t))
        return r

    def colours(mu):
        r = cols.get(mu.id)
        if r is None:
            r = cols[mu.id] = colours1(mu)
        return r

    def colours1(mu):
        l, ini, upd, ex = mu.a[0], mu.a[1], mu.a[2], mu.a[3]
        n = len(ini)
        c = [H("start", go(x)) for x in ini]
        vs = [mk("lv", l, i) for i in range(n)]
        t = mk("lv", l, -1)
        for k in range(4):
            if k and len(set(c)) == n:
                break
            f = iso({**col, **dict(zip(vs, c)), t: H("time")})
            c2 = [H(c[i], f(upd[i])) for i in range(n)]
            if len(set(c2)) == len(set(c)) and k:
                break
            c = c2
        f = iso({**col, **dict(zip(vs, c)), t: H("time")})
        return H("mu", tuple(sorted(H(c[i], f(upd[i])) for i in range(n))), tuple(f(x) for x in ex)), f, c

    def go(t):
        if not has(t):
            return fp(t)
        r = memo.get(t.id)
        if r is None:
            if t in col:
                r = col[t]
            elif t.op == "mu":
                r = colours(t)[0]
            elif t.op in ("muval", "muexit") and t.a[0].op == "mu":
                h, f, _ = colours(t.a[0])
                r = H(t.op, h, *[_fpx(x, f) for x in t.a[1:]])
            else:
                r = _fp(t, go)
            memo[t.id] = r
        return r
    go.colours = colours
    return go


_iso = []


def isofp(t):
    """context-free iso fingerprint; for a loop also the values that tell its variables apart"""
    if not _iso:
        _iso.append(iso({}))
    f = _iso[0]
    v = f(t)
    return v, (tuple(f.colours(t)[2]) if t.op == "mu" else ())


def _fpx(x, fp):
    if isinstance(x, T):
        return fp(x)
    if isinstance(x, tuple):
        return tuple(_fpx(y, fp) for y in x)
    return x


def _fp(t, fp):
    op, a = t.op, t.a
    if op == "num":
        return fpq(a[0])
    if op == "true":
        return 1
    if op == "false":
        return 0
    if op == "poly":
        s = 0
        for m, c in a[0]:
            p = fpq(c)
            for x, e in m:
                p = p * _fppow(fp(x), e) % P
            s = (s + p) % P
        return s
    if op == "ite":
        v = fp(a[0])
        return (v * fp(a[1]) + (1 - v) * fp(a[2])) % P
    if op == "lt":
        x = fp(a[0])
        # p<0 and -p<0 are different atoms; integer atoms have a canonical sign
        return H("lt", a[1], x)
    if op == "eq0":
        return H("eq0", min(fp(a[0]), (-fp(a[0])) % P))
    if op == "eqt":
        return H("eqt", tuple(sorted((fp(a[0]), fp(a[1])))))
    if op == "cst":
        return fpq(a[0])
    if op == "app" and a[0] in ("max", "min", "and", "or", "xor"):
        return H("app", a[0], tuple(sorted(fp(x) for x in a[1:])))
    if op == "app" and a[0] == "abs":
        return H("app", "abs", min(fp(a[1]), (-fp(a[1])) % P))
    if op == "shift":
        return H("shift", fp(a[0]), fp(a[1]))
    return H(op, _fpx(a, fp))


def _fppow(b, e):
    if e.denominator == 1:
        e = int(e)
        return pow(b, e, P) if e >= 0 else inv(pow(b, -e, P))
    import math
    k = math.floor(e)
    fr = e - k
    root = H("root", fr.denominator, b)
    r = pow(root, fr.numerator, P)
    r = r * (pow(b, k, P) if k >= 0 else inv(pow(b, -k, P))) % P
    return r


# ---------------------------------------------------------------- printing
def show(t, d=0, lim=9):
    if d > lim:
        return "…"
    op, a = t.op, t.a
    s = lambda x: show(x, d + 1, lim) if isinstance(x, T) else str(x) if not isinstance(x, tuple) else "(" + ", ".join(s(y) for y in x) + ")"
    if op == "num":
        return str(a[0]) if a[0].denominator == 1 else repr(float(a[0]))
    if op == "sym":
        return a[0]
    if op == "bv":
        return "i%d" % a[0]
    if op == "lv":
        return "L%s.%s" % (a[0], a[1])
    if op == "str":
        return repr(a[0])
    if op == "poly":
        out = []
        for m, c in a[0]:
            f = []
            if c != 1 or not m:
                f.append(str(c) if c.denominator == 1 else repr(float(c)))
            for x, e in m:
                y = s(x)
                if x.op == "poly":
                    y = "(" + y + ")"
                f.append(y if e == 1 else "%s^%s" % (y, e))
            out.append("*".join(f))
        return " + ".join(out)
    if op == "ite":
        if a[1] is TRUE and a[2] is FALSE:
            return s(a[0])
        if a[1] is FALSE and a[2] is TRUE:
            return "!(" + s(a[0]) + ")"
        return "(%s ? %s : %s)" % (s(a[0]), s(a[1]), s(a[2]))
    if op == "lt":
        return "%s<0" % s(a[0])
    if op == "eq0":
        return "%s==0" % s(a[0])
    if op == "eqt":
        return "%s==%s" % (s(a[0]), s(a[1]))
    if op == "app":
        return "%s(%s)" % (a[0], ", ".join(s(x) for x in a[1:]))
    if op == "fld":
        return "%s.%s" % (s(a[0]), a[1])
    if op == "sel":
        return "%s[%s]" % (s(a[0]), s(a[1]))
    if op == "abs":
        return "%s. %s" % (s(a[0]), s(a[1]))
    if op == "cat":
        return " ++ ".join(s(x) for x in a[0])
    return "%s{%s}" % (op, ", ".join(s(x) for x in a))

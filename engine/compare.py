"""Decides whether two value graphs agree; three-valued.

"equal"    same normal form (equal fingerprints)
"differ"   the graphs have the same skeleton down to a place where both are built from
           first-order terms over the same kinds of atoms and are distinct there, under
           branch conditions that are jointly satisfiable
"unknown"  anything else: the analysis does not decide and stays quiet
"""
from fractions import Fraction
from term import *
import term as tm
import sample

COMPLEX = {"sum", "prod", "any", "first", "catn", "mu", "muval", "muexit", "lam", "sto", "scat", "sorted", "heap", "clos", "closv",
           "dc", "shift", "abs"}


class Diff:
    def __init__(self, kind, a, b, path, where):
        self.kind, self.a, self.b, self.path, self.where = kind, a, b, path, where

    def __repr__(self):
        return "%s at %s: %s  instead of  %s%s" % (
            self.kind, "/".join(self.where) or "top", short(self.a), short(self.b),
            "  when " + ", ".join(("" if v else "not ") + short(c, 90) for c, v in self.path) if self.path else "")


def short(t, n=240):
    s = show(t) if isinstance(t, T) else str(t)
    return s if len(s) <= n else s[:n] + "…"


def simple(t):
    """first-order term whose normal form is canonical"""
    memo = {}

    def go(t):
        r = memo.get(t.id)
        if r is None:
            r = t.op not in COMPLEX and all(go(s) for s in subterms(t))
            memo[t.id] = r
        return r
    return go(t)


def replace(t, x, y):
    """every occurrence of the subterm x becomes y"""
    memo = {}

    def go(t):
        r = memo.get(t.id)
        if r is None:
            if t is x:
                r = y
            elif not any(True for _ in subterms(t)):
                r = t
            else:
                r = tm.rebuild(t, go)
            memo[t.id] = r
        return r
    return go(t)


def solve_eq(atom_):
    """p == 0 solved for an atom that occurs linearly and alone"""
    if atom_.op == "eqt":
        x, y = atom_.a
        for x, y in ((x, y), (y, x)):
            if y.op in ("num", "str", "null"):
                return x, y
        x, y = atom_.a
        if not _contains(y, x):
            return x, y
        return None
    p = atom_.a[0]
    d = mono_of(p)
    for m, k in sorted(d.items(), key=lambda mk_: (mk_[0] == (), len(mk_[0]))):
        if len(m) == 1 and m[0][1] == 1:
            x = m[0][0]
            rest = sub(p, scale(x, k))
            if not _contains(rest, x):
                return x, scale(rest, -1 / k)
    return None


def _contains(t, x):
    seen, st = set(), [t]
    while st:
        y = st.pop()
        if y is x:
            return True
        if y.id not in seen:
            seen.add(y.id)
            st.extend(subterms(y))
    return False


# ---------------------------------------------------------------- feasibility of branch conditions
def lin(p):
    """{atom-key: coefficient}, constant"""
    d, c = {}, Fraction(0)
    for m, k in mono_of(p).items():
        if m == ():
            c += k
        else:
            key = tuple(sorted((fp(x), e) for x, e in m))
            d[key] = d.get(key, Fraction(0)) + k
    return d, c


def nonneg_facts(ts):
    """sizes and squares are not negative"""
    out, seen, st = [], set(), list(ts)
    while st:
        x = st.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        if x.op == "poly":
            for m, k in x.a[0]:
                if m and all(e.denominator == 1 and e % 2 == 0 for _, e in m):
                    out.append(mk_poly({m: Fraction(1)}))
        if x.op == "fld" and x.a[1] == "n" or x.op == "app" and x.a[0] in ("strlen", "maplen", "abs", "exp"):
            out.append(x)
        if x.op == "first":
            out.append(x)
        st.extend(subterms(x))
    return out


def feasible(path, facts=()):
    """Fourier-Motzkin over the comparison atoms of a path; facts are terms known to be >= 0"""
    ineq = []       # (coeffs, const, strict): sum <= / < 0
    eqs, nes = [], []
    seen = {}
    for a, v in path:
        k = fp(a)
        if seen.setdefault(k, v) != v:
            return False
        if a.op == "lt":
            d, c = lin(a.a[0])
            integer = a.a[1] == "i"
            if v:
                ineq.append((d, c + 1, False) if integer else (d, c, True))
            else:
                ineq.append(({x: -y for x, y in d.items()}, -c, False))
        elif a.op == "eq0":
            d, c = lin(a.a[0])
            if v:
                eqs.append((d, c))
            else:
                nes.append((d, c, a))
        elif a.op == "eqt" and v:
            # equality with two different constants
            for b, w in path:
                if b.op == "eqt" and w and b is not a:
                    sa, sb = set(fp(x) for x in a.a), set(fp(x) for x in b.a)
                    if len(sa & sb) == 1 and all(x.op in ("num", "str", "null") for x in list(a.a) + list(b.a) if fp(x) in sa ^ sb):
                        return False
    for f in list(facts) + nonneg_facts([a for a, _ in path]):
        d, c = lin(f)
        ineq.append(({x: -y for x, y in d.items()}, -c, False))
    return fm(ineq, eqs) and all(
        fm(ineq + [(d, c + s, True)], eqs) or fm(ineq + [({x: -y for x, y in d.items()}, -c + s, True)], eqs)
        for d, c, a in nes for s in (0,))


def fm(ineq, eqs):
    ineq = [(dict(d), c, s) for d, c, s in ineq]
    eqs = [(dict(d), c) for d, c in eqs]
    # substitute equalities
    while eqs:
        d, c = eqs.pop()
        d = {x: y for x, y in d.items() if y}
        if not d:
            if c != 0:
                return False
            continue
        x, k = next(iter(d.items()))

        def elim(e, ec):
            f = e.get(x)
            if not f:
                return e, ec
            r = dict(e)
            del r[x]
            for y, z in d.items():
                if y != x:
                    r[y] = r.get(y, Fraction(0)) - f * z / k
            return r, ec - f * c / k
        eqs = [elim(e, ec) for e, ec in eqs]
        ineq = [elim(e, ec) + (s,) for e, ec, s in ineq]
    for _ in range(60):
        vs = {}
        rest = []
        for d, c, s in ineq:
            d = {x: y for x, y in d.items() if y}
            if not d:
                if c > 0 or (s and c >= 0):
                    return False
                continue
            rest.append((d, c, s))
            for x in d:
                vs[x] = vs.get(x, 0) + 1
        if not rest:
            return True
        x = min(vs, key=lambda v: vs[v])
        up = [r for r in rest if r[0].get(x, 0) > 0]
        lo = [r for r in rest if r[0].get(x, 0) < 0]
        ineq = [r for r in rest if not r[0].get(x)]
        if len(up) * len(lo) > 400:
            return True
        for d1, c1, s1 in up:
            for d2, c2, s2 in lo:
                f1, f2 = 1 / d1[x], -1 / d2[x]
                d = {}
                for y, z in d1.items():
                    d[y] = d.get(y, Fraction(0)) + z * f1
                for y, z in d2.items():
                    d[y] = d.get(y, Fraction(0)) + z * f2
                d.pop(x, None)
                ineq.append((d, c1 * f1 + c2 * f2, s1 or s2))
    return True


# ---------------------------------------------------------------- comparison
class Cmp:
    def __init__(self, facts=(), budget=20000):
        self.facts = list(facts)
        self.budget = budget
        self.memo = {}
        self.count = 0

    def eqv(self, a, b):
        return a is b or fp(a) == fp(b)

    def diff(self, a, b, path=(), where=()):
        """list of Diff; empty: equal"""
        self.count += 1
        self.budget -= 1
        if self.budget < 0:
            return [Diff("unknown", a, b, path, where + ("budget",))]
        if self.eqv(a, b):
            return []
        key = (a.id, b.id)
        if key in self.memo and not path:
            return self.memo[key]
        r = self._diff(a, b, path, where)
        if not path:
            self.memo[key] = r
        return r

    def both(self, pairs, path, where):
        out = []
        for n, x, y in pairs:
            out += self.diff(x, y, path, where + (n,))
        return out

    def _diff(self, a, b, path, where):
        D = lambda k: [Diff(k, a, b, path, where)]
        if a.op == "ite" or b.op == "ite":
            return self.diff_ite(a, b, path, where)
        if a.op == "dc" or b.op == "dc":
            return D("unknown")
        na, nb = a.op in ("num", "poly"), b.op in ("num", "poly")
        if na or nb:
            return self.diff_poly(a, b, path, where)
        if a.op in ("rec", "upd") and b.op in ("rec", "upd", "sym", "fld", "sel") or b.op in ("rec", "upd") and a.op in ("sym", "fld", "sel"):
            fs = fields_of(a) | fields_of(b)
            out = []
            if fs == {"a", "n"} and a.op == b.op == "rec":
                # a sized array: elements outside its size do not exist
                n = fld(b, "n")
                out = self.diff(fld(a, "n"), n, path, where + (".n",))
                x, y = fld(a, "a"), fld(b, "a")
                if out or self.eqv(x, y):
                    return out
                if x.op in ("lam", "sto", "list", "shift", "ite", "muval") and y.op in ("lam", "sto", "list", "shift", "ite", "muval"):
                    if x.op in ("lam", "sto", "list", "shift") or y.op in ("lam", "sto", "list", "shift"):
                        v = fresh("q")
                        p, q = sel(x, v), sel(y, v)
                        if not (p.op == "sel" and p.a[0] is x or q.op == "sel" and q.a[0] is y):
                            return self.diff(tm.ranged(n, v, p), tm.ranged(n, v, q), path + tuple(self.rangepath(v, n)), where + ("[i]",))
                return self.diff(x, y, path, where + (".a",))
            for f in sorted(fs):
                out += self.diff(fld(a, f), fld(b, f), path, where + ("." + f,))
            base = lambda t: t.a[0] if t.op == "upd" else None if t.op == "rec" else t
            x, y = base(a), base(b)
            if not out and not (x is y or x is not None and y is not None and self.eqv(x, y)):
                out = D("unknown")
            return out
        if a.op in ("lam", "sto", "list", "shift") or b.op in ("lam", "sto", "list", "shift"):
            v = fresh("q")
            x, y = sel(a, v), sel(b, v)
            if x.op == "sel" and x.a[0] is a or y.op == "sel" and y.a[0] is b:
                return D("differ" if simple(x) and simple(y) else "unknown")
            return self.diff(x, y, path, where + ("[i]",))
        if a.op == b.op:
            if a.op in ("sum", "prod", "any", "first", "catn"):
                out = self.diff(a.a[0], b.a[0], path, where + (a.op + " range",))
                v = fresh("i")
                n = a.a[0]
                x, y = inst(a.a[1], v), inst(b.a[1], v)
                p = path
                if not out:
                    p = path + tuple(self.rangepath(v, n))
                o2 = self.diff(x, y, p, where + (a.op,))
                return out + o2
            if a.op == "mu":
                return self.mu_match(a, b, path, where)[0]
            if a.op == "muval":
                out, m = self.mu_match(a.a[0], b.a[0], (), where + ("loop",), (a.a[1], b.a[1]))
                if out:
                    return out
                return self.diff(a.a[1], subst(b.a[1], m) if m else b.a[1], (), where + ("value after loop",))
            if a.op == "cat":
                return self.diff_cat(a, b, path, where)
            if a.op in ("lt", "eq0", "eqt", "lv", "bv", "sym", "str", "num"):
                return D("differ" if simple(a) and simple(b) else "unknown")
            if a.op == "app" and (a.a[0] != b.a[0] or len(a.a) != len(b.a)):
                return D("differ" if simple(a) and simple(b) else "unknown")
            if len(a.a) != len(b.a):
                return D("unknown")
            out = []
            for i, (x, y) in enumerate(zip(a.a, b.a)):
                out += self.diff_any(x, y, path, where + (a.op if a.op != "app" else str(a.a[0]),), a, b)
            return out
        return D("differ" if simple(a) and simple(b) else "unknown")

    def diff_any(self, x, y, path, where, a, b):
        if isinstance(x, T) and isinstance(y, T):
            if x.op == "abs" and y.op == "abs":
                v = fresh("i")
                return self.diff(inst(x, v), inst(y, v), path, where)
            return self.diff(x, y, path, where)
        if isinstance(x, tuple) and isinstance(y, tuple):
            if len(x) != len(y):
                return [Diff("differ" if all(isinstance(t, T) and simple(t) for t in x + y) else "unknown", a, b, path, where)]
            out = []
            for i, (p, q) in enumerate(zip(x, y)):
                out += self.diff_any(p, q, path, where, a, b)
            return out
        if x != y:
            return [Diff("differ" if simple(a) and simple(b) else "unknown", a, b, path, where)]
        return []

    def rangepath(self, v, n):
        out = []
        c = AND(NOT(lt0(v, True)), lt0(sub(v, n), True))
        while c.op == "ite":
            if c.a[1] is FALSE:
                out.append((c.a[0], False))
                c = c.a[2]
            elif c.a[2] is FALSE:
                out.append((c.a[0], True))
                c = c.a[1]
            else:
                break
        return out

    def under(self, t, path):
        """t with decided atoms replaced"""
        dec = {fp(a): v for a, v in path}

        def go(t):
            if t.op != "ite":
                return t
            k = fp(t.a[0])
            if k in dec:
                return go(t.a[1] if dec[k] else t.a[2])
            return ite(atom(t.a[0]), go(t.a[1]), go(t.a[2]))
        return go(t)

    def diff_ite(self, a, b, path, where):
        a, b = self.under(a, path), self.under(b, path)
        if self.eqv(a, b):
            return []
        if a.op != "ite" and b.op != "ite":
            return self.diff(a, b, path, where)
        out = []
        for d in self.enum(a, b, path, where, [400]):
            out.append(d)
            if len(out) > 6:
                break
        return out

    def enum(self, a, b, path, where, lim):
        """joint cases of two decision diagrams: conditions that are first-order or common to both are split on; the
        others are paired up"""
        if self.eqv(a, b):
            return
        lim[0] -= 1
        if lim[0] < 0:
            yield Diff("unknown", a, b, path, where + ("too many cases",))
            return
        if a.op == "ite" or b.op == "ite":
            ca = {fp(x): x for x in condatoms(a)}
            cb = {fp(x): x for x in condatoms(b)}
            ok = {k for k in list(ca) + list(cb) if k in ca and k in cb or simple(ca.get(k) or cb.get(k))}
            v = None
            for t in (a, b):
                if t.op == "ite" and fp(t.a[0]) in ok:
                    v = t.a[0] if v is None or t.a[0].id < v.id else v
            if v is None and ok:
                k = min(ok)
                v = ca.get(k) or cb.get(k)
            if v is None:
                yield from self.pairs(a, b, ca, cb, path, where, lim)
                return
            k = fp(v)
            dec = [x for x in (ca.get(k), cb.get(k)) if x is not None]
            for val in (True, False):
                p = path + ((v, val),)
                if not feasible(p, self.facts):
                    continue
                x, y = self.under(a, ((v, val),)), self.under(b, ((v, val),))
                x, y = tm.decide(x, {d: val for d in dec}), tm.decide(y, {d: val for d in dec})
                if val and v.op in ("eq0", "eqt"):
                    s = solve_eq(v)
                    if s:
                        x, y = self.under(replace(x, *s), p), self.under(replace(y, *s), p)
                yield from self.enum(x, y, p, where, lim)
            return
        if bad(a) or bad(b):
            return
        yield from self.diff(a, b, path, where)

    def pairs(self, a, b, ca, cb, path, where, lim):
        """conditions over sums, searches and the like that only one side has"""
        best = None
        for x in ca.values():
            for y in cb.values():
                if x.op != y.op or x.op == "lt" and x.a[1] != y.a[1]:
                    continue
                if x.op in ("lt", "eq0"):
                    d = self.diff(x.a[0], y.a[0], (), where + ("condition",))
                    if d and x.op == "eq0":
                        d2 = self.diff(x.a[0], neg(y.a[0]), (), where + ("condition",))
                        d = d if len(d) <= len(d2) else d2
                else:
                    d = self.diff(x, y, (), where + ("condition",))
                if not d:
                    yield from self.enum(a, replace(b, y, x), path, where, lim)
                    return
                if best is None or len(d) < len(best):
                    best = d
        if len(ca) == len(cb) == 1 and best:
            yield from best
            return
        yield Diff("unknown", a, b, path, where + ("conditions",))

    def diff_poly(self, a, b, path, where):
        D = lambda k: [Diff(k, a, b, path, where)]
        da, db = mono_of(a), mono_of(b)

        def atoms(d):
            out = {}
            for m in d:
                for x, e in m:
                    out.setdefault(fp(x), x)
            return out
        # difference restricted to the monomials that do not cancel
        A, B = {}, {}
        fa = {tuple(sorted((fp(x), e) for x, e in m)): (m, c) for m, c in da.items()}
        fb = {tuple(sorted((fp(x), e) for x, e in m)): (m, c) for m, c in db.items()}
        ra = {k: v for k, v in fa.items() if k not in fb or fb[k][1] != v[1]}
        rb = {k: v for k, v in fb.items() if k not in fa or fa[k][1] != v[1]}
        xa, xb = atoms([m for m, c in ra.values()]), atoms([m for m, c in rb.values()])
        oa, ob = [x for k, x in xa.items() if k not in xb], [x for k, x in xb.items() if k not in xa]
        cpa, cpb = [x for x in oa if not simple(x)], [x for x in ob if not simple(x)]
        if not cpa and not cpb:
            return D("differ")
        if len(ra) == len(rb) == 1 and len(cpa) == len(cpb) == 1 and cpa[0].op == cpb[0].op:
            (ma, ka), = ra.values()
            (mb, kb), = rb.values()
            ea = [e for x, e in ma if x is cpa[0]]
            eb = [e for x, e in mb if x is cpb[0]]
            resta = mk_poly({tuple((x, e) for x, e in ma if x is not cpa[0]): ka})
            restb = mk_poly({tuple((x, e) for x, e in mb if x is not cpb[0]): kb})
            if ea == eb and self.eqv(resta, restb):
                return self.diff(cpa[0], cpb[0], path, where)
            d = self.diff(cpa[0], cpb[0], path, where)
            if d and all(x.kind == "differ" for x in d):
                return d
            return D("unknown")
        # sums that differ in form but whose ranges agree: compare one combined sum
        sa = self.combined(ra)
        sb = self.combined(rb)
        if sa and sb and self.eqv(sa[0], sb[0]):
            v = fresh("i")
            x, y = self.body(sa, v), self.body(sb, v)
            return self.diff(x, y, path + tuple(self.rangepath(v, sa[0])), where + ("sum",)) or D("unknown")
        if sa and not rb or sb and not ra:
            s = sa or sb
            v = fresh("i")
            x = self.body(s, v)
            d = self.diff(x, ZERO, path + tuple(self.rangepath(v, s[0])), where + ("sum",)) if sa else \
                self.diff(ZERO, x, path + tuple(self.rangepath(v, s[0])), where + ("sum",))
            return d or D("unknown")
        return D("unknown")

    def combined(self, r):
        """monomials that are all multiples of sums over one range"""
        n = None
        out = []
        for m, c in r.values():
            s = [x for x, e in m if x.op == "sum" and e == 1]
            if len(s) != 1:
                return None
            if n is not None and not self.eqv(n, s[0].a[0]):
                return None
            n = s[0].a[0]
            out.append((mk_poly({tuple((x, e) for x, e in m if x is not s[0]): c}), s[0].a[1]))
        return (n, out) if out else None

    def body(self, s, v):
        return add(*[mul(f, inst(ab, v)) for f, ab in s[1]])

    def diff_cat(self, a, b, path, where):
        xs, ys = a.a[0], b.a[0]
        if len(xs) == len(ys):
            out = []
            for i, (x, y) in enumerate(zip(xs, ys)):
                out += self.diff(x, y, path, where + ("part %d" % i,))
            return out
        # strip what agrees at both ends
        i = 0
        while i < min(len(xs), len(ys)) and self.eqv(xs[i], ys[i]):
            i += 1
        j = 0
        while j < min(len(xs), len(ys)) - i and self.eqv(xs[-1 - j], ys[-1 - j]):
            j += 1
        p, q = xs[i:len(xs) - j], ys[i:len(ys) - j]
        if all(simple(t) for t in p + q):
            return [Diff("differ", cat(*p), cat(*q), path, where + ("part %d" % i,))]
        return [Diff("unknown", cat(*p), cat(*q), path, where + ("part %d" % i,))]

    def mu_match(self, a, b, path, where, values=None):
        """differences of two loops and the renaming of the second one's variables"""
        if self.eqv(a, b):
            return [], {}
        if a.op != "mu" or b.op != "mu" or a.a[0] != b.a[0] or len(a.a[1]) != len(b.a[1]) or len(a.a[3]) != len(b.a[3]):
            return [Diff("unknown", a, b, path, where)], {}
        n = len(a.a[1])
        l = a.a[0]
        (ia, ca), (ib, cb) = tm.isofp(a), tm.isofp(b)
        if ia == ib and len(set(ca)) == n and set(ca) == set(cb):
            return [], {mk("lv", l, cb.index(ca[i])): mk("lv", l, i) for i in range(n)}
        best = None
        import itertools
        # the loop variables of b may be numbered differently
        l = a.a[0]
        cand = [[j for j in range(n) if self.eqv(a.a[1][i], b.a[1][j])] for i in range(n)]

        def perms(i, used):
            if i == n:
                yield ()
                return
            for j in cand[i] if cand[i] else range(n):
                if j not in used:
                    for r in perms(i + 1, used | {j}):
                        yield (j,) + r
        # most of the pairing can be seen from fingerprints; the differences are worked out for the closest pairings only
        big = self.size(a) + self.size(b) > 6000
        sim = self.similar(a, b) if big or n > 3 else None
        if sim:
            cand = [sorted(c if c else range(n), key=lambda j: -sim[i][j]) for i, c in enumerate(cand)]
        ps = list(itertools.islice(perms(0, frozenset()), 60)) or []
        ranked = []
        for k, p in enumerate(ps + [tuple(range(n))]):
            w = self.apart(a, b, p)
            if w == 0:
                return [], {mk("lv", l, p[i]): mk("lv", l, i) for i in range(n)}
            ranked.append((w, k, p))
        if big:
            ranked = sorted(ranked)[:3]
        for w, k, p in ranked:
            if big:
                self.budget = max(self.budget, 8000)
            start, step, exit_ = [], [], []
            m = {mk("lv", l, p[i]): mk("lv", l, i) for i in range(n)}
            for i in range(n):
                start += self.diff(a.a[1][i], b.a[1][p[i]], (), where + ("start",))
                step += self.diff(a.a[2][i], subst(b.a[2][p[i]], m), (), where + ("step",))
            for x, y in zip(a.a[3], b.a[3]):
                exit_ += self.diff(counted(x, l, a), counted(subst(y, m), l, b), (), where + ("exit",))
            out = start + step + exit_
            if not out:
                return [], m
            same = values is not None and self.eqv(values[0], subst(values[1], m))
            if start and (step or exit_) or self.rotated(a, b, m) and not same or self.otherway(a, b, m) or self.reordered(a, b, m):
                # the same loop may carry its state in another way
                out = [Diff("unknown", d.a, d.b, d.path, d.where) for d in out]
            if best is None or len(out) < len(best[0]):
                best = (out, m)
        return best

    def size(self, t):
        seen, st = set(), [t]
        while st:
            x = st.pop()
            if x.id not in seen:
                seen.add(x.id)
                st.extend(subterms(x))
        return len(seen)

    def similar(self, a, b):
        """how much the steps of two loops' variables have in common"""
        def sets(mu):
            l, n = mu.a[0], len(mu.a[1])
            f = tm.iso({mk("lv", l, i): tm.H("start", fp(mu.a[1][i])) for i in range(n)})
            out = []
            for t in mu.a[2]:
                seen, st, k = set(), [t], set()
                while st and len(seen) < 4000:
                    x = st.pop()
                    if x.id not in seen:
                        seen.add(x.id)
                        k.add(f(x))
                        st.extend(subterms(x))
                out.append(k)
            return out
        A, B = sets(a), sets(b)
        return [[len(x & y) / (len(x | y) or 1) for y in B] for x in A]

    def apart(self, a, b, p):
        """number of components in which two loops differ under a pairing of their variables"""
        l, n = a.a[0], len(a.a[1])
        f = tm.iso({mk("lv", l, i): tm.H("state", i) for i in range(n)})
        g = tm.iso({mk("lv", l, p[i]): tm.H("state", i) for i in range(n)})
        k = 0
        for i in range(n):
            k += f(a.a[1][i]) != g(b.a[1][p[i]])
            k += f(a.a[2][i]) != g(b.a[2][p[i]])
        return k + sum(f(x) != g(y) for x, y in zip(a.a[3], b.a[3]))

    def rotated(self, a, b, m):
        """one loop tests after the step what the other one tests before it"""
        l, n = a.a[0], len(a.a[1])
        sa = {mk("lv", l, i): a.a[2][i] for i in range(n)}
        inv = {y: x for x, y in m.items()}
        sb = {mk("lv", l, i): subst(b.a[2][[k.a[1] for k in inv and [inv[mk("lv", l, i)]]][0]], m) for i in range(n)} if n else {}
        t = mk("lv", l, -1)
        sa[t] = sb[t] = add(t, ONE)
        for x, y in zip(a.a[3], b.a[3]):
            y = subst(y, m)
            if self.eqv(x, y):
                continue
            if self.eqv(subst(x, sa), y) or self.eqv(x, subst(y, sb)):
                return True
        return False

    def reordered(self, a, b, m):
        """the exits are tested in another order"""
        def ats(t):
            return {fp(x) for x in condatoms(t)}
        A, B = [ats(x) for x in a.a[3]], [ats(subst(y, m)) for y in b.a[3]]
        for i in range(len(A)):
            if not (A[i] & B[i]) and any(A[i] & B[j] or A[j] & B[i] for j in range(len(A)) if j != i):
                return True
        return False

    def otherway(self, a, b, m):
        """conditions on loop variables that are written as an equality in one loop and as an inequality in the other: they may
        agree in every state that is reached"""
        def ats(t):
            return {fp(x): x for x in deepatoms(t) if x.op in ("lt", "eq0", "eqt") and any(s.op == "lv" for s in freesyms(x))}
        l = a.a[0]
        for x, y in zip(tuple(counted(x, l, a) for x in a.a[3]) + a.a[2], tuple(counted(x, l, b) for x in b.a[3]) + b.a[2]):
            p, q = ats(x), ats(subst(y, m))
            oa, ob = [z for k, z in p.items() if k not in q], [z for k, z in q.items() if k not in p]
            kinds = lambda zs: {z.op if z.op != "lt" else "lt" + z.a[1] for z in zs}
            ka, kb = kinds(oa), kinds(ob)
            if ("lti" in ka) != ("lti" in kb) and (ka | kb) & {"eq0", "eqt"} and ka and kb:
                return True
        return False


def counted(x, l, mu):
    """an exit at iteration t == N is an exit at t >= N: the iterations are counted from zero, and a loop whose only exit is t == N
    with a negative N does not end, which the language rules out"""
    t = mk("lv", l, -1)
    lone = sum(1 for e in mu.a[3] if e is not FALSE) == 1

    def go(x, depth=0):
        if depth > 12:
            return x
        vs = condatoms(x)
        ts = [v for v in vs if occurs(t, v)]
        if not ts:
            return x
        inv = [v for v in vs if not any(s.op == "lv" and s.a[0] == l for s in freesyms(v))]
        if inv:
            v = inv[0]
            return ite(v, go(cofactor(x, v, 1), depth + 1), go(cofactor(x, v, 0), depth + 1))
        if len(vs) != 1 or vs[0].op != "eq0" or cofactor(x, vs[0], 1) is not TRUE or cofactor(x, vs[0], 0) is not FALSE:
            return x
        p = vs[0].a[0]
        d = mono_of(p)
        k = d.get(((t, Fraction(1)),))
        if k is None or abs(k) != 1 or any(any(occurs(t, y) for y, e in m) and m != ((t, Fraction(1)),) for m in d):
            return x
        p = scale(p, 1 / k)
        N = sub(t, p)
        if any(s.op == "lv" and s.a[0] == l for s in freesyms(N)) or not (lone or N.op == "num" and N.a[0] >= 0):
            return x
        return NOT(lt0(p, True))
    return go(x)


def deepatoms(t):
    out, seen, st = [], set(), [t]
    while st:
        x = st.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        if x.op == "ite":
            out.append(x.a[0])
        st.extend(subterms(x))
    return out


def confirmed(ds):
    """differences that are not merely two ways of writing one thing"""
    left = [d for d in ds if not sample.refuted(d)]
    return ("differ", left) if left else ("unknown", ds)


def unwrapped(t, mu):
    t = tm.replacefn(t, lambda x: x.a[1] if x.op == "muval" and x.a[0] is mu else None)
    return None if loops(t) or mk("lv", mu.a[0], -1) in freesyms(t) else t


def loops(t):
    """the outermost recurrences of a term"""
    out, seen, st = [], set(), [t]
    while st:
        x = st.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        if x.op == "mu":
            out.append(x)
        else:
            st.extend(subterms(x))
    return out


def identical(a, b):
    """the same normal form, up to the order of loop variables"""
    return a is b or fp(a) == fp(b) or bool(loops(a) and loops(b) and tm.isofp(a)[0] == tm.isofp(b)[0])


def compare(a, b, facts=(), path=()):
    """(verdict, diffs): a is what the code computes, b what is specified"""
    if a is None or b is None:
        return ("unknown", [])
    c = Cmp(facts)
    if c.eqv(a, b):
        return "equal", []
    if loops(a) and loops(b) and tm.isofp(a)[0] == tm.isofp(b)[0]:
        return "equal", []
    ds = c.diff(a, b, tuple(path))
    if not ds:
        return "equal", []
    if all(d.kind == "differ" for d in ds):
        return confirmed(ds)
    # values of one loop each: compare the loops and, with the loops identified, what is made of their results
    x, y = loops(a), loops(b)
    if len(x) == 1 and len(y) == 1:
        out, m = c.mu_match(x[0], y[0], (), ("loop",))
        if all(k is v for k, v in m.items()):
            rest = c.diff(a, tm.replace(b, y[0], x[0]), tuple(path))
            if any(d.kind != "differ" for d in rest):
                # as functions of the state in which the loop is left
                u, v = unwrapped(a, x[0]), unwrapped(tm.replace(b, y[0], x[0]), x[0])
                if u is not None and v is not None:
                    rest = c.diff(u, v, tuple(path))
            if all(d.kind == "differ" for d in out + rest):
                return confirmed(out + rest) if out or rest else ("equal", [])
    return "unknown", ds

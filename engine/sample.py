"""Identity test of first-order terms: two normal forms that differ but take the same value at every sampled point are written differently,
they are not different.  Terms are evaluated, never the program."""
import hashlib
import math
import random
from fractions import Fraction
import sys
from term import *

try:
    import mpmath
except ImportError:
    sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
    try:
        import mpmath
    except ImportError:
        mpmath = None

_INT = {"and", "or", "xor", "shl", "shr", "not", "idiv", "imod"}
M64 = (1 << 64) - 1


class Undefined(Exception):
    pass


def leafval(key, rnd, mode):
    h = hashlib.sha256(("%s|%s" % (key, rnd)).encode()).digest()
    u = int.from_bytes(h[:8], "big")
    x = (u + 1) / (2.0 ** 64 + 2)
    if mode == "int":
        return u >> (rnd % 3) * 20
    if mode == "unit":
        return x
    if mode == "wide":
        return math.exp(6 * x - 3)
    return (x - 0.5) * 4


def value(t, rnd, mode, memo):
    r = memo.get(t.id)
    if r is None:
        r = memo[t.id] = _value(t, rnd, mode, memo)
    if isinstance(r, float) and (math.isnan(r) or math.isinf(r)):
        raise Undefined
    return r


def _value(t, rnd, mode, memo):
    v = lambda x: value(x, rnd, mode, memo)
    if t.op == "num":
        q = t.a[0]
        return q.numerator if q.denominator == 1 else (q if mode == "int" else float(q))
    if t.op == "cst":
        return leafval(fp(t), 0, "wide")
    if t.op == "poly":
        s = 0
        for m, c in t.a[0]:
            p = c if mode == "int" else float(c)
            for x, e in m:
                b = v(x)
                if e.denominator != 1 and b < 0 or e < 0 and b == 0:
                    raise Undefined
                if mode == "int":
                    if e.denominator != 1:
                        raise Undefined
                    p = p * Fraction(b) ** int(e)
                else:
                    try:
                        p *= float(b) ** (int(e) if e.denominator == 1 else float(e))
                    except (OverflowError, ValueError, ZeroDivisionError):
                        raise Undefined
            s += p
        return s
    if t.op == "ite":
        return v(t.a[1]) if truth(t.a[0], v) else v(t.a[2])
    if t.op == "app":
        f, xs = t.a[0], [v(x) for x in t.a[1:] if isinstance(x, T)]
        try:
            if f in _INT:
                ys = [int(x) for x in xs]
                if any(Fraction(x) != y for x, y in zip(xs, ys)):
                    raise Undefined
                if f == "and":
                    r = ys[0] & M64
                    for y in ys[1:]:
                        r &= y
                    return r
                if f == "or":
                    r = 0
                    for y in ys:
                        r |= y & M64
                    return r
                if f == "xor":
                    r = 0
                    for y in ys:
                        r ^= y & M64
                    return r
                if f == "shl":
                    return (ys[0] << (ys[1] & 63)) & M64
                if f == "shr":
                    return (ys[0] & M64) >> (ys[1] & 63)
                if f == "not":
                    return ~ys[0] & M64
                q = abs(ys[0]) // abs(ys[1])
                q = q if (ys[0] < 0) == (ys[1] < 0) else -q
                return q if f == "idiv" else ys[0] - q * ys[1]
            if mode != "int":
                if f == "pow":
                    return math.pow(*xs)
                if f == "abs":
                    return abs(xs[0])
                g = {"exp": math.exp, "log": math.log, "sqrt": math.sqrt, "sin": math.sin, "cos": math.cos, "tan": math.tan, "atan": math.atan,
                     "tanh": math.tanh, "sinh": math.sinh, "cosh": math.cosh, "acos": math.acos, "asin": math.asin, "log10": math.log10,
                     "floor": math.floor, "ceil": math.ceil, "trunc": math.trunc, "erf": math.erf, "cbrt": getattr(math, "cbrt", None)}.get(f)
                if g is not None:
                    return g(*xs)
            elif f == "abs":
                return abs(xs[0])
        except (ValueError, OverflowError, ZeroDivisionError):
            raise Undefined
        return leafval("%s(%s)" % (f, ",".join("%.6e" % float(x) for x in xs)), rnd, mode)
    return leafval(fp(t), rnd, mode)


def truth(c, v):
    if c.op == "lt":
        return v(c.a[0]) < 0
    if c.op == "eq0":
        return v(c.a[0]) == 0
    if c.op == "true":
        return True
    if c.op == "false":
        return False
    if c.op == "ite":
        return truth(c.a[1] if truth(c.a[0], v) else c.a[2], v)
    return hashlib.sha256(str(fp(c)).encode()).digest()[0] & 1


def modes(*ts):
    seen, st = set(), list(ts)
    while st:
        x = st.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        if x.op == "app" and x.a[0] in _INT:
            return ("int",)
        st.extend(subterms(x))
    return ("wide", "unit", "sym")


def samples(a, b, n=9):
    out = []
    for mode in modes(a, b):
        k = 0
        for rnd in range(5 * n):
            try:
                memo = {}
                x, y = value(a, rnd, mode, memo), value(b, rnd, mode, memo)
            except (Undefined, OverflowError, RecursionError, TypeError):
                continue
            out.append((x, y))
            k += 1
            if k >= n:
                break
    return out


def exact(t, rnd, memo, env):
    """value of a term at a point whose coordinates spread over many orders of magnitude, to 60 digits"""
    r = memo.get(t.id)
    if r is None:
        r = memo[t.id] = _exact(t, rnd, memo, env)
    if not mpmath.isfinite(r):
        raise Undefined
    return r


def spread(key, rnd):
    h = hashlib.sha256(("%s|spread|%s" % (key, rnd)).encode()).digest()
    u = (int.from_bytes(h[:8], "big") + 1) / (2.0 ** 64 + 2)
    x = mpmath.exp(mpmath.mpf((u - 0.5) * (20, 60, 5)[rnd % 3]))
    return -x if rnd % 2 and h[8] & 1 else x


MPFN = ("exp", "log", "sqrt", "sin", "cos", "tan", "atan", "tanh", "sinh", "cosh", "acos", "asin", "log10", "floor", "ceil", "erf")


def _exact(t, rnd, memo, env):
    v = lambda x: exact(x, rnd, memo, env)
    if t.op == "num":
        return mpmath.mpf(t.a[0].numerator) / t.a[0].denominator
    if t.op == "poly":
        s = mpmath.mpf(0)
        for m, c in t.a[0]:
            p = mpmath.mpf(c.numerator) / c.denominator
            for x, e in m:
                b = v(x)
                if e.denominator != 1 and b < 0 or e < 0 and b == 0:
                    raise Undefined
                p *= b ** int(e) if e.denominator == 1 else b ** (mpmath.mpf(e.numerator) / e.denominator)
            s += p
        return s
    if t.op == "ite":
        return v(t.a[1]) if truth(t.a[0], v) else v(t.a[2])
    if t.op == "app":
        f, xs = t.a[0], [v(x) for x in t.a[1:] if isinstance(x, T)]
        if f in _INT:
            raise Undefined
        if any(abs(x) > 1e30 for x in xs):
            raise Undefined
        try:
            if f == "pow":
                r = xs[0] ** xs[1]
            elif f == "abs":
                r = abs(xs[0])
            elif f in MPFN:
                r = getattr(mpmath, f)(*xs)
            else:
                return spread("%s(%s)" % (f, ",".join(mpmath.nstr(x, 6) for x in xs)), rnd)
        except (ValueError, OverflowError, ZeroDivisionError, mpmath.libmp.libhyper.NoConvergence):
            raise Undefined
        if isinstance(r, mpmath.mpc):
            raise Undefined
        return r
    k = fp(t)
    if k not in env:
        env[k] = spread(k, rnd)
    return env[k]


def place(path, rnd, steps=1500):
    """coordinates at which the numeric conditions of a path hold, by local search; None if none were found.  Conditions are sharp compared with
    the scatter of random points when they say, for instance, that a wavelength lies in the core of a line."""
    cs = [(c, w) for c, w in path if c.op in ("lt", "eq0") and numeric(c.a[0])]
    if any(c.op == "eq0" and w for c, w in cs):
        return None
    cs = [(c.a[0], w) for c, w in cs if c.op == "lt"]
    keys = sorted({k for t, w in cs for k in leaves(t)})

    def misfit(env):
        memo, worst = {}, mpmath.mpf(-1)
        for t, w in cs:
            try:
                x = exact(t, rnd, memo, env)
                big = mpmath.mpf(0)
                for m, c in (t.a[0] if t.op == "poly" else ()):
                    y = mk("poly", ((m, c),)) if len(t.a[0]) > 1 else t
                    big += abs(exact(y, rnd, memo, env))
            except (Undefined, OverflowError, RecursionError, TypeError, ZeroDivisionError, ValueError):
                return None
            big = big or abs(x) or mpmath.mpf(1)
            g = x / big if w else -x / big
            if w and x == 0:
                g = mpmath.mpf(10) ** -30
            worst = max(worst, g)
        return worst
    env = {k: spread(k, rnd) for k in keys}
    cur = misfit(env)
    rng = random.Random(rnd)
    for step in range(steps):
        if cur is not None and (cur < 0 or not cs):
            return env
        if not keys:
            return None
        k = rng.choice(keys)
        old = env[k]
        e = rng.uniform(-12, 1.5)
        env[k] = old * (1 + rng.choice((-1, 1)) * mpmath.mpf(10) ** e) if e < 0 else spread("%s/%d" % (k, step), rnd)
        new = misfit(env)
        if new is None or cur is not None and new > cur:
            env[k] = old
        else:
            cur = new
    return None


def leaves(t):
    out, seen, st = set(), set(), [t]
    while st:
        x = st.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        if x.op in ("num", "poly", "app", "ite", "lt", "eq0", "true", "false"):
            st.extend(subterms(x))
        else:
            out.add(fp(x))
    return out


def apart(a, b, path, n=240):
    """True if the terms take values of different size at points that satisfy the numeric conditions of the path"""
    if mpmath is None or not (numeric(a) and numeric(b)) or "int" in modes(a, b):
        return False
    far = near = valid = 0
    keyed = any(c.op in ("lt", "eq0") for c, w in path)
    with mpmath.workdps(60):
        for rnd in range(n):
            try:
                env = place(path, rnd)
                if env is None:
                    if not valid and rnd >= 6 or rnd >= 14:
                        return False
                    continue
                memo = {}
                x, y = exact(a, rnd, memo, env), exact(b, rnd, memo, env)
            except (Undefined, OverflowError, RecursionError, TypeError, ZeroDivisionError, ValueError):
                continue
            valid += 1
            d, m = abs(x - y), max(abs(x), abs(y))
            far += d > 1e-4 * m
            near += d > 1e-11 * m
            if far >= 2 or near == valid >= 4:
                return True
            if valid >= (8 if keyed else 200):
                break
    return False


def numeric(t):
    return t.op in ("num", "poly", "app", "sym", "fld", "sel", "ite", "lv", "bv", "call", "cst", "muval")


def same(a, b):
    """True if both take the same value at every sampled point (and enough points could be sampled)"""
    if not (numeric(a) and numeric(b)):
        return False
    s = samples(a, b)
    return len(s) >= 5 and all(abs(x - y) <= 1e-11 * max(abs(x), abs(y)) for x, y in s)


def proportional(a, b):
    """sign of the constant ratio of two terms, or 0"""
    if not (numeric(a) and numeric(b)):
        return 0
    s = [(x, y) for x, y in samples(a, b) if x and y]
    if len(s) < 5:
        return 0
    r = [float(x) / float(y) for x, y in s]
    if any((x > 0) != (r[0] > 0) for x in r):
        return 0
    return (1 if r[0] > 0 else -1) if max(r) - min(r) <= 1e-8 * abs(r[0]) else 0


STRFN = {"strcmp", "substr", "strfind", "strrfind", "strfind_first_of", "strfind_last_of", "strfind_first_not_of", "strlen", "chr"}


def strleaves(t, out, lits):
    """the text-valued unknowns of a condition and the texts it mentions; False if it is not about texts alone"""
    def txt(x):
        if x.op in ("sym", "cst") and str(x.a[0]).endswith("::npos"):
            return True
        if x.op == "str":
            lits.add(x.a[0])
            return True
        if x.op == "app" and x.a[0] in STRFN:
            return fun(x)
        if x.op in ("app", "num", "poly", "true", "false", "ptr", "null"):
            return False
        out[x.id] = x
        return True

    def fun(x):
        k = 2 if x.a[0] == "strcmp" or x.a[0].startswith(("strfind", "strrfind")) else 1
        return all(txt(y) for y in x.a[1:1 + k]) and all(val(y) for y in x.a[1 + k:])

    def val(x):
        if x.op == "num":
            return True
        if x.op == "poly":
            return all(val(y) for m, c in x.a[0] for y, e in m)
        return x.op == "app" and x.a[0] in STRFN and fun(x)
    if t.op == "eqt":
        strings = [x for x in t.a if x.op == "str" or x.op == "app" and x.a[0] == "substr"]
        return bool(strings) and all(txt(x) for x in t.a)
    if t.op in ("eq0", "lt"):
        return t.a[0].op in ("poly", "app") and val(t.a[0]) and bool(out)
    return False


NPOS = (1 << 64) - 1


def sval(t, env):
    if t.op == "str":
        return t.a[0]
    if t.op == "num":
        return int(t.a[0])
    if t.op == "poly":
        s = 0
        for m, c in t.a[0]:
            p = c
            for x, e in m:
                p *= Fraction(sval(x, env)) ** int(e)
            s += p
        return s
    if t.op == "app":
        f, xs = t.a[0], [sval(x, env) for x in t.a[1:]]
        if f == "strcmp":
            return (xs[0] > xs[1]) - (xs[0] < xs[1])
        if f == "substr":
            if xs[1] > len(xs[0]):
                raise Undefined
            return xs[0][int(xs[1]):] if len(xs) < 3 else xs[0][int(xs[1]):int(xs[1]) + int(min(xs[2], 1 << 30))]
        if f == "strlen":
            return len(xs[0])
        if f == "chr":
            i = int(xs[1])
            return ord(xs[0][i]) if 0 <= i < len(xs[0]) else 0
        pos = int(min(xs[2], 1 << 30)) if len(xs) > 2 else 0
        if f == "strfind":
            r = xs[0].find(xs[1], pos)
        elif f == "strrfind":
            r = xs[0].rfind(xs[1], 0, pos + len(xs[1]) if pos else None)
        elif f == "strfind_first_of":
            r = next((i for i in range(pos, len(xs[0])) if xs[0][i] in xs[1]), -1)
        elif f == "strfind_first_not_of":
            r = next((i for i in range(pos, len(xs[0])) if xs[0][i] not in xs[1]), -1)
        else:
            raise Undefined
        return NPOS if r < 0 else r
    if t.op in ("sym", "cst") and str(t.a[0]).endswith("::npos"):
        return NPOS
    return env[t.id]


def strtruth(t, env):
    if t.op == "eqt":
        return sval(t.a[0], env) == sval(t.a[1], env)
    v = sval(t.a[0], env)
    return v == 0 if t.op == "eq0" else v < 0


def texts(path):
    """False if no sampled text satisfies the conditions of a path on its texts"""
    groups = {}
    for a, v in path:
        if a.op not in ("eqt", "eq0", "lt"):
            continue
        out, lits = {}, set()
        if not strleaves(a, out, lits) or len(out) != 1:
            continue
        g = groups.setdefault(next(iter(out)), ([], set()))
        g[0].append((a, v))
        g[1].update(lits)
    for leaf, (conds, lits) in groups.items():
        cand = {"", "x", " ", "xy", "#", "0", "1 2", "x y z"}
        for l in lits:
            cand |= {l, l + "x", l + " x", "x" + l, " " + l, l[:-1], l[1:], l.upper(), l + l, "x" + l + "y", l + "\r", l.strip(), l[:1]}
        for a in lits:
            cand |= {a + b for b in lits}
        bad = True
        for c in cand:
            try:
                if all(strtruth(a, {leaf: c}) == v for a, v in conds):
                    bad = False
                    break
            except (Undefined, KeyError, TypeError):
                bad = False
                break
        if bad:
            return False
    return True


def refuted(d):
    """a difference that only exists because one thing is written in two ways"""
    if numeric(d.a) and numeric(d.b) and same(d.a, d.b) and not apart(d.a, d.b, d.path):
        return True
    if not texts(d.path):
        return True
    at = [(a, v) for a, v in d.path if a.op in ("lt", "eq0") and len(list(subterms(a))) > 0]
    for i, (a, v) in enumerate(at):
        for b, w in at[:i]:
            if a.op == b.op and a.a[0].op == "poly" and b.a[0].op == "poly":
                if v != w and (a.op == "eq0" or a.a[1] == b.a[1]):
                    k = proportional(a.a[0], b.a[0])
                    if k > 0 or k and a.op == "eq0":
                        return True
                elif v and w and a.op == "lt":
                    if proportional(a.a[0], b.a[0]) < 0:
                        return True
    return False

"""Instances of normal forms: the value of a term for small sizes and numeric coordinates, to 40 digits.

Used in one direction only.  Two normal forms that are not the same may be two ways of writing one function; they are called different only where they
take different values in an instance.  Agreement of instances proves nothing and is not used.  Terms are evaluated, never the program."""
import hashlib
from fractions import Fraction
from functools import cmp_to_key
from term import *
import term as tm
import sample
from sample import mpmath, Undefined

STEPS = 6000         # iterations of all recurrences of one term


class Arr:
    __slots__ = ("f", "memo", "key")

    def __init__(self, f, key=None):
        self.f, self.memo, self.key = f, {}, key

    def get(self, i):
        if i not in self.memo:
            self.memo[i] = self.f(i)
        return self.memo[i]


class Rec:
    __slots__ = ("d", "base", "key")

    def __init__(self, d, base=None, key=None):
        self.d, self.base, self.key = d, base, key


class Map:
    """an associative container: values by key"""
    __slots__ = ("d",)

    def __init__(self, d):
        self.d = d


class Env:
    __slots__ = ("up", "vals", "keys", "memo")

    def __init__(self, up, vals):
        self.up, self.vals, self.memo = up, vals, {}
        self.keys = frozenset(vals)

    def root(self):
        e = self
        while e.up is not None:
            e = e.up
        return e


class Instance:
    def __init__(self, sizes, seed, fns=None, scale=1.0, limit=0):
        """sizes: values of symbols; fns: how uninterpreted operators take their arguments"""
        self.seed, self.fns, self.scale = seed, fns or {}, scale
        self.base = Env(None, dict(sizes))
        self.steps, self.most = 0, STEPS
        self.limit = limit
        self.opened = {}
        self.runs = {}

    # -------------------------------------------------------- leaves
    def hash(self, *key):
        return hashlib.sha256(repr((self.seed,) + key).encode()).digest()

    def leaf(self, *key):
        h = self.hash(*key)
        u = (int.from_bytes(h[:8], "big") + 1) / (2.0 ** 64 + 2)
        if self.seed % 3 == 2:
            return mpmath.mpf(4 * u - 2)
        return mpmath.exp(mpmath.mpf((u - 0.5) * 3 * self.scale))

    def chance(self, p, *key):
        return int.from_bytes(self.hash(*key)[:4], "big") / 2.0 ** 32 < p

    def key(self, v, extent=None):
        """what identifies a value"""
        if isinstance(v, mpmath.mpf):
            if abs(v) < 10 ** 9:
                r = mpmath.nint(v)
                if abs(v - r) < mpmath.mpf(10) ** -22:
                    return int(r)
            return mpmath.nstr(v, 14)
        if isinstance(v, (int, Fraction)):
            return int(v) if v == int(v) else mpmath.nstr(mpmath.mpf(v.numerator) / v.denominator, 14)
        if isinstance(v, (str, bool)) or v is None:
            return v
        if isinstance(v, tuple):
            return tuple(self.key(x) for x in v)
        if isinstance(v, Arr):
            if extent is None:
                if v.key is not None:
                    return ("arr", v.key)
                raise Undefined
            return tuple(self.key(v.get(i)) for i in range(extent))
        if isinstance(v, Map):
            return ("map",) + tuple(sorted((k, self.key(x() if callable(x) else x)) for k, x in v.d.items()))
        if isinstance(v, Rec):
            if v.key is not None and not v.d:
                return ("rec", v.key)
            if set(v.d) == {"a", "n"} or v.base is None and "a" in v.d and "n" in v.d:
                return self.key(v.d["a"]() if callable(v.d["a"]) else v.d["a"], int(self.force(v, "n")))
        raise Undefined

    def force(self, r, f):
        if f in r.d:
            x = r.d[f]
            if callable(x):
                x = r.d[f] = x()
            return x
        if r.base is not None:
            return self.field(r.base, f)
        if r.key is not None:
            return self.unknown((r.key, f))
        raise Undefined

    def unknown(self, key):
        """a value about which nothing is known: number, array or record, whichever it is used as"""
        return Unk(self, key)

    def field(self, x, f):
        if isinstance(x, Rec):
            return self.force(x, f)
        if isinstance(x, Unk):
            return self.unknown((x.key, f))
        raise Undefined

    def element(self, x, i):
        if isinstance(x, Arr):
            return x.get(i)
        if isinstance(x, Unk):
            return self.unknown((x.key, i))
        raise Undefined

    def num(self, x):
        if isinstance(x, Unk):
            return self.leaf(x.key)
        if isinstance(x, bool):
            return mpmath.mpf(int(x))
        if isinstance(x, mpmath.mpf):
            return x
        raise Undefined

    def index(self, x):
        x = self.num(x)
        if x != int(x):
            raise Undefined
        return int(x)

    # -------------------------------------------------------- evaluation
    def open(self, ab):
        r = self.opened.get(ab.id)
        if r is None:
            r = self.opened[ab.id] = tm.open_abs(ab)
        return r

    def at(self, ab, env, i):
        v, b = self.open(ab)
        return self.ev(b, Env(env, {v: mpmath.mpf(i) if not isinstance(i, mpmath.mpf) else i}))

    def ev(self, t, env):
        fs = freesyms(t)
        while env.up is not None and not (fs & env.keys):
            env = env.up
        r = env.memo.get(t.id)
        if r is None:
            r = env.memo[t.id] = self._ev(t, env)
            if isinstance(r, mpmath.mpf) and not mpmath.isfinite(r):
                raise Undefined
        return r

    def n(self, t, env):
        return self.num(self.ev(t, env))

    def truth(self, c, env):
        x = self.ev(c, env)
        if isinstance(x, bool):
            return x
        if isinstance(x, Unk):
            return bool(self.hash(x.key)[0] & 1)
        raise Undefined

    def lookup(self, t, env):
        while env is not None:
            if t in env.vals:
                return env.vals[t]
            env = env.up
        return None

    def _ev(self, t, env):
        op, a = t.op, t.a
        if op in ("sym", "lv", "bv"):
            x = self.lookup(t, env)
            if x is not None:
                return x() if callable(x) else x
            if op != "sym":
                raise Undefined
            return self.unknown(("sym", a[0]))
        if op == "num":
            return mpmath.mpf(a[0].numerator) / a[0].denominator
        if op == "cst":
            return self.unknown(("cst", fp(t)))
        if op == "str":
            return tuple(a[0]) if isinstance(a[0], str) else (a[0],)
        if op in ("true", "false"):
            return op == "true"
        if op == "poly":
            s = mpmath.mpf(0)
            for m, c in a[0]:
                p = mpmath.mpf(c.numerator) / c.denominator
                for x, e in m:
                    b = self.n(x, env)
                    if e.denominator != 1 and b < 0 or e < 0 and b == 0:
                        raise Undefined
                    p *= b ** int(e) if e.denominator == 1 else b ** (mpmath.mpf(e.numerator) / e.denominator)
                s += p
            return s
        if op == "ite":
            return self.ev(a[1] if self.truth(a[0], env) else a[2], env)
        if op == "lt":
            x = self.limited(a[0], env) if self.limit else None
            if x is None:
                x = self.n(a[0], env)
            if x != 0 and abs(x) < mpmath.mpf(10) ** -25:
                raise Undefined
            return x < 0
        if op == "eq0":
            x = self.n(a[0], env)
            if x != 0 and abs(x) < mpmath.mpf(10) ** -25:
                raise Undefined
            return x == 0
        if op == "eqt":
            return self.key(self.ev(a[0], env)) == self.key(self.ev(a[1], env))
        if op == "app":
            f = self.fns.get(a[0])
            return f(self, t, env) if f is not None else self.app(t, env)
        if op == "lam":
            return Arr(lambda i: self.at(a[0], env, i))
        if op == "sel":
            x = self.ev(a[0], env)
            if isinstance(x, Map):
                k = self.key(self.ev(a[1], env))
                if k not in x.d:
                    return mpmath.mpf(0)
                y = x.d[k]
                if callable(y):
                    y = x.d[k] = y()
                return y
            return self.element(x, self.index(self.ev(a[1], env)))
        if op == "sto":
            x = self.ev(a[0], env)
            if isinstance(x, Map):
                return Map({**x.d, self.key(self.ev(a[1], env)): self.delay(a[2], env)})
            j = self.index(self.ev(a[1], env))
            return Arr(lambda i: self.ev(a[2], env) if i == j else self.element(x, i))
        if op == "shift":
            x, j = self.ev(a[0], env), self.index(self.ev(a[1], env))
            return Arr(lambda i: self.element(x, i + j))
        if op == "list":
            return Arr(lambda i: self.ev(a[0][i], env) if 0 <= i < len(a[0]) else self.out())
        if op == "scat":
            x, n = self.ev(a[0], env), self.index(self.ev(a[1], env))
            v, b = self.open(a[2])
            d = {}
            for i in range(n):
                e = Env(env, {v: mpmath.mpf(i)})
                r = self.ev(b, e)
                d[self.index(self.force(r, "i"))] = (r, i)
            return Arr(lambda i: self.force(d[i][0], "v") if i in d else self.element(x, i))
        if op == "rec":
            return Rec({k: (lambda v=v: self.ev(v, env)) for k, v in a[0]})
        if op == "upd":
            return Rec({k: (lambda v=v: self.ev(v, env)) for k, v in a[1]}, self.ev(a[0], env))
        if op == "fld":
            return self.field(self.ev(a[0], env), a[1])
        if op in ("sum", "prod"):
            s = mpmath.mpf(0 if op == "sum" else 1)
            for i in range(self.count(a[0], env)):
                x = self.num(self.at(a[1], env, i))
                s = s + x if op == "sum" else s * x
            return s
        if op in ("any", "first"):
            n = self.count(a[0], env)
            for i in range(n):
                if self.bool(self.at(a[1], env, i)):
                    return True if op == "any" else mpmath.mpf(i)
            return False if op == "any" else mpmath.mpf(n)
        if op == "catn":
            s = ()
            for i in range(self.count(a[0], env)):
                s += self.seq(self.at(a[1], env, i))
            return s
        if op == "cat":
            s = ()
            for x in a[0]:
                s += self.seq(self.ev(x, env))
            return s
        if op == "muval":
            mu = a[0]
            e = self.leave(mu, env)[1]
            if e.up is not env:
                e = Env(env, e.vals)
            return self.ev(a[1], e)
        if op == "muexit":
            return self.leave(a[0], env)[0] == a[1]
        if op == "sorted":
            x, N, m, o = a
            n = self.count(N, env)
            xs = self.ev(x, env)
            xs = [self.element(xs, i) for i in range(n)]
            v, b = self.open(o.a[0])

            def less(p, q):
                e = Env(env, {v: p})
                f = self.ev(b, e)
                return self.num(f.get(q) if isinstance(f, Arr) else self.element(f, q)) != 0

            def order(p, q):
                return -1 if less(p, q) else 1 if less(q, p) else 0
            if any(not isinstance(y, mpmath.mpf) for y in xs):
                raise Undefined
            ys = sorted(xs, key=cmp_to_key(order))
            return Arr(lambda i: ys[i] if 0 <= i < n else self.out())
        if op == "emptymap":
            return Map({})
        if op in ("has", "mkey", "mval"):
            m = self.ev(a[0], env)
            if not isinstance(m, Map):
                raise Undefined
            if op == "has":
                return self.key(self.ev(a[1], env)) in m.d
            i, ks = self.index(self.ev(a[1], env)), sorted(m.d)
            if not 0 <= i < len(ks):
                raise Undefined
            return ks[i] if op == "mkey" else m.d[ks[i]]() if callable(m.d[ks[i]]) else m.d[ks[i]]
        f = self.fns.get(op)
        if f is not None:
            return f(self, t, env)
        if op in ("undef", "dc", "bad"):
            raise Undefined
        if op in ("defobj", "noff", "null", "eptr", "exc", "of", "traced"):
            return (op,) + tuple(self.key(self.ev(x, env)) if isinstance(x, T) else tuple(self.key(self.num(self.ev(y, env))) for y in x)
                                 if isinstance(x, tuple) else x for x in a)
        if op == "call":
            return self.unknown(("call", str(a[0].a[0]) if isinstance(a[0], T) else a[0]) + tuple(self.key(self.ev(x, env)) for x in a[1]))
        raise Undefined

    def out(self):
        raise Undefined

    def bool(self, x):
        if isinstance(x, bool):
            return x
        if isinstance(x, Unk):
            return bool(self.hash(x.key)[0] & 1)
        raise Undefined

    def seq(self, x):
        if isinstance(x, tuple):
            return x if not x or x[0] not in ("traced",) else (x,)
        if isinstance(x, Unk):
            return (("?", x.key),)
        if isinstance(x, str):
            return tuple(x)
        return (self.key(x),)

    def count(self, n, env):
        k = self.index(self.ev(n, env))
        if k > 60:
            raise Undefined
        return max(k, 0)

    def leave(self, mu, env):
        """the exit that is taken and the state in which it is taken"""
        fs = freesyms(mu)
        while env.up is not None and not (fs & env.keys):
            env = env.up
        k = (id(env), mu.id)
        if k in self.runs:
            return self.runs[k][1]
        l, init, step, exits = mu.a
        t = mk("lv", l, -1)
        vs = [mk("lv", l, i) for i in range(len(init))]
        e = Env(env, {**{v: self.delay(x, env) for v, x in zip(vs, init)}, t: mpmath.mpf(0)})
        n = 0
        while True:
            taken = [i for i, x in enumerate(exits) if self.truth(x, e)]
            if taken:
                break
            self.steps += 1
            n += 1
            if self.steps > self.most:
                raise Undefined
            e = Env(env, {**{v: self.delay(x, e) for v, x in zip(vs, step)}, t: mpmath.mpf(n)})
        self.runs[k] = (env, (taken[0], e))
        return self.runs[k][1]

    def delay(self, x, env):
        return lambda: self.ev(x, env)

    def limited(self, p, env):
        """a fixed number of trials stands for any number of trials"""
        if p.op != "poly":
            return None
        ts = list(p.a[0])
        c = [k for m, k in ts if not m]
        if len(ts) != 2 or not c or abs(c[0]) < 20 or any(len(m) != 1 or m[0][1] != 1 or m[0][0].op != "lv" or abs(k) != 1 for m, k in ts if m):
            return None
        m, k = [(m, k) for m, k in ts if m][0]
        return int(k) * self.n(m[0][0], env) + (self.limit if c[0] > 0 else -self.limit)

    def app(self, t, env):
        f = t.a[0]
        xs = [self.ev(x, env) if isinstance(x, T) else x for x in t.a[1:]]
        if f == "nonnull":
            if isinstance(xs[0], tuple):
                return xs[0][:1] not in (("defobj",), ("null",))
            raise Undefined
        if f in ("arrmax", "arrmin"):
            k = self.index(xs[0])
            if not 0 < k <= 60:
                raise Undefined
            return (max if f == "arrmax" else min)(self.num(self.element(xs[1], i)) for i in range(k))
        if f == "maplen" and isinstance(xs[0], Map):
            return mpmath.mpf(len(xs[0].d))
        if all(isinstance(x, (mpmath.mpf, Unk)) for x in xs):
            ns = [self.num(x) for x in xs]
            try:
                if f in ("idiv", "imod"):
                    p, q = int(ns[0]), int(ns[1])
                    if p != ns[0] or q != ns[1] or not q or p < 0 or q < 0:
                        raise Undefined
                    return mpmath.mpf(p // q if f == "idiv" else p % q)
                if f == "pow":
                    r = ns[0] ** ns[1]
                elif f == "abs":
                    r = abs(ns[0])
                elif f in ("max", "min"):
                    r = (max if f == "max" else min)(ns)
                elif f == "trunc":
                    r = mpmath.mpf(int(ns[0]))
                elif f in sample.MPFN:
                    if f == "exp" and abs(ns[0]) > 1000:
                        raise Undefined
                    r = getattr(mpmath, f)(*ns)
                elif f in sample._INT:
                    raise Undefined
                else:
                    return self.unknown((f,) + tuple(self.key(x) for x in ns))
            except (ValueError, OverflowError, ZeroDivisionError):
                raise Undefined
            if isinstance(r, mpmath.mpc) or not mpmath.isfinite(r):
                raise Undefined
            return r
        return self.unknown((f,) + tuple(self.key(x) for x in xs))


class Unk:
    __slots__ = ("I", "key")

    def __init__(self, I, key):
        self.I, self.key = I, key


class Raw:
    """a value of an instance as it is"""

    def __init__(self, x):
        self.x = x


def value(v):
    """a number, a string, an array (list), a bare array (tuple) or a record (dict) as a value"""
    if isinstance(v, Raw):
        return v.x
    if isinstance(v, dict):
        return Rec({k: value(x) for k, x in v.items()})
    if isinstance(v, list):
        return Rec({"a": value(tuple(v)), "n": mpmath.mpf(len(v))})
    if isinstance(v, tuple):
        vs = [value(x) for x in v]

        def at(i):
            if 0 <= i < len(vs):
                return vs[i]
            raise Undefined
        return Arr(at)
    if isinstance(v, str):
        return (v,)
    return v if isinstance(v, (bool, Unk, Arr, Rec)) else mpmath.mpf(v)


def vec(x, I, n):
    """key of the first n elements"""
    return tuple(I.key(I.num(I.element(x, i))) for i in range(n))


def values(t, sizes, seed, extent=None, fns=None, shared=None, limit=0):
    """the value of a term, as something comparable"""
    I = None if shared is None else shared.get(seed)
    if I is None:
        I = Instance({k: value(v) for k, v in sizes.items()}, seed, fns, limit=limit)
        if shared is not None:
            shared[seed] = I
    I.steps = 0
    x = I.ev(t, I.base)
    if extent is None:
        if isinstance(x, Unk):
            x = I.num(x)
        return [x] if isinstance(x, (mpmath.mpf, bool)) else list(I.seq(x)) if isinstance(x, tuple) else [I.key(x)]
    return [I.num(I.element(x, i)) for i in range(extent)]


def close(x, y):
    if isinstance(x, mpmath.mpf) and isinstance(y, mpmath.mpf):
        return abs(x - y) <= mpmath.mpf(10) ** -12 * max(abs(x), abs(y))
    return x == y


def witness(a, b, sizes, extent=None, fns=None, seeds=range(12), shared=None, limit=0):
    """an instance in which the two normal forms differ: (sizes, seed, position, value of a, value of b); sizes(seed) -> {symbol: number}"""
    if mpmath is None:
        return None
    found, tried = [], 0
    with mpmath.workdps(40):
        for seed in seeds:
            s = sizes(seed)
            n = extent(s) if callable(extent) else extent
            try:
                x = values(a, s, seed, n, fns, shared, limit)
                y = values(b, s, seed, n, fns, shared, limit)
            except (Undefined, OverflowError, RecursionError, TypeError, ZeroDivisionError, ValueError):
                continue
            tried += 1
            if len(x) != len(y):
                found.append((s, seed, None, len(x), len(y)))
            else:
                for i, (p, q) in enumerate(zip(x, y)):
                    if not close(p, q):
                        found.append((s, seed, i if n is not None else None, p, q))
                        break
            if found and len(found) >= 2:
                return found[0]
    return None


def text(w):
    s, seed, i, x, y = w
    f = lambda v: mpmath.nstr(v, 8) if isinstance(v, mpmath.mpf) else str(v)[:80]
    return "with %s: %s instead of %s%s" % (", ".join("%s=%s" % (k.a[0].lstrip("$"), v) for k, v in s.items() if isinstance(v, (int, float))), f(x), f(y), "" if i is None else " at position %d" % i)

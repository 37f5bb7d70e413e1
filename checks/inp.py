"""Input streams of instances: text and position."""
import re
from common import *
import mpmath

REAL = re.compile(r"[+-]?(?:\d+\.?\d*|\.\d+)(?:[eE][+-]?\d+)?")
INT = re.compile(r"[+-]?\d+")
BOOL = re.compile(r"[01](?!\d)")
WORD = re.compile(r"\S+")


def at(v):
    """text and position of an input"""
    if isinstance(v, tuple) and len(v) == 3 and v[0] == "in":
        return v[1], v[2]
    if isinstance(v, tuple) and all(isinstance(x, str) for x in v):
        return "".join(v), 0
    raise inst.Undefined


def text(s):
    return inst.Raw(("in", s, 0))


def scan(I, t, env):
    """(success, whether the end is reached, token, position behind)"""
    kind = t.a[0]
    s, p = at(I.ev(t.a[1], env))
    if kind == "line":
        d = chr(int(I.index(I.ev(t.a[2], env))))
        if p >= len(s):
            return False, True, None, p
        e = s.find(d, p)
        return (True, True, tuple(s[p:]), len(s)) if e < 0 else (True, False, tuple(s[p:e]), e + 1)
    rx = {"real": REAL, "int": INT, "uint": INT, "natural": INT, "u32": INT, "u64": INT, "bool": BOOL, "word": WORD}.get(kind)
    if rx is None:
        raise inst.Undefined(kind)
    q = p
    while q < len(s) and s[q].isspace():
        q += 1
    m = rx.match(s, q)
    if not m:
        return False, q >= len(s), None, q
    x = tuple(m.group()) if kind == "word" else m.group() == "1" if kind == "bool" else mpmath.mpf(m.group())
    return True, m.end() >= len(s), x, m.end()


def can(I, t, env):
    return scan(I, t, env)[0]


def hiteof(I, t, env):
    return scan(I, t, env)[1]


def tok(I, t, env):
    """(conditions are not evaluated in the order of the program; what cannot be read is never used)"""
    r = scan(I, t, env)
    if not r[0]:
        return () if t.a[0] in ("line", "word") else False if t.a[0] == "bool" else mpmath.mpf(0)
    return r[2]


def adv(I, t, env):
    return ("in", at(I.ev(t.a[1], env))[0], scan(I, t, env)[3])


def tokbad(I, t, env):
    """a number that cannot be read is zero, unless nothing is left"""
    s, p = at(I.ev(t.a[1], env))
    if t.a[0] == "bool" or not s[p:].strip():
        raise inst.Undefined
    return mpmath.mpf(0)


def string_of(I, t, env):
    x = I.ev(t, env)
    if not isinstance(x, tuple) or not all(isinstance(c, str) for c in x):
        raise inst.Undefined
    return "".join(x)


def char(I, t, env):
    s, k = string_of(I, t.a[1], env), I.index(I.ev(t.a[2], env))
    if not 0 <= k <= len(s):
        raise inst.Undefined
    return mpmath.mpf(ord(s[k]) if k < len(s) else 0)


def strlen(I, t, env):
    return mpmath.mpf(len(string_of(I, t.a[1], env)))


def substr(I, t, env):
    s, k = string_of(I, t.a[1], env), I.index(I.ev(t.a[2], env))
    n = I.index(I.ev(t.a[3], env)) if len(t.a) > 3 else len(s)
    if not 0 <= k <= len(s):
        return ()
    return tuple(s[k:k + n])


def strfind(I, t, env):
    s, x = string_of(I, t.a[1], env), I.ev(t.a[2], env)
    c = "".join(x) if isinstance(x, tuple) else chr(I.index(x))
    k = s.find(c, I.index(I.ev(t.a[3], env)) if len(t.a) > 3 else 0)
    return NPOS if k < 0 else mpmath.mpf(k)


def strerase(I, t, env):
    s = string_of(I, t.a[1], env)
    k = I.index(I.ev(t.a[2], env)) if len(t.a) > 2 else 0
    n = I.index(I.ev(t.a[3], env)) if len(t.a) > 3 else len(s)
    if not 0 <= k <= len(s):
        return ()
    return tuple(s[:k] + s[k + n:])


def space(I, t, env):
    return mpmath.mpf(chr(I.index(I.ev(t.a[1], env))).isspace())


NPOS = mpmath.mpf(2 ** 64 - 1)
FNS = {"substr": substr, "strfind": strfind, "strerase": strerase, "isspace": space, "tokbad": tokbad, "chr": char, "strlen": strlen, "can": can, "hiteof": hiteof, "tok": tok, "adv": adv}

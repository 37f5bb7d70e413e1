"""What is written to a stream: values in their order, without their format."""
from common import *


def values(t, lines=True):
    """the sequence of values and line ends; other text and the format are left out"""
    def f(x):
        if x.op == "out":
            return mk("val", x.a[1])
        if x.op == "mkey":
            return mk("val", x)
        if x.op == "str" and isinstance(x.a[0], str):
            return string("\n" * x.a[0].count("\n") if lines else "")
        return None
    return tm.replacefn(t, f)


def pieces(t):
    return list(t.a[0]) if t.op == "cat" else [t]


def everything(t):
    seen, todo = set(), [t]
    while todo:
        x = todo.pop()
        if x.id not in seen:
            seen.add(x.id)
            yield x
            todo.extend(tm.subterms(x))


def flags(t):
    return fld(t, "fl")


def val(I, t, env):
    return (("val", I.key(I.ev(t.a[0], env))),)


def separated(t):
    """formatted values a reader could not tell apart: no text before them, and too narrow a field"""
    out = []

    def text(x):
        return x.op == "str"

    def seq(x, before):
        """before: whether a value stands directly before"""
        if x.op == "cat":
            for y in x.a[0]:
                before = seq(y, before)
            return before
        if x.op == "catn":
            v, b = tm.open_abs(x.a[1])
            first = seq(b, before)
            seq(b, first)
            return before or first
        if x.op == "ite":
            a, b = seq(x.a[1], before), seq(x.a[2], before)
            return a or b
        if x.op == "str":
            return before if not x.a[0] else not x.a[0][-1:].isspace()
        if x.op == "out":
            if before and not wide(x):
                out.append(x)
            return True
        return True
    seq(t, False)
    return out


def wide(x):
    """the field of a value leaves room for a space whatever the value is (exponents of two digits)"""
    w = x.a[4] if x.a[0] == "f" else x.a[2]
    if not isinstance(w, T) or w.op != "num":
        return True
    w = int(w.a[0])
    if x.a[0] == "f":
        p = x.a[3]
        if not isinstance(p, T) or p.op != "num" or x.a[2].op != "num":
            return True
        if x.a[2] is num(256):
            return w >= int(p.a[0]) + 8
        return w >= int(p.a[0]) + 4
    return w >= 2

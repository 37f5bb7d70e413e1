"""The values of one row of a data file stay together."""
import random
from common import *
import inp, sectc

LEVEL = "translation_validation"
TECHNIQUE = "static analysis: value graphs of the readers of data files (loops over lines as gated recursions) compared with reference definitions"
RULE = ("every reader of columns stores, for the whole input, what the reference definition stores: the values of one row at one index, also when the optional column is "
        "absent or lines are skipped; malformed rows make it fail and leave the result as it was")
NOTE = "Any text, any number of rows and of lines to skip."
ASSUME = ["the stream is in a good state at entry", "extraction of numbers and lines is as the standard library specifies"]
ROWS = ("1.5 2.5 0.25", "1.75 3", "2 4.5 0.5 0", "2.25 5 1 1", "2.5 6 x", "2.6 6 -1 1", "3 7.5 2 9")
OTHER = ("# x", "% 1 2 3", "!", "", "x y", "4.5", "1 b 3", "  2.75 8 1.5")


class Probe:
    """texts with rows that have two, three or four columns, comments and malformed rows"""
    shared, seeds = None, 120
    fns = inp.FNS

    def __init__(self, section, skip=None):
        self.section, self.skip = section, skip

    def extent(self, k):
        return None

    def sizes(self, seed):
        r = random.Random(seed)
        ls = [r.choice(ROWS) for _ in range(r.choice((0, 1, 2, 3, 4)))]
        if seed % 2:
            ls.insert(r.randrange(len(ls) + 1), OTHER[(seed // 2) % len(OTHER)])
        if seed % 5 == 0 and not self.section:
            ls = ["header %d" % i for i in range(2)] + ls
        d = {sym("$0"): inp.text("\n".join(ls) + ("\n" if ls and seed % 3 else ""))}
        n = r.choice((0, 2, 4))
        if self.section:
            q = {k: [round(r.uniform(1, 9), 3) for _ in range(n)] for k in ("wav", "flx", "unc", "opt", "atm", "cat", "cfl", "tfl", "fit", "res")}
            q["msk"] = [r.random() < 0.5 for _ in range(n)]
            q["n"] = n
            d[sym("this")] = q
            d[sym("$1")], d[sym("$2")] = r.choice(((0, 99), (0, 99), (0, 99), (1.6, 99), (0, 2.1), (50, 60)))
        else:
            for k in ("$1", "$2", "$3"):
                d[sym(k)] = d[sym("*" + k)] = [round(r.uniform(1, 9), 3) for _ in range(n)]
            d[sym(self.skip)] = r.choice((0, 0, 0, 1, 2, 3)) if seed % 5 else 2
        return d


def state(t):
    return ite(OR(flag(t, "fail"), flag(t, "bad")), ONE, ZERO)


def flag(t, k):
    x = fld(t, k)
    return x if x.op not in ("fld",) else atom(x)


def array(ctx, name, where, a, b, probe):
    """numbers of elements agree, and the elements do"""
    v = ctx.same(name + ": number", fld(a, "n"), fld(b, "n"), where, probe=probe)
    ctx.compared += 1
    x, y = fld(a, "a"), fld(b, "a")
    if C.identical(x, y):
        return ctx.ok(name + ": values", where)
    found, tried = [], 0
    with mpmath.workdps(40):
        for seed in range(probe.seeds):
            s = probe.sizes(seed)
            try:
                n = int(inst.values(fld(b, "n"), s, seed, None, probe.fns)[0])
                if int(inst.values(fld(a, "n"), s, seed, None, probe.fns)[0]) != n:
                    continue
                p, q = (elements(t, s, seed, n, probe.fns) for t in (x, y))
            except (inst.Undefined, OverflowError, RecursionError, TypeError, ZeroDivisionError, ValueError):
                continue
            tried += 1
            if p != q:
                found.append((s[sym("$0")].x[1], p, q))
    if len(found) > 1:
        ctx.bad(name + ": values", where, "with the text %r: %s instead of %s" % found[0])
    else:
        ctx.unknown(name + ": values", where, "the normal forms are not the same, no instance separates them")


def elements(t, s, seed, n, fns):
    I = inst.Instance({k: inst.value(v) for k, v in s.items()}, seed, fns)
    x = I.ev(t, I.base)
    return [I.key(I.element(x, i)) for i in range(n)]


def run(ctx):
    P = ctx.P
    for f in sorted(ctx.fn("especia::get")):
        n = len(P.funcs[f]["params"])
        if P.funcs[f].get("body") is None or n not in (4, 5):
            continue
        where = P.where(f)
        ctx.count("readers")

        def go():
            name = "%d columns" % (n - 2)
            r, s = ctx.run(f), ctx.spec("spec::columns%d" % (n - 2))
            p = Probe(False, "$%d" % (n - 1))
            ctx.same(name + ": fails", state(r.mem["$0"]), state(s.mem["$0"]), where, probe=p)
            for i in range(1, n - 1):
                array(ctx, "%s: column %d" % (name, i), where, r.mem["$%d" % i], s.mem["$%d" % i], p)
            nothrow(ctx, name, where, r)
        ctx.guarded("%d columns" % (n - 2), where, go)
    for f in sectc.overloads(ctx, "get", 3):
        where = P.where(f)
        ctx.count("readers")

        def section():
            r, s = ctx.run(f), ctx.spec("spec::Section::get")
            p = Probe(True)
            a, b = r.mem["this"], s.mem["this"]
            ctx.same("section: fails", state(r.mem["$0"]), state(s.mem["$0"]), where, probe=p)
            ctx.same("section: number of points", fld(a, "n"), fld(b, "n"), where, probe=p)
            for k in ("wav", "flx", "unc", "msk"):
                array(ctx, "section: " + k, where, fld(a, k), fld(b, k), p)
            for k in ("opt", "atm", "cat", "cfl", "tfl", "fit", "res"):
                ctx.same("section: %s: number" % k, fld(fld(a, k), "n"), fld(fld(b, k), "n"), where, probe=p)
            ctx.same("section: input behind it", ite(OR(flag(r.mem["$0"], "fail"), flag(s.mem["$0"], "fail")), ZERO, fld(r.mem["$0"], "in")),
                     ite(OR(flag(r.mem["$0"], "fail"), flag(s.mem["$0"], "fail")), ZERO, fld(s.mem["$0"], "in")), where, probe=p)
            nothrow(ctx, "section", where, r)
        ctx.guarded("section", where, section)
    ctx.minimum("readers", 3)


def nothrow(ctx, name, where, r):
    for pc, e, m in r.throws:
        if pc is not FALSE and "alloc" not in str(e.a[0] if e.op == "exc" else ""):
            ctx.unknown(name + ": does not throw", where, "throws when " + C.short(pc, 200))

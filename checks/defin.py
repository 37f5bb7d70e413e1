"""Reading a model definition: data files uninterpreted, instances of definitions."""
import random
from common import *
from evo import read
import inp
import modelc

RUN = {}
evalv.ALIAS["spec::Part"] = "especia::Section"


def hooks():
    """sections as functions of the file they are read from, their limits and their masked intervals"""
    def get(ev, st, this, args, node):
        l = args[0]
        a, b = read(ev, st, args[1]), read(ev, st, args[2])
        f = fld(ev.read(st, l), "in")
        c = atom(mk("secfail", f, a, b))
        ev.write(st, this, ite(c, ev.read(st, this), mk("secread", f, a, b)))
        ev.write(st, l + (("f", "fail"),), c)
        return l

    def mask(ev, st, this, args, node):
        a, b = read(ev, st, args[0]), read(ev, st, args[1])
        ev.write(st, this, mk("secmask", ev.read(st, this), a, b))
        return UNDEF
    hk = {}
    for c in ("especia::Section", "spec::Part"):
        hk[c + "::get"] = get
        hk[c + "::mask"] = mask
    return hk


def both(ctx, f):
    """what reading does, and what the reference definition does"""
    k = (id(ctx), f)
    if k not in RUN:
        n = modelc.parameter_count(ctx, f)
        # the first run gives terms without variables of loops the same order in both graphs that are compared
        ctx.run(f, budget=4000000, hooks=hooks())
        r = ctx.run(f, budget=4000000, hooks=hooks())
        s = ctx.spec("spec::Definition::get", args=[None] * 5 + [n], budget=4000000, hooks=hooks())
        RUN[k] = r, s, n
    return RUN[k]


def failed(r):
    x = fld(r.mem["$0"], "fail")
    y = fld(r.mem["$0"], "bad")
    return OR(x if x.op != "fld" else atom(x), y if y.op != "fld" else atom(y))


def key(I, t, env):
    return I.key(I.ev(t, env))


def secfail(I, t, env):
    f, a, b = (I.ev(x, env) for x in t.a)
    return f == ("file", "bad") or I.num(a) >= I.num(b)


def opened(I, t, env):
    return ("file", "".join(I.ev(t.a[0], env)))


def readable(I, t, env):
    x = I.ev(t.a[0], env)
    return "".join(x[1] if x[:1] == ("file",) else x) != "none"


def secread(I, t, env):
    return ("sec",) + tuple(key(I, x, env) for x in t.a)


def secmask(I, t, env):
    return ("masked",) + tuple(key(I, x, env) for x in t.a)


FNS = {**inp.FNS, "secfail": secfail, "file": opened, "readable": readable, "secread": secread, "secmask": secmask}


def definition(r, n, refs, broken):
    """a text that defines a model of n parameters per line; broken: what is wrong with it"""
    ns = r.choice((1, 1, 2, 3))
    heads = r.sample(["s", "a", "t", "b"], ns)
    lines, text = [], []
    names = r.sample(["k", "c", "m", "x", "d", "q"], 6)

    def row(ref, bad=False):
        v = round(r.uniform(-5, 9), 2)
        lo, up = sorted((round(r.uniform(-9, 0), 2), round(r.uniform(0, 9), 2)), reverse=r.random() < 0.15)
        t = "%g %g %g %d" % (v, lo, up, r.random() < 0.7)
        if bad:
            t = r.choice(("%g %g %g" % (v, lo, up), "%g x %g 1" % (v, up), "y", "%g %g %g 2" % (v, lo, up)))
        return t + (" " + ref if ref else "") + r.choice(("", "", " "))
    plan = []
    for h in heads:
        k = r.choice((0, 1, 1, 2, 2))
        plan.append((h, [names.pop() for _ in range(min(k, len(names)))]))
    allids = [i for _, ls in plan for i in ls]
    where = r.randrange(ns)
    if broken == "line" and not allids:
        broken = "head"
    if broken == "twice" and len(allids) < 2:
        broken = "duplicate"
    order = list(allids)
    r.shuffle(order)
    horder = list(heads)
    r.shuffle(horder)

    def ref(i, ids):
        """references without circles: to an identifier that comes behind in a random order"""
        if not refs or r.random() < 0.35:
            return ""
        behind = ids[ids.index(i) + 1:]
        return r.choice(behind) if behind else ""
    badline = r.choice(allids) if allids else None
    for j, (h, ls) in enumerate(plan):
        file = r.choice(("f", "g", "h"))
        a, b = sorted((round(r.uniform(1, 5), 1), round(r.uniform(6, 9), 1)))
        head = h
        if j == where:
            if broken == "file":
                file = "none"
            if broken == "data":
                file = "bad"
            if broken == "duplicate" and ns > 1:
                head = heads[(j + 1) % ns]
        holes = "".join(" %g %g" % tuple(sorted((round(r.uniform(1, 9), 1), round(r.uniform(1, 9), 1)))) for _ in range(r.choice((0, 0, 1, 2))))
        t = "%s %s %g %g %d%s" % (head, file, a, b, r.choice((1, 2, 3)), holes)
        if j == where and broken == "head":
            t = r.choice(("%s %s" % (h, file), "%s %s %g x 1" % (h, file, a), "%s %s %g %g" % (h, file, a, b)))
        q = ref(h, horder)
        if j == where and broken == "reference":
            q = r.choice(("nowhere", h, allids[0] if allids else "nowhere"))
        if j == where and broken == "circle" and ns > 1:
            q = heads[(j + 1) % ns]
        out = [t, row(q, j == where and broken == "resolution")]
        if broken == "circle" and ns > 1 and h == heads[(where + 1) % ns]:
            out[1] = row(heads[where])
        for i in ls:
            out.append(i)
            if broken == "twice" and i == badline:
                out[-1] = [x for x in allids if x != i][0]
            for p in range(n):
                q = ref(i, order)
                if broken == "unknown" and i == badline and p == n - 1:
                    q = r.choice(("nowhere", i, h))
                if broken == "loop" and len(allids) > 1:
                    u = allids.index(badline)
                    if i == badline and p == 0:
                        q = allids[(u + 1) % len(allids)]
                    elif p == 0 and i == allids[(u + 1) % len(allids)]:
                        q = badline
                out.append(row(q, broken == "line" and i == badline and p == n // 2))
            if broken == "short" and i == badline:
                out.pop()
        sep = "\n"
        body = sep.join(out)
        if r.random() < 0.2:
            body = body.replace("\n", "  % a comment { here }\n" if r.random() < 0.5 else "\n\n% text\n", 1) if r.random() < 0.5 else "\n% {\n" + body
        start, stop = "{", "\n}"
        if j == where and broken == "begin":
            start = " "
        if j == ns - 1 and broken == "end":
            stop = ""
        text.append(start + (r.choice(("", " ", "\n"))) + body + stop)
    s = "\n".join(text) + r.choice(("\n", "", "\n% end\n"))
    if broken == "empty":
        s = r.choice(("", "\n", "% nothing\n", "  \n\n"))
    return s


FAULTS = ("file", "data", "duplicate", "head", "resolution", "line", "twice", "short", "begin", "end", "empty")
DANGLING = ("reference", "circle", "unknown", "loop")


class Probe:
    shared, fns = None, FNS

    def __init__(self, n, refs, seeds, faults):
        self.count, self.refs, self.seeds, self.faults = n, refs, seeds, faults

    def extent(self, k):
        return None

    def sizes(self, seed):
        r = random.Random(seed)
        broken = self.faults[(seed // 2) % len(self.faults)] if self.faults and seed % 2 else ""
        t = definition(r, self.count, self.refs, broken)
        return {sym("$0"): inp.text(t), sym("$2"): ord("%"), sym("$3"): ord("{"), sym("$4"): ord("}"),
                sym("std::basic_string<char>::npos"): 2 ** 64 - 1}


MEMBERS = {"isc": 1, "nle": 1, "nli": 1, "val": 1, "lo": 1, "up": 1, "msk": 1, "ind": 1, "sections": 1, "section_name_map": 0, "profile_name_map": 0}


def evaluate(r, s, seed, probe, members):
    """(text, does it fail, values of members) of one instance; None where it cannot be said"""
    z = probe.sizes(seed)
    out = []
    for q in (r, s):
        I = inst.Instance({k: inst.value(v) for k, v in z.items()}, seed, probe.fns)
        I.most = 2000000
        if I.truth(failed(q), I.base):
            out.append((True, {}))
            continue
        d = {}
        for m in members:
            x = fld(q.mem["this"], m)
            if MEMBERS[m]:
                n = I.index(I.ev(fld(x, "n"), I.base))
                e = I.ev(fld(x, "a"), I.base)
                d[m] = [I.key(I.element(e, i)) for i in range(n)]
            else:
                d[m] = I.key(I.ev(x, I.base))
        out.append((False, d))
    return z[sym("$0")].x[1], out[0], out[1]

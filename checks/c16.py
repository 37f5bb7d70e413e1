"""What is written can be read again, and writing leaves the format of a stream alone."""
import random
import mpmath
from common import *
import modelc, outc, sectc

LEVEL = "translation_validation"
TECHNIQUE = "static analysis: value graphs of the state of output streams (format flags, sequence of values) compared with reference definitions"
RULE = ("every function that writes data, tables or the log leaves the format flags of its stream as it found them; the values it writes are, in their order and line by "
        "line, those of the reference definition; formatted columns of data are separated whatever the values are")
NOTE = "Any stream state at entry; any number of rows, sections and lines."
ASSUME = ["the stream is in a good state", "decimal exponents have at most two digits and wavelengths fit their column"]


class Table:
    """models with tables of sections and lines"""
    shared, seeds = None, 40

    def __init__(self, count):
        self.model = modelc.Probe(count)
        self.fns = {"val": outc.val, "maplen": self.maplen, "mval": self.mval, "mkey": self.mkey, "ew": self.ew}
        self.count = count

    def sizes(self, seed):
        d = self.model.sizes(seed)
        r = random.Random(seed)
        m = d[sym("this")]
        s = sectc.Probe("stored")
        m["sections"] = [s.section(r) for _ in m["nli"]]
        self.maps = {"section_name_map": sorted(("s%d" % i, i) for i in range(len(m["nli"])))}
        names, j = [], 0
        for k in m["nli"]:
            j += 1
            for _ in range(k):
                names.append(("p%d" % len(names), j))
                j += self.count
        self.maps["profile_name_map"] = names
        return d

    def table(self, I, m):
        if m.op != "fld" or m.a[1] not in self.maps:
            raise inst.Undefined
        return self.maps[m.a[1]]

    def maplen(self, I, t, env):
        return mpmath.mpf(len(self.table(I, t.a[1])))

    def mval(self, I, t, env):
        return self.table(I, t.a[0])[I.index(I.ev(t.a[1], env))][1] * mpmath.mpf(1)

    def mkey(self, I, t, env):
        return self.table(I, t.a[0])[I.index(I.ev(t.a[1], env))][0]

    def ew(self, I, t, env):
        return I.leaf("ew")


class Columns:
    shared, seeds = None, 40
    fns = {"val": outc.val}

    def __init__(self, names):
        self.names = names

    def sizes(self, seed):
        r = random.Random(seed)
        n = r.choice((1, 2, 3, 5))
        d = {}
        for i, k in enumerate(self.names):
            v = [round(r.uniform(0.1, 9), 4) for _ in range(n if i < 2 or seed % 2 else 0)]
            d[sym(k)] = d[sym("*" + k)] = v
        return d


class Rows:
    shared, seeds = None, 40
    fns = {"val": outc.val}

    def sizes(self, seed):
        r = random.Random(seed)
        s = sectc.Probe("stored")
        q = s.section(r)
        d = {sym("this"): q}
        a, b = sorted(r.choice(q["wav"]) + r.choice((0, 0.1, -0.1)) for _ in range(2))
        d[sym("$1")], d[sym("$2")] = a, b
        return d


class Scalars:
    shared, seeds = None, 6
    fns = {"val": outc.val}

    def sizes(self, seed):
        r = random.Random(seed)
        return {sym("$%d" % i): round(r.uniform(1, 9), 3) for i in range(4)}


def written(t):
    return fld(t, "out")


def restored(ctx, name, where, r, t, name0="$0"):
    """the format flags at the end are the ones at the beginning"""
    got = outc.flags(t)
    ctx.count("writers")
    ctx.compared += 1
    if name0 == "$0":
        want = {k: sym("$0." + s) for k, s in (("adjustfield", "af"), ("basefield", "bf"), ("floatfield", "ff"), ("rest", "rest"))}
    else:
        want = fld(fld(sym("this"), name0), "fl")
        if got is want:
            return ctx.ok(name, where)
        want = {k: fld(want, k) for k in ("adjustfield", "basefield", "floatfield", "rest")}
    for k, v in want.items():
        g = fld(got, k)
        if g is v:
            ctx.ok("%s: %s" % (name, k), where)
        elif g.op == "num" or g.op == "sym" or g.op == "ite" and any(x.op in ("num", "sym") and x is not v for x in (g.a[1], g.a[2])):
            ctx.bad("%s: %s" % (name, k), where, "at the end the flags are %s" % C.short(g, 120))
        else:
            ctx.unknown("%s: %s" % (name, k), where, "at the end the flags are %s" % C.short(g, 120))


def values(ctx, name, where, a, b, probe):
    ctx.same(name, outc.values(a), outc.values(b), where, probe=probe)


def apart(ctx, name, where, t):
    x = outc.separated(t)
    if x:
        ctx.bad(name, where, "nothing separates the value %s from what is written before it" % C.short(x[0].a[1], 100))
    else:
        ctx.ok(name, where)


def good(ev, st, this, args, node):
    return TRUE


def run(ctx):
    P = ctx.P
    # data of three columns, as the tools write them
    for f in [f for f in sorted(ctx.fn("especia::put")) if P.funcs[f].get("body") is not None]:
        where = P.where(f)

        def go():
            r = ctx.run(f)
            n = len(P.funcs[f]["params"])
            s = ctx.spec("spec::columns")
            restored(ctx, "data columns: format flags", where, r, r.mem["$0"])
            if n == 4:
                values(ctx, "data columns: values", where, written(r.mem["$0"]), written(s.mem["$0"]), Columns(("$1", "$2", "$3")))
            apart(ctx, "data columns: separated", where, written(r.mem["$0"]))
        ctx.guarded("data columns", where, go)
    # sections of a spectrum
    for f in sectc.overloads(ctx, "put", 3):
        where = P.where(f)

        def section():
            r, s = ctx.run(f), ctx.spec("spec::Section::rows")
            restored(ctx, "rows of a section: format flags", where, r, r.mem["$0"])
            values(ctx, "rows of a section: values", where, written(r.mem["$0"]), written(s.mem["$0"]), Rows())
            apart(ctx, "rows of a section: separated", where, written(r.mem["$0"]))
        ctx.guarded("rows of a section", where, section)
    for f in sorted(ctx.fn("especia::operator<<")):
        if P.funcs[f].get("body") is None or "vector" not in str(f):
            continue
        where = P.where(f)

        def sections():
            r, s = ctx.run(f), ctx.spec("spec::sections")
            restored(ctx, "sections: format flags", where, r, r.mem["$0"])
            ctx.same("sections: values", outc.values(written(r.mem["$0"])), outc.values(written(s.mem["$0"])), where, probe=Sections())
        ctx.guarded("sections", where, sections)
    # the log
    n = 0
    for f in sorted(P.funcs):
        if evalv.stripargs(P.qn(f)) != "especia::Runner::Tracer::trace" or P.funcs[f].get("body") is None or n and ctx.tier != "thorough":
            continue
        n += 1
        where = P.where(f)

        def trace():
            r, s = ctx.run(f), ctx.spec("spec::trace")
            t, key = stream(r)
            if t is None:
                return ctx.unknown("log: format flags", where, "the stream of the log is not found")
            restored(ctx, "log: format flags", where, r, t, key)
            b = tm.subst(outc.values(written(s.mem["$0"])), {sym("$%d" % (i + 1)): sym("$%d" % i) for i in range(4)})
            o = fld(fld(sym("this"), key), "out")
            a = tm.replacefn(outc.values(written(t)), lambda x: string("") if x is o else None)
            ctx.same("log: values", a, b, where, probe=Scalars())
            apart(ctx, "log: separated", where, written(t))
        ctx.guarded("log", where, trace)
    # the tables
    for f in modelc.pick(ctx, modelc.methods(ctx, "put", 1)):
        where = P.where(f)
        what = "" if ctx.tier != "thorough" else " of " + modelc.flavour(P, f)

        def tables():
            count = modelc.parameter_count(ctx, f)
            r = ctx.run(f, hooks=ew())
            restored(ctx, "result tables%s: format flags" % what, where, r, r.mem["$0"])
            v = outc.values(written(r.mem["$0"]), False)
            s = ctx.spec("spec::Report::table", hooks=ew())
            l = ctx.spec("spec::Report::lines", args=[None, TRUE if count is num(8) else FALSE], hooks=ew())
            d = ctx.spec("spec::sections", args=[None, fld(sym("this"), "sections")])
            ref = {"data": outc.values(written(d.mem["$0"]), False), "sections": outc.values(written(s.mem["$0"]), False), "lines": outc.values(written(l.mem["$0"]), False)}
            got = {"data": [], "sections": [], "lines": []}
            for p in outc.pieces(v):
                if p.op == "str":
                    continue
                k = "data"
                if p.op == "catn":
                    ms = {x.a[1].a[1] for x in outc.everything(p.a[0]) if x.op == "app" and x.a[0] == "maplen" and x.a[1].op == "fld"}
                    k = "sections" if "section_name_map" in ms else "lines" if "profile_name_map" in ms else "data"
                got[k].append(p)
            for k in got:
                ctx.same("result tables%s: values of the %s" % (what, k), tm.cat(*got[k]), ref[k], where, probe=Table(int(count.a[0])))
        ctx.guarded("result tables" + what, where, tables)
    ctx.minimum("writers", 4)


class Sections:
    shared, seeds = None, 40
    fns = {"val": outc.val}

    def sizes(self, seed):
        r = random.Random(seed)
        s = sectc.Probe("stored")
        q = {"a": tuple(s.section(r) for _ in range(r.choice((1, 2, 3))))}
        q["n"] = len(q["a"])
        return {sym("$1"): q, sym("*$1"): q}


def ew():
    f = lambda ev, st, this, args, node: mk("ew")
    return {"especia::Equivalent_Width_Calculator::calculate": f, "spec::Report::width": f}


def stream(r):
    """the member of the tracer that is written to"""
    t = r.mem["this"]
    c = set()
    for x in outc.everything(t):
        if x.op == "fld" and x.a[0] is sym("this"):
            c.add(x.a[1])
        if x.op == "upd":
            c |= {k for k, _ in x.a[1]}
    c = [k for k in sorted(c) if fld(fld(t, k), "out") is not fld(fld(sym("this"), k), "out")]
    return (fld(t, c[0]), c[0]) if len(c) == 1 else (None, None)

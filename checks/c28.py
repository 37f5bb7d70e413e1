"""Invalid optimizer settings are refused before they are used."""
import random
from common import *
from evo import read
from inst import mpmath

LEVEL = "translation_validation"
TECHNIQUE = "static analysis: the conditions under which building and starting an optimizer throws, as value graphs, against the conditions that make a setting unusable"
RULE = ("building throws whenever the dimension, the parent number or the update modulus is zero or the population has less than two individuals per parent; starting "
        "throws whenever the number of start values or step sizes is not the dimension; the evolution strategy is not entered under these conditions; the arrays it "
        "works on have as many elements as the dimension asks for")
NOTE = "All settings at once: the throw condition under each forbidden condition has to be the constant true; instances only separate."
ASSUME = ["the builder's derived settings belong to its dimension and parent number (see C24)"]
B = "especia::Optimizer::Builder"


def implied(ctx, name, where, bad, thrown, instances):
    """the throw condition holds wherever the forbidden condition does"""
    ctx.compared += 1
    bads = bad if isinstance(bad, tuple) else (bad,)         # ways to write the same condition
    if any(evalv.constrain_deep(thrown, b) is TRUE for b in bads):
        return ctx.ok(name, where)
    bad = bads[0]
    found = None
    with mpmath.workdps(30):
        for seed, z in instances:
            try:
                b, = inst.values(bad, z, seed)
                t, = inst.values(thrown, z, seed)
            except (inst.Undefined, OverflowError, RecursionError, TypeError, ZeroDivisionError, ValueError):
                continue
            if b is True and t is False:
                found = z
                break
    if found is not None:
        return ctx.bad(name, where, "not so, for instance with " + show(found))
    ctx.unknown(name, where, "throws when " + C.short(thrown, 300))


def show(z):
    out = []
    for k, v in z.items():
        if isinstance(v, dict):
            out += ["%s=%s" % (a, len(b) if isinstance(b, list) else b) for a, b in v.items() if a in ("n", "parent_number", "population_size", "update_modulus")]
            if "config" in v:
                out.append("dimension %d" % v["config"]["n"])
        elif isinstance(v, list):
            out.append("%d elements in %s" % (len(v), k.a[0].lstrip("$*")))
    return ", ".join(out)


def thrown(r):
    t = FALSE
    for pc, e, m in r.throws:
        t = OR(t, pc)
    return t


def settings(r, **fixed):
    d = {"n": r.choice((1, 2, 3, 7)), "parent_number": r.choice((1, 2, 3, 5)), "update_modulus": r.choice((1, 2, 5)), "accuracy_goal": 0.001,
         "random_seed": 27, "stop_generation": r.choice((0, 1, 100))}
    d["population_size"] = 2 * d["parent_number"] + r.choice((0, 0, 1, 3))
    d.update(fixed)
    d["weights"] = [1.0 + i for i in range(d["parent_number"])]
    for k in ("wv", "cs", "cc", "acov", "ccov", "step_size_damping"):
        d[k] = 0.5
    return d


def run(ctx):
    P = ctx.P
    this = sym("this")
    for f in ctx.fn(B + "::build"):
        where = P.where(f)
        ctx.count("build functions")

        def build():
            r = ctx.run(f, hooks={"especia::Optimizer::Optimizer": lambda *a: UNDEF})
            t = thrown(r)
            n, m, p, u = (fld(this, k) for k in ("n", "parent_number", "population_size", "update_modulus"))
            two = (tm.lt0(sub(p, scale(m, 2)), True), tm.lt0(sub(tm.app("idiv", p, num(2)), m), True))
            for name, bad, mk_ in (("no parameters", tm.eq(n, ZERO), lambda q: settings(q, n=0)), ("no parents", tm.eq(m, ZERO), lambda q: settings(q, parent_number=0)),
                                   ("update modulus zero", tm.eq(u, ZERO), lambda q: settings(q, update_modulus=0)),
                                   ("fewer individuals than twice the parents", two,
                                    lambda q: (lambda k: settings(q, parent_number=k, population_size=q.randrange(max(0, 2 * k - 2), 2 * k)))(q.choice((1, 2, 3, 4, 9))))):
                implied(ctx, "refused: " + name, where, bad, t, ((k, {this: mk_(random.Random(k))}) for k in range(24)))
            dims = []

            def decompose(ev, st, this_, args, node):
                dims.append((ev.abspc(st), read(ev, st, args[0])))
                return UNDEF
            cs = {P.qn(g) for g in P.funcs if P.dn(g).get("fk") == "ctor" and P.qn(g).endswith("_Decompose::" + P.qn(g).split("::")[-1]) and len(P.funcs[g]["params"]) == 1}
            ctx.run(f, hooks={c: decompose for c in cs})
            for pc, k in dims:
                implied(ctx, "the decomposition has room for the dimension", where, pc, OR(tm.eq(k, n), tm.lt0(sub(n, k), True)),
                        ((k, {this: settings(random.Random(k))}) for k in range(24)))
        ctx.guarded("building an optimizer", where, build)
    ctx.minimum("build functions", 1)
    fs = [f for q in ("minimize", "maximize") for f in ctx.fn("especia::Optimizer::" + q) if len(P.funcs[f]["params"]) in (4, 6)]
    for f in fs:
        where = P.where(f)
        ctx.count("entry points")
        seen, post = [], []
        nm = P.dn(f)["n"] if "n" in P.dn(f) else P.qn(f).split("::")[-1]

        def strategy(ev, st, this_, args, node):
            sizes = {}
            for k, i in ARRAYS.items():
                a = args[i]
                if isinstance(a, T) and a.op == "ptr" and a.a[2] is ZERO and a.a[1] and a.a[1][-1] == ("f", "a"):
                    root = a.a[0] if isinstance(a.a[0], str) else a.a[0].a[0]
                    sizes[k] = ev.read(st, Loc(root, a.a[1][:-1] + (("f", "n"),)))
            seen.append((ev.abspc(st), read(ev, st, args[2]), sizes))
            return UNDEF

        def opt():
            del seen[:]
            r = ctx.run(f, hooks={"especia::optimize": strategy, "especia::postopti": lambda *a: UNDEF})
            t = thrown(r)
            n = fld(fld(this, "config"), "n")
            for what, p in (("start values", "$1"), ("step sizes", "$2")):
                k = fld(sym(p), "n")
                bad = NOT(tm.eq(k, n))
                implied(ctx, "%s: refused: number of %s" % (nm, what), where, bad, t, inputs(p))
                for pc, *_ in seen:
                    implied(ctx, "%s: the strategy is not entered with a wrong number of %s" % (nm, what), where, bad, NOT(pc), inputs(p))
            if not seen:
                ctx.unknown("%s: the strategy is not entered" % nm, where, "no call of the evolution strategy was reached")
            for pc, dim, sizes in seen:
                for k in ARRAYS:
                    name = "%s: number of elements of %s" % (nm, k)
                    want = mul(dim, dim) if k in ("rotation", "covariance") else dim
                    if k not in sizes:
                        ctx.unknown(name, where, "array not identified")
                        continue
                    implied(ctx, name, where, pc, OR(tm.eq(sizes[k], want), tm.lt0(sub(want, sizes[k]), True)), inputs(None))
        ctx.guarded("starting an optimizer", where, opt)
    ctx.minimum("entry points", 2)


ARRAYS = {"values": 15, "step sizes": 17, "rotation": 18, "covariance": 19, "step size path": 20, "distribution path": 21}


def inputs(p):
    for k in range(24):
        q = random.Random(k)
        n = q.choice((1, 2, 3))
        z = {sym("this"): {"config": settings(q, n=n)}, sym("$1"): [1.0] * n, sym("$2"): [1.0] * n, sym("$3"): 1.0}
        m = q.choice([i for i in (0, 1, 2, 3, 4) if i != n])
        if p:
            z[sym(p)] = [1.0] * m
            if k % 2:
                z[sym("$1")] = z[sym("$2")] = [1.0] * m
        yield k, z

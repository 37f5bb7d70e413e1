"""Reading a model is all or nothing."""
from common import *
import defin, modelc

LEVEL = "translation_validation"
TECHNIQUE = "static analysis: value graphs of reading a model definition (nested loops over sections, lines, parameters and references as gated recursions) compared with a reference definition"
RULE = ("reading a definition fails in exactly the cases in which the reference definition does, and what it stores in the model otherwise is what the reference definition stores; "
        "parsing throws if and only if reading failed or input is left")
NOTE = "Any definition, any outcome of opening and reading each data file."
ASSUME = ["the stream is in a good state at entry", "reading a section is a function of the data file and its limits that can fail (decided by C15)",
          "extraction of numbers, words and lines is as the standard library specifies"]
REFS = False


def run(ctx):
    for f in modelc.pick(ctx, modelc.methods(ctx, "get", 5)):
        reading(ctx, f, False, defin.FAULTS + defin.DANGLING)
    for f in modelc.pick(ctx, modelc.methods(ctx, "parse", 5)):
        parsing(ctx, f)
    ctx.minimum("definitions of reading", 1)
    ctx.minimum("definitions of parsing", 1)


def reading(ctx, f, refs, faults):
    P = ctx.P
    where = P.where(f)
    fl = modelc.flavour(P, f)
    ctx.count("definitions of reading")

    def go():
        r, s, n = defin.both(ctx, f)
        a, b = (ite(defin.failed(q), ONE, ZERO) for q in (r, s))
        parts = [("fails", a, b)]
        for k in defin.MEMBERS:
            x, y = (fld(q.mem["this"], k) for q in (r, s))
            parts.append((k, x, y))
        left = []
        for k, x, y in parts:
            ctx.compared += 1
            if C.identical(x, y):
                ctx.ok("%s: %s" % (fl, k), where)
            else:
                left.append(k)
        if left:
            separate(ctx, fl, where, r, s, left, defin.Probe(int(val(n)), refs, 4 * len(faults), faults))
        for pc, e, m in r.throws:
            if pc is not FALSE and "alloc" not in str(e.a[0] if e.op == "exc" else ""):
                ctx.unknown(fl + ": does not throw", where, "throws when " + C.short(pc, 200))
    ctx.guarded(fl + ": reading", where, go)


def separate(ctx, fl, where, r, s, left, probe):
    """instances in which what is read differs"""
    found = {}
    with mpmath.workdps(40):
        for seed in range(probe.seeds):
            try:
                text, x, y = defin.evaluate(r, s, seed, probe, [k for k in defin.MEMBERS if k in left])
            except (inst.Undefined, OverflowError, RecursionError, TypeError, ZeroDivisionError, ValueError, KeyError):
                continue
            if x[0] != y[0]:
                found.setdefault("fails", []).append((text, "fails" if x[0] else "succeeds", "failing" if y[0] else "succeeding"))
            else:
                for k in x[1]:
                    if x[1][k] != y[1][k]:
                        found.setdefault(k, []).append((text, x[1][k], y[1][k]))
            if any(len(v) > 1 for v in found.values()):
                break
    for k in left:
        w = found.get(k, [])
        if len(w) > 1:
            ctx.bad("%s: %s" % (fl, k), where, "with the definition %r: %s instead of %s" % tuple(str(z)[:300] if i else z[:600] for i, z in enumerate(w[0])))
        else:
            ctx.unknown("%s: %s" % (fl, k), where, "the normal forms are not the same, no instance separates them")


def parsing(ctx, f):
    P = ctx.P
    where = P.where(f)
    fl = modelc.flavour(P, f)
    ctx.count("definitions of parsing")
    seen = []

    def get(ev, st, this, args, node):
        seen.append([a if i < 2 else evread(ev, st, a) for i, a in enumerate(args)])
        for k in ("fail", "eof", "bad"):
            ev.write(st, args[0] + (("f", k),), atom(sym("?" + k)))
        ev.write(st, this, sym("?model"))
        return args[0]

    def go():
        del seen[:]
        r = ctx.run(f, hooks={evalv.stripargs(P.qn(f)).rsplit("::", 1)[0] + "::get": get, P.qn(f).rsplit("::", 1)[0] + "::get": get})
        if len(seen) != 1:
            return ctx.unknown(fl + ": parsing reads once", where, "%d calls of get" % len(seen))
        if C.identical(tm.rec({str(i): x for i, x in enumerate(seen[0][2:])}), tm.rec({str(i): sym("$%d" % (i + 2)) for i in range(3)})):
            ctx.ok(fl + ": the marks are passed on", where)
        elif all(x.op in ("sym", "num") for x in seen[0][2:]):
            ctx.bad(fl + ": the marks are passed on", where, "reading gets %s instead of the arguments" % ", ".join(C.short(x, 30) for x in seen[0][2:]))
        else:
            ctx.unknown(fl + ": the marks are passed on", where, "arguments not resolved")
        t = FALSE
        for pc, e, m in r.throws:
            t = OR(t, pc)
        want = OR(atom(sym("?fail")), atom(sym("?bad")), NOT(atom(sym("?eof"))))
        ctx.compared += 1
        if t is want:
            ctx.ok(fl + ": parsing throws if reading failed or input is left", where)
        elif not (freesyms(t) - {sym("?fail"), sym("?bad"), sym("?eof")}):
            ctx.bad(fl + ": parsing throws if reading failed or input is left", where, "throws when " + C.short(t, 200))
        else:
            ctx.unknown(fl + ": parsing throws if reading failed or input is left", where, "throws when " + C.short(t, 200))
        if r.ret is not None:
            ctx.same(fl + ": the model that was read is returned", r.ret, sym("?model"), where)
    ctx.guarded(fl + ": parsing", where, go)


def evread(ev, st, a):
    return a if isinstance(a, T) else ev.read(st, a)

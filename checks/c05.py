"""The exit status and the result messages tell how the optimisation ended."""
from common import *
from mains import *

LEVEL = "translation_validation"
TECHNIQUE = ("static analysis: value graphs of the fitting programs' main functions with the optimization function as an uninterpreted "
             "event, compared case by case in its outcome flags")
RULE = ("with O, U the outcome flags the optimization function delivers: the exit code is 0 if O, else 1 if U, else 2; the message block says "
        "completed exactly if O, underflow exactly if U, and names the generation reached if not O; the model that is written is the one read with the "
        "parameter values the optimization function delivered and the uncertainties computed from its final state")
NOTE = "Both flags, the generation number and the vectors are symbolic, so every outcome is covered at once."
ASSUME = ["the optimization function and the uncertainty stage communicate through their parameters only (checked by C02, C31)"]
O, U = atom(sym("opt.23")), atom(sym("opt.24"))


def pieces(t):
    """the sequence a stream's content consists of"""
    return list(t.a[0]) if t.op == "cat" else ([] if t is EMPTY else [t])


def text(t):
    return "".join(s.a[0] if s.op == "str" else "\x00" for s in pieces(t))


def leaves(t, pc=TRUE):
    """(condition, leaf) of a gated value"""
    t = constrain(t, pc)
    if t.op == "cat":
        xs = t.a[0]
        for k, x in enumerate(xs):
            if x.op == "ite":
                for s in (x.a[1], x.a[2]):
                    c = AND(pc, atom(x.a[0]) if s is x.a[1] else NOT(atom(x.a[0])))
                    if c is not FALSE:
                        yield from leaves(cat(*(xs[:k] + (s,) + xs[k + 1:])), c)
                return
        yield pc, t
    elif t.op == "ite":
        yield from leaves(t.a[1], AND(pc, atom(t.a[0])))
        yield from leaves(t.a[2], AND(pc, NOT(atom(t.a[0]))))
    else:
        yield pc, t


def constrain(t, pc):
    return evalv.constrain_deep(t, pc)


def between(ps, a, b):
    """the part of a piece sequence between two markers"""
    s = cat(*ps)
    out, inside = [], False
    for x in pieces(s):
        txt = x.a[0] if x.op == "str" else None
        if txt is None:
            if inside:
                out.append(x)
            continue
        while txt:
            m = b if inside else a
            i = txt.find(m)
            if i < 0:
                if inside:
                    out.append(string(txt))
                break
            if inside:
                out.append(string(txt[:i]))
            txt = txt[i + len(m):]
            inside = not inside
    return None if inside else cat(*out)


def run(ctx):
    P = ctx.P
    for app in FITS:
        t = fit_main(ctx, app, 8)
        where = P.where(t.fid)
        if t.r is None:
            continue
        for k, l in (("optimize", t.opt), ("postopti", t.post), ("set", t.set), ("put", t.put)):
            ctx.check(app + ": main reaches " + k, len(l) > 0, where, "no call is reached")
        if not (t.opt and t.post and t.set and t.put):
            continue
        ok = AND(*[NOT(atom(mk("fault", s, k))) for s, _ in t.sites for k in KINDS])
        fin = AND(OR(*[p["pc"] for p in t.put]), ok)
        conv = TRUE
        for k, kind in ((1, "u64"), (2, "u32"), (3, "u32"), (4, "real"), (5, "real"), (6, "u32"), (7, "u32")):
            conv = AND(conv, atom(mk("convok", kind, t.argv(k))))
        ctx.count("programs")
        # what is not written exits differently: C04
        ctx.when(app + ": exit code", fin, t.r.ret, ite(O.a[0], ZERO, ite(U.a[0], ONE, num(2))), where)
        # messages
        out = stream(t.r, "std::cout")
        for o in (True, False):
            for u in (True, False):
                cond = AND(fin, O if o else NOT(O), U if u else NOT(U))
                nm = "%s: messages when %soptimized%s" % (app, "" if o else "not ", " and underflow" if u else "")

                def one():
                    n = 0
                    for pc, leaf in leaves(out, cond):
                        if not C.feasible(lits(pc)):
                            continue
                        n += 1
                        ps = pieces(leaf)
                        m = between(ps, "<message>", "</message>")
                        if m is None:
                            ctx.bad(nm, where, "no terminated message block in " + C.short(leaf, 300))
                            continue
                        s = text(m).lower()
                        ctx.check(nm + ": success", ("success" in s or "completed" in s) == o, where, "the block reads " + C.short(m, 300))
                        ctx.check(nm + ": stopped at a generation", ("generation" in s) == (not o), where, "the block reads " + C.short(m, 300))
                        ctx.check(nm + ": underflow", ("underflow" in s) == u, where, "the block reads " + C.short(m, 300))
                        if not o:
                            ctx.check(nm + ": the generation number", any("opt.14" in repr(x) for x in pieces(m)), where,
                                      "no generation number in " + C.short(m, 300))
                    ctx.need(n > 0, nm + ": no feasible output")
                ctx.guarded(nm, where, one)
        # the final state
        for o in t.opt:
            v = o["vals"]
            ctx.same(app + ": optimized is clear before the optimization", v[23], FALSE, where, path=lits(o["pc"]))
            ctx.same(app + ": underflow is clear before the optimization", v[24], FALSE, where, path=lits(o["pc"]))
        arr = lambda s: s
        for k, s in enumerate(t.set):
            pc = AND(s["pc"], ok)
            ctx.when(app + ": the model that is completed is the one read", pc, s["model"], sym("model"), where)
            ctx.when(app + ": parameter values stored are those of the final state", pc, s["vals"][0], sym("opt.15"), where)
            ctx.when(app + ": uncertainties stored are those computed from the final state", AND(pc, O), s["vals"][1], sym("post.z"), where)
        for p in t.put:
            ctx.when(app + ": the model written is the completed one", AND(p["pc"], ok), p["model"], mk("fitted", sym("model")), where)
            ctx.check(app + ": it is written to standard output", repr(p["stream"]) == "Loc(g:std::cout)", where, "written to %r" % p["stream"])
        for p in t.post:
            st, want = p["vals"], {0: sym("model"), 1: mk("constraint", sym("model")), 2: mk("count", sym("model")), 7: sym("opt.16")}
            for i, w in want.items():
                ctx.when("%s: argument %d of the uncertainty stage" % (app, i + 1), AND(p["pc"], ok), st[i], w, where)
            for i, (nm, k) in {3: ("parameter values", 15), 4: ("local step sizes", 17), 5: ("rotation matrix", 18), 6: ("covariance matrix", 19)}.items():
                ctx.when("%s: the uncertainty stage gets the final %s" % (app, nm), AND(p["pc"], ok), p["views"][i], sym("opt.%d" % k), where)
    ctx.minimum("programs", 4)

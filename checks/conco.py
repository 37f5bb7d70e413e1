"""Runs the concurrency analysis over the coordinating functions, once per check."""
from common import *
import conc

ANCHORS = ("especia::optimize", "especia::postopti")


def has_concurrency(P, f):
    for x in nodes(P.funcs[f]["body"]):
        if x.get("k") == "omp":
            return True
        if x.get("k") in ("ctor", "call") and x.get("f"):
            q = P.qn(x["f"])
            if q.startswith("std::thread::thread") and x.get("a") or any(q.startswith(z) for z in conc.FOREIGN):
                return True
            if P.dn(x["f"]).get("n") == "emplace_back" and "std::thread" in q:
                return True
    return False


def short(P, f):
    m = P.dn(f).get("targs") or []
    n = (P.dn(f).get("n") or P.qn(f).split("::")[-1])
    return "%s<%s>" % (n, m[0].replace("especia::", "")) if m else P.qn(f).split("::")[-2].split("<")[0] + "::" + n if P.dn(f).get("rec") else n


def analyse(ctx, pick, what, others=True):
    """pick: the findings of an analysis that concern the property"""
    for omp in (False, True):
        P = ctx.prog(omp)
        variant = "OpenMP" if omp else "std::thread"
        done, visited, seen = set(), set(), set()
        roots = []
        for a in ANCHORS:
            fs = [f for f in P.funcs if P.qn(f) == a and P.funcs[f].get("body") and not P.dn(f).get("lambda")]
            if not fs:
                raise AnalysisBroken("no definition of %s" % a)
            roots += fs
        todo = list(roots)
        for f in sorted(P.funcs) if others else ():
            if P.funcs[f].get("body") and (P.dn(f).get("proj") or P.dn(f).get("rec")) and f not in todo and not P.dn(f).get("lambda") and P.funcs[f]["loc"].startswith(L.SRC) and has_concurrency(P, f):
                todo.append(f)
        starts = set()
        for i, f in enumerate(todo):
            if i >= len(roots) and f in visited:
                continue
            tf = (P.dn(f).get("targs") or [""])[:2]
            sig = (P.where(f), tuple(tf)) if tf != [""] else f
            if sig in done:
                continue
            done.add(sig)
            c = conc.Conc(P, omp)
            name = "%s: %s (%s)" % (what, short(P, f), variant)
            where = P.where(f)
            try:
                c.function(f)
            except conc.Quit as e:
                if i >= len(roots) and any(c.kindq(P.dn(d).get("t")) for d in P.funcs[f]["params"]):
                    continue        # part of a coordinating function analysed already
                ctx.unknown(name, where, str(e))
                continue
            finally:
                visited |= c.visited
            if i >= len(roots) and any(c.kindq(P.dn(d).get("t")) for d in P.funcs[f]["params"]):
                continue
            ctx.fns |= {f} | c.R.fns | c.visited
            ctx.count("calls followed", c.R.calls)
            ctx.count("accesses of concurrent code", sum(len(r) for r in c.sites.values()))
            starts |= c.starts
            ctx.counts["%s: places where concurrent code starts" % variant] = len(starts)
            bad, unsure = pick(c)
            for w, at in bad:
                if (w, at) not in seen:
                    seen.add((w, at))
                    ctx.bad(name, at, w)
            if not bad:
                if unsure:
                    ctx.unknown(name, unsure[0][1], unsure[0][0])
                else:
                    ctx.ok(name, where, "%d places where concurrent code starts, %d joins, %d functions" % (len(c.starts), len(c.joinsites), len(c.R.fns)))
    return

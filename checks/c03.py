"""Errors of concurrent evaluations are stored, and thrown again after all evaluations have finished."""
from common import *
import conc
import conco

LEVEL = "other"
TECHNIQUE = "static analysis: exception-flow and typestate analysis of threads and stored exceptions over all paths, exceptional ones included"
RULE = ("what a thread or an OpenMP region executes lets no exception out: a handler for everything stores it in a slot of its own; after the threads have been "
        "joined every slot is tested and a stored exception thrown again, before the slot ends its life, is used again or the function goes on to return; "
        "nothing between the evaluation and the caller of the optimizer is noexcept or catches without throwing")
NOTE = "Both variants, std::thread and OpenMP, and every instance of the optimizer with a model are analysed."
ASSUME = ["evaluations of the objective function and the constraint may throw anything; starting a thread may throw"]


def run(ctx):
    sites = set()

    def pick(c):
        sites.update(c.rethrows)
        early = [(w, at) for w, at in c.joins if "on the path of an exception" in w]
        return c.errors, [o for o in c.open if "exception" in o[0]]
    conco.analyse(ctx, pick, "errors are delivered", others=False)
    ctx.counts["places where stored exceptions are thrown"] = len(sites)
    P = ctx.P
    # between the evaluation and the caller of the optimizer
    fs = [f for f in P.funcs if P.funcs[f].get("body")]
    c = conc.Conc(P, False)
    reach = {f for f in fs if P.qn(f) in conco.ANCHORS}
    callers = set(reach)
    own = [f for f in fs if P.dn(f).get("rec") and P.qn(P.dn(f)["rec"]) == "especia::Optimizer"]
    for _ in range(6):
        callers |= {f for f in own if any(x.get("f") in callers for x in nodes(P.funcs[f]["body"]) if x.get("k") == "call")}
    n = 0
    for f in sorted(callers, key=lambda f: (P.where(f), f)):
        n += 1
        if P.dn(f).get("noexcept"):
            ctx.bad("errors pass the optimizer", P.where(f), "%s is noexcept: an exception of an evaluation ends the program" % P.dn(f).get("n"))
        if f in reach:
            continue
        for x in nodes(P.funcs[f]["body"]):
            if x.get("k") == "try" and any(y.get("f") in callers for y in nodes(x["b"]) if y.get("k") == "call"):
                for h in x["h"]:
                    drops(ctx, P, c, f, h)
    ctx.count("functions between evaluation and caller", n)
    for f in sorted(fs, key=P.where):
        if P.dn(f).get("noexcept") and c.objective(f) and throws(P, f, set()):
            ctx.bad("errors pass the objective function", P.where(f), "%s is noexcept and may throw: the program ends" % P.qn(f))
    ctx.minimum("functions between evaluation and caller", 3)
    ctx.ok("errors pass the optimizer", "", "%d functions" % n)


def throws(P, f, seen):
    """certainly something is thrown or allocated in f or what it calls, outside of a handler for everything"""
    if f in seen or f not in P.funcs or not P.funcs[f].get("body"):
        return False
    seen.add(f)

    def go(n):
        if isinstance(n, list):
            return any(go(x) for x in n)
        if not isinstance(n, dict) or n.get("k") == "lam":
            return False
        if n.get("k") == "try" and any(not h.get("t") for h in n["h"]):
            return any(go(h["b"]) for h in n["h"])
        if n.get("k") in ("throw", "new"):
            return True
        if n.get("k") == "ctor" and n.get("a") and (P.dn(P.dn(n["f"]).get("rec")).get("tmpl") in ("std::valarray", "std::vector", "std::basic_string")):
            return True
        if n.get("k") in ("call", "ctor") and throws(P, n.get("f"), seen):
            return True
        return any(go(v) for v in n.values() if isinstance(v, (dict, list)))
    return go(P.funcs[f]["body"])


def drops(ctx, P, c, f, h):
    c.slots, c.stack, c.top = {}, [f], f
    fr = conc.Frame(c.E, f)
    try:
        out = c.block(h["b"], [conc.St()], fr)
    except conc.Quit as e:
        return ctx.unknown("errors pass the optimizer", P.where(f, h), str(e))
    if any(o != "throw" for o, s in out):
        if any(x.get("k") == "call" and P.qn(x.get("f", "")).startswith(("std::current_exception", "std::make_exception")) for x in nodes(h["b"])):
            return ctx.unknown("errors pass the optimizer", P.where(f, h), "an exception is stored")
        ctx.bad("errors pass the optimizer", P.where(f, h), "an exception of an evaluation is caught and not thrown again")

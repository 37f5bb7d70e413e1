"""Parts of an integral are deleted exactly once."""
from common import *
import own

LEVEL = "other"
TECHNIQUE = "static analysis: interprocedural ownership typestate analysis over all paths, exceptional ones included"
RULE = ("every object made by new is followed on every path, normal and exceptional, through variables, unique_ptr and the container of the class that owns it: "
        "when a public function is left by any path, each object is deleted or in a container whose class's destructor deletes every element, never both, never "
        "twice, never used after deletion; a failing constructor leaves nothing behind; a class that deletes its elements is not copied")
NOTE = ("The state of an object (alive, deleted, owned by a unique_ptr, in the container) is tracked for all paths; loops are iterated to a fixed point. Code whose "
        "ownership scheme is not recognised is recorded as undecided.")
ASSUME = ["growing a standard container and calls of the integrand may throw; other library operations on the way do not"]


def run(ctx):
    P = ctx.P
    owners, raw = {}, []
    fs = [f for f in P.funcs if P.dn(f).get("proj") and P.funcs[f].get("body")]
    for d, x in P.decls.items():
        if x.get("k") != "field" or not x.get("rec") or not P.dn(x["rec"]).get("proj"):
            continue
        t = P.ty(x["t"])
        if t["k"] == "rec" and P.dn(t["d"]).get("tmpl") in ("std::vector", "std::deque", "std::list", "std::priority_queue"):
            a = P.dn(t["d"]).get("targs", [""])[0]
            if a.endswith("*") and "especia::" in a:
                owners[d] = x["rec"]
    sites = [(f, n) for f in fs for n in nodes({"k": "x", "a": [P.funcs[f]["body"]] + [i for i in P.funcs[f].get("inits", []) if isinstance(i, dict)]}) if n.get("k") in ("new", "del")]
    ctx.counts["sites of new and delete"] = len({P.where(f, n) for f, n in sites})
    if not sites:
        ctx.ok("no object is made by new", "src/main/cxx", "")
        return
    recs = {P.dn(f).get("rec") for f, n in sites} | set(owners.values())
    seen = {}
    for rec in sorted(x for x in recs if x):
        ms = [f for f in fs if P.dn(f).get("rec") == rec and not P.funcs[f].get("implicit")]
        called = {n["f"] for f in ms for n in nodes(P.funcs[f]["body"]) if n.get("k") == "call" and n.get("f") in ms and n["f"] != f}
        for f in ms:
            if f in called:
                continue
            o = own.Own(P, owners)
            if not o.relevant(f):
                continue
            go(ctx, o, f, rec, seen)
    for f in fs:
        if not P.dn(f).get("rec") and any(g is f or g == f for g, _ in sites):
            go(ctx, own.Own(P, owners), f, None, seen)
    # an owner of elements has a destructor and is not copied
    for d, rec in sorted(owners.items(), key=lambda x: P.dn(x[0])["loc"]):
        if not any(P.dn(f).get("rec") == rec for f, n in sites):
            continue
        w = P.dn(d)["loc"].replace(L.REPO + "/", "")
        dt = [f for f in fs if P.dn(f).get("rec") == rec and P.dn(f).get("fk") == "dtor" and not P.funcs[f].get("implicit")]
        # only a class that puts objects it owns into the container
        puts = any(n.get("k") == "call" and isinstance(n.get("o"), dict) and own.Own(P, owners).field(n["o"]) == d and P.dn(n["f"]).get("n") in own.GROW
                   for f in fs if P.dn(f).get("rec") == rec for n in nodes(P.funcs[f]["body"]))
        if puts:
            note(ctx, seen, "the class has a destructor for its elements", bool(dt), w, "objects are put into the container, and no destructor deletes them")
    for f in fs:
        for n in nodes(P.funcs[f]["body"]):
            if n.get("k") == "ctor" and P.dn(n["f"]).get("copy") and P.dn(n["f"]).get("rec") in owners.values() and not n.get("elid") and not P.dn(n["f"]).get("deleted"):
                if P.funcs.get(n["f"], {}).get("implicit"):
                    rec = P.dn(n["f"])["rec"]
                    if any(P.dn(g).get("fk") == "dtor" and P.dn(g).get("rec") == rec and not P.funcs[g].get("implicit") for g in fs):
                        note(ctx, seen, "owning objects are not copied", False, P.where(f, n), "an object whose destructor deletes the elements is copied member by member")
    ctx.counts["places"] = len(seen)


def note(ctx, seen, name, cond, where, detail):
    if (name, where) in seen:
        return
    seen[(name, where)] = 1
    ctx.check(name, cond, where, detail)


def go(ctx, o, f, rec, seen):
    P = ctx.P
    w = P.where(f)
    name = "objects handled in " + (P.dn(f).get("n") or P.qn(f))
    try:
        o.root(f, rec)
    except own.Quit as e:
        if (name, w) not in seen:
            seen[(name, w)] = 1
            ctx.unknown(name, w, str(e))
        return
    except RecursionError:
        ctx.unknown(name, w, "nesting")
        return
    ctx.fns |= o.fns
    ctx.count("exits of functions", o.exits)
    if o.found:
        for what, at in o.found:
            if (what, at) not in seen:
                seen[(what, at)] = 1
                ctx.bad(name, at, what)
    elif (name, w) not in seen:
        seen[(name, w)] = 1
        ctx.ok(name, w)

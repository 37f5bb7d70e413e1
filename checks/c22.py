"""Calls of LAPACK against the interface of its routines."""
from common import *
from evalv import Loc, NOFF

LEVEL = "translation_validation"
TECHNIQUE = "static analysis: symbolic sizes and contents of every argument of every LAPACK call on the value graph of constructor and call operator"
RULE = ("at every call of DSYEVD, DSYEVR and DSYEVX reached from the constructor and the call operator of a decomposition class: job V, range A, "
        "order and leading dimensions are the problem dimension; every array argument points to the start of an array at least as long as the "
        "interface demands (A and Z n*n, w n, ISUPPZ 2n, IFAIL n, IWORK 5n for DSYEVX, WORK and IWORK as long as the LWORK and LIWORK passed); the "
        "LWORK and LIWORK passed are those a workspace query for the same job, triangle and order returned; the matrix decomposed is the input in "
        "the documented (row-major lower) triangle, which the input keeps; status above zero throws runtime_error, below zero invalid_argument, and "
        "otherwise eigenvectors and eigenvalues reach the caller's arrays")
NOTE = "The sizes are compared as terms in the problem dimension and in the answers of the workspace query, so every dimension and every answer is covered."
ASSUME = ["LAPACK accesses what its documentation says", "the problem dimension is at least 1", "arrays passed by the caller have the documented lengths"]

# arguments in the order of the Fortran interface
ROUTINES = {
    "dsyevd_": "job uplo n A lda w work lwork iwork liwork info",
    "dsyevr_": "job range uplo n A lda vl vu il iu abstol m w Z ldz isupp work lwork iwork liwork info",
    "dsyevx_": "job range uplo n A lda vl vu il iu abstol m w Z ldz work lwork iwork ifail info",
}
MINUS = num(-1)



def char(c):
    return num(ord(c))


def run(ctx):
    P = ctx.P
    n = 0
    for cls in ("D_Decompose", "R_Decompose", "X_Decompose"):
        qn = "especia::" + cls
        ctor = [f for f in P.funcs if P.dn(f).get("fk") == "ctor" and P.qn(f).startswith(qn + "::") and len(P.funcs[f]["params"]) == 1
                and not P.funcs[f].get("implicit")]
        op = P.find(qn + "::operator()")
        if not ctor or not op:
            continue
        n += 1
        ctx.count("decomposition classes")
        ctx.guarded(cls, P.where(op[0]), lambda: decomposition(ctx, cls, ctor[0], op[0]))
    ctx.need(n == 3, "the decomposition classes are no longer found")
    sites = [(f, m) for f, fn in P.funcs.items() if fn.get("body") for m in nodes(fn["body"])
             if m.get("k") == "call" and m.get("f") and P.qn(m["f"]) in ROUTINES]
    ctx.count("calls of LAPACK", len(sites))
    ctx.minimum("calls of LAPACK", 6)


def decomposition(ctx, cls, ctor, op):
    P = ctx.P
    calls = []
    phase = ["construction"]

    def hook(rn):
        roles = ROUTINES[rn].split()

        def h(ev, st, this, args, node):
            c = {"routine": rn, "pc": st.pc, "phase": phase[0], "where": "%s, call of %s" % (P.where(op if phase[0] != "construction" else ctor), rn)}
            if len(args) != len(roles):
                raise Unknown("arguments of " + rn)
            for r, a in zip(roles, args):
                if isinstance(a, Loc):
                    c[r] = ev.read(st, a)
                    c["&" + r] = a
                else:
                    c[r] = a
            c["size"] = {r: size(ev, st, c[r]) for r in ("A", "w", "Z", "work", "iwork", "isupp", "ifail") if r in c and isinstance(c[r], T)}
            k = len(calls)
            c["query"] = c["lwork"] is MINUS or c.get("liwork") is MINUS
            tag = "%s.%d." % (rn, k)
            if c["query"]:
                for r in ("work", "iwork"):
                    if r in roles and not (r == "iwork" and rn == "dsyevx_"):
                        put(ev, st, c[r], sym(tag + r))
            else:
                a = ev.view(st, c["A"])
                c["content"] = a
                vec, val = mk("call", sym("eigenvectors"), (a, c["n"], c["uplo"])), mk("call", sym("eigenvalues"), (a, c["n"], c["uplo"]))
                whole(ev, st, c["A"], vec if rn == "dsyevd_" else mk("call", sym("destroyed"), (a,)))
                whole(ev, st, c["w"], val)
                c["vectors"], c["values"] = vec, val
                if "Z" in c:
                    whole(ev, st, c["Z"], vec)
                if "&m" in c:
                    ev.write(st, c["&m"], c["n"])
            ev.write(st, c["&info"], sym(tag + "info"))
            c["info"] = sym(tag + "info")
            calls.append(c)
            return None
        return h

    hooks = {r: hook(r) for r in ROUTINES}
    hooks["dlamch_"] = lambda ev, st, this, args, node: sym("safe minimum")
    m = sym("m")
    care = NOT(lt0(sub(m, ONE), True))
    made = ctx.run(ctor, args=[m], hooks=hooks)
    status(ctx, cls + ": workspace query", made, calls, P.where(ctor))
    qs = [c for c in calls if c["query"]]
    for c in calls:
        if not c["query"]:
            ctx.unknown(cls + ": call during construction", c["where"], "not a workspace query")
    del calls[len(calls):]
    nq = len(calls)
    phase[0] = "call"
    obj = evalv.constrain_deep(made.mem["this"], AND(care, made.pc))
    r = ctx.run(op, this=obj, hooks=hooks)
    status(ctx, cls + ": decomposition", r, calls[nq:], P.where(op))
    qs += [c for c in calls[nq:] if c["query"]]
    real = [c for c in calls[nq:] if not c["query"]]
    if len(real) != 1 or not qs:
        return ctx.unknown(cls + ": calls", P.where(op), "%d decompositions after %d queries" % (len(real), len(qs)))
    for c in calls:
        arguments(ctx, cls, c, m, care)
    work(ctx, cls, real[0], qs, m, care)
    data(ctx, cls, real[0], r, m, care)


def size(ev, st, p):
    """number of elements an array argument has; None: not known here (an array of the caller)"""
    if p.op == "null":
        return ZERO
    if p.op != "ptr":
        return None
    root, path, off = p.a
    if root[0] == "*":
        return None
    if off is NOFF:
        return ONE
    if path and path[-1] == ("f", "a"):
        return sub(fld(ev.read(st, Loc(root, path[:-1])), "n"), off)
    return None


def put(ev, st, p, v):
    if p.op == "ptr":
        l = Loc(p.a[0], p.a[1])
        ev.write(st, l, v if p.a[2] is NOFF else sto(ev.read(st, l), p.a[2], v))


def whole(ev, st, p, v):
    if p.op == "ptr" and p.a[2] is ZERO:
        ev.write(st, Loc(p.a[0], p.a[1]), v)
    else:
        raise Unknown("result in the middle of an array")


def status(ctx, name, r, calls, where):
    """each class of status raises its own exception, and no other does"""
    if len(calls) != 1:
        return ctx.unknown(name + ": status", where, "%d calls" % len(calls))
    i = calls[0]["info"]
    want = {"runtime_error": lt0(neg(i), True), "invalid_argument": lt0(i, True)}
    got = {}
    for pc, e, m in r.throws:
        k = evalv.strip(e.a[0]).split("::")[-1] if e.op == "exc" else "?"
        got[k] = OR(got.get(k, FALSE), pc)
    for k in sorted(set(want) | set(got)):
        ctx.same("%s: %s is thrown" % (name, k), got.get(k, FALSE), want.get(k, FALSE), where)


def under(t, care):
    return evalv.constrain_deep(t, care)


def equal(ctx, name, got, want, where, care):
    ctx.same(name, under(got, care), under(want, care), where)


def enough(ctx, name, have, need, where, care):
    """a size is no smaller than what is accessed"""
    if have is None:
        return
    have, need = under(have, care), under(need, care)
    if C.compare(have, need)[0] == "equal":
        return ctx.ok(name, where)
    if C.compare(bounded(have), need)[0] == "equal":
        return ctx.ok(name, where)
    d = sub(have, need)
    low = [v for v in values(d) if v is not None]
    if low and min(low) < 0:
        return ctx.bad(name, where, "%s elements, %s are accessed" % (C.short(have), C.short(need)))
    if d.op == "num" or d.op == "poly" and all(c > 0 for _, c in d.a[0]) and all(x.op == "sym" for m, _ in d.a[0] for x, e in m):
        return ctx.ok(name, where)
    ctx.unknown(name, where, "%s elements, %s are accessed" % (C.short(have), C.short(need)))


def bounded(t):
    """without the case of an order below 2, where it is no exception to the other"""
    if t.op == "ite" and t.a[0].op == "lt" and t.a[0].a[0] is sub(sym("m"), num(2)) and tm.subst(t.a[2], {sym("m"): ONE}) is t.a[1]:
        return t.a[2]
    return t


def values(d):
    """a term in the dimension and the answers of the query at small dimensions"""
    out = []
    for n in range(1, 12):
        for w in (1, 26 * n, 1 + 6 * n + 2 * n * n):
            sub_ = {s: num(n if s.a[0] == "m" else w) for s in tm.freesyms(d) if s.op == "sym"}
            v = tm.subst(d, sub_)
            out.append(v.a[0] if v.op == "num" else None)
    return out


def arguments(ctx, cls, c, n, care):
    q = "workspace query" if c["query"] else "decomposition"
    name = "%s, %s: " % (cls, q)
    w = c["where"]
    equal(ctx, name + "eigenvalues and eigenvectors are computed", c["job"], char("V"), w, care)
    if "range" in c:
        equal(ctx, name + "all of them are", c["range"], char("A"), w, care)
    equal(ctx, name + "order", c["n"], n, w, care)
    equal(ctx, name + "leading dimension", c["lda"], n, w, care)
    if "ldz" in c:
        equal(ctx, name + "leading dimension of the eigenvectors", c["ldz"], n, w, care)
    s = c["size"]
    if c["query"]:
        enough(ctx, name + "room for the answer", s["work"], ONE, w, care)
        if c["routine"] != "dsyevx_":
            enough(ctx, name + "room for the integer answer", s["iwork"], ONE, w, care)
        return
    need = {"A": mul(n, n), "Z": mul(n, n), "w": n, "isupp": mul(num(2), n), "ifail": n, "work": c["lwork"],
            "iwork": c["liwork"] if "liwork" in c else mul(num(5), n)}
    for r in need:
        if r in s:
            enough(ctx, name + "length of " + r, s[r], need[r], w, care)
            if c[r].op == "null":
                ctx.bad(name + r, w, "null pointer")


def work(ctx, cls, c, qs, n, care):
    """workspace sizes are the answers to a query for the same problem"""
    rn = c["routine"]
    qs = [q for q in qs if q["routine"] == rn]
    if not qs:
        return ctx.unknown(cls + ": workspace", c["where"], "no query of this routine")
    q = qs[-1]
    tag = q["info"].a[0][:-4]
    equal(ctx, cls + ": the query is about the same triangle", q["uplo"], c["uplo"], c["where"], care)
    lw = unconverted(under(c["lwork"], care))
    enough(ctx, cls + ": length of the workspace is the answer of the query", lw, sym(tag + "work"), c["where"], care)
    if "liwork" in c:
        enough(ctx, cls + ": length of the integer workspace is the answer of the query", under(c["liwork"], care), sym(tag + "iwork"), c["where"], care)


def unconverted(t):
    return tm.replacefn(t, lambda x: x.a[1] if x.op == "app" and x.a[0] == "trunc" else None)


def data(ctx, cls, c, r, n, care):
    w = c["where"]
    equal(ctx, cls + ": the triangle read is the documented one", c["uplo"], char("U"), w, care)
    v = tm.fresh("q")
    path = ((lt0(v, True), False), (lt0(sub(v, mul(n, n)), True), True))
    got, want = sel(c["content"], v), sel(sym("*$0"), v)
    got = under(got, AND(care, NOT(path[0][0]), path[1][0]))
    name = cls + ": the matrix decomposed is the input"
    if C.compare(got, want, (), path)[0] == "equal":
        ctx.ok(name, w)
    else:
        wrong = triangle(c["content"], n)
        if wrong:
            ctx.bad(name, w, wrong)
        else:
            ctx.unknown(name, w, "form of the copy")
    ctx.check(cls + ": the input is left as it was", r.mem.get("*$0") in (None, sym("*$0")), w, "the matrix of the caller is changed")
    ok = AND(care, r.pc)
    for what, k, v in (("eigenvectors", "*$1", c["vectors"]), ("eigenvalues", "*$2", c["values"])):
        got = r.mem.get(k, sym(k))
        if got is sym(k):
            ctx.bad(cls + ": %s are handed over" % what, w, "the array of the caller is left as it was")
        else:
            equal(ctx, cls + ": %s are handed over" % what, got, v, w, ok)


def triangle(content, n):
    """first element of the triangle LAPACK reads that is not the caller's, for small orders"""
    for k in (1, 2, 3, 4):
        for j in range(k):
            for i in range(j + 1):
                p = num(i + j * k)
                x = sel(tm.subst(content, {n: num(k)}), p)
                y = sel(sym("*$0"), p)
                if x is not y and (x.op == "sel" and x.a[0].op == "sym" or x.op in ("undef", "num")):
                    return "order %d: element %d is %s" % (k, i + j * k, C.short(x))
    return None

"""The random generators against reference definitions of the published algorithms."""
from common import *

LEVEL = "translation_validation"
TECHNIQUE = "static analysis: value graph of the generators compared with those of reference definitions lowered by the same tool"
RULE = ("one step of each generator, its initialisation from a seed or from an array of seeds, and its map to a real number have the same "
        "normal forms as the reference: same elements of the state read and written, same words, same successor of the state. The reference "
        "steps stay inside the state: MELG by the invariant that the cycle is 1, 2, 3, 4 for an index below n-m, n-l, n-1, and equal to n-1, "
        "which the reference step and initialisation preserve; the Mersenne Twister renews its state when the index reaches n. The real number "
        "is an unsigned word of at most 53 bits over the largest such word")
NOTE = "Bit operations are compared as such on words of unbounded size; the reductions modulo the word size are those of the same operations."
ASSUME = ["unsigned reduction modulo the word size is the same on both sides of a comparison"]
N = {"Melg": 311}


def run(ctx):
    P, S = ctx.P, ctx.S
    i = sym("index")
    for x in sorted(P.funcs):
        q = P.qn(x).rsplit("::", 1)[0]
        cls = evalv.stripargs(q)
        if cls not in ("especia::Melg", "especia::Mersenne_Twister", "especia::Pcg") or P.funcs[x].get("implicit"):
            continue
        ref = "spec" + q[len("especia"):]
        if not any(S.qn(y).startswith(ref + "::") for y in S.funcs):
            continue
        nm = P.qn(x).split("::")[-1]
        short = q[len("especia::"):].split(",")[0].replace("<", " ").rstrip(">")
        small = cls != "especia::Melg"

        def step(what, fn):
            if small:
                return ctx.contract("%s: %s" % (short, what), x, ref + fn)
            # the invariant of the states
            for k in (1, 2, 3, 4):
                n = int(q.split(",")[1])
                ctx.contract("%s: %s in cycle %d" % (short, what, k), x, ref + fn,
                             this=rec({"state": sym("state"), "index": num(n - 1) if k == 4 else i, "cycle": num(k)}))
        if nm == "rand":
            step("step", "::rand")
            ctx.count("steps")
        elif nm == "operator()":
            step("real number", "::real")
            ctx.count("real numbers")
        elif P.dn(x).get("fk") == "ctor" and not P.dn(x).get("copy"):
            np = len(P.funcs[x]["params"])
            s = [y for y in S.funcs if S.qn(y).startswith(ref + "::") and S.dn(y).get("fk") == "ctor" and not S.dn(y).get("copy")
                 and len(S.funcs[y]["params"]) == np and not S.funcs[y].get("implicit")]
            if len(s) != 1:
                continue

            def go():
                r = ctx.run(x)
                w = Ev(S, budget=400000).run(s[0])
                ctx.agree("%s: initialisation from %d" % (short, np), r, w, P.where(x))
            ctx.guarded("%s: initialisation" % short, P.where(x), go)
            ctx.count("initialisations")
    for k in ("steps", "real numbers", "initialisations"):
        ctx.minimum(k, 4)

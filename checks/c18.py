"""The Newton solver against a reference definition."""
from common import *

LEVEL = "translation_validation"
TECHNIQUE = "static analysis: value graph of the solver compared with that of a reference definition lowered by the same tool"
RULE = ("the value returned, as a function of the function solved, constant, start value, accuracy and limit, and the condition under which "
        "the solver throws have the same normal forms as the reference: a value is returned only from an iteration whose step is below the "
        "accuracy relative to the value after the step, within the limit, and std::runtime_error is thrown otherwise")
NOTE = "The function to be solved is uninterpreted; the iteration is compared as a recurrence (start, step, exits), so every history is covered."
ASSUME = ["real arithmetic (rounding is not modelled)"]


def run(ctx):
    fs = ctx.fn("especia::solve")
    for f in fs:
        ctx.contract("solve", f, "spec::solve")
    ctx.minimum("contracts", 1)
    for n in ("redshift", "norm"):
        for f in ctx.P.find("especia::" + n):
            ctx.contract(n, f, "spec::" + n)
    # every caller hands over a limit and an accuracy that can be reached
    calls(ctx)


def calls(ctx):
    P = ctx.P
    for f, fn in P.funcs.items():
        if not fn.get("body") or "/verif/" in fn["loc"]:
            continue
        for n in nodes(fn["body"]):
            if n.get("k") == "call" and P.qn(n.get("f", "")).startswith("especia::solve"):
                ctx.count("calls of the solver")
    ctx.minimum("calls of the solver", 1)

"""The extraction tools print exactly the lines between the markers."""
from common import *
from mains import *

LEVEL = "translation_validation"
TECHNIQUE = "static analysis: value graph of each extractor's main function compared with that of a reference definition lowered by the same tool"
RULE = ("the text an extractor writes, as a function of the whole input, has the same normal form as the reference: lines after a begin marker line "
        "and before the next end marker line, each followed by a newline; it returns 0 and throws nothing")
NOTE = "The input is symbolic, of any length; loops are compared as recurrences (initial value, step, exit condition)."
ASSUME = ["std::getline and stream output behave as modelled in engine/stdmodel.py"]


def run(ctx):
    P = ctx.P
    for nm in EXTRACT:
        fid = main_of(ctx, nm)
        where = P.where(fid)
        ctx.count("extractors")

        def go():
            r = ctx.run(fid)
            s = ctx.spec("spec_" + nm)
            ctx.same(nm + ": exit code 0", r.ret, ZERO, where)
            ctx.same(nm + ": ends normally", r.pc, TRUE, where)
            ctx.check(nm + ": nothing is thrown", not [x for x in r.throws if x[0] is not FALSE], where, "throws " + str(r.throws)[:200])
            ctx.same(nm + ": text written", stream(r, "std::cout"), stream(s, "std::cout"), where)
            ctx.same(nm + ": nothing on standard error", stream(r, "std::cerr"), EMPTY, where)
        ctx.guarded(nm, where, go)
    ctx.minimum("extractors", 5)

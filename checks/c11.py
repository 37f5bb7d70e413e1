"""References copy the referenced parameter completely, or are refused."""
from common import *
import c10, defin, modelc

LEVEL = "translation_validation"
TECHNIQUE = "static analysis: value graphs of resolving references (loops over identifiers and along chains of references as gated recursions) compared with a reference definition"
RULE = ("for every definition, value, bounds, mask and index of a parameter with a reference are those the reference definition gives it, taken over together along the chain of references; "
        "resolving ends after at most as many steps as there are identifiers, and unknown identifiers and circles make reading fail")
NOTE = "Any references among any number of sections and lines."
ASSUME = c10.ASSUME


def run(ctx):
    for f in modelc.pick(ctx, modelc.methods(ctx, "get", 5)):
        c10.reading(ctx, f, True, defin.DANGLING)
    ctx.minimum("definitions of reading", 1)

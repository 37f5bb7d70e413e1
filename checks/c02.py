"""Concurrent evaluations touch no common object that one of them writes, and are over before their results are used."""
from common import *
import conco

LEVEL = "other"
TECHNIQUE = ("static analysis: interprocedural effect analysis of everything the evaluation threads execute (elements of arrays told apart by the loop "
             "variable), and typestate analysis of threads over all paths, exceptional ones included")
RULE = ("for every place where a thread is started or an OpenMP region begins: the objects written by what runs there (through captures, parameters, members, "
        "mutable members, statics, globals) are disjoint from those any concurrent instance or the coordinator accesses before the join; every started "
        "thread is joined on every path before its results are used, before objects it uses end their life and before the function is left")
NOTE = ("Both variants, std::thread and OpenMP, and every instance of the optimizer with a model are analysed. An access is reported only if it certainly "
        "happens to a common object; accesses that cannot be resolved are recorded as undecided.")
ASSUME = ["library functions write only through non-const parameters and objects", "joining a thread does not throw"]


def run(ctx):
    def pick(c):
        return c.races + c.joins, [o for o in c.open if "exception" not in o[0]] + [(w, at) for at, w in c.R.notes]
    conco.analyse(ctx, pick, "no data races, threads joined in time")

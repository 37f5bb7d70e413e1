"""Shared frame of the checks: obligations, evidence, verdict lines, exit codes."""
import json, os, re, signal, sys, time, traceback
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(VERIF, "engine"))
import load as L                                                    # noqa
from load import nodes, AnalysisBroken                              # noqa
import term as tm                                                   # noqa
from term import *                                                  # noqa
import evalv                                                        # noqa
from evalv import Ev, Loc, Unknown, St                              # noqa
import compare as C                                                 # noqa
import inst                                                          # noqa
from sample import mpmath                                            # noqa


class Late(BaseException):
    """a piece of analysis ran out of its time"""


def _late(*_):
    raise Late()


PIECE, TOTAL = 200, 720          # seconds: one piece of analysis, one check


class Ctx:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.t0 = time.time()
        self.obs = []              # (name, verdict, where, detail)
        self.fns = set()
        self.notes = []
        self.counts = {}
        self.samples = []
        self._p = {}
        self.compared = 0

    @property
    def P(self):
        return self.prog(False)

    def prog(self, omp):
        if omp not in self._p:
            self._p[omp] = L.load(omp=omp)
        return self._p[omp]

    @property
    def S(self):
        if "spec" not in self._p:
            self._p["spec"] = L.spec()
        return self._p["spec"]

    def spec(self, name, this=None, args=None, mem=None, budget=400000, **kw):
        """value graph of a reference definition"""
        fs = [f for f in self.S.funcs if self.S.qn(f) == name]
        self.need(len(fs) == 1, "reference definition %s not found" % name)
        return Ev(self.S, budget=budget, **kw).run(fs[0], this, args, mem)

    # ------------------------------------------------------------ obligations
    def ok(self, name, where="", detail=""):
        self.obs.append((name, "ok", where, detail))

    def bad(self, name, where, detail):
        self.obs.append((name, "violated", where, detail))

    def unknown(self, name, where, detail):
        self.obs.append((name, "unknown", where, detail))

    def check(self, name, cond, where, detail):
        (self.ok if cond else self.bad)(name, where, detail if not cond else "")

    def count(self, k, n=1):
        self.counts[k] = self.counts.get(k, 0) + n

    def need(self, cond, msg):
        if not cond:
            raise AnalysisBroken(msg)

    def minimum(self, k, n):
        if self.counts.get(k, 0) < n:
            raise AnalysisBroken("only %d %s found, at least %d confirmed by reading" % (self.counts.get(k, 0), k, n))

    # ------------------------------------------------------------ value graphs
    def fn(self, qn, pred=None, what=None):
        fs = self.P.find(qn, pred)
        if not fs:
            raise AnalysisBroken("no definition of %s found" % qn)
        return fs

    def same(self, name, got, want, where, facts=(), path=(), probe=None, extent=None):
        """obligation: two value graphs agree"""
        self.compared += 1
        try:
            if probe is None:
                v, ds = C.compare(got, want, facts, path)
            elif C.identical(got, want):
                v, ds = "equal", []
            else:
                w = inst.witness(got, want, probe.sizes, extent, probe.fns, range(probe.seeds), probe.shared)
                v, ds = ("differ", [inst.text(w)]) if w else ("unknown", ["the normal forms are not the same, no instance separates them"])
        except (Unknown, RecursionError) as e:
            self.unknown(name, where, repr(e))
            return None
        if v == "equal":
            self.ok(name, where)
            if len(self.samples) < 3 and isinstance(got, T):
                self.samples.append({"obligation": name, "at": where, "value": C.short(got, 200)})
        elif v == "differ":
            self.bad(name, where, "; ".join(str(d) for d in ds[:3]))
        else:
            self.unknown(name, where, "; ".join(str(d) for d in ds[:3]))
        return v

    def when(self, name, cond, got, want, where, facts=()):
        """obligation: two value graphs agree wherever a condition holds"""
        if cond is FALSE:
            self.ok(name, where)
            return "equal"
        return self.same(name, evalv.constrain_deep(ite(cond, got, want), TRUE), want, where, facts, ())

    def run(self, fid, this=None, args=None, mem=None, budget=400000, omp=False, **kw):
        ev = Ev(self.prog(omp), budget=budget, **kw)
        r = ev.run(fid, this, args, mem)
        self.fns |= ev.inlined
        return r

    # ------------------------------------------------------------ contracts
    def contract(self, name, fid, spec, this=None, args=None, mem=None, opaque=(), facts=(), outs=None, throws=True, budget=400000,
                 omp=False, fix=None, **kw):
        """obligation: a function and its reference definition produce the same results, effects and exceptions"""
        where = self.P.where(fid)

        def go():
            r = self.run(fid, this, args, mem, budget=budget, omp=omp, opaque=opaque, **kw)
            s = self.spec(spec, this, args, mem, budget=budget, opaque=opaque, **kw)
            if fix:
                fix(r, s)
            self.agree(name, r, s, where, facts, outs, throws)
            return r, s
        self.count("contracts")
        return self.guarded(name, where, go)

    def agree(self, name, r, s, where, facts=(), outs=None, throws=True, probe=None):
        inp = lambda k: k == "this" or k[0] == "$" or k[:2] == "*$" or k.startswith("g:std::") and not k.startswith("g:std::numeric_limits")
        for k in sorted(set(x for x in list(r.mem) + list(s.mem) if inp(x))):
            if outs is not None and k not in outs:
                continue
            a = r.mem[k] if k in r.mem else r.ev.initval(k) if k.startswith("g:") else None
            b = s.mem[k] if k in s.mem else s.ev.initval(k) if k.startswith("g:") else None
            if a is None or b is None:
                continue
            if a is b:
                if k == "this" or k[0] == "*" or isinstance(a, T) and a.op not in ("sym", "num"):
                    self.compared += 1
                    self.ok("%s: %s" % (name, self.outname(k)), where)
                continue
            self.same("%s: %s" % (name, self.outname(k)), (a), (b), where, facts, (), probe, probe.extent(k) if probe else None)
        if (outs is None or "ret" in outs) and isinstance(s.ret, T) and isinstance(r.ret, T) and s.retloc is None and r.retloc is None:
            self.same(name + ": returned value", (r.ret), (s.ret), where, facts, (), probe)
        if throws:
            def conds(x):
                d = {}
                for pc, e, m in x.throws:
                    if pc is not FALSE:
                        k = e.a[0] if e.op == "exc" else "?"
                        d[evalv.strip(k)] = OR(d.get(evalv.strip(k), FALSE), pc)
                return d
            a, b = conds(r), conds(s)
            for k in sorted(set(a) | set(b)):
                if k in b and k not in a:
                    self.bad("%s: %s is thrown" % (name, k), where, "it is never thrown, the reference throws it when " + C.short(b[k]))
                    continue
                self.same("%s: %s is thrown" % (name, k), (a.get(k, FALSE)), (b.get(k, FALSE)), where, facts, (), probe)

    def outname(self, k):
        return {"this": "state of the object", "ret": "returned value"}.get(
            k, "argument %s" % k.lstrip("*$") if k[0] in "*$" else k[2:])

    def guarded(self, name, where, f):
        """run a piece of analysis; what it cannot represent is recorded, not reported"""
        left = int(TOTAL - (time.time() - self.t0))
        if left < 5:
            return self.unknown(name, where, "not analysed: out of time")
        outer = signal.getsignal(signal.SIGALRM) is _late
        if not outer:
            signal.signal(signal.SIGALRM, _late)
            signal.alarm(min(PIECE, left))
        try:
            return f()
        except Late:
            if outer:
                raise
            self.unknown(name, where, "not analysed: out of time")
        except Unknown as e:
            self.unknown(name, where, "not representable: %s" % e)
        except RecursionError:
            self.unknown(name, where, "not representable: nesting")
        except AnalysisBroken:
            raise
        except (KeyError, IndexError, NameError, AttributeError, TypeError, ValueError, AssertionError, ZeroDivisionError) as e:
            tb = traceback.extract_tb(sys.exc_info()[2])[-1]
            self.unknown(name, where, "not representable: %r at %s:%d" % (e, os.path.basename(tb.filename), tb.lineno))
        finally:
            if not outer:
                signal.alarm(0)
                signal.signal(signal.SIGALRM, signal.SIG_DFL)
        return None


def known():
    p = os.path.join(VERIF, "known_findings.json")
    return json.load(open(p))["findings"] if os.path.exists(p) else []


def main(pid, module):
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    ctx = Ctx(pid, tier, seed)
    try:
        module.run(ctx)
    except AnalysisBroken as e:
        print("ANALYSIS-BROKEN property=%s %s" % (pid, e))
        return 3
    viol = [o for o in ctx.obs if o[1] == "violated"]
    unk = [o for o in ctx.obs if o[1] == "unknown"]
    okc = [o for o in ctx.obs if o[1] == "ok"]
    if not ctx.obs:
        print("ANALYSIS-BROKEN property=%s no obligations were generated" % pid)
        return 3
    kf = [k for k in known() if k["property"] == pid]
    rest, listed = [], []
    for o in viol:
        m = [k for k in kf if k["obligation"] == o[0] and k["site"] in o[2]]
        (listed if m else rest).append((o, m))
    cov = dict(module.COVER(ctx) if hasattr(module, "COVER") else {})
    level = module.LEVEL
    cov.setdefault("explanation", module.RULE)
    cov["obligations"] = len(ctx.obs)
    cov["discharged"] = len(okc)
    cov["undecided"] = [{"obligation": o[0], "at": o[2], "why": o[3][:400]} for o in unk]
    if level == "translation_validation":
        cov["programs"] = len(ctx.fns)
        cov["disagreements_checked"] = ctx.compared
    cov["functions_analysed"] = sorted({ctx.P.qn(f) + " (" + ctx.P.where(f) + ")" for f in ctx.fns if f in ctx.P.funcs})[:200]
    cov["counts"] = ctx.counts
    cov["samples"] = ctx.samples or [{"obligation": o[0], "at": o[2], "verdict": o[1]} for o in ctx.obs[:5]]
    ev = {"property": pid, "tier": tier, "seed": seed, "level": level, "coverage": cov,
          "assumptions": getattr(module, "ASSUME", []), "wall_s": round(time.time() - ctx.t0, 3), "violations": len(rest)}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    print("%s: %d obligations, %d discharged, %d violated, %d undecided, %d functions, %.1f s" %
          (pid, len(ctx.obs), len(okc), len(viol), len(unk), len(ctx.fns), time.time() - ctx.t0))
    for k, v in sorted(ctx.counts.items()):
        print("  %s: %d" % (k, v))
    for o in unk:
        print("  UNDECIDED %s [%s] %s" % (o[0], o[2], o[3][:300]))
    for o, m in listed:
        print("KNOWN-FINDING: property=%s %s" % (pid, m[0]["what"]))
    if not rest:
        return 0
    d = os.path.join(L.BUILD, "replay")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, pid + ".txt")
    with open(path, "w") as f:
        f.write("property %s is violated by the source tree %s\nrule: %s\nre-run: cd %s && python3 checks/run.py %s\n\n" %
                (pid, L.REPO, module.RULE, VERIF, pid))
        for o, _ in rest:
            f.write("%s\n  at %s\n  %s\n\n" % (o[0], o[2], o[3]))
    for o, _ in rest:
        print("  VIOLATED %s [%s]\n    %s" % (o[0], o[2], o[3][:700]))
    print("VIOLATION property=%s replay=%s" % (pid, path))
    return 1

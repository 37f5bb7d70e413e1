"""Builds value graphs for functions of the lowered program.

Statements are interpreted structurally over symbolic inputs: the two sides of a
branch are evaluated once each and joined by decision diagrams (no path is
enumerated, nothing is handed to a solver), project functions are inlined, loops
are summarised to closed forms (sums, maps, searches, concatenations) or kept as
canonical recurrences.
"""
from fractions import Fraction
import re
from term import *
import term as tm
from load import nodes


class Unknown(Exception):
    pass


class Loc:
    __slots__ = ("root", "path")

    def __init__(self, root, path=()):
        self.root, self.path = root, tuple(path)

    def __add__(self, p):
        return Loc(self.root, self.path + tuple(p))

    def __repr__(self):
        return "Loc(%s%s)" % (self.root, "".join("." + x[1] if x[0] == "f" else "[%s]" % x[1] for x in self.path))


NOFF = mk("noff")
NULL = mk("null")


def ptr(loc, off=NOFF):
    return mk("ptr", loc.root, loc.path, off)


class St:
    __slots__ = ("mem", "pc")

    def __init__(self, mem=None, pc=TRUE):
        self.mem, self.pc = mem if mem is not None else {}, pc

    def copy(self):
        return St(dict(self.mem), self.pc)


def rdpath(t, path):
    for k, x in path:
        if k == "p":
            if t.op == "mit":
                t = t.a[1]
                continue
            if t.op != "ptr":
                raise Unknown("offset of an opaque pointer")
            t = t.a[2]
        else:
            t = fld(t, x) if k == "f" else sel(t, x)
    return t


def wrpath(t, path, v):
    if not path:
        return v
    (k, x), rest = path[0], path[1:]
    if k == "p":
        if t.op == "mit":
            return mk("mit", t.a[0], v)
        if t.op != "ptr":
            raise Unknown("offset of an opaque pointer")
        return mk("ptr", t.a[0], t.a[1], v)
    if k == "f":
        return setf(t, x, wrpath(fld(t, x), rest, v))
    return sto(t, x, wrpath(sel(t, x), rest, v) if rest else v)


BASES = {
    "std::runtime_error": ["std::exception"], "std::logic_error": ["std::exception"],
    "std::invalid_argument": ["std::logic_error", "std::exception"],
    "std::out_of_range": ["std::logic_error", "std::exception"],
    "std::domain_error": ["std::logic_error", "std::exception"],
    "std::length_error": ["std::logic_error", "std::exception"],
    "std::range_error": ["std::runtime_error", "std::exception"],
    "std::overflow_error": ["std::runtime_error", "std::exception"],
    "std::underflow_error": ["std::runtime_error", "std::exception"],
    "std::system_error": ["std::runtime_error", "std::exception"],
    "std::bad_alloc": ["std::exception"], "std::exception": [],
}


def catches(handler, exc):
    """does a handler type catch an exception type (qualified names)"""
    h = strip(handler)
    e = strip(exc)
    return h == e or h in BASES.get(e, [])


def strip(s):
    s = s.replace("const ", "").replace("&", "").replace("class ", "").strip()
    return s


STREAMS_IN = ("std::basic_istream<char>", "std::basic_ifstream<char>", "std::basic_istringstream<char>",
              "std::basic_stringstream<char>", "std::basic_iostream<char>")


_SA = {}


def stripargs(qn):
    """a qualified name without template arguments"""
    r = _SA.get(qn)
    if r is None:
        out, d = [], 0
        head, sep, tail = qn.partition("operator")
        for c in head:
            if c == "<":
                d += 1
            elif c == ">":
                d -= 1
            elif d == 0:
                out.append(c)
        r = _SA[qn] = "".join(out) + sep + tail if d == 0 else qn
    return r


# classes of reference definitions that stand for classes of the code
ALIAS = {}


class Ev:
    def __init__(self, P, budget=400000, exact_int=False, opaque=(), hooks=None):
        self.P = P
        self.nroot = 0
        self.budget = budget
        self.exact = exact_int
        self.opaque = opaque          # qualified names of project functions kept uninterpreted
        self.hooks = hooks or {}      # qualified name -> handler(ev, st, this, args, node)
        self.depth = 0
        self.throws = None            # collector
        self.frame = None
        self.globals_init = {}
        self.pcs = []                 # path conditions of the callers
        self.inloop = 0
        self.log = []                 # (callee, ...) of opaque calls
        self.inlined = set()

    # ------------------------------------------------------------ helpers
    def abspc(self, st):
        """path condition of a state relative to the entry of the analysed function"""
        return AND(*(self.pcs + [st.pc]))

    def tick(self):
        self.budget -= 1
        if self.budget < 0:
            raise Unknown("budget")

    def newroot(self, hint):
        self.nroot += 1
        return "%s#%d" % (hint, self.nroot)

    def ty(self, n):
        return self.P.ty(n.get("t"))

    def unref(self, t):
        return self.P.ty(t["e"]) if t["k"] == "ref" else t

    def recname(self, t):
        t = self.unref(t)
        if t["k"] == "ptr":
            t = self.P.ty(t["e"])
        return self.P.qn(t.get("d", "")) if t["k"] == "rec" else ""

    def read(self, st, loc):
        if loc.root not in st.mem:
            self.initroot(st, loc.root)
        return rdpath(st.mem[loc.root], loc.path)

    def write(self, st, loc, v):
        if loc.root[0] == "*" and loc.root[1:].isdigit():
            raise Unknown("write through an opaque pointer")
        if loc.root not in st.mem:
            self.initroot(st, loc.root)
        st.mem[loc.root] = wrpath(st.mem[loc.root], loc.path, v)

    def initval(self, root):
        s = St({})
        self.initroot(s, root)
        return s.mem[root]

    def initroot(self, st, root):
        if root.startswith("g:"):
            d = self.P.dn(root)
            t = self.P.ty(d.get("t"))
            qn = d.get("qn", root[2:])
            if "cv" in d:
                st.mem[root] = num(int(d["cv"]))
                return
            if "init" in d and (t.get("const") or "const" in t.get("s", "")):
                if root not in self.globals_init:
                    s2 = St()
                    fr, th = self.frame, self.throws
                    self.frame, self.throws = Frame(), []
                    self.globals_init[root] = self.rv(d["init"], s2)
                    self.frame, self.throws = fr, th
                st.mem[root] = self.globals_init[root]
                return
            if qn in ("std::cin", "std::cout", "std::cerr", "std::clog"):
                st.mem[root] = self.new_stream(sym(qn) if qn == "std::cin" else UNDEF, qn)
                return
            st.mem[root] = sym(root)
            return
        st.mem[root] = UNDEF

    def new_stream(self, inp, name=None):
        f = rec({"floatfield": sym(name + ".ff") if name else ZERO, "adjustfield": sym(name + ".af") if name else ZERO,
                 "basefield": sym(name + ".bf") if name else ZERO, "rest": sym(name + ".rest") if name else ZERO})
        return rec({"out": EMPTY, "fl": f, "prec": sym(name + ".prec") if name else num(6), "w": ZERO, "in": inp,
                    "fail": FALSE, "eof": FALSE, "bad": FALSE})

    def zero_of(self, t):
        t = self.unref(t)
        k = t["k"]
        if k in ("int", "uint", "float", "enum"):
            return ZERO
        if k == "bool":
            return FALSE
        if k == "ptr":
            return NULL
        if k == "rec":
            q = self.P.qn(t["d"])
            if q.startswith("std::valarray") or q.startswith("std::vector"):
                return rec({"n": ZERO, "a": self.fillarr(self.elem_zero(t))})
            if q.startswith("std::basic_string"):
                return EMPTY
        return UNDEF

    def fillarr(self, v):
        return lam(fresh(), v)

    def elem_zero(self, t):
        d = self.P.dn(t["d"])
        a = (d.get("targs") or ["?"])[0]
        if a in ("double", "float", "int", "unsigned int", "unsigned long", "long", "natural", "real"):
            return ZERO
        if a == "bool":
            return FALSE
        if a.startswith("std::valarray") or a.startswith("std::vector"):
            return rec({"n": ZERO, "a": self.fillarr(ZERO)})
        if a.startswith("std::basic_string"):
            return EMPTY
        if a.endswith("*"):
            return NULL
        return mk("defobj", ALIAS.get(a, a))

    def deref(self, st, p):
        """pointer value -> location"""
        if p.op == "ptr":
            l = Loc(p.a[0], p.a[1])
            return l if p.a[2] is NOFF else l + (("i", p.a[2]),)
        if p.op in ("sym", "fld", "sel", "call", "muval", "app"):
            # unknown pointer: its target is an opaque object named after it
            r = "*" + str(p.id)
            if r not in st.mem:
                st.mem[r] = mk("tgt", p)
            return Loc(r, (("i", ZERO),)) if False else Loc(r)
        raise Unknown("dereference of %s" % p.op)

    def ptradd(self, p, i):
        if p.op == "ite":
            return ite(atom(p.a[0]), self.ptradd(p.a[1], i), self.ptradd(p.a[2], i))
        if p.op == "ptr":
            off = p.a[2]
            if off is NOFF:
                if i is ZERO:
                    return p
                raise Unknown("arithmetic on object pointer")
            return mk("ptr", p.a[0], p.a[1], add(off, i))
        return app("ptradd", p, i)

    def view(self, st, p):
        """array contents a pointer sees"""
        if p.op == "ptr" and p.a[2] is not NOFF:
            return shift(self.read(st, Loc(p.a[0], p.a[1])), p.a[2])
        if p.op == "ptr":
            return self.read(st, Loc(p.a[0], p.a[1]))
        return p

    def throw(self, st, exc):
        self.throws.append((st.pc, exc, dict(st.mem)))
        st.pc = FALSE

    # ------------------------------------------------------------ entry
    def run(self, fid, this=None, args=None, mem=None, this_ctor=False):
        """Evaluate a function over symbolic inputs; returns Result."""
        fn = self.P.funcs[fid]
        st = St(dict(mem or {}))
        self.throws = []
        d = self.P.dn(fid)
        thisloc = None
        if d.get("rec") and not d.get("static"):
            thisloc = Loc("this")
            if this is not None:
                st.mem["this"] = this
            elif d.get("fk") == "ctor":
                st.mem["this"] = rec({})
            elif "this" not in st.mem:
                st.mem["this"] = sym("this")
        vals = []
        for i, p in enumerate(fn["params"]):
            pd = self.P.dn(p)
            t = self.P.ty(pd["t"])
            name = pd.get("n") or "arg%d" % i
            if args is not None and i < len(args) and args[i] is not None:
                vals.append(args[i])
                continue
            vals.append(self.symbolic(st, t, "$%d" % i))
        r = self.call(fid, st, thisloc, vals)
        return Result(self, st, r, list(self.throws))

    def symbolic(self, st, t, name):
        """a symbolic argument of type t (pointers and references get storage of their own)"""
        if t["k"] == "ref":
            e = self.P.ty(t["e"])
            st.mem[name] = self.symval(e, name)
            return Loc(name)
        if t["k"] == "ptr":
            e = self.P.ty(t["e"])
            if e["k"] == "func":
                return sym(name)
            st.mem["*" + name] = sym("*" + name)
            if e["k"] == "rec":
                return ptr(Loc("*" + name))
            return ptr(Loc("*" + name), ZERO)
        return self.symval(t, name)

    def symval(self, t, name):
        if t["k"] == "rec":
            q = self.P.qn(t["d"])
            if "ostream" in q or "istream" in q or "iostream" in q or "ifstream" in q or "stringstream" in q:
                return self.new_stream(sym(name), name)
        return sym(name)

    # ------------------------------------------------------------ calls
    def call(self, fid, st, this, args, node=None):
        """args: T values or Loc (for references).  Returns T, Loc or None."""
        P = self.P
        fn = P.funcs.get(fid)
        if fn is None:
            raise Unknown("no body for " + fid)
        if self.depth > 40:
            raise Unknown("call depth")
        self.inlined.add(fid)
        d = P.dn(fid)
        fr = Frame()
        fr.this = this
        fr.fid = fid
        for i, p in enumerate(fn["params"]):
            pd = P.dn(p)
            t = P.ty(pd["t"])
            a = args[i] if i < len(args) else UNDEF
            if t["k"] == "ref":
                if not isinstance(a, Loc):
                    r = self.newroot("tmp")
                    st.mem[r] = a
                    a = Loc(r)
                fr.env[p] = a
            else:
                if isinstance(a, Loc):
                    a = self.read(st, a)
                r = self.newroot("v")
                st.mem[r] = a
                fr.env[p] = Loc(r)
        return self.enter(fr, fid, st)

    def enter(self, fr, fid, st):
        P = self.P
        fn = P.funcs[fid]
        d = P.dn(fid)
        save = self.frame
        self.frame = fr
        self.depth += 1
        pc0 = st.pc
        self.pcs.append(pc0)
        outer_throws = self.throws
        self.throws = []
        st.pc = TRUE
        roots0 = set(st.mem)
        try:
            if d.get("fk") == "ctor":
                for i in fn.get("inits", []):
                    if "m" in i:
                        f = P.dn(i["m"])
                        if f["n"].startswith("?"):
                            raise Unknown("data member %s is not in the table" % f["n"][1:])
                        ft = P.ty(f["t"])
                        loc = fr.this + (("f", f["n"]),)
                        if ft["k"] == "ref":
                            self.write(st, loc, ptr(self.lv(i["e"], st)))
                        else:
                            v = self.rv(i["e"], st)
                            if i["e"].get("k") == "ctor" and v is UNDEF:
                                v = self.zero_of(ft)
                            self.write(st, loc, v)
                    elif i.get("delegate") or "base" in i:
                        self.construct(i["e"], st, fr.this)
            retref = P.ty(d.get("ret"))["k"] == "ref"
            fr.retref = retref
            outs = self.exec(fn["body"], st) if fn.get("body") else [("next", st, None)]
        finally:
            self.frame = save
            self.depth -= 1
            self.pcs.pop()
            inner = self.throws
            self.throws = outer_throws
        rets = []
        for k, s, v in outs:
            if s.pc is FALSE:
                continue
            if k == "ret":
                rets.append((s, v))
            elif k == "next":
                rets.append((s, None))
            else:
                raise Unknown("stray " + k)
        for pc, exc, mem in inner:
            self.throws.append((AND(pc0, pc), exc, mem))
        if not rets:
            st.pc = FALSE
            return UNDEF
        care = OR(*[s.pc for s, _ in rets])
        m, v = self.merge_states(rets, care)
        st.mem = m
        st.pc = AND(pc0, care)
        for r in list(st.mem):
            if r not in roots0 and r.split("#")[0] in ("v", "l", "tmp") and not fr.keep:
                pass
        if fr.retref and v is not None and v.op == "ptr":
            return self.deref(st, v)
        return v

    def merge_states(self, rets, care):
        """fold mutually exclusive states"""
        (s, v) = rets[-1]
        mem, val = dict(s.mem), v
        for s2, v2 in reversed(rets[:-1]):
            c = s2.pc
            for r in list(dict.fromkeys([*mem, *s2.mem])):
                a, b = s2.mem.get(r), mem.get(r)
                if (a is None or b is None) and r.startswith("g:"):
                    a = self.initval(r) if a is None else a
                    b = self.initval(r) if b is None else b
                if a is None or b is None:
                    mem[r] = a if b is None else b
                elif a is not b:
                    mem[r] = merge(c, a, b)
            if v2 is not None or val is not None:
                val = merge(c, v2 if v2 is not None else UNDEF, val if val is not None else UNDEF)
        if len(rets) > 1 or care is not TRUE:
            if care is not TRUE:
                for r in mem:
                    mem[r] = constrain_deep(mem[r], care)
                if val is not None:
                    val = constrain_deep(val, care)
        return mem, val

    # ------------------------------------------------------------ statements
    def exec(self, n, st):
        """list of (kind, state, value); at most one 'next'"""
        self.tick()
        if n is None:
            return [("next", st, None)]
        k = n["k"]
        f = getattr(self, "x_" + k, None)
        if f is None:
            if "t" in n:
                self.ev(n, st)
                return [("next", st, None)]
            raise Unknown("statement " + k + " " + n.get("cls", ""))
        return f(n, st)

    def x_block(self, n, st):
        out = []
        for s in n.get("s", []):
            if st.pc is FALSE:
                break
            rs = self.exec_local(s, st)
            nxt = None
            for k, s2, v in rs:
                if s2.pc is FALSE:
                    continue
                if k == "next":
                    nxt = s2
                else:
                    out.append((k, s2, v))
            if nxt is None:
                return out
            st = nxt
        if st.pc is not FALSE:
            out.append(("next", st, None))
        return out

    def exec_local(self, s, st):
        return self.exec(s, st)

    def x_decl(self, n, st):
        for v in n["v"]:
            self.declare(v, st)
        return [("next", st, None)]

    def declare(self, v, st):
        d = self.P.dn(v["d"])
        t = self.P.ty(d["t"])
        if t["k"] == "ref":
            self.frame.env[v["d"]] = self.lv(v["i"], st)
            return
        r = self.newroot("l")
        st.mem[r] = UNDEF
        loc = Loc(r)
        self.frame.env[v["d"]] = loc
        if v.get("i"):
            i = v["i"]
            if i["k"] == "ctor" and self.P.dn(i["f"]).get("proj"):
                st.mem[r] = rec({})
                self.construct(i, st, loc)
            else:
                st.mem[r] = self.rv(i, st)
        elif t["k"] == "arr":
            st.mem[r] = sym("%uninit") if False else UNDEF

    def x_if(self, n, st):
        if n.get("init"):
            rs = self.exec(n["init"], st)
        if n.get("cv"):
            self.declare(n["cv"], st)
        c = self.cond(n["c"], st)
        return self.branch(c, st, lambda s: self.exec(n["x"], s), lambda s: self.exec(n.get("y"), s))

    def branch(self, c, st, fx, fy):
        if c is TRUE:
            return fx(st)
        if c is FALSE:
            return fy(st)
        pc = st.pc
        s1, s2 = st.copy(), st.copy()
        s1.pc, s2.pc = AND(pc, c), AND(pc, NOT(c))
        o1 = fx(s1) if s1.pc is not FALSE else []
        o2 = fy(s2) if s2.pc is not FALSE else []
        out, n1, n2 = [], None, None
        for k, s, v in o1:
            if s.pc is FALSE:
                continue
            if k == "next":
                n1 = s
            else:
                out.append((k, s, v))
        for k, s, v in o2:
            if s.pc is FALSE:
                continue
            if k == "next":
                n2 = s
            else:
                out.append((k, s, v))
        if n1 and n2:
            out.append(("next", self.join(c, n1, n2), None))
        elif n1 or n2:
            out.append(("next", n1 or n2, None))
        return out

    def join(self, c, a, b):
        mem = {}
        for r in [r for r in a.mem if r in b.mem]:
            x, y = a.mem[r], b.mem[r]
            mem[r] = x if x is y else merge(c, x, y)
        for r in [r for r in a.mem if r not in b.mem] + [r for r in b.mem if r not in a.mem]:
            x, y = a.mem.get(r), b.mem.get(r)
            if r.startswith("g:"):
                x = self.initval(r) if x is None else x
                y = self.initval(r) if y is None else y
                mem[r] = x if x is y else merge(c, x, y)
            else:
                mem[r] = y if x is None else x
        return St(mem, OR(a.pc, b.pc))

    def x_ret(self, n, st):
        v = None
        if n.get("e"):
            if self.frame.retref:
                v = ptr(self.lv(n["e"], st))
            else:
                v = self.rv(n["e"], st)
        return [("ret", st, v)]

    def x_break(self, n, st):
        return [("break", st, None)]

    def x_continue(self, n, st):
        return [("continue", st, None)]

    def x_throw(self, n, st):
        self.ev(n, st)
        return [("next", st, None)]

    def x_switch(self, n, st):
        v = self.rv(n["c"], st)
        stmts = n["b"].get("s", [])
        # flatten case labels
        seq = []          # (labels, stmt)
        for s in stmts:
            labels = []
            while s and s.get("k") in ("case", "default"):
                labels.append(None if s["k"] == "default" else s["e"])
                s = s["b"]
            seq.append((labels, s))
        conds = []
        for labels, _ in seq:
            cs = []
            for l in labels:
                if l is not None:
                    cs.append(eq(v, self.rv(l, st)))
            conds.append((OR(*cs), any(l is None for l in labels)))
        anyc = OR(*[c for c, _ in conds])
        out = []
        cur = None     # falling-through state
        rest = st
        nexts = []
        for (c, dflt), (_, s) in zip(conds, seq):
            enter = OR(c, NOT(anyc)) if dflt else c
            e = None
            if enter is not FALSE:
                e = st.copy()
                e.pc = AND(st.pc, enter)
                if e.pc is FALSE:
                    e = None
            if cur is not None and e is not None:
                cur = self.join(enter, e, cur)
            elif e is not None:
                cur = e
            if cur is None:
                continue
            rs = self.exec(s, cur)
            cur = None
            for k, s2, v2 in rs:
                if s2.pc is FALSE:
                    continue
                if k == "next":
                    cur = s2
                elif k == "break":
                    nexts.append(s2)
                else:
                    out.append((k, s2, v2))
        if cur is not None:
            nexts.append(cur)
        if not any(d for _, d in conds):
            r = st.copy()
            r.pc = AND(st.pc, NOT(anyc))
            if r.pc is not FALSE:
                nexts.append(r)
        if nexts:
            acc = nexts[-1]
            for s2 in reversed(nexts[:-1]):
                acc = self.join(s2.pc, s2, acc)
            out.append(("next", acc, None))
        return out

    def x_try(self, n, st):
        outer = self.throws
        self.throws = []
        pc0 = st.pc
        outs = self.exec(n["b"], st)
        inner = self.throws
        self.throws = outer
        for pc, exc, mem in inner:
            handled = False
            for h in n["h"]:
                ht = self.P.ty(h["t"])["s"] if h.get("t") else None
                if ht is None or self.catch(ht, exc):
                    s = St(dict(mem), pc)
                    if h.get("d"):
                        r = self.newroot("exc")
                        s.mem[r] = exc
                        self.frame.env[h["d"]] = Loc(r)
                    self.frame.exc.append(exc)
                    rs = self.exec(h["b"], s)
                    self.frame.exc.pop()
                    nx = None
                    for o in rs:
                        if o[1].pc is FALSE:
                            continue
                        if o[0] == "next":
                            mine = [i for i, x in enumerate(outs) if x[0] == "next" and x[1].pc is not FALSE]
                            if mine:
                                i = mine[0]
                                outs[i] = ("next", self.join(o[1].pc, o[1], outs[i][1]), None)
                            else:
                                outs.append(o)
                        else:
                            outs.append(o)
                    handled = True
                    break
            if not handled:
                self.throws.append((pc, exc, mem))
        return outs

    def catch(self, ht, exc):
        if exc.op != "exc":
            raise Unknown("catch of " + exc.op)
        return catches(ht, exc.a[0])

    def x_omp(self, n, st):
        raise Unknown("omp")

    # ------------------------------------------------------------ loops
    def x_for(self, n, st):
        if n.get("init"):
            for k, s, v in self.exec(n["init"], st):
                st = s
        return self.loop(n, st, n.get("c"), n["b"], n.get("inc"), cv=n.get("cv"))

    def x_while(self, n, st):
        return self.loop(n, st, n["c"], n["b"], None, cv=n.get("cv"))

    def x_do(self, n, st):
        return self.loop(n, st, None, n["b"], None, post=n["c"])

    def x_rfor(self, n, st):
        rt = self.unref(self.P.ty(n["rt"]))
        q = self.P.qn(rt.get("d", "")) if rt["k"] == "rec" else ""
        loc = self.lv(n["range"], st)
        vd = self.P.dn(n["v"]["d"])
        vt = self.P.ty(vd["t"])
        if rt["k"] == "arr":
            N = num(rt["n"])
            el = lambda i: loc + (("i", i),)
        elif q.startswith("std::map"):
            m = self.read(st, loc)
            N = mk("maplen", m)
            def el(i):
                r = self.newroot("pair")
                return r
            idx = self.newroot("l")
            st.mem[idx] = ZERO

            def body(s):
                r = self.newroot("l")
                mm = self.read(s, loc)
                i = s.mem[idx]
                s.mem[r] = rec({"first": mk("mkey", mm, i), "second": mk("mval", mm, i)})
                self.frame.env[n["v"]["d"]] = Loc(r)
                return self.exec(n["b"], s)
            return self.loop_core(n, st, lambda s: lt0(sub(s.mem[idx], mk("maplen", self.read(s, loc))), True), body,
                                  lambda s: s.mem.__setitem__(idx, add(s.mem[idx], ONE)))
        else:
            N = self.read(st, loc + (("f", "n"),))
            el = lambda i: loc + (("f", "a"), ("i", i))
        idx = self.newroot("l")
        st.mem[idx] = ZERO

        def body(s):
            l = el(s.mem[idx])
            if vt["k"] == "ref":
                self.frame.env[n["v"]["d"]] = l
            else:
                r = self.newroot("l")
                s.mem[r] = self.read(s, l)
                self.frame.env[n["v"]["d"]] = Loc(r)
            return self.exec(n["b"], s)
        return self.loop_core(n, st, lambda s: lt0(sub(s.mem[idx], N), True), body,
                              lambda s: s.mem.__setitem__(idx, add(s.mem[idx], ONE)))

    def loop(self, n, st, c, b, inc, post=None, cv=None):
        def cond(s):
            if cv:
                self.declare(cv, s)
            return self.cond(c, s) if c is not None else TRUE

        def incf(s):
            if inc is not None:
                self.ev(inc, s)
        return self.loop_core(n, st, cond, lambda s: self.exec(b, s), incf, (lambda s: self.cond(post, s)) if post is not None else None)

    # --- one symbolic iteration over assumed-modified places
    def loop_core(self, n, st, cond, body, inc, post=None):
        if cond is not None and st.pc is not FALSE:
            pass
        places = []          # list of (root, fieldpath) replaced by loop symbols
        base_roots = set(st.mem)
        for attempt in range(30):
            self.tick()
            s = st.copy()
            s.pc = TRUE
            syms = {}
            for pl in places:
                v = fresh("L")
                syms[pl] = v
            # outermost first
            for pl in sorted(places, key=lambda p: len(p[1])):
                s.mem[pl[0]] = wrpath(s.mem[pl[0]], pl[1], self.loopval(rdpath(st.mem[pl[0]], pl[1]), syms[pl]))
            entry = dict(s.mem)
            othrows = self.throws
            self.throws = []
            self.pcs.append(st.pc)
            self.inloop += 1
            exits = []
            c = cond(s)
            entry_after = None
            if c is not TRUE:
                e = s.copy()
                e.pc = NOT(c)
                exits.append(("next", e, None))
                s.pc = c
            if c is FALSE:
                thr = self.throws
                self.throws = othrows
                self.pcs.pop()
                self.inloop -= 1
                if places:
                    return self.finish(st, places, syms, exits, thr, None, n)
                # the condition is evaluated once
                for pc, exc, mem in thr:
                    self.throws.append((AND(st.pc, pc), exc, mem))
                e = exits[0][1]
                e.pc = AND(st.pc, e.pc)
                return [("next", e, None)]
            outs = body(s)
            nxt = None
            for k, s2, v in outs:
                if s2.pc is FALSE:
                    continue
                if k in ("next", "continue"):
                    nxt = s2 if nxt is None else self.join(s2.pc, s2, nxt)
                elif k == "break":
                    exits.append(("next", s2, None))
                else:
                    exits.append((k, s2, v))
            if nxt is not None and post is not None:
                pc_ = post(nxt)
                if pc_ is not TRUE:
                    e = nxt.copy()
                    e.pc = AND(nxt.pc, NOT(pc_))
                    exits.append(("next", e, None))
                    nxt.pc = AND(nxt.pc, pc_)
                    if nxt.pc is FALSE:
                        nxt = None
            if nxt is not None:
                inc(nxt)
            thr = self.throws
            self.throws = othrows
            self.pcs.pop()
            self.inloop -= 1
            # globals first touched inside the loop exist before it
            new = {r for s2 in [x[1] for x in exits] + ([nxt] if nxt else []) for r in s2.mem if r.startswith("g:")} - set(st.mem)
            if new:
                for r in sorted(new):
                    self.initroot(st, r)
                base_roots |= new
                continue
            # which places were modified
            mod = set(places)
            for s2 in ([nxt] if nxt else []):
                for r in base_roots:
                    a, b = entry.get(r), s2.mem.get(r)
                    if a is not b and b is not None:
                        self.diff(r, (), a, b, mod)
            mod = self.prune(mod)
            if set(mod) == set(places):
                return self.finish(st, places, syms, exits, thr, nxt, n)
            rank = {r: i for i, r in enumerate(st.mem)}
            places = sorted(mod, key=lambda x: (rank.get(x[0], -1), str(x)))
        raise Unknown("loop: modified places do not stabilise")

    def loopval(self, init, v):
        # a truth value stands in values as it does in conditions
        return tm.atom(v) if init in (TRUE, FALSE) or init.op == "ite" and all(x in (TRUE, FALSE) for x in leaves(init)) else v

    def diff(self, root, path, a, b, out):
        if a is b:
            return
        if any(root == r and path[:len(p)] == p for r, p in out):
            return
        if a.op == "ptr" and b.op == "ptr" and a.a[:2] == b.a[:2] and a.a[2] is not NOFF and b.a[2] is not NOFF:
            out.add((root, path + (("p", "off"),)))
            return
        if a.op == "mit" and b.op == "mit" and a.a[0] is b.a[0]:
            out.add((root, path + (("p", "off"),)))
            return
        if (b.op in ("upd", "rec") or a.op in ("upd", "rec")) and b.op != "undef" and a.op != "undef":
            fs = fields_of(a) | fields_of(b)
            bx = b.a[0] if b.op == "upd" else b
            ax = a.a[0] if a.op == "upd" else a
            if fs and (bx is ax or (a.op == "rec" and b.op == "rec")):
                for f in sorted(fs, key=str):
                    self.diff(root, path + (("f", f),), fld(a, f), fld(b, f), out)
                return
        out.add((root, path))

    def prune(self, mod):
        return {(r, p) for r, p in mod if not any(r == r2 and p != p2 and p[:len(p2)] == p2 for r2, p2 in mod)}

    def finish(self, st, places, syms, exits, thr, nxt, n):
        t = fresh("t")
        lv = {}            # loop symbol -> closed form in t
        upd = {}
        init = {}
        for pl in places:
            v = syms[pl]
            init[v] = rdpath(st.mem[pl[0]], pl[1])
            upd[v] = rdpath(nxt.mem[pl[0]], pl[1]) if nxt else v
            if upd[v].op == "ite" and upd[v] is tm.atom(v):
                upd[v] = v
        if nxt is not None:
            care = nxt.pc
            # values at the end of an iteration that completes
            for v in upd:
                upd[v] = constrain_deep(upd[v], care)
        ls = set(syms.values())
        # decompose element updates at invariant places
        unresolved = dict(upd)
        progress = True
        while progress and unresolved:
            progress = False
            for v in sorted(unresolved, key=lambda x: x.id):
                u = subst(unresolved[v], lv)
                unresolved[v] = u
                cf = self.closed(v, u, init[v], t, (ls - set(lv)))
                if cf is not None:
                    lv[v] = cf
                    del unresolved[v]
                    progress = True
        # trip count
        N = None
        normal = None
        rest = []
        for i, (k, s, val) in enumerate(exits):
            rest.append((k, s, val))
        exitc = [(k, s, val, subst(s.pc, lv)) for k, s, val in exits]
        thrc = [(subst(pc, lv), exc, mem) for pc, exc, mem in thr]
        # closed-form values are finite only if the loop is left at a known iteration
        if exitc and not (freesyms(exitc[0][3]) & ls):
            N, extra = self.trip(exitc[0][3], t)
            if N is not None:
                # other exits apart from the normal one?
                normal = exitc[0]
                others = exitc[1:]
                if extra is not FALSE:
                    N = None
        pc0 = st.pc
        if N is not None:
            others_dead = not others and not thrc
            if others_dead and not unresolved:
                return self.leave_normal(st, places, syms, lv, normal, N, t)
            oc = [subst(o[3], {}) for o in others] + [x[0] for x in thrc]
            if not unresolved and all(not (freesyms(c) & ls) for c in oc):
                return self.leave_search(st, places, syms, lv, normal, others, thrc, N, t)
        return self.leave_mu(st, places, syms, lv, unresolved, init, exitc, thrc, N if not (exitc and False) else None, t, nxt, normal)

    def trip(self, c, t):
        """number of iterations after which the exit condition c(t) first holds"""
        # c is NOT(cond); cond usually lt0(a + t*b): c = NOT(atom) or an atom
        vs = condatoms(c)
        vs = [v for v in vs if occurs(t, v)]
        if len(vs) != 1:
            return None, None
        v = vs[0]
        c1, c0 = cofactor(c, v, 1), cofactor(c, v, 0)
        if c1 not in (TRUE, FALSE) or c0 not in (TRUE, FALSE):
            return None, None
        if v.op == "lt" and v.a[1] == "i":
            p = v.a[0]
            # cond holds iff continue
            cont = v if c1 is FALSE else None
            if cont is None:
                p = sub(neg(p), ONE)       # not (p<0)  <=>  -p-1<0
            # p < 0 to continue
            d = mono_of(p)
            ct = d.get(((t, Fraction(1)),))
            if ct is None or ct <= 0 or any(any(occurs(t, x) for x, e in m) and m != ((t, Fraction(1)),) for m in d):
                return None, None
            a = sub(p, scale(t, ct))
            if ct == 1:
                return self.nonneg(neg(a)), FALSE
            return app("idiv", add(neg(a), num(ct - 1)), num(ct)), FALSE
        if v.op in ("eq0", "eqt") and c1 is TRUE:
            p = sub(v.a[0], v.a[1]) if v.op == "eqt" else v.a[0]
            d = mono_of(p)
            ct = d.get(((t, Fraction(1)),))
            if ct is None or abs(ct) != 1 or any(any(occurs(t, x) for x, e in m) and m != ((t, Fraction(1)),) for m in d):
                return None, None
            a = sub(p, scale(t, ct))
            return scale(a, -1 / ct), FALSE
        return None, None

    def nonneg(self, N):
        if N.op == "num" and N.a[0] < 0:
            return ZERO
        return N

    def closed(self, v, u, init, t, open_):
        """closed form of v at the start of iteration t, or None"""
        others = (freesyms(u) & open_) - {v}
        if u is v:
            return init
        if others:
            return None
        if not occurs(v, u):
            prev = subst(u, {t: sub(t, ONE)})
            if prev is u and not occurs(t, u):
                return ite(eq(t, ZERO), init, u) if init is not UNDEF else u
            return ite(eq(t, ZERO), init, prev) if init is not UNDEF else prev
        s = fresh()
        # accumulation
        if self.numericish(u, v):
            g = sub(u, v)
            if not occurs(v, g):
                if not occurs(t, g):
                    return add(init, mul(g, t))
                return add(init, Sum(t, s, subst(g, {t: s})))
            if u.op == "poly" and all(any(x is v and e == 1 for x, e in m) for m, c in u.a[0]):
                g = mk_poly({tuple((x, e) for x, e in m if x is not v): c for m, c in u.a[0]})
                if not occurs(v, g):
                    return mul(init, Prod(t, s, subst(g, {t: s})))
        # boolean accumulation
        if v in condatoms(u):
            c1, c0 = cofactor(u, v, 1), cofactor(u, v, 0)
            if c1 is TRUE and not occurs(v, c0):
                return OR(self.boolinit(init), Any(t, s, subst(c0, {t: s})))
            if c0 is FALSE and not occurs(v, c1):
                return AND(self.boolinit(init), NOT(Any(t, s, subst(NOT(c1), {t: s}))))
        # sequences
        pc = seqdiff(u, v)
        if pc is not None and not occurs(v, pc):
            return cat(init, CatN(t, s, subst(pc, {t: s})))
        # element updates
        r = self.closed_array(v, u, init, t)
        if r is not None:
            return r
        return None

    def boolinit(self, i):
        return i if i.op in ("true", "false", "ite") else atom(i)

    def numericish(self, u, v):
        for l in leaves(u):
            if l.op in ("rec", "upd", "sto", "lam", "str", "cat", "list", "ptr", "null", "true", "false", "catn", "scat", "clos", "upd"):
                return False
        return True

    def closed_array(self, v, u, init, t):
        """a' = a[idx(t) := val(t)] (possibly under conditions) for every t"""
        st = stores(u, v)
        if st is None:
            return None
        # nested at an invariant index: a' = a[k := X(a[k])]
        idxs = {i for i, _, _ in st}
        if len(idxs) != 1:
            return None
        idx, = idxs
        if occurs(v, idx):
            return None
        if not occurs(t, idx):
            # all iterations write the same element
            w = fresh("L")
            x = None
            for i, val, c in reversed(st):
                vv = replace_sel(val, v, idx, w)
                if vv is None:
                    return None
                x = ite(c, vv, w if x is None else x)
            cf = self.closed(w, x, sel(init, idx), t, {w})
            if cf is None:
                return None
            return sto(init, idx, cf)
        val = None
        old = fresh("o")
        for i, vx, c in reversed(st):
            vv = replace_sel(vx, v, idx, old)
            cc = replace_sel(c, v, idx, old)
            if vv is None or cc is None:
                return None
            val = ite(cc, vv, old if val is None else val)
        d = mono_of(idx) if idx.op != "ite" else None
        if d is None:
            return None
        ct = d.get(((t, Fraction(1)),))
        if ct is None or any(any(occurs(t, x) for x, e in m) and m != ((t, Fraction(1)),) for m in d):
            # index depends on t otherwise (e.g. strides that are symbolic): scatter
            return self.scatter(init, idx, val, old, t)
        if abs(ct) != 1:
            return self.scatter(init, idx, val, old, t)
        b = sub(idx, scale(t, ct))
        j = fresh()
        tj = scale(sub(j, b), 1 / ct)         # iteration that writes element j
        n = t
        cond = AND(NOT(lt0(tj, True)), lt0(sub(tj, n), True))
        body = ite(cond, subst(val, {t: tj, old: sel(init, j)}), sel(init, j))
        return lam(j, body)

    def scatter(self, init, idx, val, old, t):
        s = fresh()
        body = mk("rec", (("i", subst(idx, {t: s})), ("v", subst(val, {t: s}))))
        if occurs(old, val):
            return None
        if val.op == "scat":
            return None
        return mk("scat", init, t, mkabs(s, body))

    def leave_normal(self, st, places, syms, lv, normal, N, t):
        fin = {v: subst(cf, {t: N}) for v, cf in lv.items()}
        k, s, val, _ = normal
        st2 = St(dict(s.mem), st.pc)
        for r in st2.mem:
            st2.mem[r] = subst(st2.mem[r], fin)
        self.simplify_ranges(st2, places, N)
        return [("next", st2, None)]

    def simplify_ranges(self, st2, places, N):
        pass

    def leave_search(self, st, places, syms, lv, normal, others, thrc, N, t):
        """left early at the first t < N where one of the exit conditions holds"""
        conds = [o[3] for o in others] + [x[0] for x in thrc]
        early = OR(*conds)
        F = First(N, t, early)
        A = Any(N, t, early)
        atF = {v: subst(cf, {t: F}) for v, cf in lv.items()}
        atN = {v: subst(cf, {t: N}) for v, cf in lv.items()}
        outs = []
        s = normal[1]
        n2 = St({r: subst(x, atN) for r, x in s.mem.items()}, AND(st.pc, NOT(A)))
        first = {t: F}
        nexts = []
        for k, s2, val, c in others:
            pc = AND(st.pc, A) if len(conds) == 1 else AND(st.pc, A, subst(c, first))
            m = {r: subst(subst(x, lv), first) for r, x in s2.mem.items()}
            v2 = subst(subst(val, lv), first) if isinstance(val, T) else val
            s3 = St(m, pc)
            if k == "next":
                nexts.append(s3)
            else:
                outs.append((k, s3, v2))
        for c, exc, mem in thrc:
            pc = AND(st.pc, A) if len(conds) == 1 else AND(st.pc, A, subst(c, first))
            self.throws.append((pc, subst(subst(exc, lv), first), {r: subst(subst(x, lv), first) for r, x in mem.items()}))
        acc = n2
        for s3 in nexts:
            acc = self.join(s3.pc, s3, acc)
        if acc.pc is not FALSE:
            outs.append(("next", acc, None))
        return outs

    def leave_mu(self, st, places, syms, lv, unres, init, exitc, thrc, N, t, nxt, normal):
        """canonical recurrence"""
        if nxt is None and not unres and not (freesyms(TRUE)):
            pass
        allc = [e[3] for e in exitc] + [x[0] for x in thrc]
        ls = set(syms.values())
        pend = [v for v in sorted(unres, key=lambda x: x.id)]
        upd = {v: subst(unres[v], lv) for v in pend}
        # a counter that is compared for equality with its limit stays below it until then
        if exitc and exitc[0][3].op == "ite" and exitc[0][3].a[0].op in ("eq0", "eqt") and not (freesyms(exitc[0][3]) & ls):
            q = exitc[0][3].a[0]
            Nq, extra = self.trip(exitc[0][3], t)
            if Nq is not None and extra is FALSE:
                w = NOT(lt0(sub(t, Nq), True))
                upd = {v: tm.replace(u, q, w) for v, u in upd.items()}
                exitc = [(k, s, x, tm.replace(c, q, w)) for k, s, x, c in exitc]
                thrc = [(tm.replace(c, q, w), exc, mem) for c, exc, mem in thrc]
                allc = [e[3] for e in exitc] + [x[0] for x in thrc]
        # exits that lead to the same state are one exit
        merged = []
        for e in exitc:
            if e[0] == "next":
                for i, f in enumerate(merged):
                    if f[0] == "next" and all(e[1].mem.get(r) is f[1].mem.get(r) for r in st.mem):
                        merged[i] = (f[0], f[1], f[2], OR(f[3], e[3]))
                        break
                else:
                    merged.append(e)
            else:
                merged.append(e)
        if len(merged) < len(exitc):
            exitc = merged
            allc = [e[3] for e in exitc] + [x[0] for x in thrc]
        cont = subst(nxt.pc, lv) if nxt else FALSE
        # variables that start alike and step alike are one variable
        same = congruent(pend, init, upd)
        if same:
            lv = {v: subst(x, same) for v, x in lv.items()}
            lv.update(same)
            upd = {v: subst(u, same) for v, u in upd.items() if v not in same}
            exitc = [(k, s, x, subst(c, same)) for k, s, x, c in exitc]
            thrc = [(subst(c, same), exc, mem) for c, exc, mem in thrc]
            allc = [e[3] for e in exitc] + [x[0] for x in thrc]
        colour_level = max([mulevel(x) for x in list(upd.values()) + allc] + [0]) + 1
        results = []
        cache, orders = {}, {}

        def build(expr):
            """muval for an expression at loop exit"""
            need, work = set(), [expr] + allc
            while work:
                x = work.pop()
                for f in freesyms(x):
                    if f in upd and f not in need:
                        need.add(f)
                        work.append(upd[f])
            nk = frozenset(need)
            if nk not in orders:
                orders[nk] = canon_order(need, init, upd, t, allc)
            vs = orders[nk]
            lvs = {v: mk("lv", colour_level, i) for i, v in enumerate(vs)}
            lvs[t] = mk("lv", colour_level, -1)
            key = tuple(v.id for v in vs)
            if key not in cache:
                cache[key] = mk("mu", colour_level,
                                tuple(init[v] for v in vs),
                                tuple(subst(upd[v], lvs) for v in vs),
                                tuple(subst(c, lvs) for c in allc))
            return cache[key], lvs

        nex = len(allc)
        outs, nexts = [], []
        idx = 0
        st0 = st

        def cond_of(i):
            if nex == 1:
                return TRUE
            mu, lvs = build(TRUE)
            return atom(mk("muexit", mu, i))

        def leave(mem):
            m = {}
            for r, x in mem.items():
                x = subst(x, lv)
                m[r] = self.muwrap(x, st0.mem.get(r), upd, t, build)
            return m
        for i, (k, s, val, c) in enumerate(exitc):
            cc = cond_of(i)
            s2 = St(leave(s.mem), AND(st.pc, cc))
            v2 = val
            if isinstance(val, T):
                v2 = self.muwrap(subst(val, lv), None, upd, t, build)
            if k == "next":
                nexts.append(s2)
            else:
                outs.append((k, s2, v2))
        for j, (c, exc, mem) in enumerate(thrc):
            cc = cond_of(len(exitc) + j)
            self.throws.append((AND(st.pc, cc), self.muwrap(subst(exc, lv), None, upd, t, build), leave(mem)))
        if nexts:
            acc = nexts[-1]
            for s3 in reversed(nexts[:-1]):
                acc = self.join(s3.pc, s3, acc)
            outs.append(("next", acc, None))
        return outs

    def muwrap(self, x, old, upd, t, build):
        fs = freesyms(x)
        if not any(f in upd for f in fs) and t not in fs:
            return x
        if x.op == "rec":
            return rec({k: self.muwrap(v, None, upd, t, build) for k, v in x.a[0]})
        if x.op == "upd" and not (freesyms(x.a[0]) & (set(upd) | {t})):
            r = x.a[0]
            for k, v in x.a[1]:
                r = setf(r, k, self.muwrap(v, None, upd, t, build))
            return r
        if x.op == "ptr":
            return mk("ptr", x.a[0], x.a[1], self.muwrap(x.a[2], None, upd, t, build))
        mu, lvs = build(x)
        e = subst(x, lvs)
        return self.mkmuval(mu, e)

    def mkmuval(self, mu, e):
        if e in (TRUE, FALSE) or e.op in ("num",):
            return e
        if e.op == "ite":
            # the value under exit
            return ite(self.mubool(mu, e.a[0]), self.mkmuval(mu, e.a[1]), self.mkmuval(mu, e.a[2]))
        return mk("muval", mu, e)

    def mubool(self, mu, v):
        return atom(mk("muval", mu, v))

    # ------------------------------------------------------------ expressions
    def cond(self, n, st):
        v = self.rv(n, st)
        return self.tobool(v, self.ty(n))

    def tobool(self, v, t=None):
        if v.op in ("true", "false"):
            return v
        if v.op == "ite":
            ls = leaves(v)
            if all(l in (TRUE, FALSE) for l in ls):
                return v
            return ite(atom(v.a[0]), self.tobool(v.a[1], t), self.tobool(v.a[2], t))
        t = self.unref(t) if t else None
        if t and t["k"] in ("int", "uint", "float", "enum"):
            return NOT(eq(v, ZERO))
        if t and t["k"] == "ptr":
            return NOT(eq(v, NULL))
        if v.op in ("num", "poly"):
            return NOT(eq(v, ZERO))
        if bad(v):
            return v
        return atom(v)

    def rv(self, n, st):
        x = self.ev(n, st)
        if isinstance(x, Loc):
            return self.read(st, x)
        return UNDEF if x is None else x

    def lv(self, n, st):
        x = self.ev(n, st)
        if isinstance(x, Loc):
            return x
        r = self.newroot("tmp")
        st.mem[r] = UNDEF if x is None else x
        return Loc(r)

    def ev(self, n, st):
        self.tick()
        f = getattr(self, "e_" + n["k"], None)
        if f is None:
            raise Unknown("expression %s %s" % (n["k"], n.get("cls", "")))
        return f(n, st)

    def e_int(self, n, st):
        return num(int(n["v"]))

    def e_flt(self, n, st):
        return num(parsefloat(n))

    def e_bool(self, n, st):
        return TRUE if n["v"] else FALSE

    def e_str(self, n, st):
        return string(n["v"])

    def e_null(self, n, st):
        return NULL

    def e_zero(self, n, st):
        return self.zero_of(self.ty(n))

    def e_this(self, n, st):
        return ptr(self.frame.this)

    def e_ref(self, n, st):
        d = n["d"]
        dd = self.P.dn(d)
        if d in self.frame.env:
            return self.frame.env[d]
        k = dd.get("k")
        if k == "func":
            return mk("fn", d)
        if k == "enumc":
            if dd.get("proj"):
                return num(int(dd["v"]))
            return sym(dd["qn"]) if not d.startswith("e:") or not dd["qn"].startswith("especia") else num(int(dd["v"]))
        if k in ("global", "staticlocal"):
            if k == "staticlocal":
                return Loc("g:" + d)
            if dd["qn"] in stdmodel.CONSTS:
                return num(stdmodel.CONSTS[dd["qn"]])
            if not dd.get("proj") and "cv" not in dd and not dd["qn"] in ("std::cin", "std::cout", "std::cerr", "std::clog"):
                return sym(dd["qn"])
            return Loc(d)
        # captured variable of an enclosing frame
        fr = self.frame
        while fr is not None:
            if d in fr.env:
                return fr.env[d]
            fr = fr.outer
        if k in ("local", "param"):
            # constant captured without capture
            raise Unknown("unbound variable " + dd.get("n", d))
        raise Unknown("reference to " + str(k) + " " + dd.get("qn", d))

    def e_mem(self, n, st):
        d = self.P.dn(n["d"])
        if d.get("k") == "global":
            self.ev(n["b"], st)
            return self.e_ref({"d": n["d"]}, st)
        if d.get("k") == "func":
            return mk("fn", n["d"])
        if d.get("n", "").startswith("?"):
            raise Unknown("data member %s is not in the table" % d["n"][1:])
        b = self.rv(n["b"], st) if n.get("arrow") else self.ev(n["b"], st)
        if n.get("arrow"):
            if b.op == "mptr":
                return fld(self.mderef(b), d["n"])
            b = self.deref(st, b)
        if isinstance(b, Loc):
            l = b + (("f", d["n"]),)
            if self.P.ty(d.get("t"))["k"] == "ref":
                p = self.read(st, l)
                if p.op == "ptr":
                    return self.deref(st, p)
                # reference member of a symbolic object: the referred object is an opaque part of it
                return l
            return l
        return fld(b, d["n"])

    def e_sub(self, n, st):
        b = self.rv(n["b"], st)
        i = self.rv(n["i"], st)
        return self.index(st, b, i)

    def index(self, st, b, i):
        if b.op == "ptr":
            return self.deref(st, self.ptradd(b, i))
        if b.op == "ite":
            x = self.index(st, b.a[1], i)
            y = self.index(st, b.a[2], i)
            x = self.read(st, x) if isinstance(x, Loc) else x
            y = self.read(st, y) if isinstance(y, Loc) else y
            return ite(atom(b.a[0]), x, y)
        if b.op in ("list", "lam", "sto"):
            return sel(b, i)
        if b.op == "str":
            return app("chr", b, i)
        if b.op == "undef":
            raise Unknown("index of undefined pointer")
        return sel(mk("tgt", b), i)

    def e_cast(self, n, st):
        ck = n["ck"]
        x = self.ev(n["e"], st)
        if ck == "ArrayToPointerDecay":
            if isinstance(x, Loc):
                # an array parameter or variable
                return ptr(x, ZERO)
            if x.op == "str":
                return x
            r = self.newroot("tmp")
            st.mem[r] = x
            return ptr(Loc(r), ZERO)
        if ck in ("UncheckedDerivedToBase", "DerivedToBase", "BaseToDerived", "BitCast", "FloatingCast", "ToVoid",
                  "Dynamic", "LValueBitCast", "IntegralToFloating", "Dependent"):
            if ck == "IntegralToFloating":
                v = self.read(st, x) if isinstance(x, Loc) else x
                if self.ty(n["e"])["k"] == "bool":
                    return ite(self.tobool(v), ONE, ZERO)
                return v
            if ck == "FloatingCast" and self.ty(n).get("bits", 64) < 64 <= self.ty(n["e"]).get("bits", 64):
                v = self.read(st, x) if isinstance(x, Loc) else x
                return v if v.op == "num" else app("narrow_real", v)
            return x
        v = self.read(st, x) if isinstance(x, Loc) else x
        if ck == "IntegralCast":
            s, d = self.ty(n["e"]), self.ty(n)
            if s["k"] == "bool":
                return ite(self.tobool(v), ONE, ZERO)
            if v.op == "num" and d["k"] in ("int", "uint"):
                x = int(v.a[0])
                b = d["bits"]
                if d["k"] == "uint":
                    x &= (1 << b) - 1
                else:
                    x = (x + (1 << (b - 1))) % (1 << b) - (1 << (b - 1))
                return num(x)
            if d.get("bits", 64) < s.get("bits", 64) and (self.exact or isdata(v)):
                return app("narrow%d" % d["bits"], v)
            return v
        if ck == "FloatingToIntegral":
            return app("trunc", v)
        if ck in ("IntegralToBoolean", "FloatingToBoolean"):
            return NOT(eq(v, ZERO))
        if ck in ("PointerToBoolean", "MemberPointerToBoolean"):
            return NOT(eq(v, NULL))
        if ck == "NullToPointer":
            return NULL
        if ck == "UserDefinedConversion":
            return v
        raise Unknown("cast " + ck)

    def isint(self, t):
        t = self.unref(t)
        return t["k"] in ("int", "uint", "enum", "bool")

    def e_bin(self, n, st):
        op = n["op"]
        if op in ("&&", "||"):
            a = self.cond(n["x"], st)
            s = st.copy()
            run = a if op == "&&" else NOT(a)
            if run is FALSE:
                return FALSE if op == "&&" else TRUE
            s.pc = AND(st.pc, run)
            nt = len(self.throws)
            b = self.cond(n["y"], s)
            j = self.join(run, s, St(st.mem, AND(st.pc, NOT(run))))
            st.mem, st.pc = j.mem, j.pc
            return AND(a, b) if op == "&&" else OR(a, b)
        if op == ",":
            self.ev(n["x"], st)
            return self.ev(n["y"], st)
        a, b = self.rv(n["x"], st), self.rv(n["y"], st)
        return self.binop(op, a, b, self.ty(n), self.ty(n["x"]), self.ty(n["y"]))

    def binop(self, op, a, b, t, ta, tb):
        ta, tb = self.unref(ta), self.unref(tb)
        if op in ("==", "!=", "<", ">", "<=", ">="):
            integer = self.isint(ta) and self.isint(tb)
            if a.op == "ptr" and b.op == "ptr" and a.a[2] is not NOFF and b.a[2] is not NOFF and a.a[:2] == b.a[:2]:
                return cmp(op, a.a[2], b.a[2], True)
            if ta["k"] == "bool" and tb["k"] == "bool" and op in ("==", "!="):
                x, y = self.tobool(a), self.tobool(b)
                r = ite(x, y, NOT(y))
                return r if op == "==" else NOT(r)
            if op in ("==", "!="):
                return cmp(op, a, b, integer)
            return cmp(op, a, b, integer, unsigned=ta["k"] == "uint" and tb["k"] == "uint")
        if ta["k"] in ("ptr", "arr") or tb["k"] in ("ptr", "arr"):
            if op == "+":
                return self.ptradd(a, b) if ta["k"] in ("ptr", "arr") else self.ptradd(b, a)
            if op == "-":
                if tb["k"] in ("ptr", "arr"):
                    if a.op == "ptr" and b.op == "ptr" and a.a[:2] == b.a[:2]:
                        return sub(a.a[2], b.a[2])
                    raise Unknown("pointer difference")
                return self.ptradd(a, neg(b))
        if op == "+":
            return add(a, b)
        if op == "-":
            return sub(a, b)
        if op == "*":
            return mul(a, b)
        integer = self.isint(t) or (self.isint(ta) and self.isint(tb))
        if op == "/":
            return app("idiv", a, b) if integer else div(a, b)
        if op == "%":
            return app("imod", a, b)
        if op in ("<<", ">>", "&", "|", "^"):
            if t["k"] == "bool" or (ta["k"] == "bool" and tb["k"] == "bool"):
                x, y = self.tobool(a), self.tobool(b)
                return {"&": AND(x, y), "|": OR(x, y), "^": ite(x, NOT(y), y)}[op]
            if a.op == "num" and b.op == "num":
                x, y = int(a.a[0]), int(b.a[0])
                r = {"<<": lambda: x << y, ">>": lambda: x >> y, "&": lambda: x & y, "|": lambda: x | y, "^": lambda: x ^ y}[op]()
                if t.get("bits") and t["k"] == "uint":
                    r &= (1 << t["bits"]) - 1
                return num(r)
            name = {"<<": "shl", ">>": "shr", "&": "and", "|": "or", "^": "xor"}[op]
            if name in ("and", "or", "xor"):
                return bitop(name, a, b)
            return app(name, a, b)
        raise Unknown("operator " + op)

    def e_un(self, n, st):
        op = n["op"]
        if op in ("++", "--"):
            l = self.lv(n["e"], st)
            old = self.read(st, l)
            d = ONE if op == "++" else num(-1)
            t = self.unref(self.ty(n["e"]))
            new = self.ptradd(old, d) if t["k"] == "ptr" else add(old, d)
            self.write(st, l, new)
            return old if n.get("post") else l
        if op == "&":
            x = self.ev(n["e"], st)
            if not isinstance(x, Loc):
                if isinstance(x, T) and x.op == "fn":
                    return x
                r = self.newroot("tmp")
                st.mem[r] = x
                return ptr(Loc(r))
            return self.addr(x)
        if op == "*":
            p = self.rv(n["e"], st)
            if p.op == "fn":
                return p
            if p.op == "mptr":
                return self.mderef(p)
            return self.deref(st, p)
        v = self.rv(n["e"], st)
        if op == "-":
            return neg(v)
        if op == "+":
            return v
        if op == "!":
            return NOT(self.tobool(v, self.ty(n["e"])))
        if op == "~":
            if v.op == "num":
                t = self.ty(n)
                if t["k"] == "uint":
                    return num(~int(v.a[0]) & ((1 << t["bits"]) - 1))
                return num(~int(v.a[0]))
            return app("not", v)
        if op == "__extension__":
            return v
        raise Unknown("unary " + op)

    def addr(self, l):
        """address of a location: element addresses keep their offset"""
        if l.path and l.path[-1][0] == "i":
            return mk("ptr", l.root, l.path[:-1], l.path[-1][1])
        return ptr(l)

    def e_asg(self, n, st):
        op = n["op"]
        if op == "=":
            v = self.rv(n["y"], st)
            l = self.lv(n["x"], st)
            self.write(st, l, v)
            return l
        v = self.rv(n["y"], st)
        l = self.lv(n["x"], st)
        old = self.read(st, l)
        t = self.P.ty(n.get("ct") or n["t"])
        self.write(st, l, self.binop(op[:-1], old, v, t, self.unref(self.ty(n["x"])), self.ty(n["y"])))
        if self.isint(self.ty(n["x"])) and not self.isint(t):
            self.write(st, l, app("trunc", self.read(st, l)))
        return l

    def e_cond(self, n, st):
        c = self.cond(n["c"], st)
        if c is TRUE:
            return self.ev(n["x"], st)
        if c is FALSE:
            return self.ev(n["y"], st)
        s1, s2 = st.copy(), st.copy()
        s1.pc, s2.pc = AND(st.pc, c), AND(st.pc, NOT(c))
        if n["x"]["k"] == "throw":
            self.rv(n["x"], s1)
            y = self.rv(n["y"], s2)
            st.mem, st.pc = s2.mem, s2.pc
            return y
        if n["y"]["k"] == "throw":
            self.rv(n["y"], s2)
            x = self.rv(n["x"], s1)
            st.mem, st.pc = s1.mem, s1.pc
            return x
        x, y = self.ev(n["x"], s1), self.ev(n["y"], s2)
        j = self.join(c, s1, s2)
        st.mem, st.pc = j.mem, j.pc
        if isinstance(x, Loc) and isinstance(y, Loc) and x.root == y.root and x.path == y.path:
            return x
        x = self.read(s1, x) if isinstance(x, Loc) else x
        y = self.read(s2, y) if isinstance(y, Loc) else y
        if self.unref(self.ty(n))["k"] == "bool":
            x, y = self.tobool(x), self.tobool(y)
        return merge(c, x, y)

    def e_ilist(self, n, st):
        t = self.ty(n)
        vs = [self.rv(x, st) for x in n["a"]]
        if t["k"] == "arr":
            N = t.get("n", len(vs))
            while len(vs) < N:
                vs.append(self.zero_of(self.P.ty(t["e"])))
            return mk("list", tuple(vs))
        if t["k"] == "rec" and self.P.dn(t["d"]).get("fields") is not None:
            fs = self.P.dn(t["d"])["fields"]
            return rec({self.P.dn(f)["n"]: v for f, v in zip(fs, vs)})
        if len(vs) == 1:
            return vs[0]
        return mk("list", tuple(vs))

    def e_throw(self, n, st):
        if not n.get("e"):
            exc = self.frame.exc[-1] if self.frame.exc else mk("exc", "std::exception", UNDEF)
            self.throw(st, exc)
            return UNDEF
        v = self.rv(n["e"], st)
        t = self.P.ty(n["tt"])
        name = self.P.qn(t["d"]) if t["k"] == "rec" else t["s"]
        msg = fld(v, "what") if v.op in ("rec",) else v
        self.throw(st, mk("exc", name, msg))
        return UNDEF

    def e_lam(self, n, st):
        caps = []
        for c in n["caps"]:
            if c.get("this"):
                caps.append(("this", ptr(self.frame.this)))
            elif "d" in c:
                l = self.e_ref({"d": c["d"]}, st)
                if c["byref"]:
                    caps.append((c["d"], ptr(l) if isinstance(l, Loc) else l))
                else:
                    caps.append((c["d"], mk("val", self.read(st, l) if isinstance(l, Loc) else l)))
        return mk("clos", n["f"], tuple(caps))

    def invoke_closure(self, clos, args, st):
        fid = clos.a[0]
        fn = self.P.funcs.get(fid)
        if fn is None:
            raise Unknown("closure body")
        fr = Frame()
        fr.fid = fid
        for d, v in clos.a[1]:
            if d == "this":
                fr.this = self.deref(st, v)
            elif v.op == "val":
                r = self.newroot("v")
                st.mem[r] = v.a[0]
                fr.env[d] = Loc(r)
            elif v.op == "ptr":
                fr.env[d] = self.deref(st, v)
            else:
                r = self.newroot("v")
                st.mem[r] = v
                fr.env[d] = Loc(r)
        for i, p in enumerate(fn["params"]):
            t = self.P.ty(self.P.dn(p)["t"])
            a = args[i]
            if t["k"] == "ref":
                if not isinstance(a, Loc):
                    r = self.newroot("tmp")
                    st.mem[r] = a
                    a = Loc(r)
                fr.env[p] = a
            else:
                r = self.newroot("v")
                st.mem[r] = self.read(st, a) if isinstance(a, Loc) else a
                fr.env[p] = Loc(r)
        self.inlined.add(fid)
        return self.enter(fr, fid, st)

    def e_new(self, n, st):
        if n.get("array"):
            r = self.newroot("heap")
            st.mem[r] = UNDEF
            return ptr(Loc(r), ZERO)
        r = self.newroot("heap")
        st.mem[r] = rec({})
        loc = Loc(r)
        if n.get("i"):
            if n["i"]["k"] == "ctor":
                self.construct(n["i"], st, loc)
            else:
                st.mem[r] = self.rv(n["i"], st)
        return ptr(loc)

    def e_del(self, n, st):
        self.rv(n["e"], st)
        return None

    def e_decl(self, n, st):
        self.x_decl(n, st)

    # ------------------------------------------------------------ construction and calls
    def construct(self, n, st, loc):
        """run a constructor expression into loc"""
        if n["k"] != "ctor":
            self.write(st, loc, self.rv(n, st))
            return
        d = self.P.dn(n["f"])
        if d.get("copy") and n["a"]:
            self.write(st, loc, self.rv(n["a"][0], st))
            return
        if n["f"] in self.P.funcs and not (self.P.funcs[n["f"]].get("implicit") and d.get("copy")):
            args = self.args(n["a"], d, st)
            if not self.read(st, loc).op == "rec":
                self.write(st, loc, rec({}))
            qn = self.key(d.get("qn", ""))
            if qn in self.hooks:
                r = self.hooks[qn](self, st, loc, args, n)
                if r is not None:
                    self.write(st, loc, r)
                return
            if qn in self.opaque:
                self.write(st, loc, self.opaque_call(qn, st, None, args, d))
                return
            self.call(n["f"], st, loc, args, n)
            return
        v = self.std_ctor(n, d, st)
        self.write(st, loc, v)

    def e_ctor(self, n, st):
        d = self.P.dn(n["f"])
        if d.get("copy") and len(n["a"]) == 1:
            return self.rv(n["a"][0], st)
        r = self.newroot("tmp")
        st.mem[r] = rec({})
        self.construct(n, st, Loc(r))
        return st.mem[r]

    def key(self, qn):
        """the name under which a hook or an opaque function is registered: with or without template arguments"""
        if qn in self.hooks or qn in self.opaque or "<" not in qn:
            return qn
        s = stripargs(qn)
        return s if s in self.hooks or s in self.opaque else qn

    def args(self, al, d, st):
        out = []
        pts = d.get("pt", [])
        for i, a in enumerate(al):
            t = self.P.ty(pts[i]) if i < len(pts) else None
            if t and t["k"] == "ref":
                out.append(self.lv(a, st))
            else:
                out.append(self.rv(a, st))
        return out

    def e_call(self, n, st):
        P = self.P
        f = n.get("f")
        if f is None:
            return self.indirect(n, st)
        d = P.dn(f)
        qn = self.key(d.get("qn", ""))
        if qn in self.hooks:
            this = self.obj(n, st)
            return self.hooks[qn](self, st, this, self.args(n["a"], d, st), n)
        if d.get("lambda"):
            c = self.rv(n["o"], st)
            if c.op == "clos":
                return self.invoke_closure(c, self.args(n["a"], d, st), st)
            return self.unknown_call(c, self.args(n["a"], d, st), st, d)
        if f in P.funcs and not (d.get("defaulted") and d.get("copyassign")):
            if qn in self.opaque:
                this = self.obj(n, st)
                return self.opaque_call(qn, st, this, self.args(n["a"], d, st), d)
            this = self.obj(n, st)
            args = self.args(n["a"], d, st)
            # symbolic function objects of template parameters are plain records here
            return self.call(f, st, this, args, n)
        if d.get("proj") and d.get("copyassign") or (d.get("defaulted") and d.get("copyassign")):
            l = self.lv(n["o"], st)
            self.write(st, l, self.rv(n["a"][0], st))
            return l
        return self.std_call(n, d, st)

    def obj(self, n, st):
        if "o" not in n:
            return None
        if n.get("arrow"):
            p = self.rv(n["o"], st)
            return self.deref(st, p)
        return self.lv(n["o"], st)

    def indirect(self, n, st):
        fv = self.rv(n["fe"], st)
        if fv.op == "fn":
            d = self.P.dn(fv.a[0])
            n2 = dict(n)
            n2["f"] = fv.a[0]
            return self.e_call(n2, st)
        if fv.op == "clos":
            return self.invoke_closure(fv, [self.ev(a, st) for a in n["a"]], st)
        args = [self.ev(a, st) for a in n["a"]]
        fe = n["fe"]
        ft = self.ty(fe)["s"]
        return self.unknown_call(fv, args, st, None, ft)

    def unknown_call(self, fv, args, st, d, ftype=None):
        """uninterpreted function: result depends on the values it can see; non-const reference
        parameters get uninterpreted values"""
        ins = []
        outs = []
        for i, a in enumerate(args):
            if isinstance(a, Loc):
                ins.append(self.read(st, a))
                outs.append((i, a))
            else:
                ins.append(self.view(st, a) if a.op == "ptr" else a)
        call = mk("call", fv, tuple(ins))
        if ftype and "&" in ftype:
            ps = ftype[ftype.index("(", ftype.find("(") if ftype.count("(") == 1 else ftype.rfind("(")) + 1:].split(",")
            for i, a in outs:
                if i < len(ps) and "&" in ps[i] and "const" not in ps[i]:
                    self.write(st, a, mk("callout", num(i), fv, tuple(x for j, x in enumerate(ins) if not (j < len(ps) and "&" in ps[j] and "const" not in ps[j]))))
        return call

    def opaque_call(self, qn, st, this, args, d):
        ins = []
        pts = d.get("pt", [])
        for a in args:
            if isinstance(a, Loc):
                ins.append(self.read(st, a))
            else:
                ins.append(self.view(st, a) if a.op == "ptr" else a)
        th = ()
        if this is not None:
            th = (self.read(st, this),)
        call = mk("call", sym(qn), th + tuple(ins)) if False else mk("call", sym(qn), tuple(th) + tuple(ins))
        for i, a in enumerate(args):
            t = self.P.ty(pts[i]) if i < len(pts) else None
            if t and t["k"] in ("ref", "ptr"):
                e = self.P.ty(t["e"])
                if not e.get("const") and e["k"] != "func" and not e["s"].startswith("const "):
                    v = mk("callout", num(i), sym(qn), tuple(th) + tuple(ins))
                    if isinstance(a, Loc):
                        self.write(st, a, v)
                    elif a.op == "ptr":
                        l = Loc(a.a[0], a.a[1])
                        if a.a[2] is NOFF or a.a[2] is ZERO:
                            self.write(st, l, v)
                        else:
                            self.write(st, l, mk("unshift", self.read(st, l), a.a[2], v))
        if this is not None and not d.get("constm"):
            self.write(st, this, mk("callout", num(-1), sym(qn), tuple(th) + tuple(ins)))
        self.log.append((qn, st.pc, tuple(ins)))
        return call

    def std_call(self, n, d, st):
        return stdmodel.std_call(self, n, d, st)

    def std_ctor(self, n, d, st):
        return stdmodel.std_ctor(self, n, d, st)

    def mderef(self, p):
        return stdmodel.mderef(p)

    def equal(self, a, b):
        """== of two values of class type"""
        if a.op == "ptr" and b.op == "ptr" and a.a[:2] == b.a[:2] and a.a[2] is not NOFF:
            return eq(a.a[2], b.a[2])
        for x, y in ((a, b), (b, a)):
            if x.op == "mend":
                if y.op == "mptr":
                    return NOT(atom(mk("has", y.a[0], y.a[1])))
                if y.op == "mit":
                    return eq(y.a[1], app("maplen", y.a[0]))
        return eq(a, b)

    def closview(self, st, c):
        """a function object with the values of what it captured by reference"""
        if c.op == "clos":
            return mk("closv", c.a[0], tuple(self.view(st, v) if v.op == "ptr" else v for _, v in c.a[1]))
        if c.op == "rec":
            return rec({k: (self.view(st, v) if v.op == "ptr" else v) for k, v in c.a[0]})
        return c

    def elemrec(self, on):
        t = self.unref(self.ty(on))
        a = (self.P.dn(t.get("d", "")).get("targs") or ["?"])[0]
        return a.startswith("especia::")

    def construct_elem(self, on, al, st):
        """emplace_back: the constructor of the element class that takes these arguments"""
        t = self.unref(self.ty(on))
        a = (self.P.dn(t.get("d", "")).get("targs") or ["?"])[0]
        cands = []
        for f in self.P.funcs:
            d = self.P.dn(f)
            if d.get("fk") == "ctor" and (self.P.qn(d.get("rec", "")) == a or "<" in a and self.P.qn(f).startswith(a + "::")
                                          and self.P.qn(d.get("rec", "")) == stripargs(a)) and len(d.get("pt", [])) == len(al) and not d.get("copy"):
                cands.append(f)
        if len(cands) != 1:
            raise Unknown("emplace_back of " + a)
        d = self.P.dn(cands[0])
        r = self.newroot("tmp")
        st.mem[r] = rec({})
        self.construct({"k": "ctor", "f": cands[0], "a": al}, st, Loc(r))
        return st.mem[r]


class Frame:
    def __init__(self):
        self.env = {}
        self.this = None
        self.outer = None
        self.fid = None
        self.retref = False
        self.keep = False
        self.exc = []


class Result:
    def __init__(self, ev, st, ret, throws):
        self.ev, self.st, self.throws = ev, st, throws
        self.ret = ev.read(st, ret) if isinstance(ret, Loc) else ret
        self.retloc = ret if isinstance(ret, Loc) else None
        self.mem = st.mem
        self.pc = st.pc

    def __getitem__(self, r):
        return self.mem.get(r)


def isdata(v):
    """a number read from outside, possibly inside an arithmetic expression"""
    if v.op in ("conv", "tok"):
        return True
    if v.op in ("poly", "ite", "app"):
        return any(isdata(x) for x in subterms(v))
    return False


def parsefloat(n):
    s = n["v"].strip().rstrip("fFlL").replace("'", "")
    try:
        if s.lower().startswith("0x"):
            raise ValueError
        return double(Fraction(s))
    except (ValueError, ZeroDivisionError):
        return double(Fraction(n["x"]))


def double(x):
    """the shortest decimal number with the same double: literals that denote one double are one number"""
    try:
        y = float(x)
        return Fraction(repr(y)) if y not in (float("inf"), float("-inf")) and (y or not x) else x
    except (OverflowError, ValueError):
        return x


def bitop(name, a, b):
    """associative-commutative, flattened"""
    xs = []
    for x in (a, b):
        if x.op == "app" and x.a[0] == name:
            xs.extend(x.a[1:])
        else:
            xs.append(x)
    k = None
    ys = []
    for x in xs:
        if x.op == "num":
            v = int(x.a[0])
            k = v if k is None else (k & v if name == "and" else k | v if name == "or" else k ^ v)
        else:
            ys.append(x)
    if name != "xor":
        ys = list({y.id: y for y in ys}.values())
    if k is not None:
        if name == "and" and k == 0:
            return ZERO
        if not (name in ("or", "xor") and k == 0):
            ys.append(num(k))
    if not ys:
        return ZERO
    if len(ys) == 1:
        return ys[0]
    return mk("app", name, *sorted(ys, key=lambda t: t.id))


def constrain_deep(t, care):
    if care is TRUE:
        return t
    if t.op == "rec":
        return rec({k: constrain_deep(v, care) for k, v in t.a[0]})
    if t.op == "upd":
        r = t.a[0]
        for k, v in t.a[1]:
            r = setf(r, k, constrain_deep(v, care))
        return r
    t = constrain(t, care)
    return decide(t, literals(care)) if t.op not in ("sym", "num", "str") else t


def seqdiff(u, v):
    """piece such that u = cat(v, piece), through conditions"""
    if u is v:
        return EMPTY
    if u.op == "cat" and u.a[0][0] is v:
        return cat(*u.a[0][1:])
    if u.op == "cat" and u.a[0][0].op == "ite":
        d = seqdiff(u.a[0][0], v)
        return None if d is None else cat(d, *u.a[0][1:])
    if u.op == "ite":
        a, b = seqdiff(u.a[1], v), seqdiff(u.a[2], v)
        if a is None or b is None:
            return None
        return ite(atom(u.a[0]), a, b)
    return None


def stores(u, v):
    """[(index, value, condition)] when u = v with stores under conditions; None otherwise"""
    out = []

    def go(t, c):
        if t is v:
            return True
        if t.op == "ite":
            return go(t.a[1], AND(c, atom(t.a[0]))) and go(t.a[2], AND(c, NOT(atom(t.a[0]))))
        if t.op == "sto":
            if t.a[0].op != "sto" and t.a[0] is v:
                out.append((t.a[1], t.a[2], c))
                return True
            return False
        return False
    if not go(u, TRUE) or not out:
        return None
    return out


def replace_sel(t, v, idx, w):
    """replace v[idx] by w in t; None if v occurs otherwise"""
    if not occurs(v, t):
        return t
    memo = {}

    class Fail(Exception):
        pass

    def go(x):
        if not occurs(v, x):
            return x
        r = memo.get(x.id)
        if r is not None:
            return r
        if x is v:
            raise Fail
        if x.op == "sel" and x.a[0] is v and sub(x.a[1], idx) is ZERO:
            r = w
        else:
            r = rebuild(x, go)
        memo[x.id] = r
        return r
    try:
        return go(t)
    except (Fail, TypeError):
        return None


def mulevel(t):
    memo = {}

    def go(t):
        r = memo.get(t.id)
        if r is None:
            r = t.a[0] if t.op in ("mu", "lv") else 0
            for s in subterms(t):
                r = max(r, go(s))
            memo[t.id] = r
        return r
    return go(t)


def congruent(vs, init, upd):
    """{variable: representative}: the coarsest partition in which members have one first value and one step"""
    part = {}
    for v in vs:
        part.setdefault(init[v], []).append(v)
    part = [p for p in part.values()]
    while any(len(p) > 1 for p in part):
        rep = {v: p[0] for p in part for v in p[1:]}
        new = []
        for p in part:
            if len(p) == 1:
                new.append(p)
                continue
            q = {}
            for v in p:
                q.setdefault(subst(upd[v], rep), []).append(v)
            new.extend(q.values())
        if len(new) == len(part):
            return rep
        part = new
    return {}


def canon_order(need, init, upd, t, conds):
    """order loop variables by structure, not by name; values of an enclosing loop count alike until its variables are ordered"""
    outer = set()
    for x in [init[v] for v in need] + [upd[v] for v in need] + list(conds):
        outer |= {y for y in freesyms(x) if y.op == "sym" and str(y.a[0]).startswith("%")}
    outer -= set(need) | {t}
    anon = {y: H("outer") for y in outer}
    f = fp_with(anon)
    col = {v: H("c", f(init[v])) for v in need}
    for _ in range(3):
        f = fp_with({**anon, **{v: H("col", c) for v, c in col.items()}, t: H("time")})
        allc = tuple(sorted(f(c) for c in conds))
        col = {v: H("c", col[v], f(upd[v]), allc) for v in need}
    return sorted(need, key=lambda v: (col[v], init[v].id))


import stdmodel  # noqa  (models of the standard library; uses the names above)

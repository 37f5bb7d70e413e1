"""Concurrency analysis: which objects the concurrent evaluations touch (interprocedural effects, with elements of arrays told apart
by the variable that is different for every evaluation), and whether started threads are joined and stored errors are delivered on
every path (typestate over the paths, the exceptional ones included).

Findings are reported only when the construct is understood; anything else raises Quit or is recorded as not sure."""
import json
from load import nodes


class Quit(Exception):
    pass


RUN, JOINED, UNSURE = "running", "joined", "unsure"
PENDING, SET, CLEAR = "pending", "set", "clear"
LOCKS = ("std::lock_guard", "std::unique_lock", "std::scoped_lock", "std::shared_lock", "std::mutex::lock", "std::call_once")
SYNC = ("std::mutex", "std::atomic", "std::recursive_mutex", "std::shared_mutex", "std::once_flag", "std::atomic_flag", "std::__atomic_base", "std::condition_variable")
READERS = {"operator[]", "begin", "end", "cbegin", "cend", "at", "front", "back", "data", "rbegin", "rend", "get", "operator*", "operator->", "find", "lower_bound", "upper_bound", "c_str"}
UNSAFE = {"rand", "srand", "strtok", "localtime", "gmtime", "ctime", "asctime", "strerror", "setlocale", "getenv", "drand48", "lrand48", "random", "setenv", "putenv"}
FOREIGN = ("std::async", "std::jthread", "std::for_each_n", "pthread_create", "fork", "std::packaged_task", "std::promise", "std::execution")
FORWARD = {"emplace_back", "emplace", "push_back", "emplace_front", "make_unique", "make_shared", "make_pair", "make_tuple", "forward_as_tuple", "tie", "bind", "thread"}
PASS = {"std::move", "std::forward", "std::ref", "std::cref", "std::as_const", "std::__addressof", "std::addressof"}


def strip(n):
    while isinstance(n, dict) and (n.get("k") in ("cast", "paren") or n.get("k") == "other" and len(n.get("c") or ()) == 1 and
                                   n.get("cls") in ("ExprWithCleanups", "MaterializeTemporaryExpr", "CXXBindTemporaryExpr", "ParenExpr")):
        n = n["e"] if n.get("k") in ("cast", "paren") else n["c"][0]
    return n


def key(n):
    if isinstance(n, dict):
        return {k: key(v) for k, v in n.items() if k not in ("l", "t", "lv", "cap")}
    if isinstance(n, list):
        return [key(v) for v in n]
    return n


def skey(n):
    return json.dumps(key(strip(n)), sort_keys=True)


class Loc:
    """an object: path of declarations from a root, and an index of one of its elements (None: the whole of it)"""
    __slots__ = ("path", "idx", "sure")

    def __init__(self, path, idx=None, sure=True):
        self.path, self.idx, self.sure = path, idx, sure

    def k(self):
        return (self.path, self.idx, self.sure)

    def __eq__(self, o):
        return self.k() == o.k()

    def __hash__(self):
        return hash(self.k())


class Acc:
    __slots__ = ("loc", "w", "where", "why")

    def __init__(self, loc, w, where, why=""):
        self.loc, self.w, self.where, self.why = loc, w, where, why


def overlap(a, b):
    n = min(len(a), len(b))
    return a[:n] == b[:n]


class Effects:
    """What a function writes that its caller can see: summaries over the call graph, with the parameters and the object by position."""

    def __init__(self, P):
        self.P = P
        self.sums = {}
        self.open = set()
        self.fields = {}         # path of a reference or pointer member of a local object -> what it refers to
        self.taken = None

    # ------------------------------------------------------------ helpers
    def tk(self, t):
        return self.P.ty(t) if t else {"k": "other", "s": "?"}

    def isref(self, d):
        return self.tk(self.P.dn(d).get("t"))["k"] == "ref"

    def isptr(self, d):
        return self.tk(self.P.dn(d).get("t"))["k"] == "ptr"

    def iterlike(self, t):
        t = self.tk(t)
        if t["k"] == "ref":
            t = self.tk(t["e"])
        return t["k"] == "ptr" or t["k"] == "rec" and ("iterator" in self.P.qn(t["d"]) or "reference_wrapper" in self.P.qn(t["d"]))

    def sync(self, t):
        t = self.tk(t)
        if t["k"] == "ref":
            t = self.tk(t["e"])
        return t["k"] == "rec" and any((self.P.dn(t["d"]).get("tmpl") or self.P.qn(t["d"])).startswith(s) for s in SYNC)

    def const(self, t):
        """whether what a reference or a pointer type refers to is const"""
        t = self.tk(t)
        if t["k"] in ("ref", "ptr"):
            return bool(self.tk(t["e"]).get("const"))
        return True

    def defs(self, f):
        """assignments to each local variable of a function: variable -> initialisers and assigned values"""
        fn = self.P.funcs[f]
        if "_defs" not in fn:
            d = {}
            for n in nodes({"k": "x", "a": [fn["body"] or {}]}):
                if n.get("k") in ("decl",):
                    for v in n["v"]:
                        d.setdefault(v["d"], []).append(v.get("i"))
                elif n.get("k") == "rfor" and isinstance(n.get("v"), dict):
                    d.setdefault(n["v"]["d"], []).append({"k": "elem", "e": n["range"], "l": n.get("l")})
                elif n.get("k") in ("if", "for", "while") and isinstance(n.get("cv"), dict):
                    d.setdefault(n["cv"]["d"], []).append(n["cv"].get("i"))
                elif n.get("k") == "asg" and strip(n["x"]).get("k") == "ref":
                    d.setdefault(strip(n["x"])["d"], []).append(n["y"] if n["op"] == "=" else None)
                elif n.get("k") == "call" and n.get("op") == "=" and isinstance(n.get("o"), dict) and strip(n["o"]).get("k") == "ref":
                    d.setdefault(strip(n["o"])["d"], []).append(n["a"][0])
                elif n.get("k") == "un" and n["op"] in ("++", "--") and strip(n["e"]).get("k") == "ref":
                    d.setdefault(strip(n["e"])["d"], []).append(None)
                elif n.get("k") == "lam":
                    for c in n.get("caps", []):
                        if c.get("init"):
                            d.setdefault(c["d"], []).append(c["init"])
            fn["_defs"] = d
        return fn["_defs"]


class Frame:
    """Resolves expressions of one activation: parameters are bound to what the caller passes."""

    def __init__(self, E, f, bind=None, this=None, parent=None, inst=()):
        self.E, self.P, self.f = E, E.P, f
        self.bind = bind or {}          # declaration -> locations (references, pointees) or ("val", index)
        self.this = this if this is not None else {Loc(("this",))}
        self.parent = parent
        self.busy = set()

    def lookup(self, d):
        fr = self
        while fr is not None:
            if d in fr.bind:
                return fr.bind[d]
            fr = fr.parent
        return None

    def defs(self, d):
        fr = self
        while fr is not None:
            if fr.f in self.P.funcs:
                x = self.E.defs(fr.f).get(d)
                if x is not None:
                    return x, fr
            fr = fr.parent
        return None, None

    # ------------------------------------------------------------ index terms
    def index(self, n):
        n = strip(n)
        if not isinstance(n, dict):
            return ("?",)
        k = n.get("k")
        if k == "int":
            return ("int", int(n["v"]))
        if k == "ref":
            b = self.lookup(n["d"])
            if isinstance(b, tuple) and b[0] == "val":
                return b[1]
            if isinstance(b, set) and len(b) == 1:
                l = next(iter(b))
                if l.idx is None and len(l.path) == 1:
                    return ("var", l.path[0])
            dn = self.P.dn(n["d"])
            if dn.get("cv") is not None:
                return ("int", int(dn["cv"]))
            ds, fr = self.defs(n["d"])
            if ds and len(ds) == 1 and ds[0] is not None and dn.get("k") not in ("param", "global") and n["d"] not in self.busy:
                self.busy.add(n["d"])
                try:
                    return fr.index(ds[0])
                finally:
                    self.busy.discard(n["d"])
            return ("var", n["d"])
        if k == "bin" and n["op"] in ("+", "-"):
            x, y = self.index(n["x"]), self.index(n["y"])
            if y[0] == "int" and x[0] in ("var", "plus"):
                c = y[1] if n["op"] == "+" else -y[1]
                return self.plus(x, c)
            if x[0] == "int" and y[0] in ("var", "plus") and n["op"] == "+":
                return self.plus(y, x[1])
        if k == "bin" and n["op"] in ("/", "%", "&", ">>") and self.index(n["y"])[0] == "int" and self.index(n["x"])[0] == "var" and self.index(n["y"])[1] > (0 if n["op"] in "&>>" else 1):
            return ("many",)       # several values of the variable give the same result
        return ("?",)

    tk = lambda self, t: self.E.tk(t)

    @staticmethod
    def plus(x, c):
        if x[0] == "plus":
            x, c = x[1], c + x[2]
        return ("plus", x, c) if c else x

    # ------------------------------------------------------------ objects
    def elem(self, locs, idx):
        return {l if l.idx is not None else Loc(l.path, idx, l.sure) for l in locs}

    def locs(self, n):
        """the objects an lvalue may denote"""
        n = strip(n)
        if not isinstance(n, dict):
            return set()
        k = n.get("k")
        P = self.P
        if k == "ref":
            return self.var(n["d"])
        if k == "this":
            return set(self.this)
        if k == "mem":
            if P.dn(n["d"]).get("k") == "global":
                return {Loc(("g", n["d"]))}
            b = self.pointees(n["b"]) if n.get("arrow") and strip(n["b"]).get("k") != "this" else self.locs(n["b"])
            t = self.tk(P.dn(n["d"]).get("t"))
            if t["k"] == "ref":
                r = set()
                for l in b:
                    q = self.E.fields.get(l.path + (n["d"],)) if l.idx is None else None
                    r |= q if q else {Loc(l.path + (n["d"], "*"), None, False)}
                return r
            return {l if l.idx is not None else Loc(l.path + (n["d"],), None, l.sure) for l in b}
        if k == "sub":
            t = self.tk(strip(n["b"]).get("t"))
            b = self.locs(n["b"]) if t["k"] in ("arr", "array") else self.pointees(n["b"])
            return self.elem(b, self.index(n["i"]))
        if k == "un":
            if n["op"] == "*":
                return self.pointees(n["e"])
            if n["op"] in ("++", "--"):
                return self.locs(n["e"])
            return set()
        if k == "asg":
            return self.locs(n["x"])
        if k == "cond":
            return self.locs(n["x"]) | self.locs(n["y"])
        if k == "elem":
            return self.elem(self.locs(n["e"]), ("?",))
        if k == "bin" and n["op"] == ",":
            return self.locs(n["y"])
        if k == "call":
            return self.result(n)
        if k == "ctor" and len(n.get("a", [])) == 1 and self.E.iterlike(n.get("t")):
            return self.locs(n["a"][0])
        if k in ("lam", "ctor", "ilist", "new", "int", "flt", "str", "zero", "null", "bool"):
            return set()
        if k == "other":
            r = set()
            for c in n.get("c") or ():
                r |= self.locs(c)
            return r
        return set()

    def var(self, d):
        P = self.P
        b = self.lookup(d)
        if isinstance(b, set):
            if P.dn(d).get("k") == "param" and not self.E.isref(d):
                return {Loc((d,))}
            return b
        dn = P.dn(d)
        kd = dn.get("k")
        if kd in ("global", "staticlocal"):
            return {Loc(("g", d))}
        if kd == "param":
            return {Loc((d,))}
        if self.E.isref(d):
            ds, fr = self.defs(d)
            if ds and d not in self.busy:
                self.busy.add(d)
                try:
                    r = set()
                    for x in ds:
                        if x is not None:
                            r |= fr.locs(x)
                    return r or {Loc((d,), None, False)}
                finally:
                    self.busy.discard(d)
        return {Loc((d,))}

    def pointees(self, n):
        """the objects a pointer or an iterator may point to"""
        n = strip(n)
        if not isinstance(n, dict):
            return set()
        k = n.get("k")
        P = self.P
        if k == "this":
            return set(self.this)
        if k == "un" and n["op"] == "&":
            return self.locs(n["e"])
        if k == "un" and n["op"] in ("++", "--"):
            return self.blur(self.pointees(n["e"]))
        if k == "ref":
            d = n["d"]
            b = self.lookup(d)
            if isinstance(b, set) and P.dn(d).get("k") == "param":
                return b if not self.E.isref(d) else {Loc(l.path, ("?",), False) for l in b}
            t = self.tk(P.dn(d).get("t"))
            if t["k"] in ("arr", "array"):
                return self.locs(n)
            if t["k"] == "rec" and not self.E.iterlike(P.dn(d).get("t")):
                return self.locs(n)
            if P.dn(d).get("k") in ("global", "staticlocal"):
                return {Loc(("g", d))}
            if P.dn(d).get("k") == "param":
                return {Loc((d, "*"))}
            ds, fr = self.defs(d)
            if ds and d not in self.busy:
                self.busy.add(d)
                try:
                    r = set()
                    for x in ds:
                        if x is not None:
                            r |= fr.pointees(x)
                    return r if len(ds) == 1 else self.blur(r)
                finally:
                    self.busy.discard(d)
            return {Loc((d, "*"), None, False)}
        if k == "cond":
            return self.pointees(n["x"]) | self.pointees(n["y"])
        if k == "bin" and n["op"] in ("+", "-"):
            x, y = n["x"], n["y"]
            p, i = (x, y) if self.E.iterlike(strip(x).get("t")) or self.tk(strip(x).get("t"))["k"] in ("arr", "array") else (y, x)
            b = self.pointees(p)
            if n["op"] == "-":
                return self.blur(b)
            return {Loc(l.path, self.index(i), l.sure) if l.idx in (None, ("int", 0)) else Loc(l.path, ("?",), l.sure) for l in b}
        if k == "call":
            return self.result(n)
        if k == "mem":
            b = self.locs(n["b"]) if not n.get("arrow") or strip(n["b"]).get("k") == "this" else self.pointees(n["b"])
            if self.tk(P.dn(n["d"]).get("t"))["k"] in ("arr", "array"):
                return {Loc(l.path + (n["d"],), None, l.sure) for l in b}
            r = set()
            for l in b:
                q = self.E.fields.get(l.path + (n["d"],)) if l.idx is None else None
                r |= q if q else {Loc(l.path + (n["d"], "*"), None, False)}
            return r
        if k == "sub":
            return {Loc(l.path, ("?",), False) for l in self.locs(n)}
        if k in ("new", "null", "int", "str"):
            return set()
        if k == "ctor" and n.get("a"):
            return self.pointees(n["a"][0]) if len(n["a"]) == 1 else self.blur(set().union(*[self.pointees(x) for x in n["a"]]))
        if k == "asg":
            return self.pointees(n["y"])
        return set()

    @staticmethod
    def blur(s):
        return {Loc(l.path, ("?",), l.sure) for l in s}

    def result(self, n):
        """the objects that what a call returns may denote, or point to"""
        P = self.P
        f = n.get("f")
        a = n.get("a", [])
        nm = P.dn(f).get("n", "") if f else ""
        qn = P.qn(f) if f else ""
        if f and f in P.funcs and P.funcs[f].get("body") and f not in self.E.open:
            return self.inlined(n)
        base = qn.split("<")[0]
        if base in PASS and len(a) == 1:
            return self.locs(a[0])
        r = set()
        o = n.get("o")
        if isinstance(o, dict):
            ob = self.pointees(o) if n.get("arrow") or self.E.iterlike(strip(o).get("t")) and nm in ("operator*", "operator->", "operator[]", "get") else self.locs(o)
            if nm in ("operator[]", "at") or n.get("op") == "[]":
                return self.elem(ob, self.index(a[0])) if a else ob
            if nm in ("begin", "cbegin", "data", "front"):
                return {Loc(l.path, ("int", 0), l.sure) if l.idx is None else l for l in ob} if nm == "front" else ob
            r |= ob if nm in ("operator*", "operator->", "get", "operator=") else self.blur(ob)
            if nm in ("operator*", "operator->", "get", "operator=", "operator+=", "operator-=", "operator<<"):
                return r
        if base in ("std::begin", "std::data", "std::cbegin") and len(a) == 1:
            return self.locs(a[0])
        for x in a:
            x = strip(x)
            if isinstance(x, dict) and (x.get("lv") or self.E.iterlike(x.get("t"))):
                r |= self.blur(self.locs(x) if x.get("lv") and not self.E.iterlike(x.get("t")) else self.pointees(x))
        return r

    def inlined(self, n):
        P = self.P
        f = n["f"]
        fr = self.call(n)
        self.E.open.add(f)
        try:
            t = self.tk(P.dn(f).get("ret"))
            r = set()
            for x in nodes(P.funcs[f]["body"]):
                if x.get("k") == "ret" and isinstance(x.get("e"), dict):
                    r |= fr.locs(x["e"]) if t["k"] == "ref" else fr.pointees(x["e"]) if t["k"] == "ptr" else set()
            return r
        finally:
            self.E.open.discard(f)

    def bound(self, f, args, objs, parent=None):
        """the frame of a call of f: its parameters bound to the arguments"""
        P = self.P
        b = {}
        for d, x in zip(P.funcs[f]["params"], args):
            t = self.tk(P.dn(d).get("t"))
            if t["k"] == "ref":
                l = self.locs(x)
                b[d] = l
                if not l:
                    i = self.index(x)
                    if i != ("?",):
                        b[d] = ("val", i)
                continue
            if t["k"] == "ptr" or t["k"] == "rec" and self.E.iterlike(P.dn(d).get("t")):
                b[d] = self.pointees(x)
            elif t["k"] != "rec":
                b[d] = ("val", self.index(x))
        return Frame(self.E, f, b, objs, parent)

    def call(self, n):
        P = self.P
        f = n["f"]
        o = n.get("o")
        objs = set()
        if isinstance(o, dict):
            objs = self.pointees(o) if n.get("arrow") else self.locs(o)
        lam = P.dn(f).get("lambda")
        return self.bound(f, n.get("a", []), objs if not lam else set(self.this), self if lam else None)


class Reach:
    """Accesses of a piece of code, calls included."""

    def __init__(self, E):
        self.E, self.P = E, E.P
        self.cache = {}
        self.stack = []
        self.notes = []          # (where, what): not resolved
        self.fns = set()
        self.calls = 0

    def accesses(self, n, fr, depth=0):
        """[Acc] of everything below the node n, evaluated in the frame fr"""
        r = []
        self.walk(n, fr, r, False)
        return r

    def add(self, r, locs, w, fr, n, why=""):
        for l in locs:
            r.append(Acc(l, w, self.P.where(fr.f, n if isinstance(n, dict) else None), why))

    def walk(self, n, fr, r, asg):
        n = strip(n)
        if isinstance(n, list):
            for x in n:
                self.walk(x, fr, r, False)
            return
        if not isinstance(n, dict):
            return
        k = n.get("k")
        P = self.P
        m = getattr(self, "a_" + str(k), None)
        if m:
            m(n, fr, r)
            return
        for kk, v in n.items():
            if isinstance(v, (dict, list)) and kk not in ("caps",):
                self.walk(v, fr, r, False)

    def read(self, n, fr, r):
        if not self.E.sync(n.get("t")):
            self.add(r, fr.locs(n), False, fr, n)

    def a_ref(self, n, fr, r):
        if P_func(self.P, n["d"]):
            return
        if self.P.qn(n["d"]).startswith("std::"):
            return
        self.read(n, fr, r)

    def a_mem(self, n, fr, r):
        if P_func(self.P, n["d"]):
            self.walk(n["b"], fr, r, False)
            return
        self.read(n, fr, r)
        self.base(n["b"], fr, r)

    def base(self, n, fr, r):
        """what evaluating the base of an access reads: pointers and indices, not the object itself"""
        n = strip(n)
        k = n.get("k")
        if k == "ref" or k == "this":
            if k == "ref" and self.E.isptr(n["d"]):
                self.read(n, fr, r)
            return
        if k == "mem":
            if self.E.isptr(n["d"]):
                self.read(n, fr, r)
            self.base(n["b"], fr, r)
        elif k == "sub":
            self.walk(n["i"], fr, r, False)
            self.base(n["b"], fr, r)
        elif k == "call" and isinstance(n.get("o"), dict) and self.P.dn(n.get("f")).get("n") in READERS and not self.P.funcs.get(n.get("f"), {}).get("body"):
            self.base(n["o"], fr, r)
            for x in n.get("a", []):
                self.walk(x, fr, r, False)
        elif k == "un" and n["op"] in ("*", "&"):
            self.base(n["e"], fr, r)
        else:
            self.walk(n, fr, r, False)

    def a_sub(self, n, fr, r):
        self.read(n, fr, r)
        self.base(n["b"], fr, r)
        self.walk(n["i"], fr, r, False)

    def a_asg(self, n, fr, r):
        self.walk(n["y"], fr, r, False)
        self.write(n["x"], fr, r, n)
        if n["op"] != "=":
            self.walk(n["x"], fr, r, False)

    def write(self, x, fr, r, n, why=""):
        x = strip(x)
        if self.E.sync(x.get("t")):
            return
        self.add(r, fr.locs(x), True, fr, n, why)
        self.base(x, fr, r)

    def a_un(self, n, fr, r):
        if n["op"] in ("++", "--"):
            self.write(n["e"], fr, r, n)
            self.walk(n["e"], fr, r, False)
        elif n["op"] == "&":
            self.base(n["e"], fr, r)
        elif n["op"] == "*":
            self.read(n, fr, r)
            self.base(n["e"], fr, r)
        else:
            self.walk(n["e"], fr, r, False)

    def a_lam(self, n, fr, r):
        for c in n.get("caps", []):
            if c.get("init"):
                self.walk(c["init"], fr, r, False)
            elif c.get("d") and not c.get("byref"):
                self.add(r, fr.var(c["d"]), False, fr, n)

    def a_decl(self, n, fr, r):
        for v in n["v"]:
            dn = self.P.dn(v["d"])
            i = v.get("i")
            if i is None:
                continue
            if self.E.isref(v["d"]):
                self.base(i, fr, r)
            else:
                self.walk(i, fr, r, False)

    def a_rfor(self, n, fr, r):
        d = n["v"]["d"] if isinstance(n.get("v"), dict) else n["v"]
        rd = fr.elem(fr.locs(n["range"]), ("?",))
        if not self.E.isref(d):
            self.add(r, rd, False, fr, n)
        self.base(n["range"], fr, r)
        self.walk(n["b"], fr, r, False)

    def a_ctor(self, n, fr, r):
        self.invoke(n, fr, r)

    def a_call(self, n, fr, r):
        self.invoke(n, fr, r)

    def arg(self, x, t, fr, r, n, project):
        """an argument of a parameter of type t handed to a function that is not analysed"""
        E = self.E
        tt = E.tk(t)
        x = strip(x)
        if not isinstance(x, dict):
            return
        if tt["k"] == "ref":
            if E.const(t) or "&&" in tt.get("s", ""):
                self.walk(x, fr, r, False) if not x.get("lv") else (self.read(x, fr, r), self.base(x, fr, r))
            else:
                self.write(x, fr, r, n, "passed to a function that may change it")
            return
        if tt["k"] == "ptr" or E.iterlike(t):
            if tt["k"] == "ptr" and E.const(t) or "const_iterator" in tt.get("s", ""):
                self.add(r, fr.pointees(x), False, fr, n)
            elif tt["k"] == "ptr" or "iterator" in tt.get("s", ""):
                self.add(r, {Loc(l.path, l.idx, l.sure and tt["k"] == "ptr") for l in fr.pointees(x)}, True, fr, n, "passed to a function that may change it")
            self.base(x, fr, r)
            return
        self.walk(x, fr, r, False)

    def invoke(self, n, fr, r):
        P = self.P
        f = n.get("f")
        a = n.get("a", [])
        self.calls += 1
        if not f:
            fe = strip(n.get("fe") or {})
            for x in a:
                self.walk(x, fr, r, False)
            self.indirect(n, fe, fr, r)
            return
        dn = P.dn(f)
        qn = P.qn(f)
        base = qn.split("<")[0]
        if any(base.startswith(x) for x in LOCKS):
            raise Quit("a lock at " + P.where(fr.f, n))
        if any(base.startswith(x) for x in FOREIGN):
            raise Quit("%s at %s" % (base, P.where(fr.f, n)))
        fn = P.funcs.get(f)
        if fn and fn.get("body") and (dn.get("proj") or dn.get("lambda") or not qn.startswith("std::")):
            self.project(n, f, fr, r)
            return
        nm = dn.get("n", "")
        if nm in UNSAFE and not dn.get("rec"):
            r.append(Acc(Loc(("g", "library state of " + nm)), True, P.where(fr.f, n), "not safe to be called concurrently"))
        if base in PASS:
            for x in a:
                self.base(x, fr, r) if strip(x).get("lv") else self.walk(x, fr, r, False)
            return
        o = n.get("o")
        if isinstance(o, dict):
            ob = fr.pointees(o) if n.get("arrow") else fr.locs(o)
            t = strip(o).get("t")
            it = self.E.iterlike(t)
            if it and nm in ("operator*", "operator->", "operator[]", "get"):
                self.add(r, fr.pointees(o), False, fr, n)
                self.base(o, fr, r)
            elif not self.E.sync(t) and not qn.startswith("std::basic_ostream") and not qn.startswith("std::thread"):
                w = not dn.get("constm") and not dn.get("static") and nm not in READERS
                if nm in READERS and a and (nm in ("operator[]", "at")):
                    ob = fr.elem(ob, fr.index(a[0]))
                elif nm in READERS and nm not in ("find", "lower_bound", "upper_bound", "c_str") and (n.get("lv") or self.E.iterlike(n.get("t"))):
                    ob = set()      # only an access path
                self.add(r, ob, w, fr, n)
                self.base(o, fr, r)
        pt = dn.get("pt") or []
        for i, x in enumerate(a):
            if nm in FORWARD or base.startswith("std::thread"):
                self.walk(x, fr, r, False)
            else:
                self.arg(x, pt[i] if i < len(pt) else None, fr, r, n, False)
        for x in a:
            self.functor(x, fr, r, n)

    def functor(self, x, fr, r, n):
        """a function object handed to a library function is called there"""
        x = strip(x)
        if not isinstance(x, dict):
            return
        if x.get("k") == "lam":
            self.body(x["f"], Frame(self.E, x["f"], {}, fr.this, fr), r, n)
            return
        t = self.E.tk(x.get("t"))
        if t["k"] == "ref":
            t = self.E.tk(t["e"])
        if t["k"] == "rec":
            rd = self.P.dn(t["d"])
            if rd.get("lambda") or rd.get("proj"):
                for m in rd.get("methods", []):
                    if self.P.dn(m).get("op") == "()" and m in self.P.funcs and self.P.funcs[m].get("body"):
                        self.body(m, Frame(self.E, m, {}, fr.locs(x) if not rd.get("lambda") else fr.this, fr if rd.get("lambda") else None), r, n)

    def indirect(self, n, fe, fr, r):
        P = self.P
        if self.E.taken is None:
            self.E.taken = {}
            for f in P.funcs:
                if not P.funcs[f].get("body"):
                    continue
                for x in nodes(P.funcs[f]["body"]):
                    if x.get("k") == "ref" and P_func(P, x["d"]) and x["d"] in P.funcs:
                        self.E.taken[x["d"]] = f
        na = len(n.get("a", []))
        cand = [g for g in self.E.taken if len(P.funcs[g]["params"]) == na and P.funcs[g].get("body")]
        if not cand:
            self.notes.append((P.where(fr.f, n), "call through a pointer"))
        for g in cand:
            self.body(g, fr.bound(g, n.get("a", []), set()), r, n)

    def project(self, n, f, fr, r):
        P = self.P
        dn = P.dn(f)
        if n.get("k") == "ctor":
            objs = {Loc(("new",))}
            nf = fr.bound(f, n.get("a", []), objs)
        else:
            nf = fr.call(n)
            if isinstance(n.get("o"), dict):
                self.base(n["o"], fr, r)
        for d, x in zip(P.funcs[f]["params"], n.get("a", [])):
            x = strip(x)
            if self.E.isref(d) and isinstance(x, dict) and x.get("lv"):
                self.base(x, fr, r)
            else:
                self.walk(x, fr, r, False)
        self.body(f, nf, r, n)

    def body(self, f, nf, r, n):
        """accesses of a called function, seen from its caller: those of the callee's own variables are left out"""
        P = self.P
        self.fns.add(f)
        sig = (f, tuple(sorted((d, tuple(sorted(map(repr_, b)))) if isinstance(b, set) else (d, (repr(b),)) for d, b in nf.bind.items())),
               tuple(sorted(map(repr_, nf.this))), id(nf.parent) if nf.parent else 0)
        if sig in self.cache:
            r.extend(self.cache[sig])
            return
        if f in self.stack or len(self.stack) > 40:
            return
        self.stack.append(f)
        try:
            q = []
            fn = P.funcs[f]
            for i in fn.get("inits", []):
                if isinstance(i, dict) and isinstance(i.get("e"), dict):
                    m = i.get("m")
                    if m and self.E.isref(m):
                        self.base(i["e"], nf, q)
                    else:
                        self.walk(i["e"], nf, q, False)
            self.walk(fn["body"], nf, q, False)
        finally:
            self.stack.pop()
        own = set(fn["params"]) | self.locals_(f)
        out, seen = [], set()
        for a in q:
            h = a.loc.path[0]
            if h in own or h == "new":
                continue
            s = (a.loc, a.w)
            if s not in seen:
                seen.add(s)
                out.append(a)
        self.cache[sig] = out
        r.extend(out)

    def locals_(self, f):
        fn = self.P.funcs[f]
        if "_locals" not in fn:
            s = set()
            for n in nodes({"k": "x", "a": [fn["body"] or {}]}):
                if n.get("k") == "decl":
                    s |= {v["d"] for v in n["v"] if not v.get("static")}
                elif n.get("k") == "rfor":
                    s.add(n["v"]["d"] if isinstance(n["v"], dict) else n["v"])
                elif n.get("k") == "try":
                    s |= {h["d"] for h in n["h"] if h.get("d")}
                elif n.get("k") in ("if", "while", "for") and isinstance(n.get("cv"), dict):
                    s.add(n["cv"]["d"])
            fn["_locals"] = s
        return fn["_locals"]


def repr_(l):
    return repr(l.k())


def P_func(P, d):
    return P.dn(d).get("k") in ("function", "Function", "func", "CXXMethod", "CXXConstructor") or d.startswith("f:")


# ---------------------------------------------------------------------------------------------- coordination
class St:
    """h: holder of threads -> RUN/JOINED/UNSURE, e: error slots -> PENDING/SET/CLEAR/UNSURE, lost: an error was caught again,
    bodies: holder -> code running, left: variables of left scopes"""
    __slots__ = ("h", "e", "lost", "bodies", "ej", "ee")

    def __init__(self):
        self.h, self.e, self.lost, self.bodies, self.ej, self.ee = {}, {}, None, {}, {}, {}

    def copy(self):
        s = St()
        s.h, s.e, s.lost, s.bodies, s.ej, s.ee = dict(self.h), dict(self.e), self.lost, dict(self.bodies), dict(self.ej), dict(self.ee)
        return s

    def sig(self):
        return repr((sorted(self.h.items()), sorted(self.e.items()), self.lost, sorted((k, sorted(v)) for k, v in self.bodies.items()),
                     sorted(self.ej.items()), sorted(self.ee.items())))


THREAD, ERROR = "std::thread", "std::__exception_ptr::exception_ptr"
CONTAINERS = ("std::vector", "std::array", "std::deque", "std::list", "std::valarray")
THROWING = ("std::rethrow_exception",)
LIMIT = 4000


class Conc:
    def __init__(self, P, omp):
        self.P, self.omp = P, omp
        self.E = Effects(P)
        self.R = Reach(self.E)
        self.races, self.joins, self.errors, self.open = [], [], [], []      # findings: (what, where)
        self.sites, self.bodies = {}, {}       # site -> accesses
        self.nodeid = 0
        self.loops = []           # walked loops: dict(var, full for holders …)
        self.scopes = []          # variables declared, innermost last
        self.stack = []
        self.starts, self.joinsites, self.rethrows, self.handlers = set(), set(), set(), set()
        self.sizes = {}           # container path -> key of its size
        self.startbound = {}      # holder -> key of the bound of the loop that starts its threads
        self.inst = set()
        self.found = set()
        self.visited = set()

    # ------------------------------------------------------------ types
    def kind(self, t):
        """thread, threads, error, errors or None"""
        P = self.P
        d = self.E.tk(t)
        while d["k"] in ("ref", "ptr", "arr"):
            if d["k"] == "arr":
                k = self.kind(d["e"])
                return k + "s" if k in ("thread", "error") else k
            if d["k"] == "ptr":
                return None
            d = self.E.tk(d["e"])
        if d["k"] != "rec":
            return None
        q = P.qn(d["d"])
        if q == "std::thread":
            return "thread"
        if q.endswith("exception_ptr"):
            return "error"
        if P.dn(d["d"]).get("tmpl") in CONTAINERS or q.split("<")[0] in CONTAINERS:
            a = (P.dn(d["d"]).get("targs") or [""])[0]
            if a == "std::thread" or q.startswith(tuple(c + "<std::thread" for c in CONTAINERS)):
                return "threads"
            if a.endswith("exception_ptr") or "<std::__exception_ptr::exception_ptr" in q:
                return "errors"
            if a.startswith(("std::future", "std::shared_future", "std::jthread")):
                raise Quit("a future")
        if q.split("<")[0] in ("std::future", "std::shared_future", "std::jthread", "std::packaged_task", "std::promise"):
            raise Quit(q.split("<")[0])
        return None

    def report(self, what, where, kind, sure=True):
        (kind if sure else self.open).append((what, where)) if (what, where) not in (kind if sure else self.open) else None

    def at(self, n):
        return self.P.where(self.stack[-1], n if isinstance(n, dict) and n.get("l") else None)

    def name(self, path):
        return ".".join(self.P.dn(d).get("n") or d for d in path if d != "*")

    # ------------------------------------------------------------ roots
    def root(self, n, fr):
        """path of the thread or error object an expression denotes, whether it is an element, and its index"""
        ls = {(l.path, l.idx) for l in fr.locs(n)}
        if len(ls) != 1:
            raise Quit("which object %s is" % self.at(n))
        return next(iter(ls))

    def obj(self, n, fr):
        return self.root(n, fr)

    # ------------------------------------------------------------ running code
    def lam_accesses(self, x, args, fr, holder, n):
        """accesses of the function a thread runs, the exceptions it lets out, its error slots"""
        x = strip(x)
        f, nf = self.callee(x, args, fr)
        r = []
        self.R.body(f, nf, r, n)
        copies = set()
        fr2 = nf
        for y in self.lams(x, fr):
            copies |= {c["d"] for c in y.get("caps", []) if c.get("d") and not c.get("byref")}
        return f, nf, [a for a in r if not (len(a.loc.path) == 1 and a.loc.path[0] in copies)]

    def lams(self, x, fr, depth=0):
        """the lambda expressions a callable is made of"""
        x = strip(x)
        for y in nodes(x):
            if y.get("k") == "lam":
                yield y
            elif y.get("k") == "ref" and depth < 3:
                ds, df = fr.defs(y["d"])
                for z in ds or ():
                    if isinstance(z, dict) and self.E.tk(self.P.dn(y["d"]).get("t"))["k"] == "rec" and strip(z).get("k") in ("lam", "ctor"):
                        yield from self.lams(z, df, depth + 1)

    def callee(self, x, args, fr):
        P = self.P
        x = strip(x)
        while isinstance(x, dict) and (x.get("k") == "ctor" or x.get("k") == "call" and P.qn(x.get("f", "")).split("<")[0] in PASS) and len(x.get("a", [])) == 1:
            x = strip(x["a"][0])
        if isinstance(x, dict) and x.get("k") == "ref":
            ds, df = fr.defs(x["d"])
            b = fr.lookup(x["d"])
            if ds and len(ds) == 1 and isinstance(ds[0], dict):
                return self.callee(ds[0], args, df) if strip(ds[0]).get("k") in ("lam", "ctor", "ref", "call") else self.quit(x)
            if isinstance(b, set) and len(b) == 1:
                l = next(iter(b))
                if len(l.path) == 1 and l.idx is None:
                    return self.callee({"k": "ref", "d": l.path[0]}, args, fr.parent or fr)
        if isinstance(x, dict) and x.get("k") == "lam":
            nf = fr.bound(x["f"], args, set(fr.this), fr)
            return x["f"], nf
        self.quit(x)

    def quit(self, x):
        raise Quit("what a thread runs at " + self.at(x))

    def start(self, holder, fn, args, fr, n, st):
        """a thread is started and held by holder"""
        f, nf, r = self.lam_accesses(fn, args, fr, holder, n)
        site = (self.stack[-1], n.get("l"), f)
        self.starts.add(self.at(n))
        self.sites[site] = r
        self.escapes(f, nf, n, site)
        self.launch(site, r, holder, fr, n, st, self.captures(fn, fr))

    def captures(self, x, fr):
        x = strip(x)
        return x

    def launch(self, site, r, holder, fr, n, st, cap):
        again = site in st.bodies.get(holder, ()) and st.h.get(holder) in (RUN, UNSURE)
        if again:
            self.conflict(r, r, True, n, self.instvars(holder))
        for h, ss in st.bodies.items():
            if st.h.get(h) in (RUN, UNSURE):
                for s in ss:
                    if s != site:
                        self.conflict(r, self.sites[s], False, n, set())
        st.h[holder] = RUN
        st.bodies[holder] = frozenset(st.bodies.get(holder, frozenset()) | {site})
        for p in self.slots.get(site, ()):
            st.e[p] = PENDING

    def instvars(self, holder):
        """variables of the loops whose iterations start threads while those of the iterations before run"""
        return {l["var"] for l in self.loops if l.get("var") and holder in l.get("live", ())}

    def conflict(self, xs, ys, same, n, iv):
        """accesses of concurrent evaluations: same: two instances of one code, that differ in the loop variable"""
        for a in xs:
            for b in ys:
                if not (a.w or b.w):
                    continue
                if not a.w and same:
                    continue          # seen the other way round
                if not overlap(a.loc.path, b.loc.path):
                    continue
                if a.loc.path[0] == "new" or a.loc.path[0] in iv and not a.w and not b.w:
                    continue
                ia, ib = a.loc.idx, b.loc.idx
                if len(a.loc.path) == len(b.loc.path) and ia is not None and ib is not None:
                    if same:
                        if ia == ib and self.injective(ia, iv):
                            continue
                    elif ia[0] == ib[0] == "int" and ia != ib:
                        continue
                sure = a.loc.sure and b.loc.sure and "*" not in a.loc.path
                if len(a.loc.path) == len(b.loc.path) and ia is not None and ib is not None:
                    sure = sure and (self.certain(ia, ib, iv) if same else False)
                elif a.loc.path != b.loc.path:
                    sure = sure and (ia is None and ib is None or len(a.loc.path) != len(b.loc.path))
                self.report("%s is written by one concurrent evaluation and %s by another%s" % (
                    self.show(a if a.w else b), "written" if a.w and b.w else "read", " (%s)" % a.why if a.why else ""), (a if a.w else b).where, self.races, sure)

    def show(self, a):
        nm = self.name(a.loc.path)
        if a.loc.path[0] == "g" and len(a.loc.path) == 2:
            nm = self.P.dn(a.loc.path[1]).get("n") or a.loc.path[1]
        return ("an element of " if a.loc.idx is not None else "") + nm

    @staticmethod
    def injective(i, iv):
        while i[0] == "plus":
            i = i[1]
        return i[0] == "var" and i[1] in iv

    def certain(self, ia, ib, iv):
        """two instances certainly meet: an index that does not depend on the instance, or a neighbour's element"""
        if ia == ib and ia[0] in ("int", "many"):
            return True
        if ia == ib and ia[0] == "var" and ia[1] not in iv:
            return self.P.dn(ia[1]).get("k") in ("local", "param") and ia[1] in self.outer
        if ia != ib and self.injective(ia, iv) and self.injective(ib, iv):
            return True
        if ia[0] == "int" and self.injective(ib, iv) or ib[0] == "int" and self.injective(ia, iv):
            return True
        return False

    outer = frozenset()

    # ------------------------------------------------------------ what a running function lets out
    def escapes(self, f, nf, n, site):
        fn = self.P.funcs[f]
        slots = set()
        if self.P.dn(f).get("noexcept") and False:
            pass
        self.guarded(fn["body"], nf, slots, [f], False, n)
        self.slots.setdefault(site, set()).update(slots)

    slots = None

    def guarded(self, n, fr, slots, stack, inside, site):
        """every statement that may throw is inside a try with a handler for everything, that stores the exception"""
        n = strip(n)
        if isinstance(n, list):
            for x in n:
                self.guarded(x, fr, slots, stack, inside, site)
            return
        if not isinstance(n, dict):
            return
        k = n.get("k")
        if k == "lam":
            return
        if k == "try":
            every = any(not h.get("t") for h in n["h"])
            self.guarded(n["b"], fr, slots, stack, inside or every, site)
            throwing = self.throwing(n["b"], stack, 0)
            for h in n["h"]:
                self.handlers.add(self.P.where(fr.f, h))
                if throwing:
                    self.handler(h, n, fr, slots, stack, inside, site)
            return
        if not inside:
            w = self.thrower(n)
            if w:
                self.report("an exception of %s leaves the function that a thread executes" % w, self.P.where(fr.f, n), self.errors)
                return
            if k == "call" and n.get("f") in self.P.funcs and self.P.funcs[n["f"]].get("body") and n["f"] not in stack and len(stack) < 6:
                g = n["f"]
                if self.evaluates(g):
                    for x in n.get("a", []):
                        self.guarded(x, fr, slots, stack, inside, site)
                    self.guarded(self.P.funcs[g]["body"], fr.call(n), slots, stack + [g], inside, site)
                    return
        elif k == "call" and n.get("f") in self.P.funcs and self.P.dn(n["f"]).get("lambda") and n["f"] not in stack and len(stack) < 6:
            # a closure called under protection may itself store what it catches
            self.guarded(self.P.funcs[n["f"]]["body"], fr.call(n), slots, stack + [n["f"]], inside, site)
        for v in n.values():
            if isinstance(v, (dict, list)):
                self.guarded(v, fr, slots, stack, inside, site)

    def evaluates(self, g):
        """a helper of the optimizer that calls the objective function or the constraint, not these themselves"""
        return not self.objective(g) and (self.P.dn(g).get("lambda") or any(self.thrower(x) for x in nodes(self.P.funcs[g]["body"])))

    def objective(self, f):
        """the objective function, a constraint or an integrand"""
        dn = self.P.dn(f)
        return (dn.get("op") == "()" and not dn.get("lambda") or dn.get("n") == "cost") and bool(dn.get("rec"))

    def thrower(self, n):
        """evaluations of the objective function or the constraint, and exceptions thrown explicitly"""
        if n.get("k") == "throw":
            return "a throw expression"
        if n.get("k") == "call" and n.get("f") and self.objective(n["f"]):
            rec = self.P.dn(n["f"])["rec"]
            if self.P.qn(n["f"]).startswith("std::") or self.P.dn(n["f"]).get("noexcept"):
                return None
            return "the evaluation of " + (self.P.dn(rec).get("n") or "?")
        if n.get("k") == "call" and n.get("f") and self.P.qn(n["f"]) in THROWING:
            return "rethrow_exception"
        return None

    def throwing(self, n, stack, depth):
        for x in nodes(n):
            if self.thrower(x):
                return True
            if x.get("k") == "call" and x.get("f") in self.P.funcs and x["f"] not in stack and depth < 4 and self.P.funcs[x["f"]].get("body"):
                if self.throwing(self.P.funcs[x["f"]]["body"], stack + [x["f"]], depth + 1):
                    return True
        return False

    def handler(self, h, n, fr, slots, stack, inside, site):
        P = self.P
        stored, rethrown, other = False, False, False
        tw = {a.loc.path for a in self.quiet(n["b"], fr) if a.w}
        for x in nodes(h["b"]):
            q = P.qn(x.get("f", "")) if x.get("k") in ("call", "ctor") else ""
            if x.get("k") == "throw":
                rethrown = True
            elif q in ("std::current_exception",) or q.startswith("std::make_exception_ptr"):
                stored = True
            elif x.get("k") == "call" and x.get("f") in P.funcs and not P.dn(x["f"]).get("noexcept"):
                other = True
        if rethrown:
            if not inside:
                self.report("an exception leaves the function that a thread executes", P.where(fr.f, h), self.errors, not other)
            return
        if stored:
            found = False
            for x in nodes(h["b"]):
                tgt = None
                if x.get("k") == "call" and x.get("op") == "=" and isinstance(x.get("o"), dict):
                    tgt, val = x["o"], x["a"][0]
                elif x.get("k") == "asg":
                    tgt, val = x["x"], x["y"]
                if tgt is not None and self.kind(strip(tgt).get("t")) == "error":
                    ls = fr.locs(tgt)
                    if len(ls) == 1:
                        l = next(iter(ls))
                        slots.add((l.path, l.idx))
                        found = True
            if not found:
                self.report("where an exception of an evaluation is stored", P.where(fr.f, h), self.open)
            return
        if other:
            self.report("what happens to an exception of an evaluation", P.where(fr.f, h), self.open)
            return
        hw = {a.loc.path for a in self.quiet(h["b"], fr) if a.w}
        if hw - tw:
            self.report("an exception of an evaluation is noted in another way", P.where(fr.f, h), self.open)
        else:
            self.report("an exception of an evaluation is caught and dropped", P.where(fr.f, h), self.errors)

    def quiet(self, n, fr):
        r = []
        self.R.walk(n, fr, r, False)
        return r

    # ------------------------------------------------------------ walking the coordinator
    def function(self, f):
        self.slots = {}
        self.visited.add(f)
        fr = Frame(self.E, f)
        self.stack = [f]
        self.top = f
        st = St()
        for o, s in self.block(self.P.funcs[f]["body"], [st], fr):
            self.exit(o, s, self.P.funcs[f]["body"], "the function is left")

    def exit(self, o, s, n, what, only=None):
        for h, v in s.h.items():
            if only is not None and h not in only:
                continue
            if v in (RUN, UNSURE):
                self.report("%s while threads held by %s may still run%s" % (what, self.name(h), " (on the path of an exception)" if o == "throw" else ""),
                            self.lastat or self.at(n), self.joins, v == RUN)
                s.h[h] = JOINED
        if o not in ("throw",):
            for e, v in s.e.items():
                if only is not None and e[0] not in only:
                    continue
                if v in (PENDING, SET, UNSURE):
                    self.report("an exception stored in %s is dropped" % self.name(e[0]), self.at(n), self.errors, v != UNSURE)
                    s.e[e] = CLEAR
            if s.lost and only is None:
                self.report("an exception of an evaluation is caught by the coordinator and dropped", s.lost, self.errors)

    lastat = None

    def dedup(self, rs):
        d = {}
        for o, s in rs:
            d.setdefault((o, s.sig()), (o, s))
        if len(d) > LIMIT:
            raise Quit("too many states")
        return list(d.values())

    def block(self, n, sts, fr):
        """[(outcome, state)]"""
        if n is None:
            return [("fall", s) for s in sts]
        body = n["s"] if n.get("k") == "block" else [n]
        self.scopes.append([])
        cur, out = [s for s in sts], []
        for x in body:
            nxt = []
            for s in cur:
                for o, t in self.stmt(x, s, fr):
                    (nxt if o == "fall" else out).append(t if o == "fall" else (o, t))
            cur = [s for _, s in self.dedup([("fall", s) for s in nxt])]
            if not cur:
                break
        out += [("fall", s) for s in cur]
        vars_ = self.scopes.pop()
        if vars_:
            out = [(o, self.leave(o, s.copy(), vars_, n, fr)) for o, s in out]
        return self.dedup(out)

    def leave(self, o, s, vars_, n, fr):
        last = (n.get("s") or [n])[-1] if isinstance(n, dict) else n
        # destructors, in reverse order
        for d in reversed(vars_):
            for g in self.dtor(d):
                res = self.call_body(g, Frame(self.E, g, {}, {Loc((d,))}), [s])
                if len(res) != 1:
                    raise Quit("a destructor with several outcomes")
                s = res[0][1].copy()
            p = {h for h in s.h if h[0] == d}
            if p:
                self.exit(o if o == "throw" else "x", s, last, "a thread object is destroyed", p)
                for h in p:
                    s.h.pop(h, None)
                    s.bodies.pop(h, None)
            q = [e for e in s.e if e[0][0] == d]
            if q:
                if o != "throw":
                    self.exit("x", s, last, "", {e[0] for e in q})
                for e in q:
                    s.e.pop(e, None)
            for h, v in s.h.items():
                if v in (RUN, UNSURE):
                    for site in s.bodies.get(h, ()):
                        if any(a.loc.path[0] == d for a in self.sites[site]):
                            self.report("%s ends its life while a thread that uses it may still run" % (self.P.dn(d).get("n")), self.at(last), self.joins, v == RUN)
                            break
        return s

    def dtor(self, d):
        P = self.P
        t = self.E.tk(P.dn(d).get("t"))
        if t["k"] != "rec" or not P.dn(t["d"]).get("proj") or P.dn(t["d"]).get("lambda"):
            return []
        return [m for m in P.dn(t["d"]).get("methods", []) if P.dn(m).get("fk") == "dtor" and m in P.funcs and P.funcs[m].get("body") and not P.funcs[m].get("defaulted")
                and self.relevant(P.funcs[m]["body"])]

    def stmt(self, n, st, fr):
        if n is None:
            return [("fall", st)]
        k = n.get("k")
        f = getattr(self, "s_" + str(k), None)
        if f:
            return f(n, st, fr)
        return self.expr(n, st, fr)

    # every expression: starts, joins, calls, accesses, possible exceptions
    def expr(self, n, st, fr):
        n0 = n
        n = strip(n)
        if not isinstance(n, dict):
            return [("fall", st)]
        if not self.relevant(n):
            self.touch(n, st, fr)
            r = [("fall", st)]
            if self.maythrow(n):
                r.append(("throw", st))
            return r
        k = n.get("k")
        f = getattr(self, "x_" + str(k), None)
        if f:
            return f(n, st, fr)
        return self.seq([v for v in self.parts(n)], st, fr)

    def parts(self, n):
        for kk, v in n.items():
            if isinstance(v, dict):
                yield v
            elif isinstance(v, list):
                for x in v:
                    if isinstance(x, dict) and x.get("k"):
                        yield x

    def seq(self, ns, st, fr):
        cur, out = [st], []
        for x in ns:
            nxt = []
            for s in cur:
                for o, t in self.expr(x, s, fr):
                    (nxt if o == "fall" else out).append(t if o == "fall" else (o, t))
            cur = [s for _, s in self.dedup([("fall", s) for s in nxt])]
        return self.dedup(out + [("fall", s) for s in cur])

    def relevant(self, n, depth=0, seen=None):
        """whether threads or stored exceptions are handled below n"""
        if isinstance(n, dict) and "_rel" in n:
            return n["_rel"]
        seen = seen if seen is not None else set()
        r = False
        P = self.P
        for x in nodes(n):
            k = x.get("k")
            if k == "omp" or k in ("throw",):
                r = True
                break
            if k in ("ret", "break", "continue") :
                r = True
                break
            if k in ("call", "ctor") and x.get("f"):
                q = P.qn(x["f"])
                if q.startswith(("std::thread::", "std::rethrow_exception", "std::terminate", "std::exit", "std::abort")) or any(q.startswith(z) for z in FOREIGN):
                    r = True
                    break
                g = x["f"]
                if any(self.kindq(y.get("t")) for y in x.get("a", []) + ([x["o"]] if isinstance(x.get("o"), dict) else []) if isinstance(y, dict)):
                    r = True
                    break
                if g in P.funcs and P.funcs[g].get("body") and g not in seen and depth < 5 and (P.dn(g).get("proj") or P.dn(g).get("lambda")) and not self.objective(g):
                    seen.add(g)
                    if self.relevant_body(g, depth, seen):
                        r = True
                        break
            if k == "decl" and any(self.kindq(P.dn(v["d"]).get("t")) or self.dtor(v["d"]) for v in x["v"]):
                r = True
                break
        if isinstance(n, dict) and depth == 0:
            n["_rel"] = r
        return r

    def kindq(self, t):
        return self.kind(t) in ("thread", "threads", "error", "errors")

    def relevant_body(self, g, depth, seen):
        """a callee matters when it handles threads, stored exceptions or throws stored ones"""
        P = self.P
        for x in nodes(P.funcs[g]["body"]):
            if x.get("k") == "omp":
                return True
            if x.get("k") in ("call", "ctor") and x.get("f"):
                q = P.qn(x["f"])
                if q.startswith(("std::thread::", "std::rethrow_exception", "std::current_exception")) or any(q.startswith(z) for z in FOREIGN):
                    return True
                h = x["f"]
                if h in P.funcs and P.funcs[h].get("body") and h not in seen and depth < 5 and (P.dn(h).get("proj") or P.dn(h).get("lambda")) and not self.objective(h):
                    seen.add(h)
                    if self.relevant_body(h, depth + 1, seen):
                        return True
        return any(self.kindq(P.dn(d).get("t")) for d in P.funcs[g]["params"])

    def maythrow(self, n):
        for x in nodes(n):
            if self.thrower(x):
                return True
            if x.get("k") == "new":
                return True
            if x.get("k") == "call" and x.get("f") in self.P.funcs and self.P.funcs[x["f"]].get("body") and not self.P.dn(x["f"]).get("noexcept"):
                if self.throwing(self.P.funcs[x["f"]]["body"], [x["f"]], 0):
                    return True
        return False

    def touch(self, n, st, fr, skip=()):
        """accesses of the coordinator while threads run"""
        run = [h for h, v in st.h.items() if v in (RUN, UNSURE)]
        if not run:
            return
        r = []
        self.R.walk(n, fr, r, False)
        self.against(r, st, n, run, skip)

    def against(self, r, st, n, run=None, skip=()):
        for h in run if run is not None else [h for h, v in st.h.items() if v in (RUN, UNSURE)]:
            for site in st.bodies.get(h, ()):
                for b in self.sites[site]:
                    for a in r:
                        if not (a.w or b.w) or not overlap(a.loc.path, b.loc.path) or a.loc.path[0] == "new":
                            continue
                        if a.loc.idx is not None and b.loc.idx is not None and st.ej.get(h):
                            continue        # an element whose thread has been joined
                        sure = a.loc.sure and b.loc.sure and "*" not in a.loc.path and st.h[h] == RUN and not (a.loc.idx and b.loc.idx and a.loc.idx != b.loc.idx and a.loc.idx[0] == "?")
                        self.report("%s is %s while threads held by %s, which %s it, may still run" % (
                            self.show(a), "written" if a.w else "used", self.name(h), "write" if b.w else "read"), a.where, self.joins if not a.w else self.races, sure)

    # ------------------------------------------------------------ statements
    def s_block(self, n, st, fr):
        return self.block(n, [st], fr)

    def s_decl(self, n, st, fr):
        P = self.P
        cur = [st]
        out = []
        for v in n["v"]:
            d = v["d"]
            if not v.get("static") and self.scopes:
                self.scopes[-1].append(d)
            k = self.kind(P.dn(d).get("t"))
            nxt = []
            for s in cur:
                if self.E.isref(d) and isinstance(v.get("i"), dict) and strip(v["i"]).get("lv") and not self.acts(v["i"]):
                    r = []
                    self.R.base(v["i"], fr, r)
                    self.against(r, s, n)
                    nxt.append(s)
                    continue
                if self.E.isref(d):
                    i = v.get("i")
                    for o, t in (self.expr(i, s, fr) if i is not None and self.relevant(i) else [("fall", s)]):
                        (nxt if o == "fall" else out).append(t if o == "fall" else (o, t))
                    continue
                if k in ("thread", "threads"):
                    for o, t in self.held((d,), v.get("i"), s, fr, v, True):
                        (nxt if o == "fall" else out).append(t if o == "fall" else (o, t))
                    continue
                i = strip(v.get("i"))
                self.fieldsof(d, i, fr)
                t = self.E.tk(P.dn(d).get("t"))
                if isinstance(i, dict) and i.get("k") == "ctor" and i.get("a") and t["k"] == "rec" and (P.dn(t["d"]).get("tmpl") or "") in CONTAINERS:
                    x = i["a"][-1] if (P.dn(t["d"]).get("tmpl") == "std::valarray" and len(i["a"]) == 2) else i["a"][0]
                    self.sizes[(d,)] = self.bkey(x, fr)
                if isinstance(i, dict) and i.get("k") == "lam":
                    self.touch(i, s, fr)
                    nxt.append(s)
                    continue
                for o, t in self.expr(i, s, fr) if i is not None else [("fall", s)]:
                    (nxt if o == "fall" else out).append(t if o == "fall" else (o, t))
            cur = nxt
        return out + [("fall", s) for s in cur]

    def acts(self, n):
        """whether a thread may be started or joined below n, or an exception thrown again"""
        for x in nodes(n):
            if x.get("k") in ("call", "ctor") and x.get("f"):
                q = self.P.qn(x["f"])
                if q.startswith(("std::thread::", "std::rethrow")) or self.P.dn(x["f"]).get("n") in ("emplace_back", "push_back") or x["f"] in self.P.funcs and self.P.funcs[x["f"]].get("body") and self.relevant_body(x["f"], 0, {x["f"]}):
                    return True
        return False

    def fieldsof(self, d, i, fr):
        """what the references and pointers in a local object refer to"""
        P = self.P
        i = strip(i)
        t = self.E.tk(P.dn(d).get("t"))
        if not isinstance(i, dict) or t["k"] != "rec" or not P.dn(t["d"]).get("proj") or P.dn(t["d"]).get("lambda"):
            return
        put = lambda m, x, f2: self.E.fields.__setitem__((d, m), f2.locs(x) if self.E.isref(m) else f2.pointees(x))
        if i.get("k") == "ctor" and i.get("f") in P.funcs:
            f2 = fr.bound(i["f"], i.get("a", []), {Loc((d,))})
            for x in P.funcs[i["f"]].get("inits", []):
                if isinstance(x, dict) and x.get("m") and (self.E.isref(x["m"]) or self.E.isptr(x["m"])):
                    put(x["m"], x["e"], f2)
        elif i.get("k") == "ilist":
            for m, x in zip(P.dn(t["d"]).get("fields", []), i.get("a", [])):
                if self.E.isref(m) or self.E.isptr(m):
                    put(m, x, fr)

    def x_un(self, n, st, fr):
        if n["op"] == "&" and not self.acts(n["e"]):
            r = []
            self.R.base(n["e"], fr, r)
            self.against(r, st, n)
            return [("fall", st)]
        if n["op"] in ("++", "--"):
            self.touch(n, st, fr)
        return self.expr(n["e"], st, fr)

    def held(self, path, i, st, fr, n, fresh):
        """a variable of type thread, or a container of threads, gets its value"""
        i = strip(i)
        P = self.P
        s = st.copy()
        if fresh:
            s.h.pop(path, None)
            s.bodies.pop(path, None)
        if i is None:
            return [("fall", s)]
        if i.get("k") == "ctor" and (P.dn(i["f"]).get("copy") or P.qn(i["f"]).startswith("std::thread") and len(i.get("a", [])) == 1 and self.kind(strip(i["a"][0]).get("t")) == "thread") and len(i["a"]) == 1:
            return self.held(path, i["a"][0], st, fr, n, fresh)
        if i.get("k") == "ctor":
            a = i.get("a", [])
            if P.qn(i["f"]).startswith("std::thread"):
                if not a:
                    return [("fall", s)]
                out = [("throw", st)]
                s2 = s
                self.start(path, a[0], a[1:], fr, i, s2)
                return [("fall", s2)] + out
            # a container
            if a and any(self.kindq(strip(x).get("t")) for x in a if isinstance(x, dict)):
                raise Quit("a copy of a container of threads")
            if a:
                self.sizes[path] = self.bkey(a[0], fr)
            return [("fall", s)]
        if i.get("k") == "call" and P.qn(i.get("f", "")).split("<")[0] in ("std::move", "std::forward") and len(i["a"]) == 1:
            q, idx = self.obj(i["a"][0], fr)
            if q in s.h:
                s.h[path] = RUN if s.h.get(path) == RUN or s.h[q] == RUN else s.h[q]
                s.bodies[path] = frozenset(s.bodies.get(path, frozenset()) | s.bodies.get(q, frozenset()))
                if idx is None:
                    s.h.pop(q), s.bodies.pop(q, None)
            return [("fall", s)]
        if i.get("k") in ("ilist",) and not i.get("a"):
            return [("fall", s)]
        raise Quit("how a thread is made at " + self.at(n))

    def s_if(self, n, st, fr):
        self.scopes.append([])
        out = []
        pre = [("fall", st)]
        if n.get("init"):
            pre = self.stmt(n["init"], st, fr)
        for o, s in pre:
            if o != "fall":
                out.append((o, s))
                continue
            for o2, b, s2 in self.branch(n["c"], s, fr):
                if o2 != "fall":
                    out.append((o2, s2))
                else:
                    out += self.block(n["x"], [s2], fr) if b else self.block(n.get("y"), [s2], fr)
        v = self.scopes.pop()
        return self.dedup([(o, self.leave(o, s.copy(), v, n, fr)) if v else (o, s) for o, s in out])

    def branch(self, c, st, fr):
        """[(outcome, truth, state)]"""
        c = strip(c)
        k = c.get("k") if isinstance(c, dict) else None
        if k == "un" and c["op"] == "!":
            return [(o, not b if o == "fall" else b, s) for o, b, s in self.branch(c["e"], st, fr)]
        if k == "bin" and c["op"] in ("&&", "||"):
            r = []
            for o, b, s in self.branch(c["x"], st, fr):
                if o != "fall" or b == (c["op"] == "||"):
                    r.append((o, b, s))
                else:
                    r += self.branch(c["y"], s, fr)
            return r
        e = self.errtest(c)
        if e is not None:
            x, neg = e
            p, idx = self.obj(x, fr)
            slot = self.slot(p, idx, st)
            if slot is None:
                self.touch(c, st, fr)
                return [("fall", True, st), ("fall", False, st)]
            self.touch(c, st, fr)
            elem = slot in st.ee
            v = st.ee[slot] if elem else st.e[slot]
            r = []
            if v != CLEAR:
                s = st.copy()
                (s.ee if elem else s.e)[slot] = SET if v != UNSURE else UNSURE
                r.append(("fall", not neg, s))
            elif True:
                pass
            if v != SET:
                s = st.copy()
                if v != UNSURE or elem:
                    (s.ee if elem else s.e)[slot] = CLEAR
                r.append(("fall", neg, s))
            return r
        if k == "call" and self.P.qn(c.get("f", "")) == "std::thread::joinable":
            p, idx = self.obj(c["o"], fr)
            v = st.h.get(p)
            if idx is None and v == RUN:
                return [("fall", True, st)]
            if idx is None and v in (JOINED, None):
                return [("fall", False, st)]
            if v == RUN:
                return [("fall", True, st)]
            return [("fall", True, st), ("fall", False, st)]
        r = []
        for o, s in self.expr(c, st, fr):
            r += [(o, None, s)] if o != "fall" else [("fall", True, s), ("fall", False, s)]
        return r

    def errtest(self, c):
        """(error expression, negated) of a test whether an exception is stored"""
        if not isinstance(c, dict):
            return None
        if c.get("k") == "call" and isinstance(c.get("o"), dict) and self.kind(strip(c["o"]).get("t")) == "error" and self.P.dn(c["f"]).get("fk") == "conv":
            return c["o"], False
        if c.get("k") == "call" and (c.get("op") in ("==", "!=")):
            xs = [strip(x) for x in ([c["o"]] if isinstance(c.get("o"), dict) else []) + c.get("a", [])]
            es = [x for x in xs if self.kind(x.get("t")) == "error" and x.get("lv")]
            if len(es) == 1 and len(xs) == 2:
                return es[0], c["op"] == "=="
        if c.get("k") == "ref" and False:
            return None
        return None

    def slot(self, p, idx, st):
        """the error slot of the state an error object belongs to"""
        for e in list(st.ee) + list(st.e):
            if e[0] == p:
                return e
        return None

    def s_ret(self, n, st, fr):
        out = []
        for o, s in self.expr(n.get("e"), st, fr) if n.get("e") else [("fall", st)]:
            self.lastat = self.at(n)
            out.append(("ret" if o == "fall" else o, s))
        return out

    def s_break(self, n, st, fr):
        return [("break", st)]

    def s_continue(self, n, st, fr):
        return [("continue", st)]

    def s_throw(self, n, st, fr):
        return self.x_throw(n, st, fr)

    def s_try(self, n, st, fr):
        out = []
        for o, s in self.block(n["b"], [st], fr):
            if o != "throw":
                out.append((o, s))
                continue
            every = False
            for h in n["h"]:
                t = s.copy()
                delivered = [e for e, v in t.e.items() if v == "thrown"]
                if delivered:
                    t.lost = self.P.where(fr.f, h)
                for o2, u in self.block(h["b"], [t], fr):
                    if o2 == "throw":
                        u = u.copy()
                        u.lost = None
                    out.append((o2, u))
                if not h.get("t"):
                    every = True
                    break
            if not every:
                out.append((o, s))
        return self.dedup(out)

    def x_throw(self, n, st, fr):
        self.touch(n, st, fr)
        self.lastat = self.at(n)
        return [("throw", st)]

    # ------------------------------------------------------------ loops
    def canon(self, n, fr):
        """(variable, start, relation, bound) of a counting loop in steps of one whose body leaves the variable alone"""
        if n.get("k") != "for" or not isinstance(n.get("init"), dict) or n["init"].get("k") != "decl" or not isinstance(n.get("c"), dict):
            return None
        inc = strip(n.get("inc"))
        while isinstance(inc, dict) and inc.get("k") == "bin" and inc["op"] == ",":
            inc = strip(inc["x"])
        if not isinstance(inc, dict) or inc.get("k") != "un" or inc["op"] != "++":
            if isinstance(inc, dict) and inc.get("k") == "asg" and inc["op"] == "+=" and strip(inc["y"]).get("k") == "int":
                step = int(strip(inc["y"])["v"])
                inc = {"e": inc["x"]}
            else:
                return None
        else:
            step = 1
        v = strip(inc["e"])
        if v.get("k") != "ref":
            return None
        d = v["d"]
        i = [x for x in n["init"]["v"] if x["d"] == d]
        c = strip(n["c"])
        if not i or c.get("k") != "bin" or c["op"] not in ("<", "!=", "<=", ">", ">="):
            return None
        x, y, op = strip(c["x"]), strip(c["y"]), c["op"]
        if y.get("k") == "ref" and y.get("d") == d and op in (">", "!=", ">="):
            x, y, op = y, x, {">": "<", ">=": "<=", "!=": "!="}[op]
        if x.get("k") != "ref" or x.get("d") != d or op not in ("<", "!=", "<="):
            return None
        r = []
        self.R.walk(n["b"], fr, r, False)
        if any(a.w and a.loc.path == (d,) for a in r):
            return None
        return {"var": d, "start": strip(i[0].get("i")), "op": op, "bound": y, "step": step}

    def bkey(self, n, fr):
        """key of a bound: constants and names resolved"""
        n = strip(n)
        if isinstance(n, dict) and n.get("k") == "call" and self.P.dn(n.get("f")).get("n") == "size" and isinstance(n.get("o"), dict):
            ls = {l.path for l in fr.locs(n["o"])}
            if len(ls) == 1:
                return ("size", next(iter(ls)))
        i = fr.index(n)
        if i != ("?",):
            return i
        return ("x", skey(n))

    def covers(self, lp, path, fr):
        """does a counting loop cover all elements of a container: yes, no (certainly) or None"""
        st = fr.index(lp["start"]) if lp["start"] is not None else ("?",)
        known = self.classes(path)
        b = self.bkey(lp["bound"], fr)
        if lp["step"] != 1:
            return False
        if lp["op"] == "<=":
            return None
        if st[0] == "int" and st[1] >= 1:
            return False
        if st != ("int", 0):
            return None
        if b in known:
            return True
        if b[0] == "plus" and b[1] in known and b[2] < 0:
            return False
        if b[0] == "int":
            return False
        if b[0] == "x" and known:
            n = strip(lp["bound"])
            if n.get("k") == "bin" and n["op"] in ("-", "/") and self.bkey(n["x"], fr) in known:
                return False
            return None
        if b[0] == "var" and self.P.dn(b[1]).get("k") == "param" and any(k[0] == "var" and self.P.dn(k[1]).get("k") == "param" for k in known):
            return False
        if b[0] == "size":
            o = self.classes(b[1])
            if o & known:
                return True
        return None

    def classes(self, path):
        """keys of expressions known to be the number of elements of a container, or of the threads started in it"""
        r = {("size", path)}
        if path in self.sizes:
            r.add(self.sizes[path])
        if path in self.startbound:
            r.add(self.startbound[path])
        for _ in range(3):
            for p, k in list(self.sizes.items()) + list(self.startbound.items()):
                if k in r:
                    r.add(("size", p))
                if ("size", p) in r:
                    r.add(k)
        return r

    def s_for(self, n, st, fr):
        self.scopes.append([])
        out = []
        for o, s in self.stmt(n["init"], st, fr) if n.get("init") else [("fall", st)]:
            if o != "fall":
                out.append((o, s))
                continue
            lp = self.canon(n, fr)
            out += self.loop(n, s, fr, lp, n.get("c"), n.get("inc"))
        v = self.scopes.pop()
        return self.dedup([(o, self.leave(o, s.copy(), v, n, fr)) for o, s in out])

    def s_while(self, n, st, fr):
        return self.loop(n, st, fr, None, n["c"], None)

    def s_do(self, n, st, fr):
        return self.loop(n, st, fr, None, n["c"], None, True)

    def s_rfor(self, n, st, fr):
        d = n["v"]["d"] if isinstance(n["v"], dict) else n["v"]
        return self.loop(n, st, fr, {"var": None, "range": n["range"], "elem": d}, None, None)

    def containers(self, n, fr):
        """containers of threads and of errors whose elements are touched below n, closures called included"""
        th, er = set(), set()
        P = self.P

        def go(x0, f2, depth):
            for x in nodes(x0):
                t = x.get("t")
                if t and x.get("k") in ("call", "sub", "ref", "mem") and self.kind(t) in ("thread", "error"):
                    try:
                        for l in f2.locs(x):
                            if l.idx is not None:
                                (th if self.kind(t) == "thread" else er).add((l.path, l.idx))
                    except Quit:
                        pass
                if x.get("k") == "call" and x.get("f") in P.funcs and P.funcs[x["f"]].get("body") and depth < 4 and self.relevant_body(x["f"], 0, {x["f"]}):
                    go(P.funcs[x["f"]]["body"], f2.call(x), depth + 1)
        go(n, fr, 0)
        return th, er

    def loop(self, n, st, fr, lp, cond, inc, dowhile=False):
        body = n["b"]
        starts = self.hasstart(body)
        frame = fr
        info = {"var": lp.get("var") if lp else None, "starts": starts, "line": n.get("l"), "node": id(n)}
        if lp and "range" in lp:
            d = lp["elem"]
            frame = Frame(self.E, fr.f, dict(fr.bind), fr.this, fr.parent)
            frame.busy = fr.busy
            it = ("var", d)
            base = fr.locs(lp["range"])
            if self.E.isref(d):
                frame.bind[d] = {Loc(l.path, it, l.sure) for l in base}
            full = {l.path for l in base if l.idx is None}
            ivar = it
            if starts and self.E.isref(d) is False:
                info["var"] = None
        else:
            full = None
            ivar = ("var", lp["var"]) if lp and lp.get("var") else None
        th, er = self.containers(body, frame)
        cov = {}
        hs = {}
        for p, i in th:
            if starts or ivar is None or i != ivar:
                hs[p] = None
                continue
            hs[p] = True if full is not None and p in full else self.covers(lp, p, fr) if full is None else None
        es = {}
        for p, i in er:
            if ivar is None or i != ivar:
                es[p] = None
                continue
            es[p] = True if full is not None and p in full else self.covers(lp, p, fr) if full is None else None
        self.loops.append(info)
        old = self.outer
        self.outer = frozenset(set().union(*map(set, self.scopes)) | set(self.P.funcs[self.top]["params"])) if starts else self.outer
        try:
            entry = st.copy()
            if starts and lp and lp.get("var"):
                for p in self.startpaths(body, fr):
                    if fr.index(lp["start"]) == ("int", 0) and lp["step"] == 1 and lp["op"] in ("<", "!="):
                        self.startbound[p] = self.bkey(lp["bound"], fr)
            # elements are handled one by one
            joinable = [p for p, c in hs.items() if p in entry.h and entry.h[p] in (RUN, UNSURE)] if not starts else []
            checked = [e for p in es for e in entry.e if e[0] == p and entry.e[e] in (PENDING, UNSURE)]
            seen, work, exits, out = set(), [entry], [], []
            normal = []
            first = True
            while work:
                s = work.pop()
                if s.sig() in seen:
                    continue
                seen.add(s.sig())
                if len(seen) > LIMIT:
                    raise Quit("too many states of a loop")
                bs = [s]
                if cond is not None and not (dowhile and first):
                    bs = []
                    for o, b, t in self.branch(cond, s, frame):
                        if o != "fall":
                            out.append((o, t))
                        elif b:
                            bs.append(t)
                        else:
                            exits.append(t)
                elif cond is None and lp is not None:
                    exits.append(s)
                    self.touch_range(lp, s, fr)
                first = False
                for b in bs:
                    b = b.copy()
                    info.setdefault("live", set()).update(h for h, v in b.h.items() if v in (RUN, UNSURE))
                    for p in joinable:
                        b.ej[p] = False
                    for e in checked:
                        b.ee[e] = PENDING if b.e.get(e) != UNSURE else UNSURE
                    for o, t in self.block(body, [b], frame):
                        t = t.copy()
                        if o in ("fall", "continue"):
                            for p in joinable:
                                normal.append(("j", p, t.ej.get(p)))
                            for e in checked:
                                normal.append(("e", e, t.ee.get(e)))
                            for p in joinable:
                                t.ej.pop(p, None)
                            for e in checked:
                                t.ee.pop(e, None)
                            if inc is not None:
                                for o3, t3 in self.expr(inc, t, frame):
                                    work.append(t3)
                            elif dowhile:
                                for o3, b3, t3 in self.branch(cond, t, frame):
                                    if o3 != "fall":
                                        out.append((o3, t3))
                                    else:
                                        (work if b3 else exits).append(t3)
                            else:
                                work.append(t)
                        elif o == "break":
                            for p in joinable:
                                t.ej.pop(p, None)
                                t.h[p] = UNSURE if t.h.get(p) == RUN and any(x[0] == "j" and x[1] == p and x[2] for x in normal) else t.h.get(p, JOINED)
                            for e in checked:
                                if t.ee.pop(e, None) in (CLEAR, SET):
                                    t.e[e] = UNSURE
                            exits.append(t)
                        else:
                            for p in joinable:
                                if t.ej.pop(p, None) and t.h.get(p) == RUN:
                                    pass
                            for e in checked:
                                t.ee.pop(e, None)
                            out.append((o, t))
            for t in exits:
                t = t.copy()
                for p in joinable:
                    got = {x[2] for x in normal if x[0] == "j" and x[1] == p}
                    if got == {True} and hs[p]:
                        if t.h.get(p) in (RUN, UNSURE):
                            t.h[p] = JOINED
                    elif got and True in got and (hs[p] is None or got != {True}):
                        if t.h.get(p) == RUN:
                            t.h[p] = UNSURE
                for e in checked:
                    got = {x[2] for x in normal if x[0] == "e" and x[1] == e}
                    if got == {CLEAR} and es[e[0]]:
                        t.e[e] = CLEAR
                    elif got and got & {CLEAR, UNSURE} and (es[e[0]] is None or got != {CLEAR}) and t.e.get(e) == PENDING:
                        t.e[e] = UNSURE
                for p in joinable:
                    t.ej.pop(p, None)
                for e in checked:
                    t.ee.pop(e, None)
                out.append(("fall", t))
            return self.dedup(out)
        finally:
            self.loops.pop()
            self.outer = old

    def touch_range(self, lp, s, fr):
        pass

    def hasstart(self, n, depth=0, seen=None):
        P = self.P
        seen = seen or set()
        for x in nodes(n):
            if x.get("k") == "ctor" and P.qn(x["f"]).startswith("std::thread::thread") and x.get("a") and self.kind(strip(x["a"][0]).get("t")) != "thread":
                return True
            if x.get("k") == "call" and P.dn(x.get("f")).get("n") in ("emplace_back", "emplace") and isinstance(x.get("o"), dict) and self.kind(strip(x["o"]).get("t")) == "threads" and x.get("a"):
                return True
            if x.get("k") == "call" and x.get("f") in P.funcs and P.funcs[x["f"]].get("body") and depth < 4 and x["f"] not in seen and (P.dn(x["f"]).get("proj") or P.dn(x["f"]).get("lambda")):
                seen.add(x["f"])
                if self.hasstart(P.funcs[x["f"]]["body"], depth + 1, seen):
                    return True
        return False

    def startpaths(self, n, fr):
        r = set()
        for x in nodes(n):
            if x.get("k") == "call" and isinstance(x.get("o"), dict):
                t = self.kind(strip(x["o"]).get("t"))
                if t == "threads":
                    r |= {l.path for l in fr.locs(x["o"])}
                elif t == "thread" and x.get("op") == "=":
                    r |= {l.path for l in fr.locs(x["o"]) if l.idx is not None}
        return r

    # ------------------------------------------------------------ expressions that matter
    def x_cond(self, n, st, fr):
        out = []
        for o, b, s in self.branch(n["c"], st, fr):
            out += [(o, s)] if o != "fall" else self.expr(n["x"] if b else n["y"], s, fr)
        return self.dedup(out)

    def x_bin(self, n, st, fr):
        if n["op"] in ("&&", "||"):
            return self.dedup([(o, s) for o, b, s in self.branch(n, st, fr)])
        return self.seq([n["x"], n["y"]], st, fr)

    def x_lam(self, n, st, fr):
        self.touch(n, st, fr)
        return [("fall", st)]

    def x_asg(self, n, st, fr):
        if self.errtest_in(n):
            pass
        self.touch(n, st, fr)
        return self.seq([n["y"]], st, fr)

    def errtest_in(self, n):
        return False

    def x_ctor(self, n, st, fr):
        P = self.P
        q = P.qn(n["f"])
        if q.startswith("std::thread") and n.get("a") and self.kind(strip(n["a"][0]).get("t")) != "thread":
            raise Quit("a thread without a name at " + self.at(n))
        out = self.seq([x for x in n.get("a", [])], st, fr)
        if n["f"] in P.funcs and P.dn(P.dn(n["f"]).get("rec")).get("proj") and P.funcs[n["f"]].get("body"):
            return out
        return out

    def x_call(self, n, st, fr):
        P = self.P
        f = n.get("f")
        if not f:
            raise Quit("a call through a pointer at " + self.at(n))
        q = P.qn(f)
        base = q.split("<")[0]
        nm = P.dn(f).get("n", "")
        if any(base.startswith(x) for x in FOREIGN):
            raise Quit(base)
        o = n.get("o")
        ok = self.kind(strip(o).get("t")) if isinstance(o, dict) else None
        if isinstance(o, dict) and (n.get("arrow") or self.E.iterlike(strip(o).get("t"))) and q.startswith("std::thread::"):
            ls = {(l.path, l.idx) for l in (fr.pointees(o) if n.get("arrow") else fr.locs(o))}
            if len(ls) != 1:
                raise Quit("a thread joined through a pointer")
            return self.threadop(nm, next(iter(ls)), n, st, fr)
        if q.startswith("std::thread::"):
            if nm in ("operator=",):
                p, idx = self.obj(o, fr)
                return self.held(p, n["a"][0], st, fr, n, False)
            if nm in ("join", "detach", "joinable", "get_id", "native_handle", "swap"):
                return self.threadop(nm, self.obj(o, fr), n, st, fr)
            return [("fall", st)]
        if ok == "threads":
            p, idx = self.obj(o, fr)
            if nm in ("push_back", "emplace_back"):
                a = n["a"]
                if nm == "push_back" or len(a) == 1 and self.kind(strip(a[0]).get("t")) == "thread":
                    return self.held(p, a[0], st, fr, n, False)
                s = st.copy()
                self.start(p, a[0], a[1:], fr, n, s)
                return [("fall", s), ("throw", st)]
            if nm in ("reserve", "size", "empty", "begin", "end", "operator[]", "at", "front", "back", "cbegin", "cend"):
                return self.seq(n.get("a", []), st, fr)
            if nm in ("clear", "resize", "pop_back", "erase") and st.h.get(p) in (None, JOINED):
                return [("fall", st)]
            raise Quit("%s of a container of threads at %s" % (nm, self.at(n)))
        if base == "std::rethrow_exception":
            self.rethrows.add(self.at(n))
            self.lastat = self.at(n)
            x = strip(n["a"][0])
            while x.get("k") == "ctor" and len(x.get("a", [])) == 1:
                x = strip(x["a"][0])
            self.touch(x, st, fr)
            s = st.copy()
            try:
                p, idx = self.obj(x, fr)
                e = self.slot(p, idx, st)
            except Quit:
                e = None
            for e2 in s.e:
                if s.e[e2] in (PENDING, SET, UNSURE):
                    s.e[e2] = "thrown" if e is None or e2 == e or True else s.e[e2]
            return [("throw", s)]
        if ok in ("error", "errors"):
            self.touch(n, st, fr)
            if nm == "operator=" or nm in ("assign", "clear", "resize", "swap"):
                p, idx = self.obj(o, fr)
                e = self.slot(p, idx, st)
                s = st.copy()
                if e is not None and s.e.get(e) in (PENDING, SET, UNSURE):
                    s.e[e] = UNSURE
                    self.report("a stored exception is replaced", self.at(n), self.open)
                src = strip(n["a"][0]) if n.get("a") else None
                while isinstance(src, dict) and src.get("k") in ("ctor",) and len(src.get("a", [])) == 1:
                    src = strip(src["a"][0])
                if isinstance(src, dict) and src.get("lv") and self.kind(src.get("t")) == "error":
                    raise Quit("a stored exception is copied at " + self.at(n))
                return [("fall", s)]
            return self.seq(n.get("a", []), st, fr)
        if base in ("std::for_each",) and len(n["a"]) == 3:
            return self.foreach(n, st, fr)
        if f in P.funcs and P.funcs[f].get("body") and (P.dn(f).get("proj") or P.dn(f).get("lambda")):
            pre = self.seq([x for x in n.get("a", []) if self.relevant(x)], st, fr)
            out = []
            for oo, s in pre:
                if oo != "fall":
                    out.append((oo, s))
                    continue
                if self.objective(f) or not self.relevant_body(f, 0, {f}):
                    self.touch(n, s, fr)
                    out.append(("fall", s))
                    if self.maythrow(n):
                        out.append(("throw", s))
                    continue
                if f in self.stack or len(self.stack) > 10:
                    raise Quit("recursion")
                out += self.call_body(f, fr.call(n), [s])
            return self.dedup(out)
        if any(isinstance(x, dict) and self.kindq(strip(x).get("t")) for x in n.get("a", [])) and base not in PASS and nm not in ("operator==", "operator!="):
            t = [self.kind(strip(x).get("t")) for x in n["a"] if isinstance(x, dict)]
            if any(k in ("thread", "threads") for k in t):
                raise Quit("threads are passed to %s at %s" % (base, self.at(n)))
        self.touch(n, st, fr)
        out = self.seq(([o] if isinstance(o, dict) else []) + n.get("a", []), st, fr)
        return out

    def call_body(self, f, nf, sts):
        self.stack.append(f)
        self.visited.add(f)
        try:
            r = []
            for o, s in self.block(self.P.funcs[f]["body"], sts, nf):
                if o in ("break", "continue"):
                    raise Quit("break")
                r.append(("fall" if o == "ret" else o, s))
            return self.dedup(r)
        finally:
            self.stack.pop()

    def foreach(self, n, st, fr):
        a = n["a"]
        b, e = strip(a[0]), strip(a[1])
        while b.get("k") == "ctor" and len(b.get("a", [])) == 1:
            b = strip(b["a"][0])
        while e.get("k") == "ctor" and len(e.get("a", [])) == 1:
            e = strip(e["a"][0])
        names = [self.P.dn(x.get("f")).get("n") for x in (b, e)]
        x = strip(a[2])
        while x.get("k") == "ctor" and len(x.get("a", [])) == 1:
            x = strip(x["a"][0])
        if names[0] not in ("begin", "cbegin") or names[1] not in ("end", "cend") or x.get("k") != "lam":
            raise Quit("for_each at " + self.at(n))
        rng = b["o"] if isinstance(b.get("o"), dict) else b["a"][0]
        d = self.P.funcs[x["f"]]["params"][0]
        fake = {"k": "rfor", "v": {"d": d}, "range": rng, "b": self.P.funcs[x["f"]]["body"], "l": n.get("l")}
        out = []
        for o, s in self.s_rfor(fake, st, fr):
            out.append(("fall" if o == "ret" else o, s))
        return out

    def threadop(self, nm, loc, n, st, fr):
        p, idx = loc
        s = st.copy()
        if nm == "join":
            self.joinsites.add(self.at(n))
            if p not in s.h:
                return [("fall", s)]
            if idx is None:
                s.h[p] = JOINED
            elif p in s.ej:
                s.ej[p] = True
            elif s.h[p] == RUN:
                s.h[p] = UNSURE
            return [("fall", s)]
        if nm == "detach":
            self.report("a thread is detached", self.at(n), self.joins)
            return [("fall", s)]
        if nm in ("joinable", "get_id", "native_handle"):
            return [("fall", s)]
        raise Quit("%s of a thread" % nm)

    # ------------------------------------------------------------ OpenMP
    def s_omp(self, n, st, fr):
        cls = n["cls"].replace("OMP", "").replace("Directive", "")
        cl = n.get("clauses", [])
        body = [x for x in n.get("c", []) if isinstance(x, dict) and x.get("k") in ("block", "for", "omp", "try", "rfor")]
        private = {v["d"] for c in cl if c["n"] in ("private", "firstprivate", "lastprivate", "reduction", "linear", "copyprivate") for v in c["v"]}
        if any(c["n"] in ("if", "num_threads", "schedule", "default", "shared", "collapse") or c["n"] in ("private", "firstprivate", "lastprivate", "reduction", "nowait") for c in cl) or not cl:
            pass
        if cls in ("ParallelFor", "ParallelForSimd"):
            return self.omp_for(n, body[0], private, st, fr, cl)
        if cls in ("ParallelSections", "Sections"):
            if cls == "Sections" and any(c["n"] == "nowait" for c in cl):
                raise Quit("sections that are not waited for")
            return self.omp_sections(body[0], private, st, fr)
        if cls == "Parallel":
            ss = body[0]["s"] if body[0].get("k") == "block" else body
            if len(ss) == 1 and ss[0].get("k") == "omp" and ss[0]["cls"] in ("OMPSectionsDirective", "OMPForDirective"):
                x = ss[0]
                cl2 = x.get("clauses", [])
                pr2 = private | {v["d"] for c in cl2 if c["n"] in ("private", "firstprivate", "lastprivate", "reduction") for v in c["v"]}
                b2 = [y for y in x.get("c", []) if isinstance(y, dict) and y.get("k") in ("block", "for", "omp")]
                if x["cls"] == "OMPForDirective":
                    return self.omp_for(x, b2[0], pr2, st, fr, cl2)
                return self.omp_sections(b2[0], pr2, st, fr)
        raise Quit("OpenMP directive %s at %s" % (cls, self.at(n)))

    def private(self, r, ds):
        return [a for a in r if a.loc.path[0] not in ds]

    def omp_body(self, x, fr, private, n, loopvar=None):
        r = []
        self.R.walk(x, fr, r, False)
        own = self.inner(x) | private
        if loopvar:
            own.add(loopvar)
        r = self.private(r, own)
        site = (self.stack[-1], x.get("l"), id(x))
        self.sites[site] = r
        slots = set()
        self.guarded(x, fr, slots, [self.stack[-1]], False, n)
        self.slots.setdefault(site, set()).update(slots)
        self.starts.add(self.at(x))
        return site, r

    def inner(self, x):
        s = set()
        for y in nodes(x):
            if y.get("k") == "decl":
                s |= {v["d"] for v in y["v"] if not v.get("static")}
            elif y.get("k") == "rfor":
                s.add(y["v"]["d"] if isinstance(y["v"], dict) else y["v"])
            elif y.get("k") == "try":
                s |= {h["d"] for h in y["h"] if h.get("d")}
        return s

    def omp_for(self, n, loop, private, st, fr, cl):
        if any(c["n"] in ("nowait",) for c in cl):
            raise Quit("a loop that is not waited for")
        if any(x.get("k") == "omp" for x in nodes(loop["b"])):
            raise Quit("OpenMP directives inside a parallel loop")
        lp = self.canon(loop, fr)
        if lp is None:
            raise Quit("a parallel loop that is not understood")
        self.loops.append({"var": lp["var"], "starts": True, "node": id(n)})
        old = self.outer
        self.outer = frozenset(set().union(*map(set, self.scopes)) | set(self.P.funcs[self.top]["params"]))
        try:
            site, r = self.omp_body(loop["b"], fr, private, n, lp["var"])
            self.conflict(r, r, True, n, {lp["var"]})
        finally:
            self.loops.pop()
            self.outer = old
        s = st.copy()
        for p in self.slots.get(site, ()):
            s.e[p] = PENDING
        return [("fall", s)]

    def omp_sections(self, b, private, st, fr):
        ss = b["s"] if b.get("k") == "block" else [b]
        sites = []
        for x in ss:
            if x.get("k") == "omp" and x["cls"] == "OMPSectionDirective":
                x = [y for y in x["c"] if isinstance(y, dict)][0]
            sites.append(self.omp_body(x, fr, private, b))
        for i, (s1, r1) in enumerate(sites):
            for s2, r2 in sites[:i]:
                self.conflict(r1, r2, False, b, set())
        s = st.copy()
        for s1, _ in sites:
            for p in self.slots.get(s1, ()):
                s.e[p] = PENDING
        return [("fall", s)]

"""Ownership typestate of raw heap objects: every object made by `new` is followed over all paths, the exceptional ones
included, through variables, unique_ptr and a class's container of pointers, until something deletes it.

The analysis gives three answers: a list of findings, each with its place; what was followed; Quit when a construct is met
that is not understood (nothing is reported then)."""
import json
from load import nodes


class Quit(Exception):
    pass


NOTHROW = {"back", "front", "begin", "end", "cbegin", "cend", "pop_back", "size", "empty", "release", "get", "swap", "operator->", "operator*",
           "operator[]", "operator bool", "move", "forward", "make_heap", "push_heap", "pop_heap", "sort_heap", "max_element", "iter_swap", "clear",
           "operator==", "operator!=", "prev", "next", "data", "reset", "max", "min", "abs", "operator++", "operator--", "operator-", "operator+"}
GROW = {"push_back", "emplace_back", "insert", "reserve", "resize", "push", "emplace"}
HEAPS = {"make_heap", "push_heap", "pop_heap", "sort_heap", "max_element", "sort"}
LIMIT = 3000


def strip(n):
    while isinstance(n, dict) and n.get("k") in ("cast", "paren"):
        n = n["e"]
    return n


def key(n):
    """structure of an expression without positions"""
    if isinstance(n, dict):
        return {k: key(v) for k, v in n.items() if k not in ("l", "t", "lv")}
    if isinstance(n, list):
        return [key(v) for v in n]
    return n


class State:
    __slots__ = ("env", "heap", "elem", "cond", "alldel", "n")

    def __init__(self):
        self.env, self.heap, self.cond = {}, {}, {}
        self.elem = {}            # container field -> last element looked at
        self.alldel = {}
        self.n = 0

    def copy(self):
        s = State()
        s.env, s.heap, s.cond, s.elem, s.alldel, s.n = dict(self.env), dict(self.heap), dict(self.cond), dict(self.elem), dict(self.alldel), self.n
        return s

    def sig(self):
        return repr((sorted(self.env.items(), key=repr), sorted(self.heap.items()), sorted(self.cond.items()), sorted(self.elem.items()),
                     sorted(self.alldel.items())))


class Own:
    """heap object: (alive, container or None, where it was made)"""

    def __init__(self, P, owners):
        self.P = P
        self.owners = owners      # container field -> class
        self.found = []           # (what, where)
        self.fns, self.allocs, self.paths, self.exits = set(), set(), 0, 0
        self.stack = []
        self.cls = None

    # ------------------------------------------------------------ reports
    def report(self, what, n):
        f = (what, self.P.where(self.stack[-1], n if isinstance(n, dict) else None))
        if f not in self.found:
            self.found.append(f)

    # ------------------------------------------------------------ types
    def kind(self, t):
        """unique: unique_ptr; ptr: pointer to a project record"""
        P = self.P
        d = P.ty(t)
        if d["k"] == "ref":
            d = P.ty(d["e"])
        if d["k"] == "ptr":
            e = P.ty(d["e"])
            return "ptr" if e["k"] == "rec" and P.dn(e["d"]).get("proj") else None
        if d["k"] == "rec":
            nm = P.dn(d["d"]).get("tmpl") or P.qn(d["d"])
            if nm in ("std::unique_ptr",):
                return "unique"
            if nm in ("std::shared_ptr", "std::weak_ptr"):
                raise Quit("shared ownership")
        return None

    def name(self, f):
        return self.P.dn(f).get("n") or self.P.qn(f).split("::")[-1]

    def field(self, n):
        """container field an expression denotes"""
        n = strip(n)
        if isinstance(n, dict) and n.get("k") == "mem" and strip(n["b"]).get("k") == "this" and n["d"] in self.owners:
            return n["d"]
        return None

    # ------------------------------------------------------------ heap
    def alloc(self, st, n, where):
        st.n += 1
        a = "o%d" % st.n
        st.heap[a] = (True, None, where)
        self.allocs.add(where)
        return ("ptr", a)

    def element(self, st, fld, n):
        """an element of the container, not looked at before"""
        st.n += 1
        a = "o%d" % st.n
        st.heap[a] = (True, fld, "an element of the container")
        return ("ptr", a)

    def use(self, st, v, n, what="used"):
        if v and v[0] in ("ptr", "uniq") and v[1] in st.heap and not st.heap[v[1]][0]:
            self.report("an object (from %s) is %s after it was deleted" % (st.heap[v[1]][2], what), n)

    def delete(self, st, v, n):
        if v is None or v[0] == "?":
            raise Quit("deletion of an unknown pointer")
        if v[0] == "null":
            return
        if v[1] not in st.heap:
            raise Quit("deletion of a borrowed pointer")
        al, c, w = st.heap[v[1]]
        if not al:
            self.report("an object (from %s) is deleted twice" % w, n)
        st.heap[v[1]] = (False, c, w)

    # ------------------------------------------------------------ expressions: [(state, value, thrown)]
    def ev(self, n, st):
        n = strip(n)
        if not isinstance(n, dict):
            return [(st, None, False)]
        k = n.get("k")
        f = getattr(self, "e_" + k, None) if k else None
        if f:
            return f(n, st)
        if k in ("int", "flt", "str"):
            return [(st, ("c", n.get("v")) if k == "int" else None, False)]
        if k == "bool":
            return [(st, ("c", bool(n["v"])), False)]
        if k == "null":
            return [(st, ("null",), False)]
        if k == "lam":
            if self.touches(n):
                raise Quit("a closure handles objects")
            return [(st, None, False)]
        subs = [n[x] for x in ("e", "x", "y", "c", "b", "i", "o", "fe") if isinstance(n.get(x), dict)] + [x for x in n.get("a", []) if isinstance(x, dict)]
        if isinstance(n.get("c"), list):
            subs += n["c"]
        return [(s, None, t) for s, v, t in self.seq(subs, st)]

    def seq(self, es, st):
        """evaluate in order; value: list of values"""
        out = [(st, [], False)]
        for e in es:
            nxt = []
            for s, vs, t in out:
                if t:
                    nxt.append((s, None, True))
                    continue
                for s2, v, t2 in self.ev(e, s):
                    nxt.append((s2, None if t2 else vs + [v], t2))
            out = self.dedup(nxt)
        return out

    def dedup(self, outs):
        seen, r = set(), []
        for o in outs:
            q = (o[0].sig(), repr(o[1:]))
            if q not in seen:
                seen.add(q)
                r.append(o)
        if len(r) > LIMIT:
            raise Quit("too many paths")
        return r

    def touches(self, n):
        return any(x.get("k") in ("new", "del") for x in nodes(n))

    def e_ref(self, n, st):
        v = st.env.get(n["d"])
        if v and v[0] == "ptr":
            self.use(st, None, n)
        return [(st, v, False)]

    def e_mem(self, n, st):
        r = []
        for s, v, t in self.ev(n["b"], st):
            if not t:
                self.use(s, v, n)
            r.append((s, None, t))
        return r

    def e_this(self, n, st):
        return [(st, None, False)]

    def e_new(self, n, st):
        if n.get("array") or n.get("placement"):
            raise Quit("array or placement new")
        init = n.get("i")
        i = strip(init) if init else None
        r = []
        for s, v, t in self.seq(i.get("a", []) if isinstance(i, dict) and i.get("k") in ("ctor", "ilist") else ([i] if i else []), st):
            if t:
                r.append((s, None, True))
                continue
            r.append((s.copy(), None, True))        # allocation or construction fails: nothing is left behind
            s = s.copy()
            r.append((s, self.alloc(s, n, self.P.where(self.stack[-1], n)), False))
        return r

    def e_del(self, n, st):
        r = []
        for s, v, t in self.ev(n["e"], st):
            if not t:
                s = s.copy()
                self.delete(s, v, n)
            r.append((s, None, t))
        return r

    def e_throw(self, n, st):
        return [(s, None, True) for s, v, t in (self.ev(n["e"], st) if n.get("e") else [(st, None, False)])]

    def e_cond(self, n, st):
        r = []
        for s, b, t in self.branch(n["c"], st):
            if t:
                r.append((s, None, True))
            else:
                r += self.ev(n["x" if b else "y"], s)
        return self.dedup(r)

    def e_asg(self, n, st):
        x = strip(n["x"])
        r = []
        for s, vs, t in self.seq([n["y"]] if x.get("k") == "ref" else [n["y"], x], st):
            if t:
                r.append((s, None, True))
                continue
            if x.get("k") == "ref":
                s = s.copy()
                v = vs[0] if n["op"] == "=" else None
                if isinstance(s.env.get(x["d"]), tuple) and s.env[x["d"]][0] == "uniq":
                    raise Quit("assignment to an owner")
                s.env[x["d"]] = v
                self.forget(s, x["d"])
                r.append((s, v, False))
            else:
                if vs[0] and vs[0][0] in ("ptr", "uniq") and vs[0][1] in s.heap:
                    raise Quit("an object is stored elsewhere")
                r.append((s, None, False))
        return r

    def forget(self, s, d):
        for k in [k for k in s.cond if '"%s"' % d in k]:
            del s.cond[k]

    def e_un(self, n, st):
        e = strip(n["e"])
        r = []
        for s, v, t in self.ev(e, st):
            if t:
                r.append((s, None, True))
                continue
            if n["op"] == "*":
                self.use(s, v, n)
            if n["op"] in ("++", "--") and e.get("k") == "ref":
                s = s.copy()
                s.env.pop(e["d"], None)
                self.forget(s, e["d"])
            if n["op"] == "!" and v and v[0] == "c" and isinstance(v[1], bool):
                r.append((s, ("c", not v[1]), False))
                continue
            if n["op"] == "&":
                if v and v[0] in ("ptr", "uniq"):
                    raise Quit("address of an owner")
            r.append((s, None, False))
        return r

    def e_bin(self, n, st):
        if n["op"] in ("&&", "||", "==", "!="):
            r = []
            for s, b, t in self.branch(n, st):
                r.append((s, None if t else ("c", b), t))
            return r
        return [(s, None, t) for s, v, t in self.seq([n["x"], n["y"]], st)]

    def e_ctor(self, n, st):
        kd = self.kind(n["t"]) if n.get("t") else None
        if kd is None:
            kd = "unique" if self.P.qn(n["f"]).startswith("std::unique_ptr") else None
        a = n.get("a", [])
        if kd == "unique":
            if not a:
                return [(st, ("uniq", None), False)]
            r = []
            for s, vs, t in self.seq(a[:1], st):
                if t:
                    r.append((s, None, True))
                    continue
                v = vs[0]
                if v is None:
                    raise Quit("an owner of an unknown object")
                if v[0] == "null":
                    v = ("uniq", None)
                elif v[0] == "ptr":
                    v = ("uniq", v[1])
                elif v[0] != "uniq":
                    raise Quit("an owner of an unknown object")
                r.append((s, v, False))
            return r
        d = self.P.dn(n["f"])
        if d.get("copy") and self.P.dn(d.get("rec", "")).get("proj") and d.get("rec") in self.owners.values() and not n.get("elid"):
            self.report("an object that deletes the elements of its container is copied", n)
        r = []
        for s, vs, t in self.seq(a, st):
            r.append((s, None, t))
            if not t:
                for v in vs:
                    self.use(s, v, n)
                    self.escape(s, v, n["f"], bool(self.P.dn(n["f"]).get("proj")))
                if self.throwing(n["f"]):
                    r.append((s.copy(), None, True))
        return r

    def throwing(self, f):
        d = self.P.dn(f)
        if d.get("noexcept") or d.get("fk") == "dtor":
            return False
        if d.get("proj") or f in self.P.funcs:
            return self.may_throw(f)
        q = self.P.qn(f)
        nm = self.name(f)
        if nm in GROW:
            return True
        if q.startswith("std::"):
            return d.get("fk") == "ctor" and any(q.startswith("std::" + c) for c in ("valarray", "vector", "basic_string", "__cxx11::basic_string")) and bool(d.get("pt"))
        return False

    def may_throw(self, f, seen=None):
        """a project function: does anything in it throw?"""
        seen = seen if seen is not None else set()
        if f in seen:
            return False
        seen.add(f)
        fn = self.P.funcs.get(f)
        if not fn or not fn.get("body"):
            return not self.P.dn(f).get("defaulted") and not (fn and fn.get("implicit"))
        for n in nodes({"k": "x", "a": [fn["body"]] + [i for i in fn.get("inits", []) if isinstance(i, dict)]}):
            k = n.get("k")
            if k in ("throw", "new"):
                return True
            if k == "call" and not n.get("f"):
                return True
            if k in ("call", "ctor") and n.get("f"):
                g = n["f"]
                if self.P.dn(g).get("proj") or g in self.P.funcs:
                    if not self.P.dn(g).get("noexcept") and self.may_throw(g, seen):
                        return True
                elif self.throwing(g):
                    return True
        return False

    # ------------------------------------------------------------ calls
    def e_call(self, n, st):
        f = n.get("f")
        if not f:
            subs = ([n["fe"]] if isinstance(n.get("fe"), dict) else []) + n.get("a", [])
            r = []
            for s, vs, t in self.seq(subs, st):
                if not t:
                    for v in vs:
                        if v and v[0] == "uniq":
                            raise Quit("an owner is handed to an unknown function")
                    r.append((s.copy(), None, True))
                r.append((s, None, t))
            return self.dedup(r)
        nm = self.name(f)
        o = n.get("o")
        fld = self.field(o) if isinstance(o, dict) else None
        if fld:
            return self.container(n, nm, fld, st)
        proj = self.P.dn(f).get("proj") or f in self.P.funcs
        args = n.get("a", [])
        if nm in HEAPS or not proj and any(self.field(strip(x).get("o")) for x in nodes({"k": "x", "a": args}) if isinstance(x, dict) and isinstance(x.get("o"), dict)):
            if nm not in HEAPS and nm not in NOTHROW and nm != "accumulate":
                raise Quit("an algorithm on the container: " + nm)
            return [(st, None, False)]
        ov = strip(o) if isinstance(o, dict) else None
        subs = ([o] if isinstance(o, dict) else []) + args
        if not proj and nm in ("move", "forward") and len(args) == 1:
            return self.moved(args[0], st)
        outs = []
        for s, vs, t in self.seq(subs, st):
            if t:
                outs.append((s, None, True))
                continue
            recv = vs[0] if isinstance(o, dict) else None
            av = vs[1:] if isinstance(o, dict) else vs
            if recv and recv[0] == "uniq":
                s = s.copy()
                outs += self.unique(n, nm, ov, recv, av, s)
                continue
            if nm == "make_unique" and not proj:
                s2 = s.copy()
                outs.append((s.copy(), None, True))
                v = self.alloc(s2, n, self.P.where(self.stack[-1], n))
                outs.append((s2, ("uniq", v[1]), False))
                continue
            self.use(s, recv, n)
            if proj and (self.inline(f) or self.P.funcs.get(f, {}).get("body") and f not in self.stack and len(self.stack) < 12 and any(
                    v and v[0] == "ptr" and v[1] in s.heap and s.heap[v[1]][0] and not s.heap[v[1]][1] for v in av)):
                outs += self.call(f, av, s, n)
                continue
            for v in av:
                self.use(s, v, n, "handed on")
                self.escape(s, v, f, proj)
                if v and v[0] == "uniq" and not (isinstance(v, tuple) and len(v) > 2):
                    raise Quit("an owner is handed on")
            if self.throwing(f):
                outs.append((s.copy(), None, True))
            outs.append((s, None, False))
        return self.dedup(outs)

    def escape(self, s, v, f, proj):
        """an object that nothing owns is given to a function that is not looked into"""
        if v and v[0] == "ptr" and v[1] in s.heap and s.heap[v[1]][0] and not s.heap[v[1]][1]:
            if any(x and x[0] == "uniq" and x[1] == v[1] for x in s.env.values()):
                return
            d = self.P.dn(f)
            if not proj:
                raise Quit("an object is handed to a library function: " + self.name(f))
            if d.get("fk") == "ctor" and any(self.P.dn(g).get("fk") == "dtor" and self.P.dn(g).get("rec") == d.get("rec") and not x.get("implicit")
                                             for g, x in self.P.funcs.items()):
                raise Quit("an object is handed to an owner of its own kind")

    def moved(self, a, st):
        a = strip(a)
        v = st.env.get(a.get("d")) if a.get("k") == "ref" else None
        if v and v[0] == "uniq":
            s = st.copy()
            s.env[a["d"]] = ("uniq", None)
            return [(s, v, False)]
        return self.ev(a, st)

    def unique(self, n, nm, ov, recv, av, s):
        """member function of a unique_ptr"""
        var = ov["d"] if ov.get("k") == "ref" else None
        if nm in ("operator->", "operator*", "get"):
            if nm != "get":
                self.use(s, recv, n)
                if recv[1] is None:
                    self.report("an empty owner is dereferenced", n)
            return [(s, ("ptr", recv[1]) if recv[1] else ("null",), False)]
        if nm in ("operator bool",):
            return [(s, ("c", recv[1] is not None), False)]
        if nm == "release":
            if var:
                s.env[var] = ("uniq", None)
            return [(s, ("ptr", recv[1]) if recv[1] else ("null",), False)]
        if nm in ("reset", "operator="):
            if not var:
                raise Quit("an owner without a name")
            v = av[0] if av else ("null",)
            if v is None:
                raise Quit("an owner of an unknown object")
            if recv[1]:
                self.delete(s, recv, n)
            s.env[var] = ("uniq", v[1] if v[0] in ("ptr", "uniq") else None)
            return [(s, None, False)]
        raise Quit("unique_ptr::" + nm)

    def container(self, n, nm, fld, st):
        args = n.get("a", [])
        outs = []
        for s, vs, t in self.seq(args, st):
            if t:
                outs.append((s, None, True))
                continue
            s = s.copy()
            if nm in ("push_back", "emplace_back", "push"):
                v = vs[0] if vs else None
                if v is None or v[0] not in ("ptr",) or v[1] not in s.heap:
                    raise Quit("something unknown is put into the container")
                outs.append((s.copy(), None, True))
                al, c, w = s.heap[v[1]]
                if c:
                    self.report("an object (from %s) is put into the container twice" % w, n)
                if not al:
                    self.report("a deleted object (from %s) is put into the container" % w, n)
                s.heap[v[1]] = (al, fld, w)
                outs.append((s, None, False))
            elif nm in ("back", "front", "top", "operator[]", "at"):
                which = "back" if nm in ("back", "top") else nm
                if which == "back":
                    a = s.elem.get(fld)
                    v = ("ptr", a) if a and a in s.heap else self.element(s, fld, n)
                    s.elem[fld] = v[1]
                    # what was put in last is what is at the end; after a heap operation it is any element
                else:
                    v = self.element(s, fld, n)
                outs.append((s, v, False))
            elif nm in ("pop_back", "pop"):
                a = s.elem.pop(fld, None)
                if a is None:
                    self.report("an element is removed from the container and nothing refers to it any more", n)
                elif a in s.heap:
                    al, c, w = s.heap[a]
                    s.heap[a] = (al, None, w)
                outs.append((s, None, False))
            elif nm in ("size", "empty", "begin", "end", "cbegin", "cend", "capacity", "reserve"):
                if nm == "reserve":
                    outs.append((s.copy(), None, True))
                outs.append((s, None, False))
            elif nm == "clear":
                if s.alldel.get(fld) != "yes":
                    self.report("the container is emptied without its elements being deleted", n)
                s.alldel[fld] = "empty"
                outs.append((s, None, False))
            else:
                raise Quit("container operation " + nm)
        return self.dedup(outs)

    def inline(self, f):
        fn = self.P.funcs.get(f)
        if not fn or not fn.get("body"):
            return False
        d = self.P.dn(f)
        if d.get("virtual"):
            return False
        if len(self.stack) > 12 or f in self.stack:
            raise Quit("recursion")
        if any(self.kind(t) for t in [d.get("ret")] + d.get("pt", []) if t):
            return self.relevant(f)
        return d.get("rec") in self.owners.values() and self.relevant(f) and d.get("rec") == self.cls

    def relevant(self, f, seen=None):
        """reaches new, delete, unique_ptr or a container of objects"""
        seen = seen if seen is not None else set()
        if f in seen:
            return False
        seen.add(f)
        fn = self.P.funcs.get(f)
        if not fn:
            return False
        for n in nodes({"k": "x", "a": [x for x in [fn.get("body")] + fn.get("inits", []) if isinstance(x, dict)]}):
            k = n.get("k")
            if k in ("new", "del"):
                return True
            if k == "call" and isinstance(n.get("o"), dict) and self.field(n["o"]) and self.name(n.get("f") or "") in GROW | {"pop_back", "pop", "clear", "back", "erase"}:
                return True
            if k == "ctor" and self.P.qn(n["f"]).startswith("std::unique_ptr"):
                return True
            if k == "call" and n.get("f") in self.P.funcs and self.relevant(n["f"], seen):
                return True
        return False

    def call(self, f, av, st, n):
        fn = self.P.funcs[f]
        self.fns.add(f)
        self.stack.append(f)
        try:
            s = st.copy()
            saved = dict(s.env)
            s.env = {("saved", k): v for k, v in saved.items()}
            own = []
            for p, v in zip(fn["params"], av):
                s.env[p] = v
                t = self.P.dn(p).get("t")
                if v and v[0] == "uniq" and self.P.ty(t)["k"] != "ref":
                    own.append(p)
            outs = []
            for kind, s2, v in self.body(fn, s, own):
                s2 = s2.copy()
                s2.env = {k[1]: x for k, x in s2.env.items() if isinstance(k, tuple) and k[0] == "saved"}
                outs.append((s2, v, kind == "throw"))
            return self.dedup(outs)
        finally:
            self.stack.pop()

    def body(self, fn, st, own=()):
        outs = [("next", st, None)]
        for i in fn.get("inits", []):
            e = i.get("i") or i.get("e")
            nxt = []
            for k, s, v in outs:
                if k != "next" or not isinstance(e, dict):
                    nxt.append((k, s, v))
                    continue
                for s2, v2, t in self.ev(e, s):
                    nxt.append(("throw" if t else "next", s2, None))
            outs = nxt
        r = []
        for k, s, v in outs:
            if k == "next" and fn.get("body"):
                for k2, s2, v2 in self.ex(fn["body"], s):
                    r.append(("throw" if k2 == "throw" else "ret", s2, v2))
            else:
                r.append((k if k == "throw" else "ret", s, v))
        return [(k, self.leave(s, own, v), v) for k, s, v in r]

    # ------------------------------------------------------------ statements: [(kind, state, value)]
    def leave(self, s, ds, keep=None):
        """variables go out of scope"""
        s = s.copy()
        for d in ds:
            v = s.env.pop(d, None)
            self.forget(s, d)
            if v and v[0] == "uniq" and v[1] and not (keep and keep[0] == "uniq" and keep[1] == v[1]):
                self.delete(s, v, None)
        return s

    def tidy(self, s):
        """forget settled objects that nothing refers to"""
        refs = {v[1] for v in s.env.values() if v and v[0] in ("ptr", "uniq")} | set(s.elem.values())
        for a in [a for a, (al, c, w) in s.heap.items() if a not in refs and (al and c or not al and not c)]:
            del s.heap[a]
        # names by order of appearance, so that equal states are recognised
        m = {a: "o%d" % (i + 1) for i, a in enumerate(s.heap)}
        if any(k != v for k, v in m.items()):
            s.heap = {m[a]: x for a, x in s.heap.items()}
            s.env = {k: (v[0], m.get(v[1], v[1])) if v and v[0] in ("ptr", "uniq") else v for k, v in s.env.items()}
            s.elem = {k: m[a] for k, a in s.elem.items() if a in m}
        s.n = len(s.heap)
        return s

    def ex(self, n, st):
        if not isinstance(n, dict):
            return [("next", st, None)]
        k = n.get("k")
        if k == "block":
            return self.x_block(n.get("s", []), st)
        if k == "decl":
            return self.x_decl(n["v"], st)
        if k == "if":
            outs = []
            start = [("next", st, None)]
            if n.get("init"):
                start = self.ex(n["init"], st)
            if n.get("cv"):
                raise Quit("condition variable")
            for kk, s0, v0 in start:
                for s, b, t in self.branch(n["c"], s0):
                    if t:
                        outs.append(("throw", s, None))
                    else:
                        x = n["x" if b else "y"]
                        outs += self.ex(x, s) if isinstance(x, dict) else [("next", s, None)]
            return self.dd(outs)
        if k in ("for", "while", "do", "rfor"):
            return self.x_loop(n, st)
        if k == "ret":
            if not isinstance(n.get("e"), dict):
                return [("ret", st, None)]
            e = strip(n["e"])
            r = []
            while e.get("k") == "ctor" and len(e.get("a", [])) == 1 and strip(e["a"][0]).get("k") == "ref" and (st.env.get(strip(e["a"][0])["d"]) or (0,))[0] == "uniq":
                e = strip(e["a"][0])
            if e.get("k") == "ref" and (st.env.get(e["d"]) or (0,))[0] == "uniq":
                s = st.copy()
                v = s.env[e["d"]]
                s.env[e["d"]] = ("uniq", None)
                return [("ret", s, v)]
            for s, v, t in self.ev(e, st):
                r.append(("throw" if t else "ret", s, None if t else v))
            return r
        if k in ("break", "continue"):
            return [(k, st, None)]
        if k == "try":
            outs = []
            for kk, s, v in self.ex(n["b"], st):
                if kk != "throw":
                    outs.append((kk, s, v))
                    continue
                if not any("t" not in h for h in n["h"]):
                    outs.append((kk, s, v))
                for h in n["h"]:
                    outs += self.ex(h["b"], s)
            return self.dd(outs)
        if k in ("switch", "case", "default", "omp", "goto", "label"):
            if self.relevantnode(n):
                raise Quit("statement " + k)
            return [("next", st, None)]
        if k == "other" and self.relevantnode(n):
            raise Quit("statement")
        outs = []
        top = strip(n)
        for s, v, t in self.ev(n, st):
            if v and v[0] == "uniq" and v[1] and not (top.get("k") == "ref"):
                s = s.copy()
                self.delete(s, v, n)
            if not t and v and v[0] == "ptr" and v[1] in s.heap and top.get("k") == "call":
                refs = [x for q, x in s.env.items() if x and x[0] in ("ptr", "uniq") and x[1] == v[1]]
                if not refs and s.heap[v[1]][0] and not s.heap[v[1]][1]:
                    self.report("the object (from %s) that %s hands over is dropped" % (s.heap[v[1]][2], self.name(top.get("f") or "")), n)
            outs.append(("throw" if t else "next", s, None))
        return self.dd(outs)

    def relevantnode(self, n):
        return any(x.get("k") in ("new", "del") or isinstance(x.get("o"), dict) and self.field(x["o"]) or
                   x.get("k") == "call" and x.get("f") in self.P.funcs and self.relevant(x["f"]) for x in nodes(n))

    def dd(self, outs):
        seen, r = set(), []
        for o in outs:
            s = o[1].copy()
            if not (o[2] and o[2][0] in ("ptr", "uniq")):
                s = self.tidy(s)
            q = (o[0], s.sig(), repr(o[2]))
            if q not in seen:
                seen.add(q)
                r.append((o[0], s, o[2]))
        if len(r) > LIMIT:
            raise Quit("too many paths")
        return r

    def x_block(self, ss, st):
        outs, done = [("next", st, None)], []
        ds = [v["d"] for x in ss if isinstance(x, dict) and x.get("k") == "decl" for v in x["v"]]
        for x in ss:
            nxt = []
            for k, s, v in outs:
                (nxt if k == "next" else done).extend(self.ex(x, s) if k == "next" else [(k, s, v)])
            outs = self.dd([o for o in nxt if o[0] == "next"])
            done += [o for o in nxt if o[0] != "next"]
        return self.dd([(k, self.leave(s, reversed(ds), v), v) for k, s, v in outs + done])

    def x_decl(self, vs, st):
        outs = [("next", st, None)]
        for v in vs:
            nxt = []
            for k, s, _ in outs:
                if k != "next":
                    nxt.append((k, s, None))
                    continue
                e = v.get("i")
                if not isinstance(e, dict):
                    nxt.append((k, s, None))
                    continue
                if any(x in self.owners.values() for x in [self.P.dn(strip(e).get("f", "")).get("rec")]):
                    pass
                for s2, val, t in self.ev(e, s):
                    s2 = s2.copy()
                    if not t:
                        kd = self.kind(self.P.dn(v["d"]).get("t"))
                        if kd == "unique":
                            if val is None:
                                raise Quit("an owner of an unknown object")
                            val = ("uniq", val[1] if val[0] in ("ptr", "uniq") else None)
                        s2.env[v["d"]] = val
                    nxt.append(("throw" if t else "next", s2, None))
            outs = nxt
        return outs

    def branch(self, c, st):
        """[(state, truth, thrown)]"""
        c = strip(c)
        if c.get("k") == "bin" and c["op"] in ("&&", "||"):
            r = []
            for s, b, t in self.branch(c["x"], st):
                if t or b == (c["op"] == "||"):
                    r.append((s, b, t))
                else:
                    r += self.branch(c["y"], s)
            return r
        if c.get("k") == "un" and c["op"] == "!":
            return [(s, not b, t) for s, b, t in self.branch(c["e"], st)]
        if c.get("k") == "bin" and c["op"] in ("==", "!="):
            r = []
            for s, vs, t in self.seq([c["x"], c["y"]], st):
                if t:
                    r.append((s, None, True))
                    continue
                a, b = vs
                eq = None
                if a and b:
                    na, nb = (a[0] == "null" or a == ("uniq", None)), (b[0] == "null" or b == ("uniq", None))
                    if na and nb:
                        eq = True
                    elif na != nb and {a[0], b[0]} & {"ptr", "uniq"}:
                        eq = False
                    elif a[0] == b[0] == "c":
                        eq = a[1] == b[1]
                if eq is not None:
                    r.append((s, eq == (c["op"] == "=="), False))
                else:
                    r += self.fork(c, s)
            return r
        r = []
        for s, v, t in self.ev(c, st):
            if t:
                r.append((s, None, True))
            elif v and v[0] == "c" and isinstance(v[1], bool):
                r.append((s, v[1], False))
            elif v and v[0] == "ptr":
                r.append((s, True, False))
            elif v and v[0] == "null":
                r.append((s, False, False))
            elif v and v[0] == "uniq":
                r.append((s, v[1] is not None, False))
            else:
                r += self.fork(c, s)
        return r

    def fork(self, c, s):
        k = json.dumps(key(c), sort_keys=True)
        if k in s.cond:
            return [(s, s.cond[k], False)]
        a, b = s.copy(), s.copy()
        if '"call"' not in k:
            a.cond[k], b.cond[k] = True, False
        return [(a, True, False), (b, False, False)]

    # ------------------------------------------------------------ loops
    def whole(self, n):
        """the container a loop runs over from the first to the last element, and how its body names the element"""
        if n["k"] == "rfor":
            f = self.field(n["range"])
            return (f, ("var", n["v"]["d"])) if f else None
        if n["k"] == "while":
            c = strip(n["c"])
            if c.get("k") == "un" and c["op"] == "!":
                c = strip(c["e"])
                if c.get("k") == "call" and isinstance(c.get("o"), dict) and self.field(c["o"]) and self.name(c["f"]) == "empty":
                    return self.field(c["o"]), ("drain",)
            return None
        if n["k"] == "for":
            c, i = n.get("c"), n.get("init")
            if not isinstance(c, dict) or not isinstance(i, dict) or i.get("k") != "decl" or len(i["v"]) < 1:
                return None
            v = i["v"][0]
            c = strip(c)
            x = self.field(next((y["o"] for y in nodes(c) if y.get("k") == "call" and isinstance(y.get("o"), dict) and self.field(y["o"])), None) or {})
            if not x:
                return None
            e = strip(v.get("i")) if isinstance(v.get("i"), dict) else None
            names = {self.name(y["f"]) for y in nodes(c) if y.get("k") == "call" and isinstance(y.get("o"), dict) and self.field(y["o"])}
            if c.get("k") == "call" and isinstance(c.get("o"), dict) and c.get("op"):
                op = c["op"]
            else:
                op = c.get("op")
            if op not in ("<", "!="):
                return None
            if e and e.get("k") == "int" and "size" in names:
                inc = strip(n.get("inc") or {})
                if inc.get("k") != "un" or inc.get("op") != "++":
                    return None
                if e["v"] != "0":
                    self.report("the loop over the container's elements leaves out the first", n)
                return x, ("index", v["d"])
            if e and names & {"end", "cend"} and any(y.get("k") == "call" and self.name(y.get("f") or "") in ("begin", "cbegin") and isinstance(y.get("o"), dict) and self.field(y["o"]) == x for y in nodes(e)):
                if any(y.get("k") == "bin" or y.get("k") == "call" and y.get("op") in ("+", "-") for y in nodes(e)):
                    self.report("the loop over the container's elements does not begin with the first", n)
                return x, ("iter", v["d"])
        return None

    def x_loop(self, n, st):
        w = self.whole(n)
        if w and self.touches_elem(n):
            return self.x_all(n, w, st)
        if w is None and self.touches_elem(n):
            pass
        seen = {}
        work, outs = [st], []
        first = n["k"] == "do"
        if n["k"] == "for" and isinstance(n.get("init"), dict):
            work = []
            for k, s, v in self.ex(n["init"], st):
                (work.append(s) if k == "next" else outs.append((k, s, v)))
        ds = [v["d"] for v in n["init"]["v"]] if n["k"] == "for" and isinstance(n.get("init"), dict) and n["init"].get("k") == "decl" else []
        it = 0
        while work:
            it += 1
            if it > 200:
                raise Quit("loop")
            s = work.pop()
            s = self.tidy(s.copy())
            q = s.sig()
            if q in seen:
                continue
            seen[q] = 1
            if n["k"] == "rfor" or n["k"] == "do" or not isinstance(n.get("c"), dict):
                heads = [(s.copy(), True, False)] + ([(s.copy(), False, False)] if n["k"] == "rfor" else [])
            else:
                s2 = s.copy()
                s2.cond = {}
                heads = self.branch(n["c"], s2)
            for h, b, t in heads:
                if t:
                    outs.append(("throw", h, None))
                    continue
                if not b:
                    outs.append(("next", h, None))
                    continue
                h = h.copy()
                h.cond = {}
                for k, s3, v in self.ex(n["b"], h):
                    if k in ("next", "continue"):
                        nx = [("next", s3, None)]
                        if n["k"] == "for" and isinstance(n.get("inc"), dict):
                            nx = [("throw" if t else "next", s4, None) for s4, _, t in self.ev(n["inc"], s3)]
                        for k4, s4, _ in nx:
                            if k4 == "throw":
                                outs.append((k4, s4, None))
                                continue
                            if n["k"] == "do":
                                for s5, b5, t5 in self.branch(n["c"], s4):
                                    if t5:
                                        outs.append(("throw", s5, None))
                                    elif b5:
                                        work.append(s5)
                                    else:
                                        outs.append(("next", s5, None))
                            else:
                                work.append(s4)
                    elif k == "break":
                        outs.append(("next", s3, None))
                    else:
                        outs.append((k, s3, v))
        return self.dd([(k, self.leave(s, ds, v), v) for k, s, v in outs])

    def touches_elem(self, n):
        b = n["b"]
        return any(x.get("k") == "del" or x.get("k") == "call" and isinstance(x.get("o"), dict) and self.field(x["o"]) and
                   self.name(x["f"]) in ("pop_back", "pop") or x.get("k") == "call" and x.get("f") in self.P.funcs and self.relevant(x["f"]) for x in nodes(b))

    def x_all(self, n, w, st):
        """a loop over all elements of the container: its body for an arbitrary one"""
        f, how = w
        s = st.copy()
        el = None
        if how[0] == "var":
            el = self.element(s, f, n)
            s.env[how[1]] = el
        elif how[0] in ("index", "iter"):
            el = self.element(s, f, n)
            s.env[how[1]] = ("at", el[1])
        base = set(st.heap)
        outs, ok, some = [], True, False
        for k, s2, v in self.ex_elem(n["b"], s, f, el):
            if k in ("break", "ret"):
                ok = False
            if k == "throw":
                outs.append((k, s2, v))
                continue
            if el is not None:
                a = s2.heap.get(el[1])
                gone = a is None or not a[0]
                some |= gone
                if not gone:
                    ok = False
                s2 = s2.copy()
                if gone:
                    s2.heap.pop(el[1], None)
                for q in [q for q, x in s2.env.items() if x and len(x) > 1 and x[1] == el[1]]:
                    s2.env[q] = None
            else:
                left = [a for a in s2.heap if a not in base and s2.heap[a][0] and not s2.heap[a][1]]
                if left:
                    self.report("an element is removed from the container without being deleted", n)
                dang = [a for a in s2.heap if a not in base and not s2.heap[a][0] and s2.heap[a][1]]
                if dang:
                    self.report("a deleted object stays in the container", n)
                some = True
                s2 = s2.copy()
                for a in [a for a in s2.heap if a not in base]:
                    del s2.heap[a]
            outs.append(("next" if k in ("next", "continue", "break") else k, s2, v))
        if el is not None and some and not ok:
            self.report("not every element of the container is deleted by the loop over it", n)
        res = []
        for k, s2, v in outs:
            if k == "next":
                s2 = s2.copy()
                s2.alldel[f] = "empty" if how[0] == "drain" and ok else "yes" if some else s2.alldel.get(f, "no")
            res.append((k, s2, v))
        return self.dd(res)

    def ex_elem(self, b, s, f, el):
        self.cur = (f, el)
        old_sub, old_un, old_cont = self.e_sub, self.e_un, self.container
        own = self

        def container(n, nm, fld, st):
            if nm in ("operator[]", "at") and fld == f and n.get("a") and strip(n["a"][0]).get("k") == "ref" and (st.env.get(strip(n["a"][0])["d"]) or (0,))[0] == "at":
                return [(st, ("ptr", st.env[strip(n["a"][0])["d"]][1]), False)]
            return old_cont(n, nm, fld, st)
        own.container = container

        def call(n, st, old=self.e_call):
            o = strip(n.get("o") or {})
            if n.get("op") == "*" and o.get("k") == "ref" and (st.env.get(o["d"]) or (0,))[0] == "at":
                return [(st, ("ptr", st.env[o["d"]][1]), False)]
            return old(n, st)
        own.e_call = call
        try:
            return own.ex(b, s)
        finally:
            del own.container, own.e_call

    def e_sub(self, n, st):
        return [(s, None, t) for s, v, t in self.seq([n["b"], n["i"]], st)]

    # ------------------------------------------------------------ one root
    def root(self, f, cls):
        self.cls = cls
        d = self.P.dn(f)
        fn = self.P.funcs[f]
        self.stack = [f]
        self.fns.add(f)
        st = State()
        own = [p for p in fn["params"] if self.kind(self.P.dn(p).get("t")) == "unique"]
        if own:
            raise Quit("owners as parameters of a public function")
        ctor, dtor = d.get("fk") == "ctor", d.get("fk") == "dtor"
        mine = [c for c, r in self.owners.items() if r == cls]
        for k, s, v in self.body(fn, st):
            self.exits += 1
            for a, (al, c, w) in s.heap.items():
                if v and v[0] in ("ptr", "uniq") and v[1] == a and k == "ret":
                    if c:
                        continue
                    if v[0] == "ptr" and al:
                        continue        # handed to the caller
                    if al:
                        continue
                if al and not c:
                    self.report("an object (from %s) is not deleted when the function is left%s" % (w, " by an exception" if k == "throw" else ""), None)
                if al and c and ctor and k == "throw":
                    if w != "an element of the container":
                        self.report("an object (from %s) stays in the container of an object whose construction fails" % w, None)
                if not al and c and not dtor:
                    self.report("a deleted object (from %s) stays in the container%s" % (w, " when an exception is thrown" if k == "throw" else ""), None)
            if dtor and k != "throw":
                for c in mine:
                    if s.alldel.get(c) not in ("yes", "empty"):
                        self.report("the elements of the container are not all deleted by the destructor", None)
            elif k != "throw":
                for c in mine:
                    if s.alldel.get(c) == "yes":
                        self.report("the deleted elements stay in the container", None)

"""Value-graph models of the parts of the standard library the code relies on."""
from term import *
from fractions import Fraction
import term as tm
import evalv as S

FLOAT, ADJ, BASE = 4 | 256, 16 | 32 | 128, 2 | 8 | 64
FIELDS = (("floatfield", FLOAT), ("adjustfield", ADJ), ("basefield", BASE), ("rest", ~(FLOAT | ADJ | BASE) & 0xffff))
CONSTS = {"std::ios_base::" + k: v for k, v in {
    "boolalpha": 1, "dec": 2, "fixed": 4, "hex": 8, "internal": 16, "left": 32, "oct": 64, "right": 128, "scientific": 256,
    "showbase": 512, "showpoint": 1024, "showpos": 2048, "skipws": 4096, "unitbuf": 8192, "uppercase": 16384,
    "adjustfield": 176, "basefield": 74, "floatfield": 260, "badbit": 1, "eofbit": 2, "failbit": 4, "goodbit": 0,
    "app": 1, "ate": 2, "binary": 4, "in": 8, "out": 16, "trunc": 32}.items()}
MATH1 = {"exp", "log", "erf", "cosh", "sinh", "tanh", "sin", "cos", "tan", "ceil", "floor", "erfc", "log10", "atan", "asin", "acos"}
NOEFFECT = {"reserve", "shrink_to_fit", "flush", "close", "detach"}


def last(qn):
    # component after the last :: outside template arguments
    d, i = 0, len(qn)
    op = qn.find("::operator")
    if op >= 0:
        return qn[op + 2:]
    if qn.startswith("operator"):
        return qn
    for j in range(len(qn) - 1, 0, -1):
        if qn[j] == ">":
            d += 1
        elif qn[j] == "<":
            d -= 1
        elif d == 0 and qn[j] == ":":
            return qn[j + 1:]
    return qn


def cls(qn):
    l = last(qn)
    c = qn[:-len(l) - 2] if qn != l else ""
    return c


def isvec(c):
    return c.startswith("std::vector") or c.startswith("std::valarray") or c.startswith("std::_Vector") or c.startswith("std::array")


def isstr(c):
    return c == "std::basic_string" or c.startswith("std::basic_string<") or c.startswith("std::__cxx11::basic_string<")


def isios(c):
    return c.startswith(("std::basic_ios<", "std::ios_base", "std::basic_istream", "std::basic_ostream", "std::basic_ifstream",
                         "std::basic_ofstream", "std::basic_istringstream", "std::basic_ostringstream", "std::basic_stringstream",
                         "std::basic_iostream", "std::basic_fstream"))


def vec(n, a):
    return rec({"n": n, "a": a})


def tuplam(f):
    v = fresh()
    return lam(v, f(v))


def mderef(p):
    """what an iterator into a map refers to"""
    m, k = p.a
    return rec({"first": k, "second": mk("mapsto", m, k)})


def asvec(self, st, x):
    if isinstance(x, S.Loc):
        x = self.read(st, x)
    return x


def isvecval(x):
    return x.op in ("rec", "upd") and "a" in fields_of(x) and "n" in fields_of(x)


def valarith(self, op, a, b, isvec_a, isvec_b):
    f = {"+": add, "-": sub, "*": mul, "/": div}.get(op)
    if f is None:
        raise S.Unknown("valarray operator " + op)
    n = fld(a, "n") if isvec_a else fld(b, "n")
    return vec(n, tuplam(lambda v: f(sel(fld(a, "a"), v) if isvec_a else a, sel(fld(b, "a"), v) if isvec_b else b)))


def emit(self, st, l, piece):
    self.write(st, l + (("f", "out"),), cat(self.read(st, l + (("f", "out"),)), piece))
    if "both" in fields_of(self.read(st, l)):
        self.write(st, l + (("f", "in"),), cat(self.read(st, l + (("f", "in"),)), piece))


def fmtd(self, st, l, v, t):
    """a formatted piece of output; consumes the width"""
    s = self.read(st, l)
    w = fld(s, "w")
    fl = fld(s, "fl")
    k = t["k"]
    if v.op in ("str", "cat") or k in ("ptr", "arr", "rec"):
        p = v if w is ZERO else mk("out", "s", v, w, fld(fl, "adjustfield"))
    elif k == "float":
        p = mk("out", "f", v, fld(fl, "floatfield"), fld(s, "prec"), w, fld(fl, "adjustfield"))
    elif k == "char" or (k in ("int", "uint") and t.get("bits") == 8):
        if v.op == "num" and w is ZERO and 0 < v.a[0] < 256:
            p = string(chr(int(v.a[0])))
        else:
            p = mk("out", "c", v, w, fld(fl, "adjustfield"))
    else:
        if k == "bool":
            v = ite(self.tobool(v), ONE, ZERO)
        p = mk("out", "i", v, w, fld(fl, "adjustfield"))
    emit(self, st, l, p)
    if w is not ZERO:
        self.write(st, l + (("f", "w"),), ZERO)


def setfield(old, v, mask, fmask):
    """bits of one format field after setf (v, mask)"""
    if mask.op == "num":
        m = int(mask.a[0]) & fmask
        if m == 0:
            return old
        new = num(int(v.a[0]) & m) if v.op == "num" else fld(v, {FLOAT: "floatfield", ADJ: "adjustfield", BASE: "basefield"}.get(fmask, "rest")) \
            if v.op == "rec" else S.bitop("and", v, num(m))
        if m == fmask:
            return new
        if old.op == "num" and new.op == "num":
            return num(int(old.a[0]) & ~m | int(new.a[0]))
    raise S.Unknown("setf")


def flagsrec(v):
    if v.op in ("rec", "fld", "sym", "upd", "ite"):
        return v
    if v.op == "num":
        return rec({k: num(int(v.a[0]) & m) for k, m in FIELDS})
    raise S.Unknown("flags value")


def astream(self, n, d, st, l, v, t, node=None):
    """os << v"""
    if v.op == "fn":
        nm = last(self.P.qn(v.a[0]))
        if nm == "endl":
            emit(self, st, l, string("\n"))
        elif nm in ("flush", "ends"):
            pass
        elif nm in ("fixed", "scientific", "left", "right", "internal", "defaultfloat", "dec"):
            f, x = {"fixed": ("floatfield", 4), "scientific": ("floatfield", 256), "defaultfloat": ("floatfield", 0),
                    "left": ("adjustfield", 32), "right": ("adjustfield", 128), "internal": ("adjustfield", 16), "dec": ("basefield", 2)}[nm]
            self.write(st, l + (("f", "fl"), ("f", f)), num(x))
        else:
            raise S.Unknown("manipulator " + nm)
        return l
    if v.op == "manip":
        k, x = v.a
        if k == "setw":
            self.write(st, l + (("f", "w"),), x)
        elif k == "setprecision":
            self.write(st, l + (("f", "prec"),), x)
        elif k == "setiosflags":
            raise S.Unknown("setiosflags")
        return l
    fmtd(self, st, l, v, t)
    return l


# ---------------------------------------------------------------- input streams: in, fail, eof, bad
def istate(self, st, l):
    s = self.read(st, l)
    g = lambda f: fld(s, f) if (s.op == "rec" and f in fields_of(s)) else (FALSE if s.op == "rec" else atom(fld(s, f)))
    return g("fail"), g("eof"), g("bad")


def setis(self, st, l, fail=None, eof=None, bad_=None):
    for k, v in (("fail", fail), ("eof", eof), ("bad", bad_)):
        if v is not None:
            self.write(st, l + (("f", k),), v)


def extract(self, st, l, kind, extra=()):
    """one extraction: returns (old input, can: whether it succeeds)"""
    fail, eof, b = istate(self, st, l)
    good = NOT(OR(fail, eof, b))
    inp = self.read(st, l + (("f", "in"),))
    can = atom(mk("can", kind, inp, *extra))
    ok = AND(good, can)
    hit = atom(mk("hiteof", kind, inp, *extra))
    setis(self, st, l, fail=OR(fail, NOT(ok)), eof=OR(eof, AND(good, hit)))
    self.write(st, l + (("f", "in"),), ite(good, mk("adv", kind, inp, *extra), inp))
    return inp, good, ok


def bits_of(self, st, v):
    """decode an iostate value: (fail, eof, bad)"""
    if v.op == "num":
        x = int(v.a[0])
        return tuple(TRUE if x & m else FALSE for m in (4, 2, 1))
    if v.op == "rdstate":
        return v.a
    if v.op == "app" and v.a[0] in ("or", "and"):
        f = OR if v.a[0] == "or" else AND
        xs = [bits_of(self, st, x) for x in v.a[1:]]
        return tuple(f(*[x[i] for x in xs]) for i in range(3))
    if v.op == "app" and v.a[0] == "not":
        return tuple(NOT(x) for x in bits_of(self, st, v.a[1]))
    if v.op == "ite":
        a, b = bits_of(self, st, v.a[1]), bits_of(self, st, v.a[2])
        return tuple(ite(atom(v.a[0]), x, y) for x, y in zip(a, b))
    raise S.Unknown("iostate")


def kind_of(t):
    if t["k"] == "float":
        return "real"
    if t["k"] in ("uint", "int"):
        return "%s%d" % (t["k"][0], t.get("bits", 32))
    if t["k"] == "bool":
        return "bool"
    return "word"


def copy_range(self, st, first, lastp, dest, f=None):
    if first.op != "ptr" or dest.op != "ptr" or lastp.op != "ptr" or first.a[2] is S.NOFF or dest.a[2] is S.NOFF:
        raise S.Unknown("copy between opaque iterators")
    n = sub(lastp.a[2], first.a[2])
    src = self.view(st, first)
    dl = S.Loc(dest.a[0], dest.a[1])
    old = self.read(st, dl)
    off = dest.a[2]
    j = fresh()
    k = sub(j, off)
    val = sel(src, k)
    if f is not None:
        val = f(val)
    inr = AND(NOT(lt0(k, True)), lt0(sub(k, n), True))
    self.write(st, dl, lam(j, ite(inr, val, sel(old, j))))
    return self.ptradd(dest, n)


def applyf(self, st, fv, args):
    if fv.op == "clos":
        return self.invoke_closure(fv, args, st)
    if fv.op == "fn":
        f = fv.a[0]
        if f in self.P.funcs:
            r = self.call(f, st, None, args)
            return self.read(st, r) if isinstance(r, S.Loc) else r
        nm = last(self.P.qn(f))
        if nm in MATH1:
            return app(nm, *args)
        if nm == "sqrt":
            return powr(args[0], Fraction(1, 2))
        raise S.Unknown("function " + nm)
    return self.unknown_call(fv, args, st, None)


def order(self, st, node, c):
    """what a comparing function object decides, as a function of the two values compared"""
    x, y = fresh("x"), fresh("y")
    if c is None:
        r = lt0(sub(x, y), False)
    elif c.op in ("clos", "fn"):
        r = applyf(self, st, c, [x, y])
        r = self.read(st, r) if isinstance(r, S.Loc) else r
        r = self.tobool(r, {"k": "bool"})
    else:
        t = self.unref(self.ty(node))
        rn = self.recname(t)
        fs = [f for f in self.P.funcs if self.P.dn(f).get("rec") == t.get("d") and self.P.qn(f).endswith("::operator()")]
        if len(fs) != 1 or c.op != "rec":
            if str(rn or "").startswith("std::less") or c.op == "sym" and c.a[0].startswith("std::less"):
                r = lt0(sub(x, y), False)
            elif c.op == "sym" and c.a[0].startswith("std::greater"):
                r = lt0(sub(y, x), False)
            else:
                return self.closview(st, c)
        else:
            root = self.newroot("cmp")
            st.mem[root] = c
            l = []
            for v in (x, y):
                q = self.newroot("v")
                st.mem[q] = v
                l.append(S.Loc(q))
            r = self.call(fs[0], st, S.Loc(root), l)
            r = self.read(st, r) if isinstance(r, S.Loc) else r
            r = self.tobool(r, {"k": "bool"})
    return lam(x, lam(y, ite(r, ONE, ZERO)))


def rng(st, self, a, b):
    if a.op != "ptr" or b.op != "ptr" or a.a[:2] != b.a[:2] or a.a[2] is S.NOFF:
        raise S.Unknown("range")
    return self.view(st, a), sub(b.a[2], a.a[2])


def std_call(self, n, d, st):
    P = self.P
    qn = d.get("qn", "")
    nm, c = last(qn), cls(qn)
    al = n["a"]
    rvs = lambda: [self.rv(x, st) for x in al]

    # ---------------------------------------------------------- free functions
    if "o" not in n:
        if nm in MATH1 and len(al) == 1:
            x = self.rv(al[0], st)
            if isvecval(x):
                return vec(fld(x, "n"), tuplam(lambda v: app(nm, sel(fld(x, "a"), v))))
            return app(nm, x)
        if nm in ("sqrt", "pow", "abs", "fabs", "fmax", "fmin", "hypot", "cbrt"):
            xs = rvs()
            if isvecval(xs[0]):
                g = {"sqrt": lambda x: powr(x, Fraction(1, 2)), "abs": lambda x: app("abs", x)}.get(nm)
                if nm == "pow" and len(xs) == 2 and not isvecval(xs[1]):
                    g = lambda x: app("pow", x, xs[1])
                if g is None:
                    raise S.Unknown(nm)
                return vec(fld(xs[0], "n"), tuplam(lambda v: g(sel(fld(xs[0], "a"), v))))
            if nm == "sqrt":
                return powr(xs[0], Fraction(1, 2))
            if nm == "cbrt":
                return powr(xs[0], Fraction(1, 3))
            if nm == "hypot":
                return powr(add(mul(xs[0], xs[0]), mul(xs[1], xs[1])), Fraction(1, 2))
            if nm in ("fmax", "fmin"):
                nm = nm[1:]
            if nm in ("max", "min"):
                return minmax(nm, xs[0], xs[1], False)
            return app("abs" if nm == "fabs" else nm, *xs)
        if qn in ("std::max", "std::min"):
            xs = rvs()
            if len(xs) == 1 and xs[0].op == "list":
                r = xs[0].a[0][0]
                for y in xs[0].a[0][1:]:
                    r = minmax(nm, r, y, self.isint(self.ty(n)))
                return r
            return minmax(nm, xs[0], xs[1], self.isint(self.unref(self.ty(n))))
        if qn == "std::clamp":
            v, lo, hi = rvs()
            return minmax("min", minmax("max", v, lo, False), hi, False)
        if qn in ("std::begin", "std::end", "std::cbegin", "std::cend"):
            l = self.lv(al[0], st)
            t = self.unref(self.ty(al[0]))
            if t["k"] == "arr":
                return S.ptr(l, ZERO if "begin" in nm else num(t["n"]))
            v = l + (("f", "a"),)
            return S.ptr(v, ZERO if "begin" in nm else self.read(st, l + (("f", "n"),)))
        if qn == "std::move" or qn == "std::forward":
            if len(al) == 1:
                return self.ev(al[0], st)
        if qn == "std::addressof":
            return self.addr(self.lv(al[0], st))
        if qn == "std::swap":
            a, b = self.lv(al[0], st), self.lv(al[1], st)
            x, y = self.read(st, a), self.read(st, b)
            self.write(st, a, y)
            self.write(st, b, x)
            return None
        if qn == "std::setw" or qn == "std::setprecision":
            return mk("manip", nm, self.rv(al[0], st))
        if qn.startswith("std::numeric_limits<"):
            t = self.unref(self.ty(n))
            if nm == "max" and t["k"] in ("uint", "int") and t.get("bits"):
                return num((1 << (t["bits"] - (t["k"] == "int"))) - 1)
            return sym(qn[5:])
        if nm in ("isspace", "isdigit", "isalpha"):
            return app(nm, self.rv(al[0], st))
        if qn == "std::accumulate":
            xs = rvs()
            a, N = rng(st, self, xs[0], xs[1])
            if len(xs) == 3:
                if xs[2].op in ("str",):
                    raise S.Unknown("accumulate")
                v = fresh()
                return add(xs[2], Sum(N, v, sel(a, v)))
            v = fresh()
            w = fresh()
            u = applyf(self, st, xs[3], [w, sel(a, v)])
            g = sub(u, w)
            if occurs(w, g):
                raise S.Unknown("accumulate")
            return add(xs[2], Sum(N, v, g))
        if qn == "std::inner_product" and len(al) == 4:
            xs = rvs()
            a, N = rng(st, self, xs[0], xs[1])
            b = self.view(st, xs[2])
            v = fresh()
            return add(xs[3], Sum(N, v, mul(sel(a, v), sel(b, v))))
        if qn in ("std::copy", "std::move") and len(al) == 3:
            xs = rvs()
            return copy_range(self, st, *xs)
        if qn == "std::copy_n":
            a, k, dst = rvs()
            return copy_range(self, st, a, self.ptradd(a, k), dst)
        if qn in ("std::fill", "std::fill_n", "std::iota"):
            a, b, v = rvs()
            if a.op != "ptr" or a.a[2] is S.NOFF:
                raise S.Unknown(nm)
            N = b if nm == "fill_n" else sub(b.a[2], a.a[2])
            l = S.Loc(a.a[0], a.a[1])
            old = self.read(st, l)
            j = fresh()
            k = sub(j, a.a[2])
            x = add(v, k) if nm == "iota" else v
            self.write(st, l, lam(j, ite(AND(NOT(lt0(k, True)), lt0(sub(k, N), True)), x, sel(old, j))))
            return None
        if qn == "std::transform":
            xs = [self.rv(x, st) for x in al]
            if len(xs) == 4:
                def f(v):
                    r = applyf(self, st, xs[3], [v])
                    return r
                return copy_range(self, st, xs[0], xs[1], xs[2], f)
            if len(xs) == 5:
                b = self.view(st, xs[2])
                a, N = rng(st, self, xs[0], xs[1])
                dl = S.Loc(xs[3].a[0], xs[3].a[1])
                off = xs[3].a[2]
                old = self.read(st, dl)
                j = fresh()
                k = sub(j, off)
                val = applyf(self, st, xs[4], [sel(a, k), sel(b, k)])
                self.write(st, dl, lam(j, ite(AND(NOT(lt0(k, True)), lt0(sub(k, N), True)), val, sel(old, j))))
                return self.ptradd(xs[3], N)
        if qn in ("std::any_of", "std::all_of", "std::none_of", "std::count_if"):
            xs = rvs()
            a, N = rng(st, self, xs[0], xs[1])
            v = fresh()
            b = self.tobool(applyf(self, st, xs[2], [sel(a, v)]), {"k": "bool"})
            if nm == "any_of":
                return Any(N, v, b)
            if nm == "none_of":
                return NOT(Any(N, v, b))
            if nm == "all_of":
                return NOT(Any(N, v, NOT(b)))
            return Sum(N, v, ite(b, ONE, ZERO))
        if qn == "std::count":
            xs = rvs()
            a, N = rng(st, self, xs[0], xs[1])
            v = fresh()
            return Sum(N, v, ite(eq(sel(a, v), xs[2]), ONE, ZERO))
        if qn in ("std::max_element", "std::min_element"):
            xs = rvs()
            a, N = rng(st, self, xs[0], xs[1])
            return self.ptradd(xs[0], app("arg" + nm[:3], N, a))
        if qn in ("std::partial_sort", "std::sort", "std::stable_sort"):
            xs = rvs()
            hi = xs[2] if nm == "partial_sort" else xs[1]
            a, N = rng(st, self, xs[0], hi)
            m = sub((xs[1] if nm == "partial_sort" else hi).a[2], xs[0].a[2])
            own = len(xs) > (3 if nm == "partial_sort" else 2)
            if xs[0].a[2] is not ZERO:
                raise S.Unknown("sort at offset")
            self.write(st, S.Loc(xs[0].a[0], xs[0].a[1]), mk("sorted", a, N, m, order(self, st, al[-1], xs[-1]) if own else order(self, st, None, None)))
            return None
        if qn in ("std::make_heap", "std::push_heap", "std::pop_heap"):
            xs = rvs()
            a, N = rng(st, self, xs[0], xs[1])
            self.write(st, S.Loc(xs[0].a[0], xs[0].a[1]), mk("heap", nm, a, N, self.closview(st, xs[2]) if len(xs) > 2 else sym("less")))
            return None
        if qn == "std::current_exception":
            if self.frame.exc:
                return mk("eptr", self.frame.exc[-1])
            return mk("eptr", mk("exc", "std::exception", UNDEF))
        if qn == "std::rethrow_exception":
            x = self.rv(al[0], st)
            self.throw(st, x.a[0] if x.op == "eptr" else mk("exc", "std::exception", x))
            return UNDEF
        if qn == "std::getline":
            l = self.lv(al[0], st)
            dst = self.lv(al[1], st)
            ex = (self.rv(al[2], st),) if len(al) > 2 else (num(10),)
            inp, good, ok = extract(self, st, l, "line", ex)
            old = self.read(st, dst)
            self.write(st, dst, ite(good, mk("tok", "line", inp, *ex), old))
            return l
        if qn in ("std::skipws", "std::noskipws"):
            return None
        if qn in ("std::to_string",):
            return mk("out", "i", self.rv(al[0], st), ZERO, ZERO)
        if qn in ("std::stod", "std::stoi", "std::stoul", "std::stol"):
            raise S.Unknown(qn)
        if qn in ("std::real", "std::imag", "std::norm"):
            raise S.Unknown(qn)
        if qn in ("std::operator<<",):
            l = self.lv(al[0], st)
            v = self.rv(al[1], st)
            return astream(self, n, d, st, l, v, self.unref(self.ty(al[1])), n)
        if qn == "std::operator>>":
            l = self.lv(al[0], st)
            dst = self.lv(al[1], st)
            t = self.unref(self.ty(al[1]))
            k = "char" if t["k"] in ("int", "uint", "char") else "word"
            inp, good, ok = extract(self, st, l, k)
            old = self.read(st, dst)
            self.write(st, dst, ite(ok, mk("tok", k, inp), ite(good, EMPTY, old) if k == "word" else old))
            return l
        if qn in ("std::operator|", "std::operator&", "std::operator^"):
            t = self.unref(self.ty(al[0]))
            a, b = rvs()
            if a.op == "num" and b.op == "num":
                x, y = int(a.a[0]), int(b.a[0])
                return num({"|": x | y, "&": x & y, "^": x ^ y}[nm[-1]])
            return S.bitop({"|": "or", "&": "and", "^": "xor"}[nm[-1]], a, b)
        if qn == "std::operator~":
            return app("not", self.rv(al[0], st))
        if qn in ("std::operator==", "std::operator!=", "__gnu_cxx::operator==", "__gnu_cxx::operator!="):
            a, b = rvs()
            r = self.equal(a, b)
            return r if nm.endswith("==") else NOT(r)
        if nm in ("operator-",) and len(al) == 2 and self.unref(self.ty(al[0]))["k"] == "rec" and \
                "iterator" in self.recname(self.ty(al[0])):
            a, b = rvs()
            if a.op == "ptr" and b.op == "ptr" and a.a[:2] == b.a[:2]:
                return sub(a.a[2], b.a[2])
            raise S.Unknown("iterator difference")
        if nm in ("operator+", "operator-", "operator*", "operator/") and qn.startswith("std::"):
            a, b = self.rv(al[0], st), self.rv(al[1], st)
            va, vb = isvecval(a) or isvecty(self, al[0]), isvecval(b) or isvecty(self, al[1])
            if nm == "operator+" and not va and not vb:
                return cat(a, b)
            return valarith(self, nm[-1], a, b, va, vb)
        if "::" not in qn and (nm.endswith("_") or d.get("externc")):
            return extern_c(self, n, d, st)
        raise S.Unknown("call of " + qn)

    # ---------------------------------------------------------- members
    on = n["o"]
    if n.get("arrow"):
        p = self.rv(on, st)
        l = self.deref(st, p) if p.op != "mptr" else None
        if l is None:
            raise S.Unknown(qn)
    else:
        l = None
    ot = self.recname(self.ty(on))
    getl = lambda: l if l is not None else self.lv(on, st)
    getv = lambda: self.read(st, l) if l is not None else self.rv(on, st)

    if c.startswith("__gnu_cxx::__normal_iterator") or c.startswith("std::_Bit_iterator") or c.startswith("std::_Bit_const_iterator"):
        if nm == "operator*":
            return self.deref(st, getv())
        if nm == "operator->":
            return getv()
        if nm in ("operator++", "operator--"):
            ll = getl()
            old = self.read(st, ll)
            self.write(st, ll, self.ptradd(old, ONE if nm[-1] == "+" else num(-1)))
            return old if al else ll
        if nm in ("operator+", "operator-"):
            x = self.rv(al[0], st)
            return self.ptradd(getv(), x if nm[-1] == "+" else neg(x))
        if nm in ("operator+=", "operator-="):
            ll = getl()
            x = self.rv(al[0], st)
            self.write(st, ll, self.ptradd(self.read(st, ll), x if nm[-2] == "+" else neg(x)))
            return ll
        if nm == "operator[]":
            return self.deref(st, self.ptradd(getv(), self.rv(al[0], st)))
    if c.startswith("std::_Bit_reference"):
        if nm == "operator bool":
            return self.tobool(getv(), {"k": "bool"})
        if nm == "operator=":
            ll = getl()
            self.write(st, ll, self.rv(al[0], st))
            return ll
    if c.startswith("std::map<") or c.startswith("std::unordered_map<"):
        return mapcall(self, nm, n, al, st, getl, getv)
    if c.startswith("std::_Rb_tree_const_iterator") or c.startswith("std::_Rb_tree_iterator"):
        v = getv()
        if nm == "operator->" or nm == "operator*":
            if v.op == "mit":
                m, i = v.a
                r = self.newroot("pair")
                st.mem[r] = rec({"first": mk("mkey", m, i), "second": mk("mval", m, i)})
                return S.ptr(S.Loc(r)) if nm == "operator->" else S.Loc(r)
            if v.op == "mptr":
                r = self.newroot("pair")
                st.mem[r] = mderef(v)
                return S.ptr(S.Loc(r)) if nm == "operator->" else S.Loc(r)
            raise S.Unknown("map iterator")
        if nm == "operator++":
            ll = getl()
            v = self.read(st, ll)
            if v.op == "mit":
                self.write(st, ll, mk("mit", v.a[0], add(v.a[1], ONE)))
                return ll
            raise S.Unknown("map iterator")
    if isvec(c) or c.startswith("std::_Expr") or isvec(ot):
        return veccall(self, nm, n, d, al, st, getl, getv)
    if isstr(c):
        return strcall(self, nm, n, al, st, getl, getv)
    if isios(c):
        return ioscall(self, nm, n, d, al, st, getl, getv)
    if c.startswith("std::unique_ptr<") or c.startswith("std::shared_ptr<") or c.startswith("std::__uniq_ptr") or c.startswith("std::__shared_ptr"):
        # an owner is represented by the pointer it holds
        if nm in ("operator->", "get"):
            return getv()
        if nm == "operator*":
            return self.deref(st, getv())
        if nm == "operator[]":
            return self.deref(st, self.ptradd(getv(), self.rv(al[0], st)))
        if nm == "release":
            ll = getl()
            old = self.read(st, ll)
            self.write(st, ll, S.NULL)
            return old
        if nm in ("reset", "operator="):
            ll = getl()
            v = self.rv(al[0], st) if al else S.NULL
            if al and nm == "operator=" and c.startswith(("std::unique_ptr<", "std::__uniq")) and self.recname(self.unref(self.ty(al[0]))).startswith("std::unique_ptr"):
                src = self.lv(al[0], st)
                if isinstance(src, S.Loc) and src.root != ll.root:
                    self.write(st, src, S.NULL)
            self.write(st, ll, v)
            return ll
        if nm == "swap":
            a, b = getl(), self.lv(al[0], st)
            x, y = self.read(st, a), self.read(st, b)
            self.write(st, a, y)
            self.write(st, b, x)
            return None
        if nm == "operator bool":
            return self.tobool(getv(), {"k": "ptr"})
    if c.startswith("std::thread"):
        if nm in ("join", "detach"):
            return None
        if nm == "joinable":
            return TRUE
        if nm == "operator=":
            self.rv(al[0], st)
            return getl()
    if "exception_ptr" in c:
        if nm == "operator bool":
            v = getv()
            return exbool(v)
        if nm == "operator=":
            ll = getl()
            self.write(st, ll, self.rv(al[0], st))
            return ll
    if nm == "what":
        v = getv()
        if v.op == "exc":
            return v.a[1]
        return mk("fld", v, "what")
    if c.startswith("std::less") or c.startswith("std::greater"):
        a, b = rvs()
        return S.cmp("<" if "less" in c else ">", a, b, False)
    if nm == "operator bool":
        return self.tobool(getv(), {"k": "bool"})
    raise S.Unknown("call of " + qn)


def extern_c(self, n, d, st):
    """foreign routine: pointer arguments to non-constant objects get uninterpreted values"""
    args = self.args(n["a"], d, st)
    return self.opaque_call(d.get("qn", ""), st, None, args, d)


def exbool(v):
    if v.op == "eptr":
        return TRUE
    if v.op == "null":
        return FALSE
    if v.op == "ite":
        return ite(atom(v.a[0]), exbool(v.a[1]), exbool(v.a[2]))
    return atom(app("nonnull", v))


def isvecty(self, n):
    q = self.recname(self.ty(n))
    return isvec(q) or q.startswith("std::_Expr")


def minmax(nm, a, b, integer):
    if a is b:
        return a
    if a.op == "ite" or b.op == "ite":
        r = lift(lambda a, b: minmax(nm, a, b, integer), a, b)
        if r is not None:
            return r
    return ite(lt0(sub(a, b), integer), b if nm == "max" else a, a if nm == "max" else b)


def mapcall(self, nm, n, al, st, getl, getv):
    if nm == "find":
        m, k = getv(), self.rv(al[0], st)
        return mk("mptr", m, k)
    if nm == "end" or nm == "cend":
        return mk("mend", getv())
    if nm == "begin" or nm == "cbegin":
        return mk("mit", getv(), ZERO)
    if nm == "size":
        return app("maplen", getv())
    if nm == "empty":
        return eq(app("maplen", getv()), ZERO)
    if nm == "count":
        return ite(atom(mk("has", getv(), self.rv(al[0], st))), ONE, ZERO)
    if nm in ("operator[]", "at"):
        l = getl()
        k = self.rv(al[0], st)
        return l + (("i", k),)
    if nm == "operator=":
        l = getl()
        self.write(st, l, self.rv(al[0], st))
        return l
    if nm == "clear":
        self.write(st, getl(), mk("emptymap"))
        return None
    raise S.Unknown("map::" + nm)


def elemdefault(self, on):
    t = self.unref(self.ty(on))
    if t["k"] == "ptr":
        t = self.unref(self.P.ty(t["e"]))
    return self.elem_zero(t)


def veccall(self, nm, n, d, al, st, getl, getv):
    on = n["o"]
    if nm == "operator[]":
        x = self.ev(on, st) if not n.get("arrow") else getl()
        i = self.rv(al[0], st)
        if isinstance(x, S.Loc):
            return x + (("f", "a"), ("i", i))
        return sel(fld(x, "a"), i)
    if nm == "at":
        l = getl()
        i = self.rv(al[0], st)
        return l + (("f", "a"), ("i", i))
    if nm == "size":
        return fld(getv(), "n")
    if nm == "empty":
        return eq(fld(getv(), "n"), ZERO)
    if nm == "sum":
        x = getv()
        v = fresh()
        return Sum(fld(x, "n"), v, sel(fld(x, "a"), v))
    if nm in ("max", "min"):
        x = getv()
        return app("arr" + nm, fld(x, "n"), fld(x, "a"))
    if nm == "apply":
        x = getv()
        f = self.rv(al[0], st)
        return vec(fld(x, "n"), tuplam(lambda v: applyf(self, st, f, [sel(fld(x, "a"), v)])))
    if nm == "operator-" and not al:
        x = getv()
        return vec(fld(x, "n"), tuplam(lambda v: neg(sel(fld(x, "a"), v))))
    if nm == "operator=":
        v = self.rv(al[0], st)
        l = getl()
        if isvecty(self, al[0]) or isvecval(v):
            self.write(st, l, v)
        elif v.op == "list" and not self.ty(al[0])["k"] in ("float", "int", "uint", "bool"):
            self.write(st, l, vec(num(len(v.a[0])), v))
        else:
            N = self.read(st, l + (("f", "n"),))
            self.write(st, l + (("f", "a"),), tuplam(lambda i: v))
        return l
    if nm in ("operator+=", "operator-=", "operator*=", "operator/="):
        v = self.rv(al[0], st)
        l = getl()
        old = self.read(st, l)
        self.write(st, l, valarith(self, nm[8], old, v, True, isvecval(v) or isvecty(self, al[0])))
        return l
    if nm == "resize":
        k = self.rv(al[0], st)
        c = self.rv(al[1], st) if len(al) > 1 and al[1].get("k") != "default" else elemdefault(self, on)
        l = getl()
        if "valarray" in self.recname(self.ty(on)):
            self.write(st, l, vec(k, tuplam(lambda i: c)))
        else:
            old = self.read(st, l)
            on_ = fld(old, "n")
            self.write(st, l, vec(k, tuplam(lambda i: ite(lt0(sub(i, on_), True), sel(fld(old, "a"), i), c))))
        return None
    if nm == "assign":
        l = getl()
        a, b = [self.rv(x, st) for x in al]
        if a.op == "ptr":
            arr, N = rng(st, self, a, b)
            self.write(st, l, vec(N, arr))
        else:
            self.write(st, l, vec(a, tuplam(lambda i: b)))
        return None
    if nm == "insert":
        l = getl()
        pos, a, b = [self.rv(x, st) for x in al]
        old = self.read(st, l)
        if pos.op != "ptr" or pos.a[2] is not fld(old, "n") or a.op != "ptr":
            raise S.Unknown("insert")
        arr, N = rng(st, self, a, b)
        n0 = fld(old, "n")
        self.write(st, l, vec(add(n0, N), tuplam(lambda i: ite(lt0(sub(i, n0), True), sel(fld(old, "a"), i), sel(arr, sub(i, n0))))))
        return None
    if nm in ("push_back", "emplace_back"):
        if nm == "emplace_back" and (len(al) != 1 or not self.P.ty(al[0]["t"])["k"] == "rec" and self.elemrec(on)):
            v = self.construct_elem(on, al, st)
        else:
            v = self.rv(al[0], st)
        l = getl()
        old = self.read(st, l)
        n0 = fld(old, "n")
        self.write(st, l, setf(setf(old, "a", sto(fld(old, "a"), n0, v)), "n", add(n0, ONE)))
        return None
    if nm == "pop_back":
        l = getl()
        self.write(st, l + (("f", "n"),), sub(self.read(st, l + (("f", "n"),)), ONE))
        return None
    if nm == "clear":
        l = getl()
        self.write(st, l, vec(ZERO, self.fillarr(elemdefault(self, on))))
        return None
    if nm in ("back", "front"):
        l = getl()
        return l + (("f", "a"), ("i", sub(self.read(st, l + (("f", "n"),)), ONE) if nm == "back" else ZERO))
    if nm in ("begin", "cbegin", "data"):
        return S.ptr(getl() + (("f", "a"),), ZERO)
    if nm in ("end", "cend"):
        l = getl()
        return S.ptr(l + (("f", "a"),), self.read(st, l + (("f", "n"),)))
    if nm in NOEFFECT:
        for x in al:
            self.rv(x, st)
        return None
    if nm == "swap":
        a, b = getl(), self.lv(al[0], st)
        x, y = self.read(st, a), self.read(st, b)
        self.write(st, a, y)
        self.write(st, b, x)
        return None
    raise S.Unknown("container member " + nm)


def strcall(self, nm, n, al, st, getl, getv):
    if nm == "empty":
        return eq(getv(), EMPTY)
    if nm in ("size", "length"):
        v = getv()
        return num(len(v.a[0])) if v.op == "str" else app("strlen", v)
    if nm in ("c_str", "data"):
        return getv()
    if nm in ("operator[]", "at"):
        return app("chr", getv(), self.rv(al[0], st))
    if nm in ("find", "rfind", "find_first_of", "find_last_of", "find_first_not_of"):
        v = getv()
        xs = [self.rv(x, st) for x in al if x.get("k") != "default"]
        if len(xs) == 1:
            xs.append(ZERO)
        return app("str" + nm, v, *xs)
    if nm == "substr":
        v = getv()
        xs = [self.rv(x, st) for x in al if x.get("k") != "default"]
        return app("substr", v, *xs)
    if nm == "erase":
        l = getl()
        xs = [self.rv(x, st) for x in al if x.get("k") != "default"]
        self.write(st, l, app("strerase", self.read(st, l), *xs))
        return l
    if nm in ("operator=", "assign") and len(al) == 1:
        l = getl()
        v = self.rv(al[0], st)
        self.write(st, l, v)
        return l
    if nm in ("operator+=", "append", "push_back") and len(al) == 1:
        l = getl()
        v = self.rv(al[0], st)
        if self.ty(al[0])["k"] in ("int", "uint"):
            v = string(chr(int(v.a[0]))) if v.op == "num" else mk("out", "c", v, ZERO, ZERO)
        self.write(st, l, cat(self.read(st, l), v))
        return l
    if nm == "clear":
        self.write(st, getl(), EMPTY)
        return None
    if nm == "compare" and len(al) in (1, 3):
        v = getv()
        xs = [self.rv(x, st) for x in al]
        return app("strcmp", v, xs[0]) if len(xs) == 1 else app("strcmp", app("substr", v, *xs[:2]), xs[2])
    if nm in ("back", "front"):
        v = getv()
        return app("chr", v, sub(app("strlen", v), ONE) if nm == "back" else ZERO)
    if nm in NOEFFECT:
        return None
    raise S.Unknown("string member " + nm)


def ioscall(self, nm, n, d, al, st, getl, getv):
    if nm == "operator<<":
        l = getl()
        v = self.rv(al[0], st)
        return astream(self, n, d, st, l, v, self.unref(self.ty(al[0])), n)
    if nm == "operator>>":
        l = getl()
        dst = self.lv(al[0], st)
        k = kind_of(self.unref(self.ty(al[0])))
        inp, good, ok = extract(self, st, l, k)
        old = self.read(st, dst)
        self.write(st, dst, ite(ok, mk("tok", k, inp), ite(good, mk("tokbad", k, inp), old)))
        return l
    if nm in ("operator bool", "operator!", "fail"):
        l = getl()
        f, e, b = istate(self, st, l)
        r = OR(f, b)
        return NOT(r) if nm == "operator bool" else r
    if nm == "eof":
        return istate(self, st, getl())[1]
    if nm == "bad":
        return istate(self, st, getl())[2]
    if nm == "good":
        return NOT(OR(*istate(self, st, getl())))
    if nm == "rdstate":
        return mk("rdstate", *istate(self, st, getl()))
    if nm == "setstate":
        l = getl()
        f, e, b = bits_of(self, st, self.rv(al[0], st))
        f0, e0, b0 = istate(self, st, l)
        setis(self, st, l, OR(f, f0), OR(e, e0), OR(b, b0))
        return None
    if nm == "clear":
        l = getl()
        v = self.rv(al[0], st) if al and al[0].get("k") != "default" else ZERO
        setis(self, st, l, *bits_of(self, st, v))
        return None
    if nm == "flags":
        l = getl()
        old = self.read(st, l + (("f", "fl"),))
        if al:
            self.write(st, l + (("f", "fl"),), flagsrec(self.rv(al[0], st)))
        return old
    if nm == "setf":
        l = getl()
        v = self.rv(al[0], st)
        if len(al) == 2:
            m = self.rv(al[1], st)
            for k, fm in FIELDS:
                p = l + (("f", "fl"), ("f", k))
                o = self.read(st, p)
                x = setfield(o, v, m, fm)
                if x is not o:
                    self.write(st, p, x)
        else:
            if v.op != "num":
                raise S.Unknown("setf")
            for k, fm in FIELDS:
                if int(v.a[0]) & fm:
                    p = l + (("f", "fl"), ("f", k))
                    self.write(st, p, S.bitop("or", self.read(st, p), num(int(v.a[0]) & fm)))
        return None
    if nm == "unsetf":
        raise S.Unknown("unsetf")
    if nm == "precision":
        l = getl()
        old = self.read(st, l + (("f", "prec"),))
        if al:
            self.write(st, l + (("f", "prec"),), self.rv(al[0], st))
        return old
    if nm == "width":
        l = getl()
        old = self.read(st, l + (("f", "w"),))
        if al:
            self.write(st, l + (("f", "w"),), self.rv(al[0], st))
        return old
    if nm in NOEFFECT:
        return getl() if nm == "flush" else None
    if nm == "put":
        l = getl()
        v = self.rv(al[0], st)
        emit(self, st, l, string(chr(int(v.a[0]))) if v.op == "num" else mk("out", "c", v, ZERO, ZERO))
        return l
    if nm == "str" and not al:
        s = getv()
        if "both" in fields_of(s):
            return fld(s, "out")
        return cat(fld(s, "in"), fld(s, "out")) if fld(s, "in") not in (EMPTY,) else fld(s, "out")
    if nm == "is_open":
        return NOT(istate(self, st, getl())[0])
    raise S.Unknown("stream member " + nm)


def instream(inp, fail=FALSE):
    s = S.Ev.new_stream(None, inp)
    s = setf(setf(setf(s, "fail", fail), "eof", FALSE), "bad", FALSE)
    return s


def std_ctor(self, n, d, st):
    qn = d.get("qn", "")
    nm, c = last(qn), cls(qn)
    al = [x for x in n["a"] if x.get("k") != "default"]
    if c.startswith("std::allocator"):
        return UNDEF
    if c.startswith("std::valarray"):
        if not al:
            return vec(ZERO, self.fillarr(self.elem_zero(self.unref(self.ty(n)))))
        xs = [self.rv(x, st) for x in al]
        t0 = self.unref(self.ty(al[0]))
        if len(xs) == 1:
            if t0["k"] in ("int", "uint"):
                return vec(xs[0], self.fillarr(self.elem_zero(self.unref(self.ty(n)))))
            if xs[0].op == "list":
                return vec(num(len(xs[0].a[0])), xs[0])
            return xs[0]
        if t0["k"] == "ptr" or xs[0].op == "ptr":
            return vec(xs[1], self.view(st, xs[0]))
        return vec(xs[1], self.fillarr(xs[0]))
    if c.startswith("std::vector"):
        if al and self.recname(self.ty(al[-1])).startswith("std::allocator"):
            al = al[:-1]
        if not al:
            return vec(ZERO, self.fillarr(self.elem_zero(self.unref(self.ty(n)))))
        xs = [self.rv(x, st) for x in al]
        if len(xs) == 1:
            if self.unref(self.ty(al[0]))["k"] in ("int", "uint"):
                return vec(xs[0], self.fillarr(self.elem_zero(self.unref(self.ty(n)))))
            if xs[0].op == "list":
                return vec(num(len(xs[0].a[0])), xs[0])
            return xs[0]
        if xs[0].op == "ptr" and xs[1].op == "ptr":
            a, N = rng(st, self, xs[0], xs[1])
            return vec(N, a)
        return vec(xs[0], self.fillarr(xs[1]))
    if isstr(c):
        if al and self.recname(self.ty(al[-1])).startswith("std::allocator"):
            al = al[:-1]
        if not al:
            return EMPTY
        if len(al) == 1:
            return self.rv(al[0], st)
        raise S.Unknown("string constructor")
    if "__normal_iterator" in c or "_Bit_iterator" in c or "_Bit_const_iterator" in c or "_Rb_tree_const_iterator" in c or "_Rb_tree_iterator" in c:
        return self.rv(al[0], st)
    if c.startswith("std::map"):
        return mk("emptymap") if not al else self.rv(al[0], st)
    if c.startswith("std::pair"):
        xs = [self.rv(x, st) for x in al]
        if len(xs) == 2:
            return rec({"first": xs[0], "second": xs[1]})
        return xs[0]
    if c.startswith("std::basic_istringstream") or c.startswith("std::basic_stringstream") or c.startswith("std::basic_ostringstream"):
        src = EMPTY
        if al and isstr(self.recname(self.unref(self.ty(al[0])))):
            src = self.rv(al[0], st)
        # what is written to a string stream can be read from it
        return setf(instream(src), "both", TRUE) if c.startswith("std::basic_stringstream") and src is EMPTY else instream(src)
    if c.startswith("std::basic_ifstream"):
        name = self.rv(al[0], st)
        return instream(mk("file", name), NOT(atom(mk("readable", name))))
    if c.startswith("std::thread"):
        if al:
            v = self.rv(al[0], st)
            self.invoke_closure(v, [self.ev(x, st) for x in al[1:]], st)
        return UNDEF
    if c.startswith("std::unique_ptr<") or c.startswith("std::shared_ptr<"):
        return self.rv(al[0], st) if al else S.NULL
    if "exception_ptr" in c:
        return self.rv(al[0], st) if al else S.NULL
    if c in S.BASES or c.endswith("_error") or c.endswith("::exception") or c.startswith("std::invalid_argument"):
        return rec({"what": self.rv(al[0], st) if al else EMPTY})
    if c.startswith("std::less") or c.startswith("std::greater"):
        return sym(c)
    if c.startswith("std::_Setw"):
        return self.rv(al[0], st)
    if c.startswith("std::function"):
        return self.rv(al[0], st)
    if d.get("copy") or d.get("move") or len(al) == 1:
        return self.rv(al[0], st)
    if c.startswith("std::initializer_list"):
        return self.rv(al[0], st)
    raise S.Unknown("constructor of " + c)

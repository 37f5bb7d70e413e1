"""Lower /repo's current sources with tool/dump and load the result.

Every run lowers the working tree; results are reused only when the hash of
every source, header and of the dumper itself is unchanged.
"""
import concurrent.futures, glob, hashlib, json, os, pickle, re, subprocess, sys, tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SRC = os.path.join(REPO, "src/main/cxx")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))
RES = "/usr/lib/llvm-18/lib/clang/18"


class AnalysisBroken(Exception):
    """The analysis cannot be carried out (vanished anchor, source that does not compile)."""


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, **kw)


def tool():
    src = os.path.join(VERIF, "tool/dump.cpp")
    h = hashlib.sha256(open(src, "rb").read()).hexdigest()[:16]
    exe = os.path.join(BUILD, "dump-" + h)
    if not os.path.exists(exe):
        os.makedirs(BUILD, exist_ok=True)
        tmp = exe + ".%d" % os.getpid()
        r = sh(["clang++-18" if os.path.exists("/usr/bin/clang++-18") else "clang++", "-O1", "-std=c++17", "-fno-rtti",
                "-fno-exceptions", "-w", "-I/usr/lib/llvm-18/include", src, "-o", tmp,
                "/usr/lib/llvm-18/lib/libclang-cpp.so.18.1", "/usr/lib/llvm-18/lib/libLLVM-18.so"])
        if r.returncode:
            raise AnalysisBroken("cannot build the lowering tool: " + r.stderr[-2000:])
        os.replace(tmp, exe)
    return exe


def config_h(d):
    """config.h as cmake would generate it, from the template in the working tree."""
    t = open(os.path.join(REPO, "src/main/cxx-filtered/config.h")).read()
    t = re.sub(r"@(\w+)@", lambda m: "<<" + m.group(1) + ">>", t)
    os.makedirs(d, exist_ok=True)
    open(os.path.join(d, "config.h"), "w").write(t)


def sources():
    return sorted(glob.glob(os.path.join(SRC, "**/*.cxx"), recursive=True))


def tree_hash(extra=()):
    h = hashlib.sha256()
    fs = [f for p in ("src/main/cxx", "src/main/cxx-filtered") for f in
          glob.glob(os.path.join(REPO, p, "**/*"), recursive=True) if os.path.isfile(f)]
    fs += [os.path.join(VERIF, "tool/dump.cpp")] + [x for x in [os.path.join(VERIF, "spec/fields.json")] if os.path.exists(x)] + sorted(glob.glob(os.path.join(VERIF, "harness/*"))) \
        + sorted(glob.glob(os.path.join(VERIF, "spec/*.cxx"))) + sorted(glob.glob(os.path.join(VERIF, "spec/*.h")))
    for f in sorted(fs):
        h.update(f.encode()); h.update(b"\0"); h.update(open(f, "rb").read()); h.update(b"\0")
    for e in extra:
        h.update(str(e).encode())
    return h.hexdigest()[:24]


def flags(incdir, omp):
    f = ["-std=gnu++11", "-O3", "-DNDEBUG", "-pedantic", "-w", "-I" + incdir, "-I" + SRC, "-I" + os.path.join(VERIF, "harness"),
         "-resource-dir", RES]
    if omp:
        f += ["-fopenmp"]
    return f


def _dump(args):
    exe, out, roots, src, fl = args
    r = sh([exe, out, roots, src] + fl)
    if r.returncode:
        return src, r.stderr
    return src, None


class Program:
    """Merged view of all translation units of one configuration."""

    def __init__(self):
        self.types, self.decls, self.funcs, self.units = {}, {}, {}, []
        self.failed = {}

    def add(self, unit, tag, o):
        self.units.append(unit)
        pre = tag + "!"

        def tid(t):
            return pre + t if t else t

        def did(d):
            return pre + d if d[:2] in ("v:", "x:") else d

        def walk(n):
            if isinstance(n, dict):
                for k in n:
                    v = n[k]
                    if isinstance(v, (dict, list)):
                        walk(v)
                    elif isinstance(v, str):
                        if k in ("t", "ct", "at", "tt", "rt", "base"):
                            n[k] = tid(v)
                        elif k in ("d", "f", "m"):
                            n[k] = did(v)
            else:
                for i, v in enumerate(n):
                    if isinstance(v, (dict, list)):
                        walk(v)
        for k, t in o["types"].items():
            if "e" in t:
                t["e"] = tid(t["e"])
            if "d" in t:
                t["d"] = did(t["d"])
            self.types[tid(k)] = t
        for k, d in o["decls"].items():
            if "init" in d and isinstance(d["init"], dict):
                walk(d["init"])
            for f in ("t", "ret"):
                if f in d:
                    d[f] = tid(d[f])
            for f in ("pt", "bases"):
                if f in d:
                    d[f] = [tid(x) for x in d[f]]
            for f in ("fields", "methods"):
                if f in d:
                    d[f] = [did(x) for x in d[f]]
            if "rec" in d:
                d["rec"] = did(d["rec"])
            kk = did(k)
            if kk not in self.decls or ("init" in d and "init" not in self.decls[kk]):
                self.decls[kk] = d
        for k, f in o["funcs"].items():
            if k in self.funcs:
                continue
            f["params"] = [did(x) for x in f["params"]]
            for i in f.get("inits", []):
                walk(i)
            if f["body"]:
                walk(f["body"])
            f["unit"] = unit
            self.funcs[k] = f

    # -- helpers -------------------------------------------------------
    def ty(self, t):
        return self.types.get(t, {"s": "?", "k": "other"})

    def dn(self, d):
        return self.decls.get(d, {})

    def qn(self, d):
        return self.decls.get(d, {}).get("qn", "")

    def find(self, qn, pred=None):
        """Project function definitions with this qualified name."""
        return [k for k, f in self.funcs.items() if self.qn(k) == qn and (pred is None or pred(k))]

    def where(self, f, node=None):
        loc = self.dn(f).get("loc", "?") if isinstance(f, str) else "?"
        fn = self.funcs.get(f)
        if fn:
            loc = fn["loc"]
        path, _, ln = loc.rpartition(":")
        if node and node.get("l"):
            ln = str(node["l"])
        return os.path.relpath(path, REPO) + ":" + ln


FIELDS = os.path.join(VERIF, "spec/fields.json")


def _cls(qn):
    out, d = [], 0
    for c in qn:
        d += c == "<"
        if d == 0:
            out.append(c)
        d -= c == ">"
    return "".join(out)


def _fty(s):
    s = re.sub(r"\bconst\b|\s", "", s)
    return _cls(s) if s.startswith("especia") else re.sub(r"especia::\w+<.*>", "especia", s)


def field_table(P):
    t = {}
    for d in P.decls.values():
        if d.get("fields") and d.get("qn", "").startswith("especia::") and not d.get("targs"):
            t.setdefault(_cls(d["qn"]), [[P.dn(f)["n"], _fty(P.ty(P.dn(f)["t"])["s"])] for f in d["fields"]])
        elif d.get("fields") and d.get("qn", "").startswith("especia::"):
            t.setdefault(_cls(d["qn"]), [[P.dn(f)["n"], ""] for f in d["fields"]])
    return t


def canonical_fields(P):
    """Data members keep the names of the committed table, so that a renamed private member is still recognised;
    a member the table does not know is marked and makes what depends on it undecided."""
    if not os.path.exists(FIELDS):
        return
    table = json.load(open(FIELDS))
    P.renamed = {}
    for d in P.decls.values():
        if not d.get("fields"):
            continue
        c = _cls(d.get("qn", ""))
        if c not in table:
            continue
        want = table[c]
        cur = [(f, P.dn(f)["n"], _fty(P.ty(P.dn(f)["t"])["s"])) for f in d["fields"]]
        names, known = {n for _, n, _ in cur}, {n for n, _ in want}
        gone = [(n, t) for n, t in want if n not in names]
        new = [(f, n, t) for f, n, t in cur if n not in known]
        for f, n, t in new:
            m = [g for g in gone if not g[1] or g[1] == t]
            same = [x for x in new if x[2] == t]
            if m and (len(m) == len(same) or not m[0][1] and len(gone) == len(new)):
                P.decls[f]["n"] = m[0][0]
                P.renamed[c + "::" + n] = m[0][0]
                gone.remove(m[0])
                new = [x for x in new if x[0] != f]
            else:
                P.decls[f]["n"] = "?" + n


def load(omp=False, units=None, harness=True, extra_sources=(), strict=True, only=None):
    exe = tool()
    os.makedirs(BUILD, exist_ok=True)
    key = tree_hash((omp, units, harness, extra_sources, only, hashlib.sha256(open(__file__, "rb").read()).hexdigest()))
    cache = os.path.join(BUILD, "prog-%s.pickle" % key)
    if os.path.exists(cache):
        try:
            return pickle.load(open(cache, "rb"))
        except Exception:
            pass
    tmp = tempfile.mkdtemp(prefix="dump", dir=BUILD)
    inc = os.path.join(tmp, "inc")
    config_h(inc)
    srcs = [s for s in sources() if units is None or os.path.basename(s) in units] if only is None else list(only)
    if not srcs:
        raise AnalysisBroken("no sources found under " + SRC)
    hs = sorted(glob.glob(os.path.join(VERIF, "harness/*.cxx"))) if harness and only is None else []
    roots = SRC + "," + os.path.join(VERIF, "harness") + "," + os.path.join(VERIF, "spec") + "," + inc
    jobs = []
    for i, s in enumerate(list(srcs) + hs + list(extra_sources)):
        jobs.append((exe, os.path.join(tmp, "%d.json" % i), roots, s, flags(inc, omp)))
    P = Program()
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        res = list(ex.map(_dump, jobs))
    for i, (s, err) in enumerate(res):
        if err is not None:
            P.failed[s] = err
            if s.startswith(SRC) or only is not None:
                raise AnalysisBroken("cannot analyse %s: %s" % (s, err[-1500:]))
            continue
        txt = open(jobs[i][1]).read()
        for d in ("apps", "util", "core"):
            txt = txt.replace("/cxx/" + d + "/../", "/cxx/")
        txt = txt.replace(os.path.join(VERIF, "harness") + "/../", VERIF + "/")
        o = json.loads(txt)
        P.add(s, "u%d" % i, o)
    if only is None:
        canonical_fields(P)
    for f in glob.glob(tmp + "/*.json"):
        os.remove(f)
    for f in glob.glob(inc + "/*"):
        os.remove(f)
    os.rmdir(inc); os.rmdir(tmp)
    for old in glob.glob(os.path.join(BUILD, "prog-*.pickle")):
        try:
            if os.path.getmtime(old) < __import__("time").time() - 3600:
                os.remove(old)
        except OSError:
            pass
    t = cache + ".%d" % os.getpid()
    pickle.dump(P, open(t, "wb"), protocol=4)
    os.replace(t, cache)
    return P


def spec():
    """the reference definitions in spec/*.cxx, lowered by the same tool"""
    return load(only=tuple(sorted(glob.glob(os.path.join(VERIF, "spec/*.cxx")))))


def children(n):
    if isinstance(n, dict):
        for k, v in n.items():
            if isinstance(v, dict):
                yield v
            elif isinstance(v, list):
                for x in v:
                    if isinstance(x, dict):
                        yield x
                        
def nodes(n):
    """Every node below n, n included."""
    st = [n]
    while st:
        x = st.pop()
        if isinstance(x, dict):
            if "k" in x or "b" in x or "e" in x or "i" in x:
                yield x
            st.extend(reversed(list(children(x))))

"""Loads the program facts written by gegex (clang AST/CFG of /repo's current
sources) and offers the whole-program view: functions, classes, hierarchy,
call graph, mod sets."""
import glob
import hashlib
import json
import os
import pickle
import re
import subprocess
import sys
import fcntl
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("GEGA_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")


class AnalysisError(Exception):
    """The analysis could not be carried out (vanished anchor, parse failure)."""


def _flags(src_root):
    return ["-std=c++17", "-DCODE_GENERATION", '-DGEGELATI_VERSION="x"',
            "-D__STDC_FORMAT_MACROS", "-DGEGELATI_EXPORTS",
            "-I" + os.path.join(src_root, "lib/JsonCpp"),
            "-I" + os.path.join(src_root, "gegelatilib/include"),
            "-resource-dir", "/usr/lib/llvm-18/lib/clang/18", "-w"]


def _strip_tmpl(s):
    """removes template argument lists"""
    out = []
    d = 0
    i = 0
    n = len(s)
    while i < n:
        c = s[i]
        if s.startswith("operator", i) and d == 0:
            m = re.match(r"operator(<=>|<<=|>>=|->\*|->|<<|>>|<=|>=|<|>|\(\)|\[\])", s[i:])
            if m:
                out.append(m.group(0))
                i += len(m.group(0))
                continue
        if c == "<":
            d += 1
        elif c == ">":
            d -= 1
        elif d == 0:
            out.append(c)
        i += 1
    return "".join(out)


_short = {}


def short(s):
    """'std::map<A,B>::erase' -> 'std::map::erase' (repo templates too)"""
    r = _short.get(s)
    if r is None:
        r = _strip_tmpl(s)
        r = re.sub(r"::_V2\b|::__cxx11\b|::__1\b", "", r)
        _short[s] = r
    return r


def extract(repo=None):
    repo = repo or REPO
    root = os.path.join(repo, "gegelatilib")
    srcs = sorted(glob.glob(os.path.join(root, "src/**/*.cpp"), recursive=True))
    hdrs = sorted(glob.glob(os.path.join(root, "include/**/*.h"), recursive=True))
    if len(srcs) < 30:
        raise AnalysisError("only %d sources under %s" % (len(srcs), root))
    subprocess.run([os.path.join(VERIF, "tool/build.sh")], check=True)
    harness = os.path.join(VERIF, "tool/harness.cpp")
    h = hashlib.sha256()
    h.update(repo.encode())
    for f in srcs + hdrs + [harness, os.path.join(VERIF, "tool/extract.cpp"), os.path.abspath(__file__)]:
        h.update(f.encode() + b"\0")
        h.update(open(f, "rb").read())
    key = h.hexdigest()[:24]
    cdir = os.path.join(BUILD, "cache")
    os.makedirs(cdir, exist_ok=True)
    pk = os.path.join(cdir, key + ".pickle")
    with open(os.path.join(cdir, key + ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(pk):
            try:
                return pickle.load(open(pk, "rb"))
            except Exception:
                pass
        units = srcs + [harness]
        nw = min(8, os.cpu_count() or 4)
        chunks = [units[i::nw * 2] for i in range(nw * 2)]
        outs = []

        def run(i):
            out = os.path.join(cdir, "%s.%d.json" % (key, i))
            cmd = [os.path.join(BUILD, "gegex"), out, root] + chunks[i] + ["--"] + _flags(repo)
            p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if p.returncode != 0:
                raise AnalysisError("cannot parse: " + p.stdout[-2000:])
            d = json.load(open(out))
            os.unlink(out)
            return d

        with ThreadPoolExecutor(nw) as ex:
            for d in ex.map(run, [i for i in range(len(chunks)) if chunks[i]]):
                outs.append(d)
        funcs, classes, globs = {}, {}, {}
        for d in outs:
            for r in d:
                if r["rec"] == "func":
                    o = funcs.get(r["id"])
                    if o is None:
                        funcs[r["id"]] = r
                elif r["rec"] == "class":
                    classes.setdefault(r["name"], r)
                else:
                    globs.setdefault(r["name"], r)
        res = {"funcs": funcs, "classes": classes, "globals": globs,
               "units": len(units), "key": key}
        tmp = pk + ".tmp%d" % os.getpid()
        pickle.dump(res, open(tmp, "wb"), protocol=4)
        os.replace(tmp, pk)
        # keep the cache small
        olds = sorted(glob.glob(os.path.join(cdir, "*.pickle")), key=os.path.getmtime)
        for o in olds[:-12]:
            try:
                os.unlink(o)
                os.unlink(o.replace(".pickle", ".lock"))
            except OSError:
                pass
        return res


def walk(n):
    """all nodes nested inline below (and including) node n (dict)"""
    st = [n]
    while st:
        x = st.pop()
        if isinstance(x, dict):
            if "k" in x:
                yield x
            st.extend(x.values())
        elif isinstance(x, list):
            st.extend(x)


class Func:
    def __init__(self, r):
        self.r = r
        self.id = r["id"]
        self.name = r["name"]
        self.sname = short(r["name"])
        self.cls = r.get("cls")
        self.scls = short(self.cls) if self.cls else None
        self.file = r["file"]
        self.line = r["line"]
        self.params = r["params"]
        self.blocks = {b["b"]: b for b in r.get("blocks", [])}
        self.entry = r.get("entry")
        self.exit = r.get("exit")
        self._calls = None
        self.nodes_ = None

    @property
    def base(self):
        return self.sname.rsplit("::", 1)[-1]

    def nodes(self):
        """every node of the body (elements and inline sub-nodes)"""
        if self.nodes_ is None:
            l = []
            for b in self.blocks.values():
                for e in b["e"]:
                    l.extend(walk(e))
                if b.get("t") and isinstance(b["t"].get("c"), dict):
                    l.extend(walk(b["t"]["c"]))
            self.nodes_ = l
        return self.nodes_

    def byid(self):
        if not hasattr(self, "_byid"):
            self._byid = {n["id"]: n for n in self.nodes() if "id" in n}
        return self._byid

    def node(self, ref):
        if isinstance(ref, int):
            return self.byid().get(ref)
        return ref

    def calls(self):
        if self._calls is None:
            self._calls = [n for n in self.nodes() if n["k"] in ("call", "ctor")]
        return self._calls

    def loc(self, l=None):
        f = self.file
        if f.startswith(REPO + "/"):
            f = f[len(REPO) + 1:]
        return "%s:%s" % (f, l or self.line)

    def __repr__(self):
        return "<%s>" % self.name


class Program:
    def __init__(self, data=None):
        d = data or extract()
        self.funcs = {k: Func(v) for k, v in d["funcs"].items()}
        self.classes = d["classes"]
        self.globals = d["globals"]
        self.units = d["units"]
        self.by_sname = {}
        for f in self.funcs.values():
            self.by_sname.setdefault(f.sname, []).append(f)
        self.byclsshort = {}
        for n in self.classes:
            self.byclsshort.setdefault(short(n), []).append(n)
        self.subs = {}
        for n, c in self.classes.items():
            for b in c["bases"]:
                self.subs.setdefault(b, set()).add(n)
        # method id -> overriding method ids (direct)
        self.over = {}
        self.method_decl = {}
        for n, c in self.classes.items():
            for m in c["methods"]:
                if "id" in m:
                    self.method_decl[m["id"]] = (n, m)
                    for o in m.get("over", []):
                        self.over.setdefault(o, set()).add(m["id"])
        self._cg = None
        self._mod = None

    # -- lookup ---------------------------------------------------------
    def find(self, sname, nparams=None, must=True, user=True):
        """functions with body by short qualified name"""
        l = [f for f in self.by_sname.get(sname, []) if f.blocks]
        if user:
            l2 = [f for f in l if not f.r.get("implicit") and not f.r.get("defaulted")]
            l = l2 or l
        if nparams is not None:
            l = [f for f in l if len(f.params) == nparams]
        if must and not l:
            raise AnalysisError("anchor vanished: function " + sname)
        return l

    def one(self, sname, nparams=None, pick=None):
        l = self.find(sname, nparams)
        if pick:
            l = [f for f in l if pick(f)]
            if not l:
                raise AnalysisError("anchor vanished: function " + sname)
        return l[0]

    def cls(self, sname, must=True):
        l = self.byclsshort.get(sname, [])
        if must and not l:
            raise AnalysisError("anchor vanished: class " + sname)
        return [self.classes[n] for n in l]

    def field_exists(self, cls, f):
        return any(f == x["n"] for c in self.cls(cls) for x in c["fields"])

    def need_field(self, cls, f):
        if not self.field_exists(cls, f):
            raise AnalysisError("anchor vanished: field %s::%s" % (cls, f))

    def derived(self, cname):
        """all (transitive) subclasses of full class name, itself included"""
        out, st = set(), [cname]
        while st:
            x = st.pop()
            if x not in out:
                out.add(x)
                st.extend(self.subs.get(x, ()))
        return out

    def derived_short(self, sname):
        out = set()
        for n in self.byclsshort.get(sname, []):
            out |= self.derived(n)
        return out

    def bases_of(self, cname):
        out, st = [], [cname]
        while st:
            x = st.pop(0)
            if x not in out:
                out.append(x)
                st.extend(self.classes.get(x, {}).get("bases", []))
        return out

    def overriders(self, mid):
        """mid and everything that overrides it"""
        out, st = set(), [mid]
        while st:
            x = st.pop()
            if x not in out:
                out.add(x)
                st.extend(self.over.get(x, ()))
        return out

    def targets(self, call):
        """possible repo bodies for a call/ctor node"""
        f = call.get("f")
        if not f:
            return []
        if call.get("virt") and not call.get("qual"):
            return [self.funcs[i] for i in sorted(self.overriders(f)) if i in self.funcs and self.funcs[i].blocks]
        return [self.funcs[f]] if f in self.funcs and self.funcs[f].blocks else []

    # -- call graph -----------------------------------------------------
    def callgraph(self):
        """id -> set(ids): direct, virtual, lambdas created, functions whose
        address is taken (threads, callbacks), destructors of deleted objects."""
        if self._cg is None:
            cg = {}
            for f in self.funcs.values():
                s = set()
                for n in f.nodes():
                    if n["k"] in ("call", "ctor"):
                        for t in self.targets(n):
                            s.add(t.id)
                    elif n["k"] in ("lambda", "fn", "memfn"):
                        if n.get("f") in self.funcs:
                            if n["k"] == "fn":
                                s.add(n["f"])
                            elif n["k"] == "lambda":
                                s.add(n["f"])
                    elif n["k"] == "un" and n.get("op") == "&":
                        pass
                cg[f.id] = s
            self._cg = cg
        return self._cg

    def reach(self, roots, stop=None):
        cg = self.callgraph()
        out, st = set(), [r.id if isinstance(r, Func) else r for r in roots]
        while st:
            x = st.pop()
            if x in out:
                continue
            out.add(x)
            if stop and stop(self.funcs[x]):
                continue
            st.extend(cg.get(x, ()))
        return out

    def callers(self):
        r = {}
        for a, s in self.callgraph().items():
            for b in s:
                r.setdefault(b, set()).add(a)
        return r


if __name__ == "__main__":
    import time
    t = time.time()
    p = Program()
    print(len(p.funcs), "functions", len(p.classes), "classes", p.units, "units", "%.1fs" % (time.time() - t))

"""C22: files are checked, flushed and closed."""
from ..core import *
from .c13 import nullish
from .c30 import norm

COUT = ("fprintf", "vfprintf", "fputs", "fputc", "putc", "fwrite")
CIN = ("fgets", "fgetc", "getc", "fread", "fscanf", "fseek", "rewind", "ftell", "feof")
OPENED = ("is_open",)
CHECKS = {"is_open": True, "good": True, "operator bool": True, "fail": False, "operator!": False}
NOUSE = set(CHECKS) | {"open", "close", "rdstate", "exceptions", "clear", "eof", "flush", "imbue", "rdbuf", "swap", "setstate"}


def last(n):
    return str(n).rsplit("::", 1)[-1]


def stream_type(t):
    t = str(t or "")
    return any(x in t for x in ("basic_ofstream", "basic_ifstream", "basic_fstream")) and "*" not in t and "&" not in t and "ptr" not in t


def cfile(t):
    t = str(t or "")
    return "FILE *" in t and "**" not in t


def nonnull(facts, v):
    """True/False when the facts say v is not / is null"""
    if nullish(v):
        return False
    for t, val in facts:
        if t[0] == "op" and t[1] in ("==", "!=") and len(t) == 4:
            a, b = t[2], t[3]
            if norm(b) == norm(v):
                a, b = b, a
            if norm(a) == norm(v) and nullish(b):
                return val != (t[1] == "==")
        if norm(t) == norm(v):
            return bool(val)
    return None


def direct(f, names):
    return any(last(x) in names for x in called(f))


def called(f):
    for b in (f.blocks or {}).values():
        for n in b.get("e", []):
            if n.get("fn"):
                yield n["fn"]
            elif n.get("n") and n.get("k") in ("call", "mcall", "ctor"):
                yield n["n"]


class Files(Sites):
    gc_facts = False
    ext_throws = False
    budget = 600000

    def __init__(self, ck, f, effect, writers, fields):
        Sites.__init__(self, lambda ev: False, self.opq)
        self.ck, self.f, self.effect, self.fields, self.writers = ck, f, effect, fields, writers
        self.found = {}      # (rule, key) -> (at, msg)
        self.held = set()

    def opq(self, g):
        if g is self.f:
            return False
        if g.scls and g.scls != self.f.scls:
            return True
        return self.effect(g) is not None     # printing helpers of the class: by their effect

    def note(self, rule, key, at, msg):
        self.found.setdefault((rule, key), (at, msg))

    def event(self, st, ev):
        self.settle(st)
        A = st.auto
        fs = self.f.sname
        if ev.kind == "write" and isinstance(ev.loc, tuple) and ev.loc[0] == "F" and ev.loc[2] in self.fields:
            st.auto = A | {("wrote", ev.loc)}
            return
        if ev.kind == "decl" and isinstance(ev.loc, tuple) and stream_type(ev.name):
            v = ev.val
            a = ()
            if isinstance(v, tuple) and v[0] == "cobj":
                a = v[-1] if isinstance(v[-1], tuple) else ()
            elif isinstance(v, tuple) and v[0] in ("ctor", "call"):
                a = v[3] if len(v) > 3 and isinstance(v[3], tuple) else v[2:]
            elif isinstance(v, tuple):
                a = v[2:] if v[0] == "new" else v[1:]
            if ctor_args(v):
                self.opened(st, ev, ev.loc, ctor_args(v)[0])
            return
        if ev.kind != "call":
            return
        if not isinstance(ev.name, str):
            return
        b = last(ev.name)
        h = Hit(ev, st)
        # ---- C streams
        if b == "fopen" and not ev.name.startswith(("TPG", "File", "Learn")):
            r = norm(ev.res)
            st.auto = A | {("fopen", r, ev.at(), str(self.mode(h)))}
            self.path(ev, h.args[0] if h.args else None)
            return
        if b == "fclose" or b in COUT or b in CIN or b == "fflush":
            v = None
            for x in h.args:
                if self.is_file(st, x):
                    v = norm(x)
            if v is None:
                return
            self.use(st, ev, b, v, h.facts)
            return
        g = self.ck.P.funcs.get(ev.node.get("f")) if isinstance(ev.node, dict) else None
        e = self.effect(g) if g is not None and g is not self.f and g.scls == self.f.scls else None
        if e:
            for fl in self.fields:
                if self.fields[fl] == "c":
                    v = norm(Engine.load(None, st, ("F", ("*", ("this",)), fl)))
                    self.use(st, ev, "fprintf" if e == "dirty" else "fflush", v, h.facts)
            return
        # ---- std streams
        o = ev.o
        if b == "open" and isinstance(o, tuple) and ev.name.startswith("std::basic_") and "fstream" in ev.name:
            ol = norm(o)
            if o[0] == "F" and not is_ctor(self.f) and ("sclosed", ol) not in A and self.known(A, h.facts, ol) is not False:
                self.note("R3-redirected", "%s %s" % (fs, last(o[2])), ev.at(), "%s opens %s again without closing the file it may have open: opening fails and the stream stays unusable" % (fs, last(o[2])))
            else:
                self.held.add(("R3-redirected", "%s %s" % (fs, last(o[2]) if o[0] == "F" else "local")))
            self.opened(st, ev, ol, h.args[0] if h.args else None)
            return
        if b == "close" and isinstance(o, tuple) and ev.name.startswith("std::basic_") and "fstream" in ev.name:
            ol = norm(o)
            st.auto = frozenset(x for x in A if not (x[0] == "dirty" and x[1] == ol)) | {("sclosed", ol)}
            return
        if b in CHECKS and isinstance(o, tuple) and ev.name.startswith("std::"):
            st.auto = A | {("chk", norm(o), norm(ev.res), b)}
            return
        if b == "exceptions" and isinstance(o, tuple) and h.args:
            st.auto = A | {("exc", norm(o))}
            return
        if b in NOUSE:
            return
        if ev.name.startswith(("std::", "Json::")):
            for ol in {x[1] for x in A if x[0] in ("sopen", "sclosed")} | {norm(("F", ("*", ("this",)), fl)) for fl in self.fields if self.fields[fl] == "s"}:
                parts = [x for x in [o] + list(h.args) if isinstance(x, tuple)]
                if any(has_sub(norm(x), lambda y: y == ol) for x in parts):
                    if ("sclosed", ol) in A and not any(x[0] == "sopen" and x[1] == ol for x in A):
                        self.note("R2-closed", "%s used closed" % fs, ev.at(), "%s uses %s after closing it: what is written is lost" % (fs, pp(ol)))

    def loop(self, st, kind, tag, g, eng):
        self.settle(st)

    def settle(self, st):
        """remember the outcome of the checks made"""
        for x in st.auto:
            if x[0] == "chk" and ("ok", x[1]) not in st.auto and self.known(st.auto, st.facts, x[1]) is True:
                st.auto = st.auto | {("ok", x[1])}

    def known(self, A, facts, ol):
        """what the checks made since the file was opened say: True opened, False not, None unknown"""
        if ("ok", ol) in A:
            return True
        for x in A:
            if x[0] == "chk" and x[1] == ol:
                for t, v in facts:
                    if norm(t) == x[2]:
                        return bool(v) == CHECKS[x[3]]
        return None

    def mode(self, h):
        if len(h.args) > 1 and isinstance(h.args[1], tuple) and h.args[1][0] == "str":
            return h.args[1][1]
        return "?"

    def path(self, ev, a):
        if a is None:
            return
        pred = lambda y: isinstance(y, tuple) and (y[0] == "p" or y[0] == "F" and "path" in str(y[2]).lower() or y[0] in ("call", "cobj", "ld", "out"))
        key = "%s opens the file it is given" % self.f.sname
        if isinstance(a, tuple) and not has_sub(a, pred):
            self.note("R1-checked", key, ev.at(), "%s opens %s, not the file it is given" % (self.f.sname, pp(a)))
        else:
            self.held.add(("R1-checked", key))

    def opened(self, st, ev, ol, path):
        ol = norm(ol)
        st.auto = frozenset(x for x in st.auto if not (x[0] in ("chk", "sclosed", "sopen", "ok") and x[1] == ol)) | {("sopen", ol, ev.at())}
        self.path(ev, path)

    def is_file(self, st, x):
        x = norm(x)
        if any(y[0] in ("fopen", "fclosed") and y[1] == x for y in st.auto):
            return True
        if has_sub(x, lambda y: isinstance(y, tuple) and y[0] == "F" and len(y) > 2 and y[2] in self.fields):
            return True
        return nullish(x) or x[0] == "phi"

    def entry(self, v):
        return has_sub(v, lambda y: isinstance(y, tuple) and y[0] == "F" and len(y) > 2 and y[2] in self.fields and self.fields[y[2]] == "c")

    def use(self, st, ev, b, v, facts):
        A, fs = st.auto, self.f.sname
        nn = nonnull(facts, v)
        what = "closes" if b == "fclose" else "flushes" if b == "fflush" else "writes to" if b in COUT else "reads from"
        R = "R2-closed" if b == "fclose" else "R1-checked"
        if ("fclosed", v) in A:
            self.note("R2-closed", "%s %s closed" % (fs, b), ev.at(), "%s %s a file it has closed already" % (fs, what))
        elif nn is False and b != "fflush":
            self.note(R, "%s %s null" % (fs, b), ev.at(), "%s %s a null stream" % (fs, what))
        elif nn is None:
            o = [x for x in A if x[0] == "fopen" and x[1] == v]
            if o:
                self.note(R, "%s %s unchecked" % (fs, b), ev.at(), "%s %s a file without checking that it could be opened" % (fs, what))
            elif self.entry(v):
                self.held.add(("need", b, ev.at()))
        for x in A:
            if x[0] == "fopen" and x[1] == v and b in COUT and x[3].startswith("r") and "+" not in x[3]:
                self.note("R1-checked", "%s mode" % fs, ev.at(), "%s writes to a file it opened for reading" % fs)
        if b == "fclose":
            st.auto = frozenset(x for x in A if x != ("dirty", v)) | {("fclosed", v)}
        elif b in COUT:
            st.auto = A | {("dirty", v)}
        elif b == "fflush":
            st.auto = frozenset(x for x in A if x != ("dirty", v) and x != ("dirty", None)) | {("flushed", v)}


def ctor_args(v):
    """arguments of the constructed object v"""
    if not isinstance(v, tuple):
        return ()
    for x in reversed(v):
        if isinstance(x, tuple) and (not x or isinstance(x[0], tuple)):
            return x
    return ()


def is_ctor(f):
    return f.scls and f.base == last(f.scls)


def is_dtor(f):
    return f.base.startswith("~")


class Analysis:
    def __init__(self, ck):
        self.ck, self.P = ck, ck.P
        self.eff = {}
        self.need = {}        # class -> [(fn, b, at)]
        self.maybe = {}       # class -> [(fn, at)] ways of leaving the field null
        self.direct = {}
        for f in self.P.funcs.values():
            if f.blocks and "/gegelatilib/" in f.file:
                self.direct[f.id] = {last(x) for x in events_of(f)}

    def reach(self, f, names, seen=None):
        """does f, or a member of its class it calls, call one of the names"""
        seen = seen if seen is not None else set()
        if f.id in seen:
            return False
        seen.add(f.id)
        if self.direct.get(f.id, set()) & set(names):
            return True
        return any(g.blocks and g.scls == f.scls and self.reach(g, names, seen) for g in callees(self.P, f))

    def effect(self, g):
        """None: to be analysed in place; else what it does to the C stream of its class ('none', 'dirty', 'flushed')"""
        if g is None or not g.blocks or not g.scls:
            return None
        if not any(cfile(x["t"]) for x in fields(self.P, g.scls)):
            return None
        if self.reach(g, ("fopen", "fclose", "freopen")):
            return None
        if g.id in self.eff:
            return self.eff[g.id]
        self.eff[g.id] = "dirty" if self.reach(g, COUT) else "none"      # while recursing
        if self.eff[g.id] == "none" and not self.reach(g, ("fflush",)):
            return "none"
        cl, ps = self.run(g)
        if ps is not None:
            rets = [p for p in ps if p.kind == "ret"]
            if any(any(x[0] == "dirty" for x in p.auto) for p in rets):
                self.eff[g.id] = "dirty"
            elif rets and all(any(x[0] == "flushed" for x in p.auto) for p in rets):
                self.eff[g.id] = "flushed"
            else:
                self.eff[g.id] = "none"
        return self.eff[g.id]

    def run(self, f):
        fl = {}
        if f.scls:
            for x in fields(self.P, f.scls):
                if cfile(x["t"]):
                    fl[x["q"]] = "c"
                elif stream_type(x["t"]):
                    fl[x["q"]] = "s"
        cl = Files(self.ck, f, self.effect, None, fl)
        ps = paths(self.ck, f, cl, auto=frozenset())
        if ps is None:
            cl = Files(self.ck, f, self.effect, None, fl)
            cl.gc_facts = "all"
            ps = paths(self.ck, f, cl, auto=frozenset())
        return cl, ps


def fields(P, cls):
    out, todo, seen = [], [cls], set()
    while todo:
        c = todo.pop()
        if c in seen or c not in P.classes:
            continue
        seen.add(c)
        r = P.classes[c]
        for x in (r.fields if hasattr(r, "fields") else r.get("fields", [])):
            out.append({"n": x["n"], "t": x["t"], "q": c + "::" + x["n"]})
        for b in (r.bases if hasattr(r, "bases") else r.get("bases", [])):
            todo.append(b["n"] if isinstance(b, dict) else b)
    return out


def events_of(f):
    for b in f.blocks.values():
        for n in b["e"]:
            if n.get("k") in ("call", "mcall", "ocall", "ctor", "new", "decl", "var"):
                for k in ("n", "fn", "name", "t"):
                    if isinstance(n.get(k), str):
                        yield n[k]
            for k in ("f",):
                if isinstance(n.get(k), str):
                    yield fname(n[k])


def fname(usr):
    import re
    m = re.findall(r"@F@([~A-Za-z_0-9]+)", usr)
    return m[-1] if m else usr


def callees(P, f):
    cg = P.callgraph() if callable(P.callgraph) else P.callgraph
    for g in cg.get(f.id, ()):
        g = P.funcs.get(g) if isinstance(g, str) else g
        if g is not None:
            yield g


def check(ck):
    P = ck.P
    P.need_field("File::TPGGraphDotExporter", "pFile")
    P.need_field("File::TPGGraphDotImporter", "pFile")
    ck.rule("R1-checked", "a file is only used, and an opening function only returns, once it is known to be open; the file opened is the one given", 8)
    ck.rule("R2-closed", "a file opened is closed exactly once on every path, and not used afterwards", 4)
    ck.rule("R3-redirected", "a stream is closed before it is opened on another file", 1)
    ck.rule("R4-flushed", "what an exporter printed is flushed when it is done", 1)
    an = Analysis(ck)
    OPEN = ("fopen", "freopen", "open", "basic_ofstream", "basic_ifstream", "basic_fstream")
    todo = []
    for f in sorted((f for f in P.funcs.values() if f.id in an.direct), key=lambda f: f.sname):
        if not f.blocks or "(anonymous class)" in f.sname:
            continue
        fl = fields(P, f.scls) if f.scls else []
        mine = [x for x in fl if cfile(x["t"]) or stream_type(x["t"])]
        local = any(stream_type(n.get("t")) or cfile(n.get("t")) for b in f.blocks.values() for n in b["e"] if n.get("k") in ("decl", "var", "vdecl"))
        opens = an.direct[f.id] & {"fopen", "freopen", "open"} or local
        if mine and (f.r.get("acc", 0) == 0 or is_ctor(f) or is_dtor(f)) and (is_ctor(f) or is_dtor(f) or an.reach(f, ("fopen", "freopen", "fclose", "open", "close") + COUT + CIN + ("fflush",))):
            todo.append((f, mine))
        elif opens and not mine:
            todo.append((f, []))
        elif mine and an.direct[f.id] & (set(COUT) | set(CIN)):
            todo.append((f, mine))
    may = {}
    needs = []
    for f, mine in todo:
        cl, ps = an.run(f)
        if ps is None:
            ck.und("R1-checked", f.loc(), "%s not analysed: %s" % (f.sname, getattr(ck, "why", "")))
            continue
        for (R, key), (at, msg) in sorted(cl.found.items()):
            ck.bad(R, at, msg, key=key)
        for x in cl.held:
            if x[0] == "need":
                if f.r.get("acc", 0) == 0:
                    needs.append((f, x[1], x[2]))
            elif (x[0], x[1]) not in cl.found:
                ck.ok(x[0], x[1])
        exits(ck, f, mine, cl, ps, may)
    for f, b, at in needs:
        m = [w for c, w in may.items() if c == f.scls]
        R = "R2-closed" if b == "fclose" else "R1-checked"
        key = "%s %s" % (f.sname, "closes" if b == "fclose" else "uses")
        if m:
            ck.bad(R, at, "%s %s the stream although %s leaves it null when a file cannot be opened" % (f.sname, "closes" if b == "fclose" else "uses", m[0]), key=key)
        else:
            ck.ok(R, key + " an open file")


def void(f):
    return str(f.r.get("ret", f.r.get("rt", "void"))) in ("void", "None", "") or is_ctor(f)


def exits(ck, f, mine, cl, ps, may):
    fs = f.sname
    bad, good = {}, set()

    def no(R, key, msg):
        bad.setdefault((R, key), msg)
    for p in ps:
        A = p.auto
        # std streams
        for x in A:
            if x[0] == "sopen":
                k = cl.known(A, p.facts, x[1])
                key = "%s reports a file it cannot open" % fs
                if p.kind == "ret" and k is not True and ("exc", x[1]) not in A:
                    if k is False and not void(f):
                        continue
                    no("R1-checked", key, "%s returns as usual %s" % (fs, "although the file could not be opened" if k is False else "without checking that the file was opened"))
                else:
                    good.add(("R1-checked", key))
            if x[0] == "fopen":
                nn = nonnull(p.facts, x[1])
                key = "%s reports a file it cannot open" % fs
                if p.kind == "ret" and nn is not True and ("fclosed", x[1]) not in A:
                    if not (nn is False and not void(f)):
                        no("R1-checked", key, "%s returns as usual %s" % (fs, "although the file could not be opened" if nn is False else "without checking that the file was opened"))
                else:
                    good.add(("R1-checked", key))
                kept = [m for m in mine if cfile(m["t"]) and norm(p.get(("F", ("*", ("this",)), m["q"]))) == x[1]]
                key = "%s keeps or closes the file it opens" % fs
                if nn is not False and ("fclosed", x[1]) not in A and (not kept or is_ctor(f) and p.kind == "throw") and norm(p.ret) != x[1] if p.ret is not None else \
                        nn is not False and ("fclosed", x[1]) not in A and (not kept or is_ctor(f) and p.kind == "throw"):
                    no("R2-closed", key, "%s leaves without closing the file it opened" % fs)
                else:
                    good.add(("R2-closed", key))
        # the C stream kept by the object
        for m in mine:
            if not cfile(m["t"]):
                continue
            loc = ("F", ("*", ("this",)), m["q"])
            now = norm(p.get(loc))
            wrote = any(x[0] == "wrote" and x[1] == loc for x in A)
            if is_ctor(f):
                if not wrote and p.kind == "ret":
                    no("R2-closed", "%s initialises" % fs, "%s leaves its stream uninitialised" % fs)
                elif p.kind == "ret" and nonnull(p.facts, now) is not True:
                    may.setdefault(f.scls, fs)
                continue
            ent = [x[1] for x in A if x[0] in ("fclosed",) and x[1][0] not in ("call",) and cl.entry(x[1])]
            if is_dtor(f):
                key = "%s closes" % fs
                if not ent and nonnull(p.facts, now) is not False and not wrote:
                    no("R2-closed", key, "%s leaves its file open" % fs)
                else:
                    good.add(("R2-closed", key))
                continue
            key = "%s releases the previous file" % fs
            if wrote and not cl.entry(now):
                old = ent or [t for t, v in p.facts if t[0] == "op" and cl.entry(t) and nonnull(p.facts, entry_of(t, cl)) is False]
                if not old:
                    no("R2-closed", key, "%s opens another file without closing the one it had" % fs)
                else:
                    good.add(("R2-closed", key))
                if nonnull(p.facts, now) is not True and ("fclosed", now) not in A:
                    may.setdefault(f.scls, fs)
            if ("fclosed", now) in A:
                no("R2-closed", "%s dangling" % fs, "%s keeps a stream it has closed, which is closed again later" % fs)
        if p.kind == "ret" and mine and any(cfile(m["t"]) for m in mine) and f.r.get("acc", 0) == 0 and not is_dtor(f):
            key = "%s" % fs
            if any(x[0] == "dirty" for x in A):
                no("R4-flushed", key, "%s returns without having flushed what it printed" % fs)
            elif any(x[0] == "flushed" for x in A):
                good.add(("R4-flushed", key))
    for (R, key), msg in sorted(bad.items()):
        ck.bad(R, f.loc(), msg, key=key)
    for R, key in sorted(good):
        if (R, key) not in bad and not any(r == R and k.startswith(fs + " ") and R == "R2-closed" for (r, k) in cl.found):
            ck.ok(R, key)


def entry_of(t, cl):
    for y in (t[2], t[3]):
        if cl.entry(y):
            return y
    return None

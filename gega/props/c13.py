"""C13: evaluation records never refer to removed individuals."""
from ..core import *
from .c24 import strip
from .c27 import impls, short_, islog

LA = "Learn::LearningAgent"
REC = LA + "::resultsPerRoot"
BEST = LA + "::bestRoot"
GRAPHQ = ("removeVertex", "hasVertex", "getRootVertices", "getNbRootVertices", "getVertices", "getNbVertices", "removeEdge", "getEdges", "initRandomTPG", "populateTPG")


def opaque(g):
    return g.base in GRAPHQ or (g.scls or "").startswith(("TPG::", "Mutator::", "Program::", "Data::")) or (g.scls or "").endswith("EvaluationResult") or \
        g.base in ("getNbActions", "evaluateAllRoots", "evaluateOneRoot", "makeJobs", "makeJob") or islog(g)


def check(ck):
    P = ck.P
    P.need_field(LA, "resultsPerRoot")
    P.need_field(LA, "bestRoot")
    ck.rule("R1-removed", "an individual removed from the graph is removed from the evaluation records too", 3)
    ck.rule("R2-ranking", "decimation leaves no removed individual in the results it hands on", 2)
    ck.rule("R3-newtraining", "starting a training forgets every record", 3)
    ck.rule("R4-best", "the best individual remembered is replaced when it is no longer in the graph, by one of the individuals just evaluated", 1)
    ck.rule("R5-order", "the records are brought up to date after the decimation", 1)
    ck.rule("R6-kept", "reducing the graph to its best individual removes neither that one nor keeps a record of another", 1)
    removal(ck)
    restart(ck)
    best(ck)
    order(ck)


def isrec(o, n=REC):
    """the evaluation records"""
    return o is not None and (fld_of(o) == n or fld_of(strip(o)) == n or n.rsplit("::", 1)[1] == (fld_of(o) or "").rsplit("::", 1)[-1] and fld_of(o).startswith("Learn::"))


def graph_of_agent(o):
    return o is not None and any(s[0] == "F" and s[2] == LA + "::tpg" for s in subterms(o))


class Rem(Sites):
    """typestate of each vertex removed: its record must go too, in the same iteration"""
    gc_facts = False
    ext_throws = False
    budget = 900000

    def __init__(self):
        Sites.__init__(self, lambda ev: False, opaque)
        self.bad, self.und, self.ok, self.rem = [], [], [], []
        self.lists = []

    def event(self, st, ev):
        if ev.kind not in ("call", "ctor") or not isinstance(ev.name, str):
            return
        b = ev.name.rsplit("::", 1)[-1]
        rm, er, df = st.auto
        if b == "removeVertex" and graph_of_agent(ev.o):
            h = Hit(ev, st)
            v = strip(h.args[0]) if h.args else ("unk",)
            self.rem.append((ev.at(), ev.func.sname, v, frozenset(st.facts)))
            rm = rm | {(v, ev.at())}
        elif ev.o is not None and isrec(ev.o) and b in ("erase", "extract"):
            h = Hit(ev, st)
            k = strip(h.args[0]) if h.args else ("unk",)
            if k[0] == "it" and len(k) > 4:
                k = strip(k[4])
            er = er | {(k, ev.at())}
        elif ev.o is not None and isrec(ev.o) and b in ("clear", "operator=", "swap"):
            er = er | {("all", ev.at())}
        elif b in ("push_back", "emplace_back", "insert", "emplace", "push", "push_front", "emplace_front", "operator[]") and ev.o is not None and ev.name.startswith("std::"):
            h = Hit(ev, st)
            df = df | {strip(x) for x in h.args}
        st.auto = (rm, er, df)

    def settle(self, st, keep):
        rm, er, df = st.auto
        keys = {k for k, _ in er}
        left = set()
        for v, at in sorted(rm, key=repr):
            if keep(v):
                left.add((v, at))
                continue
            if v in keys or "all" in keys:
                self.ok.append(at)
            elif any(t[0] == "has" and isrec(t[1]) and any(isinstance(z, tuple) and z and strip(z) == v for z in t[2:]) and val is False for t, val in st.facts):
                self.ok.append(at)
            elif any(v in subterms(t) and has_sub(t, lambda s: isrec(s)) for t, val in st.facts):
                self.und.append((at, "record of the individual not interpreted"))
            elif v in df or any(v in subterms(d) for d in df):
                self.und.append((at, "the individual removed is put aside"))
            elif v[0] in ("unk", "havoc", "phi") and keys:
                self.und.append((at, "individual removed not interpreted"))
            elif any(k[0] in ("unk", "havoc", "phi") or has_sub(k, lambda s: s[0] in ("E", "it") and isrec(s[1 if s[0] == "E" else 2])) for k in keys if isinstance(k, tuple)):
                self.und.append((at, "erasure not interpreted"))
            elif keys:
                self.bad.append((at, "%s is removed from the graph, but the record erased is that of %s" % (pp(v)[:80], ", ".join(sorted(pp(k)[:80] for k in keys)))))
            else:
                self.bad.append((at, "%s is removed from the graph and keeps its evaluation record" % pp(v)[:80]))
        st.auto = (frozenset(left), er if left else frozenset(), df if left else frozenset())

    def loop(self, st, kind, tag, g, eng):
        if kind == "back" and st.auto is not None:
            self.settle(st, lambda v: False)


def removal(ck):
    R = "R1-removed"
    P = ck.P
    todo = impls(ck, LA, "decimateWorstRoots") + impls(ck, LA, "keepBestPolicy")
    seen = P.reach([f.id for f in todo])
    for f in sorted(P.funcs.values(), key=lambda f: (f.loc(), f.id)):
        if f.blocks and (f.scls or "").startswith("Learn::") and f.id not in seen and any(P.funcs[c].base == "removeVertex" for c in P.callgraph().get(f.id, ()) if c in P.funcs):
            todo.append(f)
    for f in todo:
        cl = Rem()
        ps = paths(ck, f, cl, auto=(frozenset(), frozenset(), frozenset()))
        if ps is None:
            ck.und(R, f.loc(), ck.why)
            continue
        for p in ps:
            if p.kind == "ret":
                class S:
                    auto = p.auto
                    facts = p.facts
                cl.settle(S, lambda v: False)
        for at, m in cl.bad:
            ck.bad(R, at, m)
        for at, m in cl.und:
            ck.und(R, at, m)
        if not cl.bad and not cl.und and cl.ok:
            ck.ok(R, "%s: %d removals" % (f.sname, len(set(cl.ok))))
        if f.base == "keepBestPolicy":
            kept(ck, f, cl, ps)
        elif f.base == "decimateWorstRoots":
            ranking(ck, f, cl)


def kept(ck, f, cl, ps):
    R = "R6-kept"
    b = ("F", ("F", SELF, BEST), "std::pair::first")

    def isbest(t):
        t = strip(t)
        return fld_of(t) == "std::pair::first" and has_sub(t, lambda s: s[0] == "F" and s[2] == BEST)
    for at, fn, v, facts in cl.rem:
        if isbest(v):
            ck.bad(R, at, "the best individual is removed from the graph")
        elif any(t[0] == "op" and t[1] == "==" and val is False and (isbest(t[2]) and strip(t[3]) == v or isbest(t[3]) and strip(t[2]) == v) for t, val in facts):
            ck.ok(R, fn)
        elif not any(v in subterms(t) and not (t[0] == "op" and t[1] == "==" and (nullish(t[2]) or nullish(t[3]))) for t, _ in facts) and v[0] not in ("unk", "phi", "havoc"):
            ck.bad(R, at, "%s is removed whether or not it is the best individual" % pp(v))
        else:
            ck.und(R, at, "removal not interpreted")
    if ck.P.field_exists(f.scls, "champions") or any(ck.P.field_exists(c, "champions") for c in (f.scls,)):
        loc = ("F", SELF, f.scls + "::champions")
        hits, ps2, _ = sites(ck, f, lambda ev: ev.kind == "call" and ev.o is not None and isrec(ev.o, f.scls + "::champions"), opaque, gc_facts=False, ext_throws=False)
        if ps2 is None:
            return ck.und(R, f.loc(), ck.why)
        if any(h.base in ("clear", "operator=", "assign", "swap") for h in hits):
            ck.ok(R, f.sname + ": champions")
        elif not hits:
            ck.bad(R, f.loc(), "the champions removed from the graph are not forgotten")
        else:
            ck.und(R, f.loc(), "handling of the champions not interpreted")


def ranking(ck, f, cl):
    """results given to decimation no longer hold those removed"""
    R = "R2-ranking"

    class Rk(Sites):
        gc_facts = False
        ext_throws = False
        budget = 900000

        def __init__(self):
            Sites.__init__(self, lambda ev: False, opaque)
            self.rows, self.back = [], []

        def event(self, st, ev):
            if ev.kind != "call" or not isinstance(ev.name, str):
                return
            b = ev.name.rsplit("::", 1)[-1]
            if b == "removeVertex" and graph_of_agent(ev.o):
                h = Hit(ev, st)
                v = strip(h.args[0])
                st.auto = (st.auto[0] | {(v, ev.at())}, st.auto[1])
            elif ev.o is not None and strip(ev.o) == ("p", 0) and b in ("erase", "clear", "extract"):
                h = Hit(ev, st)
                st.auto = (st.auto[0], st.auto[1] | {(strip(h.args[0]) if h.args else "all", frozenset(st.facts))})

        def loop(self, st, kind, tag, g, eng):
            if kind == "back" and st.auto[0] and not inner(tag, st.auto[0]):
                self.rows.append(st.auto)
                st.auto = (frozenset(), frozenset())

    def inner(tag, rm):
        """loop entered for one removed individual (search of its result)"""
        return False

    c2 = Rk()
    ps = paths(ck, f, c2, auto=(frozenset(), frozenset()))
    if ps is None:
        return ck.und(R, f.loc(), ck.why)
    rows = c2.rows + [p.auto for p in ps if p.kind == "ret" and p.auto[0]]
    good = bad = None
    for rm, er in rows:
        for v, at in rm:
            m = match(v, er)
            if m:
                good = at
            elif m is False:
                bad = (at, v)
    ev = [r for r in rows if r[1]]
    if good:
        ck.ok(R, "%s: results erased" % f.sname)
    elif bad and not ev:
        if anyerase(ck, f):
            ck.und(R, bad[0], "results are erased elsewhere")
        else:
            ck.bad(R, bad[0], "the result of the individual removed stays in the results")
    elif bad:
        ck.bad(R, bad[0], "the result erased is not that of the individual removed (%s)" % pp(bad[1])[:80])
    elif rows:
        ck.und(R, f.loc(), "results erased not interpreted")


def anyerase(ck, f):
    hits, ps, _ = sites(ck, f, lambda ev: ev.kind == "call" and ev.o is not None and strip(ev.o) == ("p", 0) and
                        ev.name.rsplit("::", 1)[-1] in ("erase", "clear", "extract", "swap", "operator="), opaque, gc_facts=False, ext_throws=False)
    return ps is None or bool(hits)


def first_entry(i):
    return i[0] == "front" or i[0] == "it" and i[1] == "begin" or i[0] == "op" and i[1] == "-" and i[2][0] == "it" and i[2][1] == "rend"


def key_of(v):
    """index of a results entry whose second member is v"""
    return member(v, "second")


def member(v, n):
    v = strip(v)
    t = v[1] if v[0] == "ld" else v
    if t[0] == "F" and t[2].endswith("::" + n) and t[1][0] == "E":
        return t[1][1], t[1][2]
    return None


def match(v, er):
    """the entry erased is that of v: True/False/None unknown"""
    k = key_of(v)
    res = None
    for e, facts in er:
        if e == "all":
            return True
        pos = e
        if e[0] == "it":
            pos = {"begin": ("front",)}.get(e[1], e)
        if k is not None and (k[1] == pos or k[1] == e or k[1][0] == "front" and e[0] == "it" and e[1] == "begin"):
            return True
        # entry found by comparison of its individual with v
        for t, val in facts:
            if t[0] == "op" and t[1] == "==":
                for x, y in ((t[2], t[3]), (t[3], t[2])):
                    if strip(y) == strip(v) and (key_of(x) or (None, None))[1] in (e, pos):
                        if val is True:
                            return True
                        res = False
        if k is not None and e[0] == "it" and k[1][0] in ("front", "it"):
            res = False
    return False if not er else res


# ---- a new training ----------------------------------------------------------
def restart(ck):
    R = "R3-newtraining"
    P = ck.P
    fs = impls(ck, LA, "init")
    for f in fs:
        cl = Sites(lambda ev: False, lambda g: opaque(g) or (g.scls or "") == "Archive")
        cl.gc_facts = False
        cl.ext_throws = False

        def step(st, ev):
            a = st.auto
            if ev.kind == "call":
                b = ev.name.rsplit("::", 1)[-1]
                if b in ("initRandomTPG",) or b == "clear" and graph_of_agent(ev.o):
                    a = a | {"graph"}
                if ev.o is not None and b in ("clear", "operator=", "swap", "assign"):
                    for n in ("resultsPerRoot", "champions", "archive", "bestRoot"):
                        if (fld_of(ev.o) or fld_of(strip(ev.o)) or "").endswith("Agent::" + n):
                            a = a | {n}
            if ev.kind == "write" and ev.loc is not None:
                l = ev.loc
                if l[0] == "F" and l[2] == BEST:
                    a = a | {"bestRoot"}
                elif l[0] == "F" and l[2] == "std::pair::first" and fld_of(l[1]) == BEST:
                    a = a | {"bestRoot" if nullish(ev.val) else "best?"}
            st.auto = a
        cl.step = step
        ps = paths(ck, f, cl, auto=frozenset())
        if ps is None:
            ck.und(R, f.loc(), ck.why)
            continue
        need = {"resultsPerRoot": "evaluation records", "bestRoot": "best individual"}
        if P.field_exists(LA, "archive"):
            need["archive"] = "archive"
        if P.field_exists(f.scls, "champions"):
            need["champions"] = "champions"
        for p in ps:
            if p.kind != "ret" or "graph" not in p.auto:
                continue
            for n, t in sorted(need.items()):
                if n in p.auto:
                    ck.ok(R, "%s: %s" % (f.sname, t))
                elif n == "bestRoot" and "best?" in p.auto:
                    ck.und(R, f.loc(), "best individual not interpreted")
                elif n == "bestRoot" and p.get(("F", SELF, BEST)) != ("ld", ("F", SELF, BEST), 0):
                    ck.und(R, f.loc(), "best individual not interpreted")
                else:
                    ck.bad(R, f.loc(), "a new training starts with the %s of the previous one" % t)


def nullish(v):
    return v is not None and (v == NULL or v[0] == "c" and v[1] is None or nv(v) == 0 or pp(v) == "null")


# ---- the best individual -------------------------------------------------------
def best(ck):
    R = "R4-best"
    for f in impls(ck, LA, "updateEvaluationRecords"):
        cl = Sites(lambda ev: False, opaque)
        cl.gc_facts = False
        cl.ext_throws = False

        def step(st, ev):
            if ev.kind == "write" and ev.loc is not None and ev.loc[0] == "F":
                l = ev.loc
                if l[2] == BEST:
                    st.auto = (("pair", ev.val, ev.at()),)
                elif fld_of(l[1]) == BEST and l[1][0] == "F" and l[2] == "std::pair::first":
                    st.auto = ((l[2].rsplit("::", 1)[-1], ev.val, ev.at()),)
        cl.step = step
        ps = paths(ck, f, cl, auto=())
        if ps is None:
            ck.und(R, f.loc(), ck.why)
            continue
        b1 = ("ld", ("F", ("F", SELF, BEST), "std::pair::first"), 0)
        for p in ps:
            if p.kind != "ret":
                continue
            w = [x for x in p.auto if x[0] in ("pair", "first")]
            if w:
                x = w[-1]
                v = x[1]
                if x[0] == "pair":
                    v, w2 = (v[1], v[2]) if v[0] == "pair" else v[3][:2] if v[0] in ("obj", "cobj", "new") and len(v[3]) == 2 else (("unk",), None)
                    w2 = w2 and member(w2, "first")
                    if w2 and key_of(v) and w2 != key_of(v):
                        ck.bad(R, x[2], "the best individual is remembered with the result of another")
                v = strip(v)
                if nullish(v):
                    ck.ok(R, f.sname + ": none")
                elif key_of(v) is not None and strip(key_of(v)[0]) == ("p", 0):
                    if first_entry(key_of(v)[1]):
                        ck.bad(R, x[2], "the individual remembered as the best is the worst of the results")
                    else:
                        ck.ok(R, "%s: replaced by an individual just evaluated" % f.sname)
                else:
                    ck.und(R, x[2], "best individual not interpreted: " + pp(v)[:80])
                continue
            # kept
            none = ingraph = asked = False
            for t, val in p.facts:
                if t[0] == "op" and t[1] == "==" and val is True and (isb(t[2]) and nullish(t[3]) or isb(t[3]) and nullish(t[2])):
                    none = True
                if t[0] == "call" and t[1].endswith("hasVertex") and any(isb(strip(a)) for a in t[3]):
                    asked = True
                    if val is True:
                        ingraph = True
            if none or ingraph:
                ck.ok(R, "%s: kept while in the graph" % f.sname)
            elif asked:
                ck.bad(R, f.loc(), "the best individual is kept although it is not in the graph")
            elif any(has_sub(t, lambda s: s[0] == "call" and s[1].startswith("TPG::")) for t, _ in p.facts):
                ck.und(R, f.loc(), "test of the best individual not interpreted")
            else:
                ck.bad(R, f.loc(), "the best individual is kept without being in the graph")


def isb(t):
    t = strip(t)
    return fld_of(t) == "std::pair::first" and has_sub(t, lambda s: s[0] == "F" and s[2] == BEST)


# ---- order ------------------------------------------------------------------------
def order(ck):
    R = "R5-order"
    P = ck.P
    for f in sorted(P.funcs.values(), key=lambda f: (f.loc(), f.id)):
        if not f.blocks or not (f.scls or "").startswith("Learn::"):
            continue
        called = {P.funcs[c].base for c in P.callgraph().get(f.id, ()) if c in P.funcs}
        direct = "decimateWorstRoots" in called or "updateEvaluationRecords" in called
        if not direct or f.base in ("decimateWorstRoots", "updateEvaluationRecords"):
            continue
        up = {P.funcs[c].base for c in P.reach([f.id]) if c in P.funcs}
        if not {"decimateWorstRoots", "updateEvaluationRecords"} <= up:
            # a helper of a generation
            continue
        cl = Sites(lambda ev: False, lambda g: g.base in ("decimateWorstRoots", "updateEvaluationRecords") or opaque(g))
        cl.gc_facts = False
        cl.ext_throws = False

        def step(st, ev):
            if ev.kind == "call":
                b = ev.name.rsplit("::", 1)[-1]
                if b in ("decimateWorstRoots", "updateEvaluationRecords"):
                    st.auto = (st.auto or ()) + (b[0],)
        cl.step = step
        ps = paths(ck, f, cl, auto=())
        if ps is None:
            ck.und(R, f.loc(), ck.why)
            continue
        for p in ps:
            if p.kind != "ret" or "d" not in p.auto:
                continue
            last = len(p.auto) - 1 - p.auto[::-1].index("d")
            if "u" in p.auto[last:]:
                ck.ok(R, f.sname)
            elif "u" in p.auto:
                ck.bad(R, f.loc(), "the records and the best individual are brought up to date before the decimation, which may remove it")
            else:
                ck.bad(R, f.loc(), "a generation ends without bringing the records up to date")

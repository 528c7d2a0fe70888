"""C24: instrumentation observes without interfering."""
from ..core import *

IE = "TPG::TPGExecutionEngineInstrumented"
TX = "TPG::TPGExecutionEngine::"
EI = "TPG::TPGEdgeInstrumented::"
VI = "TPG::TPGVertexInstrumentation::"
FA = "TPG::TPGInstrumentedFactory::"
TRACE = IE + "::traceHistory"


def counters(ck):
    """counter fields of the instrumented elements: {class: [field]}"""
    out = {}
    for c in (EI[:-2], VI[:-2]):
        fs = []
        for r in ck.P.cls(c):
            for fl in r.get("fields", ()):
                if "atomic" in fl["t"] or fl["t"] in ("unsigned long", "uint64_t", "size_t", "unsigned int", "int", "long"):
                    fs.append(c + "::" + fl["n"])
            break
        out[c] = fs
    return out


def check(ck):
    ck.P.need_field(EI[:-2], "nbVisits")
    ck.P.need_field(VI[:-2], "nbVisits")
    ck.P.need_field(IE, "traceHistory")
    ck.rule("R1-same", "the instrumented engine answers what the plain engine answers", 2)
    ck.rule("R2-counted", "each execution counts the element concerned, once, and nothing else", 3)
    ck.rule("R3-increment", "incrementing, reading and resetting a counter touch that counter", 4)
    ck.rule("R4-reset", "resetting the graph resets every vertex and every edge", 2)
    ck.rule("R5-prune", "pruning removes exactly the vertices never visited and the edges never traversed", 2)
    cs = counters(ck)
    small(ck, cs)
    engine(ck)
    reset(ck)
    prune(ck)


def counter_of(loc):
    if loc and loc[0] == "F" and (loc[2].startswith(EI) or loc[2].startswith(VI)):
        return loc[2]
    return None


def small(ck, cs):
    R = "R3-increment"
    want = {EI + "incrementNbVisits": EI + "nbVisits", EI + "incrementNbTraversal": EI + "nbTraversal", VI + "incrementNbVisits": VI + "nbVisits"}
    for name, fld in want.items():
        f = ck.P.one(name)

        def step(st, ev):
            if ev.kind == "write" and counter_of(ev.loc):
                st.auto = st.auto + ((ev.loc, ev.val, ev.prev, ev.at()),)
        hits, ps, cl = sites(ck, f, lambda ev: False, None, step, ())
        if ps is None:
            ck.und(R, f.loc(), ck.why)
            continue
        for p in ps:
            if p.kind != "ret":
                continue
            w = [x for x in p.auto]
            if not w:
                ck.bad(R, f.loc(), "%s counts nothing" % name)
            for loc, val, prev, at in w:
                if loc != TF(fld):
                    ck.bad(R, at, "%s changes %s" % (name, pp(loc)))
            end = p.get(TF(fld))
            if w and end == ("op", "+", ("ld", TF(fld), 0), C(1)):
                ck.ok(R, name)
            elif w and end[0] == "op" and nv(end[3]) is not None or num(end):
                ck.bad(R, f.loc(), "%s makes the counter %s" % (name, pp(end)))
            elif w and end != ("ld", TF(fld), 0):
                ck.und(R, f.loc(), name + " not interpreted: " + pp(end))
    for name, fld in ((EI + "getNbVisits", EI + "nbVisits"), (EI + "getNbTraversal", EI + "nbTraversal"), (VI + "getNbVisits", VI + "nbVisits")):
        f = ck.P.one(name)
        ps = allpaths(ck, f)
        for p in ps or ():
            if p.kind == "ret":
                if p.ret == ("ld", TF(fld), 0):
                    ck.ok(R, name)
                elif fld_of(p.ret) or num(p.ret):
                    ck.bad(R, f.loc(), "%s answers %s" % (name, pp(p.ret)))
                else:
                    ck.und(R, f.loc(), name + " not interpreted")
    for c, flds in cs.items():
        f = ck.P.one(c + "::reset")
        ps = allpaths(ck, f)
        if ps is None:
            ck.und(R, f.loc(), ck.why)
            continue
        for p in ps:
            if p.kind != "ret":
                continue
            for fl in flds:
                v = p.get(TF(fl))
                if nv(v) == 0:
                    ck.ok(R, "%s zeroes %s" % (f.sname, fl))
                elif v == ("ld", TF(fl), 0) or num(v):
                    ck.bad(R, f.loc(), "%s leaves %s at %s" % (f.sname, fl, pp(v)))
                else:
                    ck.und(R, f.loc(), f.sname + " not interpreted")
    # counters start from zero
    for c, flds in cs.items():
        for f in ck.P.funcs.values():
            if f.blocks and f.scls == c and f.base == c.rsplit("::", 1)[-1] and not any(c.rsplit("::", 1)[-1] in p.get("t", "") for p in f.params):
                ps = allpaths(ck, f)
                for p in ps or ():
                    if p.kind != "ret":
                        continue
                    for fl in flds:
                        v = p.get(TF(fl))
                        if v and v[0] == "ilist" and len(v) == 2:
                            v = v[1][0] if isinstance(v[1], tuple) and v[1] and isinstance(v[1][0], tuple) else v[1]
                        if nv(v) == 0:
                            ck.ok(R, "%s starts from zero" % fl)
                        elif num(v):
                            ck.bad(R, f.loc(), "%s starts from %s" % (fl, pp(v)))


def engine(ck):
    for base, what in (("evaluateEdge", "edge"), ("evaluateTeam", "team"), ("executeFromRoot", "root")):
        f = ck.P.one(IE + "::" + base)

        def step(st, ev):
            if ev.kind == "write" and counter_of(ev.loc):
                st.auto = st.auto + (("w", ev.loc, ev.val, ev.at()),)
            elif ev.kind == "call" and ev.name == TX + base:
                st.auto = st.auto + (("base", ev.res, tuple(Hit(ev, st).args), ev.at()),)
            elif ev.kind == "call" and ev.o is not None and fld_of(ev.o) == TRACE and ev.base in ("push_back", "emplace_back", "insert", "clear", "pop_back", "erase", "operator="):
                st.auto = st.auto + (("trace", ev.base, tuple(Hit(ev, st).args), ev.at()),)
        hits, ps, cl = sites(ck, f, lambda ev: False, lambda g: g.sname == TX + base, step, (), gc_facts="all")
        if ps is None:
            ck.und("R1-same", f.loc(), ck.why)
            continue
        for p in ps:
            if p.kind != "ret":
                continue
            b = [x for x in p.auto if x[0] == "base"]
            if len(b) != 1:
                if not b and not any(c.get("f") for c in ()):
                    calls = {c.get("f") for c in f.calls()}
                    ck.bad("R1-same", f.loc(), "%s does not rely on the plain engine" % f.sname) if not reaches(ck, f, TX + base) else \
                        ck.bad("R1-same", f.loc(), "%s does not always rely on the plain engine" % f.sname)
                else:
                    ck.bad("R1-same", f.loc(), "%s runs the plain engine %d times" % (f.sname, len(b)))
                continue
            res, args = b[0][1], b[0][2]
            if strip(p.ret) == strip(res) or has_only(p.ret, res):
                ck.ok("R1-same", f.sname)
            elif has_sub(p.ret, lambda z: z == res):
                ck.und("R1-same", f.loc(), f.sname + ": answer not interpreted: " + pp(p.ret))
            else:
                ck.bad("R1-same", f.loc(), "%s answers %s instead of what the plain engine answers" % (f.sname, pp(p.ret)))
            if not has_sub(args[0], lambda z: z == ("p", 0)):
                ck.bad("R1-same", b[0][3], "%s runs the plain engine on %s" % (f.sname, pp(args[0])))
            count(ck, f, base, p, res)


def strip(t):
    while isinstance(t, tuple) and t and (t[0] in ("*", "addr_of", "addr") or t[0] == "ld" and t[1][0] in ("*", "T")):
        t = t[1][1] if t[0] == "ld" else t[1]
    return t


def has_only(t, r):
    return strip(t) == strip(r)


def reaches(ck, f, name):
    return any(ck.P.funcs[i].sname == name for i in ck.P.reach([f.id]) if i in ck.P.funcs)


def count(ck, f, base, p, res):
    R = "R2-counted"
    res = strip(res)

    def inres(z):
        if z == res:
            return True
        return z[0] == "L" and is_loc(z) and strip(Engine.load(None, p.st, z)) == res
    arg = lambda loc: has_sub(loc, lambda z: z == ("p", 0)) and not has_sub(loc, inres)
    win = lambda loc: has_sub(loc, inres)
    if base == "evaluateEdge":
        want = {"the edge": lambda l: l[2] == EI + "nbVisits" and arg(l)}
    elif base == "evaluateTeam":
        want = {"the team": lambda l: l[2] == VI + "nbVisits" and arg(l), "the winning edge": lambda l: l[2] == EI + "nbTraversal" and win(l)}
    else:
        want = {"the action reached": lambda l: l[2] == VI + "nbVisits" and win(l) and "back" in repr(l) or l[2] == VI + "nbVisits" and win(l) and "rbegin" in repr(l)}
    ws = [x for x in p.auto if x[0] == "w"]
    used = set()
    for name, pred in want.items():
        hit = [(i, x) for i, x in enumerate(ws) if pred(x[1])]
        used |= {i for i, _ in hit}
        if not hit:
            # an action that is not instrumented cannot be counted
            nodyn = any(v and t[0] == "op" and t[1] == "==" and any(isinstance(y, tuple) and y[0] == "dyn" for y in t[2:4]) and NULL in t[2:4] for t, v in p.facts)
            other = [x for i, x in enumerate(ws) if i not in used]
            if nodyn:
                ck.ok(R, "%s: element without counter" % f.sname)
            elif base == "executeFromRoot" and other:
                ck.bad(R, other[0][3], "%s counts %s instead of %s" % (f.sname, pp(other[0][1]), name))
            else:
                ck.bad(R, f.loc(), "%s does not count %s" % (f.sname, name))
        else:
            loc = hit[0][1][1]
            v = p.get(loc)
            vals = [x[1][2] for x in hit]
            d = None
            if len(hit) == 1 and vals[0][0] == "op" and vals[0][1] == "+":
                d = nv(vals[0][3])
            if len(hit) > 1:
                ck.bad(R, hit[1][1][3], "%s counts %s twice" % (f.sname, name))
            elif d == 1:
                ck.ok(R, "%s: %s" % (f.sname, name))
            elif d is not None or num(vals[0]):
                ck.bad(R, hit[0][1][3], "%s makes the counter of %s %s" % (f.sname, name, pp(vals[0])))
            else:
                ck.und(R, hit[0][1][3], "count not interpreted: " + pp(vals[0]))
    for i, x in enumerate(ws):
        if i not in used:
            ck.bad(R, x[3], "%s also counts %s" % (f.sname, pp(x[1])))
    tr = [x for x in p.auto if x[0] == "trace"]
    if base == "executeFromRoot":
        if not tr:
            ck.bad(R, f.loc(), "the trace is not recorded")
        elif len(tr) > 1 or tr[0][1] not in ("push_back", "emplace_back", "insert"):
            ck.bad(R, tr[-1][3], "the trace is recorded more than once, or the history changed")
        elif has_sub(tr[0][2][-1], inres) and strip(tr[0][2][-1]) == strip(res):
            ck.ok(R, "trace recorded once")
        elif tr[0][2][-1][0] == "ilist" or not has_sub(tr[0][2][-1], inres):
            ck.bad(R, tr[0][3], "the trace recorded is %s" % pp(tr[0][2][-1]))
        else:
            ck.und(R, tr[0][3], "trace recorded not interpreted")
    elif tr:
        ck.bad(R, tr[0][3], "%s changes the trace history" % f.sname)


class Each(Sites):
    """per-iteration events and the facts at the end of the iteration"""
    budget = 400000
    gc_facts = False
    ext_throws = False

    def __init__(self, pred, prim=None):
        Sites.__init__(self, pred, prim)
        self.backs, self.breaks = [], []

    def event(self, st, ev):
        if self.pred(ev):
            h = Hit(ev, st)
            self.hits.append(h)
            st.auto = (st.auto or ()) + ((ev.base, h.o, tuple(h.args), ev.at()),)

    def loop(self, st, kind, tag, g, eng):
        if kind == "back":
            self.backs.append((tag, st.copy(), frozenset(st.facts), st.auto or ()))
            st.auto = ()
        elif kind == "enter":
            st.auto = ()
        elif kind == "break":
            self.breaks.append(tag)


def elem_of(t, cont):
    """index of the element of the container (predicate on its location) that t designates"""
    for s in subterms(t):
        if s[0] == "E" and cont(s[1]):
            return s[2]
    return None


def reset(ck):
    R = "R4-reset"
    f = ck.P.one(FA + "resetTPGGraphCounters")
    cl = Each(lambda ev: ev.kind == "call" and ev.base == "reset" and ev.name in (EI + "reset", VI + "reset"),
              lambda g: g.sname in (EI + "reset", VI + "reset", "TPG::TPGGraph::getVertices", "TPG::TPGGraph::getRootVertices"))
    ps = paths(ck, f, cl, auto=())
    if ps is None:
        return ck.und(R, f.loc(), ck.why)
    for what, name, cont in (("vertex", VI + "reset", lambda c: has_sub(c, lambda s: s[0] == "call" and s[1] == "TPG::TPGGraph::getVertices" or s[0] == "F" and s[2] == "TPG::TPGGraph::vertices")),
                             ("edge", EI + "reset", lambda c: has_sub(c, lambda s: s[0] == "F" and s[2] == "TPG::TPGGraph::edges"))):
        hs = [h for h in cl.hits if h.name == name]
        if not hs:
            ck.bad(R, f.loc(), "no %s is reset" % what)
            continue
        for h in hs:
            i = elem_of(h.o, cont)
            if i is None:
                if has_sub(h.o, lambda s: s[0] == "F" and s[2].startswith("TPG::TPGGraph::")) or has_sub(h.o, lambda s: s[0] == "call" and "getRoot" in s[1]):
                    ck.bad(R, h.at, "only some of the elements are reset")
                else:
                    ck.und(R, h.at, "element reset not interpreted: " + pp(h.o))
                continue
            sp = span(cl, i)
            tag = i[1] if i[0] in ("lit", "phi") else None
            if sp is None or sp[0] != "all" and nv(sp[1]) is None:
                ck.und(R, h.at, "loop not interpreted")
                continue
            if sp[0] == "from" and nv(sp[1]) > 0:
                ck.bad(R, h.at, "the first %s is not reset" % what)
                continue
            if tag in cl.breaks or (cl.loops.get(tag) or {}).get("brk"):
                ck.bad(R, h.at, "resetting may stop before the last %s" % what)
                continue
            good = True
            for tg, st, facts, auto in cl.backs:
                if tg != tag or any(a[0] == "reset" for a in auto):
                    continue
                nul = any(v and t[0] == "op" and t[1] == "==" and NULL in t[2:4] and any(isinstance(y, tuple) and y[0] == "dyn" and "Instrument" in y[1] for y in t[2:4]) for t, v in facts)
                cnt = any(has_sub(t, lambda s: s[0] == "F" and counter_of(s)) for t, v in facts)
                if nul:
                    continue
                good = False
                if cnt:
                    fl = {s[2] for t, v in facts for s in subterms(t) if s[0] == "F" and counter_of(s)}
                    if what == "edge" and fl == {EI + "nbTraversal"}:
                        ck.bad(R, h.at, "an edge never traversed keeps its number of visits")
                    else:
                        ck.und(R, h.at, "condition of the reset not interpreted")
                else:
                    ck.bad(R, h.at, "a %s is not reset" % what)
            if good:
                ck.ok(R, "every " + what)


def prune(ck):
    R = "R5-prune"
    f = ck.P.one(FA + "clearUnusedTPGGraphElements")
    cl = Each(lambda ev: ev.kind == "call" and ev.name in ("TPG::TPGGraph::removeVertex", "TPG::TPGGraph::removeEdge"),
              lambda g: g.sname in ("TPG::TPGGraph::removeVertex", "TPG::TPGGraph::removeEdge", "TPG::TPGGraph::getVertices", "TPG::TPGGraph::getRootVertices"))
    ps = paths(ck, f, cl, auto=())
    if ps is None:
        return ck.und(R, f.loc(), ck.why)
    for what, op, fld, wrong in (("vertex", "removeVertex", VI + "nbVisits", ()), ("edge", "removeEdge", EI + "nbTraversal", (EI + "nbVisits",))):
        hs = [h for h in cl.hits if h.base == op]
        if not hs:
            ck.bad(R, f.loc(), "no %s is ever removed" % what)
            continue
        tags = set()
        for h in hs:
            x = strip(h.args[0])
            z = zero(h.facts, fld)
            if z is True:
                ck.ok(R, "%s removed when unused" % what)
            elif z is not None:
                ck.bad(R, h.at, "a used %s is removed" % what)
            elif any(has_sub(t, lambda s: s[0] == "F" and s[2] in wrong) for t, v in h.facts):
                ck.bad(R, h.at, "the %s is removed according to %s" % (what, wrong[0]))
            elif any(has_sub(t, lambda s: s[0] == "F" and s[2] == fld) for t, v in h.facts):
                ck.und(R, h.at, "condition of the removal not interpreted")
            else:
                ck.bad(R, h.at, "a %s is removed whatever its use" % what)
            for s in subterms(x):
                if s[0] == "lit" or s[0] == "phi":
                    tags.add(s[1])
                    # removed elements must not be those being walked
                    if s[0] == "lit" and has_sub(s[2], lambda z: z[0] == "F" and z[2] in ("TPG::TPGGraph::edges", "TPG::TPGGraph::vertices")):
                        ck.bad(R, h.at, "elements are removed from the collection being walked")
                    sp = span(cl, s)
                    if sp and sp[0] == "from" and nv(sp[1]):
                        ck.bad(R, h.at, "the first %s is never removed" % what)
        for tg, st, facts, auto in cl.backs:
            if tg not in tags or any(a[0] == op for a in auto):
                continue
            z = zero(facts, fld)
            nul = any(v and t[0] == "op" and t[1] == "==" and NULL in t[2:4] and any(isinstance(y, tuple) and y[0] == "dyn" and "Instrument" in y[1] for y in t[2:4]) for t, v in facts)
            if z is False or nul:
                ck.ok(R, "used %s kept" % what)
            elif z is not None:
                ck.bad(R, hs[0].at, "an unused %s is kept" % what)
        for tg in tags:
            if tg in cl.breaks or (cl.loops.get(tg) or {}).get("brk"):
                ck.bad(R, hs[0].at, "pruning may stop before the last %s" % what)


def zero(facts, fld):
    """True: the counter is zero, False: it is not, 'mixed': tested, but both are possible; None: not tested"""
    ok = None
    for t, v in facts:
        if t[0] != "op" or len(t) < 4 or t[1] not in ("==", "<", "<="):
            continue
        for a, b, sw in ((t[2], t[3], False), (t[3], t[2], True)):
            if isinstance(b, tuple) and fld_of(b) == fld and b[0] == "ld" and nv(a) is not None:
                k = nv(a)
                ok = ok if ok is not None else set(range(8))
                for n in list(ok):
                    x, y = (n, k) if sw else (k, n)
                    if (x == y if t[1] == "==" else x < y if t[1] == "<" else x <= y) != v:
                        ok.discard(n)
    if ok is None:
        return None
    if ok <= {0}:
        return True
    return "mixed" if 0 in ok else False

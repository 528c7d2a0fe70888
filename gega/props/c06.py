"""C06: adjacency consistency, membership and release in the graph container."""
from ..core import *
from ..flow import mkop

V_IN, V_OUT = "TPG::TPGVertex::incomingEdges", "TPG::TPGVertex::outgoingEdges"
E_SRC, E_DST, E_PROG = "TPG::TPGEdge::source", "TPG::TPGEdge::destination", "TPG::TPGEdge::program"
G_V, G_E = "TPG::TPGGraph::vertices", "TPG::TPGGraph::edges"
GV, GE = TF(G_V), TF(G_E)
ADD = {"push_back", "emplace_back", "push_front", "emplace_front", "insert", "emplace"}


class G(Client):
    """abstract heap of the edges and vertices a graph operation touches.
    auto = (edges, verts, flags); edges: (e, src, outs, dst, ins, inGraph)"""
    max_states = 96
    use_cov = True
    budget = 120000

    def __init__(self):
        self.und = []
        self.misc = []

    def ed(self, st, e, eng=None):
        for x in st.auto[0]:
            if x[0] == e:
                return x
        ld = lambda f: Engine.load(None, st, ("F", ("*", e), f))
        s, d = ld(E_SRC), ld(E_DST)
        return (e, s, frozenset([s]), d, frozenset([d]), True)

    def put(self, st, x):
        a = st.auto
        st.auto = (frozenset(y for y in a[0] if y[0] != x[0]) | {x}, a[1], a[2])

    def vput(self, st, v, what):
        st.auto = (st.auto[0], st.auto[1] | {(v, what)}, st.auto[2])

    def flag(self, st, *fl):
        st.auto = (st.auto[0], st.auto[1], st.auto[2] | {fl})

    def is_new_edge(self, t):
        return isinstance(t, tuple) and ((t[0] == "call" and t[1].endswith("::createTPGEdge")) or
                                         (t[0] == "new" and "TPGEdge" in str(t[1])) or
                                         (t[0] == "obj" and "TPGEdge" in str(t[1])))

    def primitive(self, f):
        return f.base in ("createTPGEdge", "createTPGTeam", "createTPGAction")

    def event(self, st, ev):
        if ev.kind == "call":
            if ev.name.endswith("::createTPGEdge"):
                e = ev.res
                self.put(st, (e, ev.a[0], frozenset(), ev.a[1], frozenset(), False))
                self.flag(st, "created", e, tuple(self.val(st, x) for x in ev.a))
                return
            base = ev.name.rsplit("::", 1)[-1]
            if ev.o is None or not is_loc(ev.o):
                return
            r = ev.o[2] if ev.o[0] == "F" else None
            if r in (V_IN, V_OUT) and ev.o[1][0] == "*" and not ev.node.get("const"):
                v = ev.o[1][1]
                i = 2 if r == V_OUT else 4
                if base in ADD:
                    e = self.val(st, ev.a[-1])
                    x = list(self.ed(st, e))
                    x[i] = x[i] | {v}
                    self.put(st, tuple(x))
                elif base in ("remove", "erase"):
                    e = self.val(st, ev.a[0])
                    if base == "erase":
                        if isinstance(e, tuple) and e[0] == "it" and e[1] == "find":
                            e = e[4]
                        elif isinstance(e, tuple) and e[0] in ("lit", "it"):
                            e = Engine.load(None, st, ("E", ev.o, e))
                        else:
                            self.flag(st, "opaque", ev.at())
                            return
                    x = list(self.ed(st, e))
                    x[i] = frozenset(y for y in x[i] if not self.same(st, y, v))
                    self.put(st, tuple(x))
                elif base in ("begin", "end", "cbegin", "cend", "rbegin", "rend", "front", "back"):
                    pass
                else:
                    self.flag(st, "opaque", ev.at())
            elif r == G_E and ev.o[1] == SELF:
                if base in ADD:
                    e = self.val(st, ev.a[-1])
                    if self.is_new_edge(e) or any(y[0] == e for y in st.auto[0]):
                        x = list(self.ed(st, e))
                        x[5] = True
                        self.put(st, tuple(x))
                        st.auto = (st.auto[0], st.auto[1], frozenset(y for y in st.auto[2] if y[0] != "lastedge"))
                        self.flag(st, "lastedge", e)
                    else:
                        self.flag(st, "opaque", ev.at())
                elif base == "erase":
                    it = self.val(st, ev.a[0])
                    if isinstance(it, tuple) and it[0] == "it" and it[1] == "find":
                        e = it[4]
                    elif isinstance(it, tuple) and it[0] in ("it", "lit"):
                        e = Engine.load(None, st, ("E", ev.o, it))
                    else:
                        self.flag(st, "opaque", ev.at())
                        return
                    x = list(self.ed(st, e))
                    x[5] = False
                    self.put(st, tuple(x))
                    self.eng.mark(st, e, "edge-erased")
                elif base == "pop_back":
                    l = [y[1] for y in st.auto[2] if y[0] == "lastedge"]
                    if len(l) == 1:
                        x = list(self.ed(st, l[0]))
                        x[5] = False
                        self.put(st, tuple(x))
                    else:
                        self.flag(st, "opaque", ev.at())
                elif base not in ("begin", "end", "back", "front", "cbegin", "cend") and not ev.node.get("const"):
                    self.flag(st, "opaque", ev.at())
            elif r == G_V and ev.o[1] == SELF:
                if base in ADD:
                    self.vput(st, self.val(st, ev.a[-1]), "added")
                elif base == "erase":
                    it = self.val(st, ev.a[0])
                    if isinstance(it, tuple) and it[0] == "it" and it[1] == "find":
                        self.vput(st, it[4], "erased")
                    elif isinstance(it, tuple) and it[0] in ("it", "lit"):
                        self.vput(st, Engine.load(None, st, ("E", ev.o, it)), "erased")
                    else:
                        self.flag(st, "opaque", ev.at())
                elif base == "remove":
                    self.vput(st, self.val(st, ev.a[0]), "erased")
                elif base in ("pop_back", "pop_front"):
                    self.vput(st, Engine.load(None, st, ("E", ev.o, ("back",) if base == "pop_back" else ("front",))), "erased")
                elif base == "clear":
                    self.flag(st, "opaque", ev.at())
        elif ev.kind == "write" and ev.loc[0] == "F" and ev.loc[2] in (E_SRC, E_DST) and ev.loc[1][0] == "*" and ev.name != "init":
            e = ev.loc[1][1]
            # state before the write: reconstruct from the previous value
            x = None
            for y in st.auto[0]:
                if y[0] == e:
                    x = list(y)
            if x is None:
                prev = ev.prev
                ld = lambda f: Engine.load(None, st, ("F", ("*", e), f))
                if ev.loc[2] == E_SRC:
                    d = ld(E_DST)
                    x = [e, prev, frozenset([prev]), d, frozenset([d]), True]
                else:
                    s = ld(E_SRC)
                    x = [e, s, frozenset([s]), prev, frozenset([prev]), True]
            x[1 if ev.loc[2] == E_SRC else 3] = ev.val
            self.put(st, tuple(x))
        elif ev.kind == "delete":
            v = ev.val
            incov = {(x[1], x[2]) for x in st.cov if x[0] == "cov"}
            for fl, nm in ((V_IN, "incoming"), (V_OUT, "outgoing")):
                c = ("F", ("*", v), fl)
                if (c, "edge-erased") in incov or (c, "*") in incov:
                    self.flag(st, "cleared", v, nm)
            self.vput(st, v, "deleted")
            self.eng.mark(st, v, "deleted")

    def same(self, st, a, b):
        if a == b:
            return True
        f = eqs(st.facts)
        return f(a) == f(b)

    def val(self, st, x):
        return Engine.load(None, st, x) if is_loc(x) else x

    def refine(self, st, t, truth):
        # membership tests on the adjacency lists of a tracked edge
        if t[0] == "has" and is_loc(t[1]) and t[1][0] == "F" and t[1][2] in (V_IN, V_OUT) and t[1][1][0] == "*":
            lst = self.ed(st, t[3])[2 if t[1][2] == V_OUT else 4]
            if truth and all((mkop("==", u, t[1][1][1]), False) in st.facts for u in lst):
                return False
            if not truth and t[1][1][1] in lst:
                return False
        return True

    def loop(self, st, kind, tag, f, eng):
        if kind == "back":
            # per-iteration edges must be consistent, then forgotten
            es = set()
            for x in st.auto[0]:
                if mentions(x[0], lambda t: t == tag):
                    w = self.wrong(st, x)
                    if w:
                        self.flag(st, "iter", x[0], w)
                else:
                    es.add(x)
            st.auto = (frozenset(es), frozenset(y for y in st.auto[1] if not mentions(y[0], lambda t: t == tag)), st.auto[2])

    def wrong(self, st, x):
        e, s, outs, d, ins, ing = x
        f = eqs(st.facts)
        R = lambda z: f(z)
        if ing:
            if {R(o) for o in outs} != {R(s)}:
                return "edge %s: source is %s but it is listed as outgoing edge of {%s}" % (pp(e), pp(s), ", ".join(map(pp, outs)))
            if {R(o) for o in ins} != {R(d)}:
                return "edge %s: destination is %s but it is listed as incoming edge of {%s}" % (pp(e), pp(d), ", ".join(map(pp, ins)))
        else:
            if outs:
                return "edge %s left the graph but is still listed as outgoing edge of %s" % (pp(e), ", ".join(map(pp, outs)))
            if ins:
                return "edge %s left the graph but is still listed as incoming edge of %s" % (pp(e), ", ".join(map(pp, ins)))
        return None


def run(ck, f):
    cl = G()
    e = Engine(ck.P, cl)
    cl.eng = e
    try:
        r = e.run(f, auto=(frozenset(), frozenset(), frozenset()))
    except Undecided as x:
        return None, cl
    finally:
        ck.steps += e.steps
        ck.sites += e.sites
        ck.funcs |= e.funcs_seen
    return [Path(k, s, rv, f) for k, s, rv in r], cl


def check(ck):
    P = ck.P
    for c, fl in (("TPG::TPGVertex", "incomingEdges"), ("TPG::TPGVertex", "outgoingEdges"), ("TPG::TPGEdge", "source"),
                  ("TPG::TPGEdge", "destination"), ("TPG::TPGGraph", "vertices"), ("TPG::TPGGraph", "edges")):
        P.need_field(c, fl)
    ck.rule("R1-links", "at every normal or exceptional exit of every graph operation, each edge touched is either in the "
            "graph and listed exactly by its source and destination, or out of the graph and listed nowhere", 6)
    ck.rule("R2-effect", "each graph operation has its documented effect on the edge/vertex it was given", 8)
    ck.rule("R3-writers", "adjacency lists, edge ends and graph membership are only written by the graph container", 3)
    ops = {}
    for f in sorted(P.funcs.values(), key=lambda f: (f.file, f.line)):
        if f.scls == "TPG::TPGGraph" and f.blocks and not f.r.get("const") and f.r.get("kind") not in ("ctor", "dtor") and \
                not f.r.get("implicit") and f.base not in ("findVertex", "findEdge", "operator="):
            ops.setdefault(f.base, []).append(f)
    res = {}
    for b, fs in sorted(ops.items()):
        for f in fs:
            ps, cl = run(ck, f)
            if ps is None:
                ck.und("R1-links", f.loc(), f.sname + ": too many paths")
                continue
            res.setdefault(b, []).append((f, ps))
            bad = False
            for p in ps:
                if any(x[0] == "opaque" for x in p.auto[2]):
                    ck.und("R1-links", f.loc(), f.sname + ": list manipulation not interpreted " +
                           str([x[1] for x in p.auto[2] if x[0] == "opaque"]))
                    bad = True
                    break
                for x in p.auto[0]:
                    w = cl.wrong(p.st, x)
                    if w:
                        ck.bad("R1-links", f.loc(), "%s, %s exit: %s" % (f.sname, "exceptional" if p.kind == "throw" else "normal", w))
                        bad = True
                for x in p.auto[2]:
                    if x[0] == "iter":
                        ck.bad("R1-links", f.loc(), "%s, loop iteration: %s" % (f.sname, x[2]))
                        bad = True
                st = {}
                for v, w in p.auto[1]:
                    st.setdefault(v, set()).add(w)
                for v, w in st.items():
                    if ("deleted" in w) != ("erased" in w):
                        ck.bad("R1-links", f.loc(), "%s: vertex %s is %s" % (f.sname, pp(v),
                               "freed but still listed in the graph" if "deleted" in w else "dropped from the graph without being freed"))
                        bad = True
                    if "deleted" in w:
                        cl_ = {x[2] for x in p.auto[2] if x[0] == "cleared" and x[1] == v}
                        for nm in ("incoming", "outgoing"):
                            if nm not in cl_:
                                if any(x[0] == "cov" for x in p.st.cov) or not unknown_loops(cl):
                                    ck.bad("R1-links", f.loc(), "%s frees vertex %s without erasing each of its %s edges" % (f.sname, pp(v), nm))
                                else:
                                    ck.und("R1-links", f.loc(), "%s: loop over the %s edges not interpreted" % (f.sname, nm))
                                bad = True
            if not bad:
                ck.ok("R1-links", "%s: %d exits" % (f.sname, len(ps)))
    effects(ck, res)
    accessors(ck)
    writers(ck)


def unknown_loops(cl):
    return any("cont" not in i for i in getattr(cl, "loops", {}).values())


def ret(ps):
    return [p for p in ps if p.kind == "ret"]


def edge_state(p, e):
    for x in p.auto[0]:
        if x[0] == e:
            return x
    return None


def effects(ck, res):
    R = "R2-effect"
    p0, p1 = ("p", 0), ("p", 1)
    has = lambda p, cont, k: next((v for t, v in p.facts if t[0] == "has" and t[1] == cont and t[3] == k), None)
    for op, idx, fld, nm in (("setEdgeDestination", 3, E_DST, "destination"), ("setEdgeSource", 1, E_SRC, "source")):
        for f, ps in res.get(op, []):
            good = 0
            for p in ret(ps):
                if p.ret == TRUE:
                    x = edge_state(p, p0)
                    fx = eqs(p.facts)
                    cur = x[idx] if x else Engine.load(None, p.st, ("F", ("*", p0), fld))
                    if fx(cur) != fx(p1):
                        ck.bad(R, f.loc(), "%s reports success but the edge's %s is %s" % (op, nm, pp(cur)))
                    elif x and fx(x[4 - idx]) != fx(("ld", ("F", ("*", p0), E_SRC if fld == E_DST else E_DST), 0)):
                        ck.bad(R, f.loc(), "%s also changes the other end of the edge" % op)
                    elif has(p, GV, p1) is False or has(p, GE, p0) is False:
                        ck.bad(R, f.loc(), "%s reports success for an edge or vertex outside the graph" % op)
                    else:
                        good += 1
                elif p.ret == FALSE:
                    if p.auto[0]:
                        ck.bad(R, f.loc(), "%s reports failure after changing the edge" % op)
                    elif has(p, GV, p1) and has(p, GE, p0):
                        ck.bad(R, f.loc(), "%s refuses an edge and a vertex that are both in the graph" % op)
                    else:
                        good += 1
                else:
                    ck.und(R, f.loc(), "%s: result %s" % (op, pp(p.ret)))
            if good:
                ck.ok(R, "%s: %d outcomes" % (op, good))
    for f, ps in res.get("addNewEdge", []):
        for p in ps:
            cr = [x for x in p.auto[2] if x[0] == "created"]
            if p.kind == "ret":
                if not cr:
                    ck.bad(R, f.loc(), "addNewEdge returns without creating an edge")
                    continue
                for _, e, a in cr:
                    if tuple(a) != (("p", 0), ("p", 1), ("p", 2)):
                        ck.bad(R, f.loc(), "addNewEdge creates the edge from (%s)" % ", ".join(map(pp, a)))
                    x = edge_state(p, e)
                    if not x or not x[5]:
                        ck.bad(R, f.loc(), "addNewEdge returns but the new edge is not in the graph")
                if has(p, GV, ("p", 0)) is not True or has(p, GV, ("p", 1)) is not True:
                    ck.bad(R, f.loc(), "addNewEdge succeeds without both ends being known vertices of the graph")
                else:
                    ck.ok(R, "addNewEdge success path")
            else:
                for _, e, a in cr:
                    x = edge_state(p, e)
                    if x and x[5]:
                        ck.bad(R, f.loc(), "addNewEdge throws but leaves the new edge in the graph")
                ck.ok(R, "addNewEdge failing path")
    for op, cont in (("removeVertex", GV), ("removeEdge", GE)):
        for f, ps in res.get(op, []):
            for p in ret(ps):
                if op == "removeVertex":
                    if has(p, GV, ("p", 0)) is False:
                        if p.auto[1]:
                            ck.bad(R, f.loc(), "removeVertex changes the graph for a foreign vertex")
                        continue
                    gone = {w for v, w in p.auto[1] if v == ("p", 0)}
                    if gone != {"deleted", "erased"}:
                        others = [pp(v) for v, w in p.auto[1]]
                        ck.bad(R, f.loc(), "removeVertex returns with the vertex %s%s" % (
                            "still in the graph" if "erased" not in gone else "not freed", " (but drops %s)" % others if others else ""))
                    else:
                        ck.ok(R, "removeVertex removes its argument")
                else:
                    x = edge_state(p, ("p", 0))
                    if not x or x[5]:
                        ck.bad(R, f.loc(), "removeEdge returns with the edge still in the graph")
                    else:
                        ck.ok(R, "removeEdge removes its argument")
    for f, ps in res.get("cloneEdge", []):
        for p in ret(ps):
            cr = [x for x in p.auto[2] if x[0] == "created"]
            want = tuple(("ld", ("F", ("*", ("p", 0)), g), 0) for g in (E_SRC, E_DST, E_PROG))
            if not cr:
                ck.bad(R, f.loc(), "cloneEdge returns without a new edge")
            for _, e, a in cr:
                if tuple(a) != want:
                    ck.bad(R, f.loc(), "cloneEdge creates the edge from (%s) instead of the original's source, destination and program" % ", ".join(map(pp, a)))
                else:
                    ck.ok(R, "cloneEdge copies source, destination and program")
    clone_vertex(ck)
    queries(ck)


def clone_vertex(ck):
    """each outgoing edge of the original is added from the new vertex with the same destination and program;
    the new vertex has the original's kind and action"""
    R = "R2-effect"
    P = ck.P
    for f in P.find("TPG::TPGGraph::cloneVertex"):
        class Cl(Client):
            use_cov = True
            def primitive(self, g):
                return g.base in ("addNewEdge", "addNewTeam", "addNewAction")

            def event(self, st, ev):
                if ev.kind == "call" and ev.name == "TPG::TPGGraph::addNewEdge":
                    a = [Engine.load(None, st, x) if is_loc(x) and i == 2 else x for i, x in enumerate(ev.a)]
                    st.auto = st.auto + (("edge", tuple(a)),) if ("edge", tuple(a)) not in st.auto else st.auto
                    d = a[1]
                    ee = None
                    if d[0] == "*" and d[1][0] == "ld" and fld_of(d[1]) == E_DST:
                        ee = d[1][1][1][1]
                    if ee is not None and a[2][0] == "ld" and a[2][1] == ("F", ("*", ee), E_PROG):
                        self.eng.mark(st, ee, "copied")
                elif ev.kind == "call" and ev.name.endswith(("::addNewTeam", "::addNewAction")):
                    b = ev.name.rsplit("::", 1)[-1]
                    st.auto = st.auto + ((b, tuple(Engine.load(None, st, x) if is_loc(x) else x for x in ev.a)),)
        cl = Cl()
        e = Engine(P, cl)
        cl.eng = e
        ps = [Path(k, s, r, f) for k, s, r in e.run(f, auto=())]
        ck.funcs |= e.funcs_seen
        p0 = ("p", 0)
        okn = 0
        for p in ps:
            if p.kind != "ret":
                continue
            team = any(t[0] == "op" and t[1] == "==" and has_sub(t, lambda x: x[0] == "dyn" and "TPGTeam" in x[1]) and
                       has_sub(t, lambda x: x == NULL) and not v for t, v in p.facts)
            act = any(t[0] == "op" and t[1] == "==" and has_sub(t, lambda x: x[0] == "dyn" and "TPGAction" in x[1]) and
                      has_sub(t, lambda x: x == NULL) and not v for t, v in p.facts)
            made = [x for x in p.auto if x[0] in ("addNewTeam", "addNewAction")]
            if team and [m[0] for m in made] != ["addNewTeam"]:
                ck.bad(R, f.loc(), "cloneVertex of a team does not create exactly one team")
            if act and not team:
                if [m[0] for m in made] != ["addNewAction"]:
                    ck.bad(R, f.loc(), "cloneVertex of an action does not create exactly one action")
                else:
                    idf = made[0][1][0]
                    if not (idf[0] == "ld" and fld_of(idf) == "TPG::TPGAction::actionID" and mentions(idf, lambda t: t == p0)):
                        ck.bad(R, f.loc(), "cloneVertex gives the new action the id %s instead of the original's" % pp(idf))
            out = ("F", ("*", p0), V_OUT)
            cov = {(x[1], x[2]) for x in p.st.cov if x[0] == "cov"}
            cont = {x[1] for x in p.st.cov if x[0] == "cov"}
            if (out, "copied") in cov or (out, "*") in cov:
                okn += 1
            elif out in cont:
                ck.bad(R, f.loc(), "cloneVertex has an iteration over the original's outgoing edges that adds no edge with the same destination and program")
            elif any("cont" not in i for i in getattr(cl, "loops", {}).values()):
                ck.und(R, f.loc(), "cloneVertex: loop not interpreted")
            else:
                ck.bad(R, f.loc(), "cloneVertex does not go through all the original's outgoing edges")
            for x in p.auto:
                if x[0] == "edge":
                    s = x[1][0]
                    if s == ("*", p0):
                        ck.bad(R, f.loc(), "cloneVertex adds the copied edge to the original instead of the clone")
        if okn:
            ck.ok(R, "cloneVertex: %d paths" % okn)
        check_ranges(ck, R, f, cl)


def check_ranges(ck, rid, f, cl, only=None):
    """loops that run over a container must run over all of it"""
    for tag, i in getattr(cl, "loops", {}).items():
        if tag[0] != "lp" or "cont" not in i:
            continue
        var = i.get("var")
        ini = i["init"].get(var, set())
        step = i["step"].get(var, set())
        if only and not only(i["cont"]):
            continue
        for v in ini:
            if isinstance(v, tuple) and v[0] == "it" and v[1] in ("begin", "rbegin"):
                continue
            if v == C(0):
                continue
            if num(v) or (isinstance(v, tuple) and v[0] == "op" and lit_of(v) is not None and has_sub(v, lambda t: t[0] == "it" and t[1] == "begin")):
                ck.bad(rid, i["f"].loc(), "%s: the loop over %s starts at %s" % (i["f"].sname, pp(i["cont"]), pp(v)))
        if isinstance(i["cont"], tuple) and i["cont"][0] == "upto":
            b = i["cont"][1]
            if b[0] == "op" and b[1] == "-" and b[2][0] == "size":
                ck.bad(rid, i["f"].loc(), "%s: the loop stops at %s" % (i["f"].sname, pp(b)))


def queries(ck):
    R = "R2-effect"
    P = ck.P
    insz = lambda el: ("size", ("F", ("*", el), V_IN))
    # root predicates: the count / the list of vertices without incoming edge
    for nm in ("getRootVertices", "getNbRootVertices"):
        for f in P.find("TPG::TPGGraph::" + nm):
            lams = [n for g in [f] for n in g.nodes() if n["k"] == "lambda"]
            done = False
            for n in f.nodes():
                if n["k"] == "lambda":
                    lf = P.funcs[n["f"]]
                    rs = set()
                    cl = Client()
                    for k, s, rv in ck.run(cl, lf):
                        rs.add(rv)
                        done = True
                        el = ("p", 0)
                        q = None
                        if isinstance(rv, tuple):
                            q = rv
                        if rv in (TRUE, FALSE):
                            fs = [(t, v) for t, v in s.facts if has_sub(t, lambda x: x[0] == "size")]
                            if not fs:
                                continue
                            t, v = fs[0]
                            q = t if (v == (rv == TRUE)) else ("not", t)
                        sz = [x for x in subterms(q) if x[0] == "size"]
                        if sz and fld_of(sz[0][1]) == V_IN and q == ("op", "==", C(0), sz[0]) or \
                                sz and fld_of(sz[0][1]) == V_IN and q == ("op", "==", sz[0], C(0)):
                            ck.ok(R, nm + ": counts a vertex iff it has no incoming edge")
                        elif sz:
                            ck.bad(R, f.loc(), "%s selects a vertex under the condition %s instead of 'no incoming edge'" % (nm, pp(q)))
                        else:
                            ck.und(R, f.loc(), nm + ": predicate " + pp(q))
                    algs = [x for x in f.nodes() if x["k"] == "call" and short(x.get("fn", "")) in
                            ("std::copy_if", "std::count_if", "std::remove_copy_if")]
                    for a in algs:
                        if short(a["fn"]) == "std::remove_copy_if":
                            ck.und(R, f.loc(), nm)
            if not done:
                class Cl(Client):
                    use_cov = True
                    def event(self, st, ev):
                        if (ev.kind == "call" and ev.name.rsplit("::", 1)[-1] in ADD and ev.o[0] == "L") or \
                                (ev.kind == "write" and ev.loc[0] == "L" and ev.prev is not None and ev.val == ("op", "+", ev.prev, C(1))):
                            self.sel.append((st.copy(), ev))
                cl = Cl()
                cl.sel = []
                ck.run(cl, f)
                fnd = False
                for s, ev in cl.sel:
                    for t, v in s.facts:
                        sz = [x for x in subterms(t) if x[0] == "size" and fld_of(x[1]) in (V_IN, V_OUT)]
                        if sz:
                            fnd = True
                            good = fld_of(sz[0][1]) == V_IN and t in (("op", "==", C(0), sz[0]), ("op", "==", sz[0], C(0))) and v
                            if good:
                                ck.ok(R, nm + ": selects a vertex iff it has no incoming edge")
                            else:
                                ck.bad(R, f.loc(), "%s selects a vertex when %s%s" % (nm, "" if v else "not ", pp(t)))
                if not fnd:
                    ck.und(R, f.loc(), nm + ": selection not interpreted")
                else:
                    check_ranges(ck, R, f, cl)
    for f in P.find("TPG::TPGGraph::hasVertex"):
        for p in paths(ck, f, Client()) or []:
            if p.ret in (TRUE, FALSE):
                h = next(((t, v) for t, v in p.facts if t[0] == "has"), None)
                r = h and (h[0] if h[1] == (p.ret == TRUE) else ("not", h[0]))
            else:
                r = p.ret
            if r and r[0] == "has" and r[1] == GV and r[3] == ("p", 0):
                ck.ok(R, "hasVertex is membership in the graph")
            elif r and (r[0] == "not" or r[0] == "c"):
                ck.bad(R, f.loc(), "hasVertex answers %s" % pp(r))
            else:
                ck.und(R, f.loc(), "hasVertex: " + pp(r))
    # destructor
    for f in [f for f in P.funcs.values() if f.scls == "TPG::TPGGraph" and f.r.get("kind") == "dtor" and f.blocks]:
        ps, cl = run(ck, f)
        for p in ps or []:
            cov = {(x[1], x[2]) for x in p.st.cov if x[0] == "cov"}
            if (GV, "deleted") in cov or (GV, "*") in cov:
                ck.ok(R, "the graph destructor frees every vertex")
            elif GV in {c for c, w in cov}:
                ck.bad(R, f.loc(), "the graph destructor leaves vertices unfreed")
            elif not getattr(cl, "loops", None) :
                ck.bad(R, f.loc(), "the graph destructor does not free the vertices")
            else:
                ck.und(R, f.loc(), "destructor loop")
        check_ranges(ck, R, f, cl)


def accessors(ck):
    R = "R2-effect"
    P = ck.P
    # addIncomingEdge / addOutgoingEdge / remove*: right list, no null, no duplicate
    for nm, fld in (("addIncomingEdge", V_IN), ("addOutgoingEdge", V_OUT)):
        f = P.one("TPG::TPGVertex::" + nm)
        lst = TF(fld)

        def track(st, ev, lst=lst):
            if ev.kind == "call" and ev.o is not None and is_loc(ev.o) and ev.o[0] == "F" and ev.o[2] in (V_IN, V_OUT) and \
                    not ev.node.get("const"):
                b = ev.name.rsplit("::", 1)[-1]
                if b in ADD:
                    x = ev.a[-1]
                    return ("add", ev.o, Engine.load(None, st, x) if is_loc(x) else x)
        n = 0
        for p in trace(ck, f, track) or []:
            if p.kind != "ret":
                continue
            adds = [a for a in p.auto if a[0] == "add"]
            nul = next((v for t, v in p.facts if t == ("op", "==", NULL, ("p", 0)) or t == ("op", "==", ("p", 0), NULL)), None)
            dup = next((v for t, v in p.facts if t[0] == "has" and t[1] == lst and t[3] == ("p", 0)), None)
            if any(a[1] != lst for a in adds):
                ck.bad(R, f.loc(), nm + " adds to the wrong list")
            elif any(a[2] != ("p", 0) for a in adds):
                ck.bad(R, f.loc(), nm + " adds something else than the given edge")
            elif nul and adds:
                ck.bad(R, f.loc(), nm + " adds a null edge")
            elif dup and adds:
                ck.bad(R, f.loc(), nm + " adds an edge a second time")
            elif adds and dup is None:
                ck.bad(R, f.loc(), nm + " adds an edge without checking it is already listed")
            elif not adds and nul is False and dup is False:
                ck.bad(R, f.loc(), nm + " does not add a new non-null edge")
            else:
                n += 1
        if n:
            ck.ok(R, "%s: %d paths" % (nm, n))
    for nm, fld in (("removeIncomingEdge", V_IN), ("removeOutgoingEdge", V_OUT)):
        f = P.one("TPG::TPGVertex::" + nm)

        def track(st, ev):
            if ev.kind == "call" and ev.o is not None and is_loc(ev.o) and ev.o[0] == "F" and ev.o[2] in (V_IN, V_OUT) and \
                    ev.name.rsplit("::", 1)[-1] in ("remove", "erase", "remove_if"):
                b = ev.name.rsplit("::", 1)[-1]
                x = Engine.load(None, st, ev.a[0]) if is_loc(ev.a[0]) else ev.a[0]
                if isinstance(x, tuple) and x[0] == "it" and x[1] == "find":
                    x = x[4]
                return (b, ev.o, x)
        for p in trace(ck, f, track) or []:
            if p.kind != "ret":
                continue
            miss = any(t[0] == "has" and not v for t, v in p.facts)
            for b, o, x in p.auto:
                if o != TF(fld):
                    ck.bad(R, f.loc(), nm + " removes from the wrong list")
                elif b != "remove_if" and x != ("p", 0) and not (isinstance(x, tuple) and x[0] in ("lit", "it", "call")):
                    ck.bad(R, f.loc(), nm + " removes " + pp(x))
                else:
                    ck.ok(R, nm)
            if not p.auto and not miss and not getattr(f, "_loops", {}):
                nul = any(t[0] == "op" and t[1] == "==" and v and NULL in t for t, v in p.facts)
                if not nul:
                    ck.bad(R, f.loc(), nm + " does not remove the edge")
    # an action accepts no outgoing edge
    f = P.one("TPG::TPGAction::addOutgoingEdge")
    for p in paths(ck, f, Client()) or []:
        ck.require(R, p.kind == "throw", f.loc(), "an action accepts an outgoing edge", "an action refuses outgoing edges")


def writers(ck):
    """who may change the structure: only methods of TPGVertex touch the lists, and only TPGGraph calls them"""
    R = "R3-writers"
    P = ck.P
    own = {V_IN: ("TPG::TPGVertex",), V_OUT: ("TPG::TPGVertex",), G_V: ("TPG::TPGGraph",), G_E: ("TPG::TPGGraph",),
           E_SRC: ("TPG::TPGEdge", "TPG::TPGGraph"), E_DST: ("TPG::TPGEdge", "TPG::TPGGraph")}
    from ..flow import direct_mods
    for fld, cls in own.items():
        bad = False
        n = 0
        for f in P.funcs.values():
            if f.blocks and fld in direct_mods(P, f)[0]:
                n += 1
                owner = f.scls or (f.r.get("parent") and "")
                # lambdas belong to their enclosing function
                nm = f.sname
                host = f
                if f.r.get("kind") == "lambda" or "lambda@" in f.id:
                    hid = f.id.split("|", 1)[-1]
                    host = P.funcs.get(hid, f)
                base = {short(b) for c in (P.byclsshort.get(host.scls or "", [])) for b in P.bases_of(c)}
                friend = host.base == "swap"
                if not (host.scls in cls or base & set(cls) or friend):
                    ck.bad(R, f.loc(), "%s writes %s" % (f.sname, fld))
                    bad = True
        if not bad:
            ck.ok(R, "%s: %d writers, all in %s" % (fld, n, "/".join(cls)))
    meth = ("addIncomingEdge", "addOutgoingEdge", "removeIncomingEdge", "removeOutgoingEdge", "setSource", "setDestination")
    cnt = 0
    for f in P.funcs.values():
        for n in f.calls():
            b = short(n.get("fn", ""))
            if b.rsplit("::", 1)[-1] in meth and b.startswith("TPG::"):
                host = P.funcs.get(f.id.split("|", 1)[-1], f) if "lambda@" in f.id else f
                cnt += 1
                base = {short(x) for c in (P.byclsshort.get(host.scls or "", [])) for x in P.bases_of(c)}
                if not base & {"TPG::TPGGraph", "TPG::TPGVertex", "TPG::TPGEdge"}:
                    ck.bad(R, f.loc(n.get("l")), "%s calls %s behind the graph's back" % (f.sname, b))
                else:
                    ck.ok(R, "%s in %s" % (b, f.sname))
    if cnt < 6:
        raise AnalysisError("only %d adjacency updates found" % cnt)

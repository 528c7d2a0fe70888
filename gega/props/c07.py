"""C07: mutation keeps the graph acyclic and its teams valid."""
from ..core import *
from ..flow import mkop, lin

TM = "Mutator::TPGMutator::"
OUT = "TPG::TPGVertex::outgoingEdges"
G = "TPG::TPGGraph::"
STRUCT = {G + x for x in ("addNewEdge", "cloneEdge", "removeEdge", "setEdgeDestination", "setEdgeSource", "addNewTeam",
                          "addNewAction", "cloneVertex", "removeVertex", "clear", "getNbRootVertices", "getRootVertices",
                          "getVertices")}
PRIM = named(*STRUCT, "Mutator::RNG::getUnsignedInt64", "Mutator::RNG::getDouble", "TPG::TPGEdge::setProgram",
             "Program::Program::Program", "initRandomProgram", TM + "mutateNewProgramBehaviors")
PARAM_TEAM = 2


def target(x):
    """object a reference/pointer argument designates"""
    if is_loc(x) and x[0] == "*":
        return x[1]
    return x


def elem_cont(t):
    """container a value was read from (element load), if any"""
    if isinstance(t, tuple) and t[0] == "ld" and t[1][0] == "E":
        return t[1][1]
    if isinstance(t, tuple) and t[0] == "E":
        return t[1]
    if isinstance(t, tuple) and t[0] == "dyn":
        return elem_cont(t[2])
    return None


def outs_of(team_loc):
    return ("F", team_loc, OUT)


def copy_source(st, cont):
    """the container a local container was copied from (filtering allowed)"""
    return COPY.get(cont)


def bounded(hit, cl, cont, lim, below):
    """is size(cont) > lim (below False) / < lim (below True) known here?
    yes / no / maybe (the guard is on a value derived from the size)"""
    cur = cur_size(hit.st, cont)
    ok = entails_lt(cur, lim, hit.facts) if below else entails_lt(lim, cur, hit.facts)
    if ok:
        return "yes"
    for t, v in hit.facts:
        if t[0] == "op" and t[1] in ("<", "<=", "=="):
            for s in subterms(t):
                if s[0] == "phi" and isinstance(s[2], tuple) and s[2][0] == "L":
                    inits = (cl.loops.get(s[1]) or {}).get("init", {}).get(s[2], ())
                    steps = (cl.loops.get(s[1]) or {}).get("step", {}).get(s[2], ())
                    if any(has_sub(x, lambda z: z[0] == "size" and z[1] == cont) for x in set(inits) | set(steps)):
                        return "maybe"
    return "no"


def check(ck):
    P = ck.P
    P.need_field("TPG::TPGVertex", "outgoingEdges")
    P.need_field("Mutator::MutationParameters", "tpg")
    ck.rule("R1-min-edges", "mutateTPGTeam removes an edge of the team only while it has more than two", 1)
    ck.rule("R2-max-edges", "mutateTPGTeam adds an edge to the team only while it has fewer than maxOutgoingEdges", 1)
    ck.rule("R3-targets", "during mutation an edge is only retargeted when it leaves the mutated team, towards a vertex of "
            "the pre-existing teams (or actions when an action was drawn), at an index drawn for that very list", 1)
    ck.rule("R4-new-edges", "an edge added by mutation is a clone of a pre-existing edge whose source becomes the mutated team", 1)
    ck.rule("R5-fresh-team", "populateTPG only mutates teams it just cloned, handing over lists of vertices and edges "
            "recorded before any of them was cloned", 2)
    ck.rule("R6-refill", "populateTPG ends only when the number of roots, counted after the last mutation, reaches nbRoots", 1)
    ck.rule("R7-init", "initRandomTPG refuses invalid parameters, empties the graph first, gives every team two distinct "
            "actions and programs, and never exceeds maxInitOutgoingEdges", 2)
    team(ck)
    populate(ck)
    init(ck)


def mut_sites(ck, f):
    return sites(ck, f, lambda ev: ev.kind in ("call", "ctor") and ev.name in STRUCT | {"TPG::TPGEdge::setProgram"},
                 PRIM, budget=200000)


def lambda_filters(hit):
    return hit


def origin(st, cont, cl):
    """local copy -> what it was initialised from"""
    if cont[0] == "L":
        for k, v in cl.copies.items():
            if k == cont:
                return v
    return cont


class Mut(Sites):
    """also remembers what each local container was copied from"""

    def __init__(self, *a, **k):
        super().__init__(*a, **k)
        self.copies = {}

    def event(self, st, ev):
        if ev.kind == "decl" and isinstance(ev.val, tuple):
            v = ev.val
            if v[0] == "ld" and is_loc(v[1]):
                self.copies[ev.loc] = v[1]
            elif v[0] == "cobj" and len(v[3]) >= 2 and all(isinstance(x, tuple) and x[0] == "it" for x in v[3][:2]):
                self.copies[ev.loc] = v[3][0][2]
        super().event(st, ev)


def msites(ck, f, pred, prim, step=None, auto=None, **o):
    cl = Mut(pred, prim, step, budget=200000, **o)
    ps = paths(ck, f, cl, auto=auto)
    return cl.hits, ps, cl


def pick(ck, rid, h, v, cl, what):
    """the value v is an element of a list at an index drawn for that list"""
    l = v
    while isinstance(l, tuple) and l[0] in ("dyn",):
        l = l[2]
    if not (isinstance(l, tuple) and l[0] == "ld" and l[1][0] == "E"):
        return None
    return l[1][1], l[1][2]


def team(ck):
    P = ck.P
    f = P.one(TM + "mutateTPGTeam")
    names = [p["n"] for p in f.params]
    hits, ps, cl = msites(ck, f, lambda ev: ev.kind in ("call", "ctor") and ev.name in STRUCT | {"TPG::TPGEdge::setProgram"}, PRIM)
    if ps is None:
        for r in ("R1-min-edges", "R2-max-edges", "R3-targets", "R4-new-edges"):
            ck.und(r, f.loc(), "mutateTPGTeam: too many paths")
        return
    tl = ("*", ("p", PARAM_TEAM))
    out = outs_of(tl)
    lists = {("*", ("p", 3)): "preExistingTeams", ("*", ("p", 4)): "preExistingActions", ("*", ("p", 5)): "preExistingEdges"}
    maxo = ("ld", ("F", ("F", ("*", ("p", 7)), "Mutator::MutationParameters::tpg"), "Mutator::TPGParameters::maxOutgoingEdges"), 0)
    judged = set()
    for h in hits:
        b = h.base
        if b == "removeEdge":
            e = target(h.ev.a[0])
            c = elem_cont(e)
            if c != out:
                ck.und("R1-min-edges", h.at, "edge removed from elsewhere than the team's outgoing edges")
                continue
            r = bounded(h, cl, out, C(2), False)
            if r == "no":
                ck.bad("R1-min-edges", h.at, "an outgoing edge of the mutated team is removed without knowing that it has more than two")
            elif r == "yes":
                ck.ok("R1-min-edges", h.at)
            else:
                ck.und("R1-min-edges", h.at, "guard on a derived count")
        elif b in ("cloneEdge", "addNewEdge"):
            mx = [t for s in h.facts for t in subterms(s[0]) if t[0] == "ld" and fld_of(t) and fld_of(t).endswith("::maxOutgoingEdges")]
            lim = mx[0] if mx else None
            r = bounded(h, cl, out, lim, True) if lim else "no"
            if r == "no":
                ck.bad("R2-max-edges", h.at, "an edge is added to the mutated team without knowing that it has fewer than maxOutgoingEdges")
            elif r == "yes":
                ck.ok("R2-max-edges", h.at)
            else:
                ck.und("R2-max-edges", h.at, "guard on a derived count")
            if b == "cloneEdge":
                e = target(h.ev.a[0])
                c = elem_cont(e)
                src = cl.copies.get(c, c)
                if src is None:
                    ck.und("R4-new-edges", h.at, "origin of the cloned edge not interpreted: " + pp(e))
                elif src == ("*", ("p", 5)):
                    ck.ok("R4-new-edges", h.at + " cloned from preExistingEdges")
                elif src == out or (src[0] == "F" and src[2].startswith("TPG::")):
                    ck.bad("R4-new-edges", h.at, "the edge duplicated is taken from %s instead of the pre-existing edges" % pp(src))
                else:
                    ck.und("R4-new-edges", h.at, "origin of the cloned edge: " + pp(src))
        elif b == "setEdgeSource":
            e, s = target(h.ev.a[0]), target(h.ev.a[1])
            if s != ("p", PARAM_TEAM):
                ck.bad("R4-new-edges", h.at, "the source of an edge is set to %s, not to the mutated team" % pp(s))
            elif has_sub(e, lambda t: t[0] == "call" and t[1] == G + "cloneEdge"):
                ck.ok("R4-new-edges", h.at)
            else:
                ck.bad("R4-new-edges", h.at, "the source of %s, which is not an edge just cloned, is changed" % pp(e))
        elif b in ("setEdgeDestination",):
            e, d = target(h.ev.a[0]), target(h.ev.a[1])
            if elem_cont(e) != out:
                c = cl.copies.get(elem_cont(e), elem_cont(e))
                if c == out:
                    pass
                elif c is not None:
                    ck.bad("R3-targets", h.at, "the edge retargeted (%s) is not an outgoing edge of the mutated team" % pp(e))
                    continue
                elif not has_sub(e, lambda t: t[0] == "call" and t[1] == G + "cloneEdge"):
                    ck.und("R3-targets", h.at, "edge retargeted: " + pp(e))
                    continue
            pc = elem_cont(d)
            pc = cl.copies.get(pc, pc)
            action = None
            for t, v in h.facts:
                if t[0] == "op" and t[1] == "<" and has_sub(t[3], lambda z: fld_of(z) is not None and z[0] == "ld" and fld_of(z).endswith("::pEdgeDestinationIsAction")):
                    action = v
                if t[0] == "op" and t[1] == "<" and has_sub(t[2], lambda z: fld_of(z) is not None and z[0] == "ld" and fld_of(z).endswith("::pEdgeDestinationIsAction")):
                    action = not v
            if pc not in lists:
                if pc is not None or d == ("p", PARAM_TEAM):
                    ck.bad("R3-targets", h.at, "an edge is retargeted to %s, which is not among the vertices existing before the mutation" % pp(d))
                else:
                    ck.und("R3-targets", h.at, "target not interpreted: " + pp(d))
                continue
            nm = lists[pc]
            if action is True and nm != "preExistingActions":
                ck.bad("R3-targets", h.at, "an edge to be redirected to an action is redirected to an element of %s" % nm)
            elif action is False and nm != "preExistingTeams":
                ck.bad("R3-targets", h.at, "an edge to be redirected to a team is redirected to an element of %s" % nm)
            else:
                ck.ok("R3-targets", "%s towards %s" % (h.at, nm))
        elif b == "setProgram":
            pass
        elif b in ("removeVertex", "clear", "addNewTeam", "addNewAction", "cloneVertex"):
            ck.bad("R3-targets", h.at, "mutating a team calls %s on the graph" % b)


def populate(ck):
    P = ck.P
    f = P.one(TM + "populateTPG")
    prim = named(*STRUCT, "Mutator::RNG::getUnsignedInt64", "Mutator::RNG::getDouble", TM + "mutateTPGTeam",
                 TM + "mutateNewProgramBehaviors", TM + "initRandomTPG")
    CL = {G + "cloneVertex", G + "addNewTeam", TM + "mutateTPGTeam"}

    # auto: (cloned?, lists filled after cloning, fresh root counts)
    def step(st, ev):
        a = st.auto
        if ev.kind == "call":
            if ev.name in CL:
                st.auto = (True, a[1], frozenset())
            elif ev.name == G + "clear" or ev.name == TM + "initRandomTPG":
                st.auto = (a[0], a[1], frozenset())
            elif ev.name == G + "getNbRootVertices":
                st.auto = (a[0], a[1], a[2] | {ev.res})
            elif ev.name == G + "getRootVertices":
                st.auto = (a[0], a[1], a[2] | {("roots", ev.res)})
            elif ev.o is not None and ev.name.rsplit("::", 1)[-1] in ("push_back", "emplace_back", "insert", "push_front", "assign", "operator=") \
                    and ev.o[0] == "L":
                if a[0]:
                    st.auto = (a[0], a[1] | {ev.o}, a[2])
        elif ev.kind in ("decl", "write") and is_loc(ev.loc) and ev.loc[0] == "L":
            v = ev.val
            if isinstance(v, tuple) and v and v[0] == "size" and v[1][0] == "L":
                rv = st.m.get(v[1])
                if any(isinstance(x, tuple) and x[0] == "roots" and x[1] == rv for x in a[2]):
                    st.auto = (a[0], a[1], a[2] | {v})

    hits, ps, cl = msites(ck, f, lambda ev: ev.kind == "call" and (ev.name in CL or ev.name.startswith(G) or
                          ev.name == TM + "mutateNewProgramBehaviors" or
                          (ev.o is not None and ev.o[0] == "L" and ev.name.rsplit("::", 1)[-1] in ("push_back", "emplace_back"))),
                          prim, step, (False, frozenset(), frozenset()))
    if ps is None:
        ck.und("R5-fresh-team", f.loc(), "populateTPG: too many paths")
        ck.und("R6-refill", f.loc(), "populateTPG: too many paths")
        return
    R = "R5-fresh-team"
    passed = {}
    for h in hits:
        if h.name == TM + "mutateTPGTeam":
            g = P.one(h.name)
            t = target(h.ev.a[2])
            if has_sub(t, lambda z: z[0] == "call" and z[1] in (G + "cloneVertex", G + "addNewTeam")):
                ck.ok(R, h.at + " mutates the clone")
            elif elem_cont(t) is not None:
                ck.bad(R, h.at, "the team mutated is %s, not one just created" % pp(t))
            else:
                ck.und(R, h.at, "team mutated: " + pp(t))
            for i, nm in ((3, "preExistingTeams"), (4, "preExistingActions"), (5, "preExistingEdges")):
                a = h.ev.a[i]
                if a in h.st.auto[1]:
                    ck.bad(R, h.at, "the list handed over as %s is filled after teams were cloned" % nm)
                elif a[0] == "L":
                    passed.setdefault(a, nm)
                    ck.ok(R, "%s %s recorded before cloning" % (h.at, nm))
                elif a[0] == "F" and a[2].startswith("TPG::TPGGraph"):
                    ck.bad(R, h.at, "%s is the live list of the graph" % nm)
                elif isinstance(a, tuple) and (a[0] == "*" or a[0] == "T"):
                    ck.und(R, h.at, nm + ": " + pp(a))
    lv = {}
    for h in hits:
        if h.base in ("push_back", "emplace_back") and h.ev.o in passed and h.args:
            v = h.args[-1]
            kinds = set()
            for t, tv in h.facts:
                # dynamic type tests on the element
                if t[0] == "op" and t[1] == "==" and NULL in (t[2], t[3]):
                    x = t[3] if t[2] == NULL else t[2]
                    if x[0] == "dyn":
                        core = v[2] if v[0] == "dyn" else v
                        if x[2] == core:
                            k = "Action" if "TPGAction" in x[1] else ("Team" if "TPGTeam" in x[1] else None)
                            if k:
                                kinds.add((k, not tv))
            nm = passed[h.ev.o]
            other = {"preExistingTeams": "Action", "preExistingActions": "Team"}.get(nm)
            own = {"preExistingTeams": "Team", "preExistingActions": "Action"}.get(nm)
            if nm == "preExistingEdges":
                ck.ok(R, h.at + " edge recorded")
            elif (other, True) in kinds or (own, False) in kinds:
                ck.bad(R, h.at, "%s receives vertices that are %ss" % (nm, other))
            elif (own, True) in kinds or (other, False) in kinds:
                ck.ok(R, h.at + " " + nm)
            else:
                ck.und(R, h.at, nm + ": type of the recorded vertex not established")
    # refill
    R = "R6-refill"
    nb = lambda t: t[0] == "ld" and fld_of(t) and fld_of(t).endswith("::nbRoots")
    end = [h for h in hits if h.name == TM + "mutateNewProgramBehaviors"]
    for h in end:
        done = None
        for t, v in h.facts:
            if t[0] == "op" and t[1] in ("<", "<=") and has_sub(t, nb):
                x = t[2] if nb(t[3]) else t[3]
                le = (nb(t[3]) and not v) or (nb(t[2]) and v)   # nbRoots <= x (or <)
                strict_under = nb(t[2]) and t[1] == "<" and v
                if not le:
                    continue
                if x in h.auto[2]:
                    done = "yes"
                elif x[0] == "phi" and x[2][0] == "L":
                    info = cl.loops.get(x[1], {})
                    vals = set(info.get("init", {}).get(x[2], ())) | set(info.get("step", {}).get(x[2], ()))
                    fr = set().union(*[z for z in cl.freshvals.get((x[1], x[2]), [set()])]) if hasattr(cl, "freshvals") else set()
                    done = done or ("maybe" if not vals else "yes")
                elif x[0] in ("call", "size"):
                    done = done or "stale"
        if done == "yes":
            ck.ok(R, h.at)
        elif done == "stale":
            ck.bad(R, h.at, "the number of roots compared with nbRoots was not counted after the last mutation")
        elif done is None:
            if any(h2.name == TM + "mutateTPGTeam" for h2 in hits):
                ck.bad(R, h.at, "population building ends without the number of roots having reached nbRoots") if not \
                    any(has_sub(t, nb) for t, v in h.facts) and not uses_nbroots(ck, f) else \
                    ck.und(R, h.at, "end condition not interpreted")
        else:
            ck.und(R, h.at, "end condition not interpreted")
    stale_back(ck, f, prim, CL, R)


def uses_nbroots(ck, f):
    return any(n["k"] == "mem" and n["n"] == "nbRoots" for n in f.nodes())


def stale_back(ck, f, prim, CL, R):
    """the count used by the loop condition is renewed after each mutation"""
    nb = lambda t: isinstance(t, tuple) and t[0] == "ld" and (fld_of(t) or "").endswith("::nbRoots")

    class B(Client):
        budget = 200000
        init_auto = None

        def __init__(self):
            self.res = {}
            self.cmp = set()
            self.counted = set()

        def primitive(self, g):
            return prim(g)

        def event(self, st, ev):
            if ev.kind == "call":
                if ev.name in CL:
                    st.auto = frozenset(["mut"])
                elif ev.name in (G + "getNbRootVertices",):
                    st.auto = st.auto | {ev.res}

        def refine(self, st, t, truth):
            # the local compared with nbRoots by a loop
            if t[0] == "op" and t[1] in ("<", "<=", "==") and len(t) == 4 and (nb(t[2]) or nb(t[3])):
                x = t[2] if nb(t[3]) else t[3]
                if x[0] == "phi" and isinstance(x[2], tuple) and x[2][0] == "L":
                    self.cmp.add((x[1], x[2]))
            return True

        def loop(self, st, kind, tag, g, eng):
            if kind == "back":
                for k in [k for t, k in self.cmp if t == tag]:
                    v = st.m.get(k)
                    if "mut" in st.auto and (isinstance(v, tuple) and v[0] == "phi" or
                                             isinstance(v, tuple) and v[0] == "op" and not has_sub(v, lambda z: z[0] in ("call", "size"))):
                        self.counted.add(k)
                for k, v in st.m.items():
                    if k[0] == "L" and isinstance(v, tuple) and v[0] == "call" and v[1] == G + "getNbRootVertices":
                        self.res.setdefault((tag, k), set()).add(v in st.auto)
    b = B()
    ps = paths(ck, f, b, auto=frozenset())
    if ps is None:
        return
    for k in b.counted:
        ck.bad(R, f.loc(), "the number of roots compared with nbRoots is not counted from the graph after the mutation (mutation may turn roots into non-roots)")
    for (tag, k), s in b.res.items():
        if False in s:
            ck.bad(R, f.loc(), "the number of roots is counted before the last mutation of the iteration")
        else:
            ck.ok(R, "count renewed after each mutation")


def init(ck):
    P = ck.P
    R = "R7-init"
    f = P.one(TM + "initRandomTPG")

    def step(st, ev):
        if ev.kind == "call" and ev.name == G + "clear":
            st.auto = True
    hits, ps, cl = msites(ck, f, lambda ev: (ev.kind == "call" and (ev.name in STRUCT or ev.name == "Mutator::RNG::getUnsignedInt64")),
                          PRIM, step, False, keep_fact=lambda t: has_sub(t, lambda z: (fld_of(z) or "").startswith("Mutator::TPGParameters")))
    if ps is None:
        ck.und(R, f.loc(), "initRandomTPG: too many paths")
        return
    pf = lambda n: lambda t: t[0] == "ld" and fld_of(t) and fld_of(t).endswith("::" + n)
    cleared = True
    for h in hits:
        if h.base.startswith("addNew") and h.auto is not True:
            ck.bad(R, h.at, "elements are added to a graph that was not emptied")
            cleared = False
    if cleared:
        ck.ok(R, "graph emptied before anything is added")
    # refused parameters
    g1 = g2 = False
    for p in ps:
        if p.kind == "ret":
            lo = [t for t, v in p.facts if t[0] == "op" and t[1] == "<" and has_sub(t, pf("nbActions")) and has_sub(t, pf("maxInitOutgoingEdges")) and not v and pf("nbActions")(t[2])]
            a2 = any(t[0] == "op" and t[1] == "<" and pf("nbActions")(t[2]) and t[3] == C(2) and not v or
                     t[0] == "op" and t[1] == "<" and t[2] == C(1) and pf("nbActions")(t[3]) and v for t, v in p.facts)
            if not lo:
                ck.bad(R, f.loc(), "initRandomTPG accepts more initial edges than there are actions")
            else:
                g1 = True
            if not a2:
                ck.bad(R, f.loc(), "initRandomTPG accepts fewer than two actions")
            else:
                g2 = True
    if g1 and g2:
        ck.ok(R, "parameters refused")
    # additional edges
    for h in hits:
        if h.base == "getUnsignedInt64" and len(h.args) == 2 and has_sub(h.args[1], pf("maxInitOutgoingEdges")):
            d, c = lin(h.args[1])
            at = [k for k in d if pf("maxInitOutgoingEdges")(k)]
            if len(d) == 1 and at and d[at[0]] == 1:
                if c > -2:
                    ck.bad(R, h.at, "a team may receive more than maxInitOutgoingEdges edges (drawn up to maxInitOutgoingEdges%+d on top of two)" % c)
                else:
                    ck.ok(R, h.at + " additional edges")
    # the two first edges of each team
    base = [h for h in hits if h.base == "addNewEdge"]
    nb = 0
    for h in base:
        t, a = target(h.ev.a[0]), target(h.ev.a[1])
        pt, pa = pick(ck, R, h, t, cl, ""), pick(ck, R, h, a, cl, "")
        pr = h.args[2]
        if not pt or not pa or not (isinstance(pr, tuple) and pr[0] == "ld" and pr[1][0] == "E"):
            ck.und(R, h.at, "edge ends not interpreted")
            continue
        ti, ai, pi = pt[1], pa[1], pr[1][2]
        if isinstance(pi, tuple) and pi[0] == "phi" and has_sub(ti, lambda z: z == pi):
            # initial association: team, action and program indexes as functions of one counter
            if not has_sub(ai, lambda z: z == pi):
                ck.bad(R, h.at, "every team is connected to the same action")
                continue
            vals = []
            for n in (2, 3, 5):
                seen = {}
                okk = True
                for i in range(2 * n):
                    x, y = ev_int(ti, pi, i, n), ev_int(ai, pi, i, n)
                    if x is None or y is None:
                        okk = None
                        break
                    seen.setdefault(x, []).append(y)
                    if not (0 <= x < n and 0 <= y < n):
                        okk = False
                if okk is None:
                    vals = None
                    break
                if not okk or len(seen) != n or any(len(v) != 2 or v[0] == v[1] for v in seen.values()):
                    ck.bad(R, h.at, "with %d actions the initial edges do not connect each team to two distinct actions" % n)
                    vals = None
                    nb += 1
                    break
                vals.append(n)
            if vals:
                ck.ok(R, h.at + " two distinct actions per team")
                nb += 1
            elif vals is None and not any(b["rule"] == R for b in ck.bad_):
                ck.und(R, h.at, "index expressions not interpreted")


def ev_int(t, var, i, n):
    """value of an index term for one counter value, n actions"""
    if t == var:
        return i
    if t[0] == "c":
        return t[1]
    if t[0] == "ld" and (fld_of(t) or "").endswith("::nbActions"):
        return n
    if t[0] == "op" and len(t) == 4:
        a, b = ev_int(t[2], var, i, n), ev_int(t[3], var, i, n)
        if a is None or b is None:
            return None
        try:
            return {"+": lambda: a + b, "-": lambda: a - b, "*": lambda: a * b, "/": lambda: a // b, "%": lambda: a % b}[t[1]]()
        except (KeyError, ZeroDivisionError):
            return None
    return None

"""C08: graph execution follows the best bid."""
from ..core import *
from ..flow import mkop

TX = "TPG::TPGExecutionEngine::"
OUT = "TPG::TPGVertex::outgoingEdges"
DEST = "TPG::TPGEdge::destination"
PROG = "TPG::TPGEdge::program"
ARCH = TX + "archive"


def check(ck):
    ck.P.need_field("TPG::TPGVertex", "outgoingEdges")
    ck.P.need_field("TPG::TPGEdge", "destination")
    ck.rule("R1-best", "the edge followed has the highest of the bids of the edges of the team", 1)
    ck.rule("R2-all", "every outgoing edge of the team bids, exactly once", 1)
    ck.rule("R3-bid", "a bid is the result of the edge's own program, an undefined one counting as minus infinity", 1)
    ck.rule("R4-recorded", "every bid is offered, as such, to the archive when there is one", 1)
    ck.rule("R5-trace", "the trace lists the root, then the destination of each edge followed, down to an action", 1)
    ck.rule("R6-archive", "the archive used is the one given", 1)
    best(ck)
    bid(ck)
    walk_(ck)
    bound(ck)


def is_eval(t):
    return t[0] == "call" and t[1] == TX + "evaluateEdge"


def is_edge(t, team):
    """element of the outgoing edges -> index, or None"""
    for s in subterms(t):
        if s[0] == "E" and fld_of(s[1]) == OUT:
            return s[2]
    return None


def undef(x):
    """x without its dereference"""
    while x and x[0] in ("*", "addr_of", "addr") or x[0] == "ld" and x[1][0] == "*":
        x = x[1][1] if x[0] == "ld" else x[1]
    return x


def eval_arg(t):
    """pointer to the edge whose bid the call computes"""
    return undef(t[3][0]) if t[3] else None


def order_(facts, a, b):
    """what is known of a against b: set of '<', '<=', '>', '>=', '=='"""
    out = set()
    for t, v in facts:
        if t[0] != "op" or len(t) < 4:
            continue
        o, x, y = t[1], t[2], t[3]
        if (x, y) == (a, b):
            s = {"<": ("<", ">="), "<=": ("<=", ">"), "==": ("==", None)}.get(o)
        elif (x, y) == (b, a):
            s = {"<": (">", "<="), "<=": (">=", "<"), "==": ("==", None)}.get(o)
        else:
            continue
        if s and s[0 if v else 1]:
            out.add(s[0 if v else 1])
    return out


def best(ck):
    R = "R1-best"
    f = ck.P.one(TX + "evaluateTeam")

    class B(Sites):
        budget = 400000
        gc_facts = False
        ext_throws = False

        def event(self, st, ev):
            if ev.kind == "call" and ev.name == TX + "evaluateEdge":
                h = Hit(ev, st)
                self.hits.append(h)
                st.auto = st.auto + (ev.res,)

        def loop(self, st, kind, tag, g, eng):
            if kind in ("enter", "back"):
                self.heads.append((kind, tag, st.copy()))
                if kind == "back":
                    st.auto = ()
            elif kind == "break":
                self.breaks.append((tag, st.copy()))
    cl = B(lambda ev: False, named("evaluateEdge"))
    cl.heads, cl.breaks = [], []
    ps = paths(ck, f, cl, auto=())
    if ps is None:
        return ck.und(R, f.loc(), ck.why)
    if not cl.hits:
        return ck.und(R, f.loc(), "bids not found")
    rets = [p for p in ps if p.kind == "ret"]
    phis = set()
    for p in rets:
        r = undef(p.ret) if p.ret else None
        if r is None:
            continue
        if r[0] == "phi":
            phis.add(r)
        elif is_edge(r, None) is not None:
            # without a loop over the others: fine only when there is a single edge
            if not cl.heads:
                ck.bad(R, f.loc(), "the edge returned is chosen without looking at the bids of the others")
            elif not any(has_sub(t, lambda s: s[0] == "size") for t, v in p.facts) and not has_sub(r, lambda s: s[0] in ("phi", "lit")):
                ck.bad(R, f.loc(), "the edge returned does not depend on the bids")
            elif has_sub(r, lambda s: s[0] in ("phi", "lit")):
                ck.und(R, f.loc(), "edge returned not interpreted: " + pp(r))
        else:
            ck.und(R, f.loc(), "edge returned not interpreted: " + pp(r))
    for ph in sorted(phis, key=repr):
        chosen(ck, R, f, cl, ph)
    cover(ck, f, cl, phis)


def chosen(ck, R, f, cl, ph):
    tag, L = ph[1], ph[2]
    heads = [(k, s) for k, tg, s in cl.heads if tg == tag]
    # the bid kept along with the edge
    bids = set()
    for k, s in heads:
        for loc, v in s.m.items():
            if is_loc(loc) and loc[0] in ("L", "F") and isinstance(v, tuple) and is_eval(v) and (k == "enter" or is_edge(v, None) is not None):
                if any(s2.m.get(loc) == ("phi", tag, loc) for k2, s2 in heads if k2 == "back"):
                    bids.add(loc)
    if not bids:
        # a bid carried over without ever being updated, or an idiom not known
        up = [s for k, s in heads if k == "back" and s.m.get(L) not in (None, ph)]
        if up and all(any(is_eval(x) for t, v in s.facts for x in subterms(t)) is False for s in up):
            return ck.bad(R, f.loc(), "the edge kept is replaced without comparing its bid")
        for s in up:
            for t, v in s.facts:
                if t[0] == "op" and t[1] in ("<", "<=") and all(is_eval(x) for x in t[2:4]) and any(x in s.auto for x in t[2:4]):
                    return ck.bad(R, f.loc(), "the bids are only compared with the first one")
        return ck.und(R, f.loc(), "bid kept along with the edge not found")
    B = sorted(bids, key=repr)[0]
    bp = ("phi", tag, B)
    for k, s in heads:
        e, b = s.m.get(L), s.m.get(B)
        if k == "enter":
            if is_eval(b) if b else False:
                if e is not None and eval_arg(b) != undef(e) and is_edge(e, None) is not None:
                    ck.bad(R, f.loc(), "the first bid kept is not that of the first edge kept")
                else:
                    ck.ok(R, "first edge with its bid")
            elif b == ("neg", ("call", "std::numeric_limits::infinity", None, (), 0)) or b and "infinity" in repr(b) and b[0] in ("neg", "op"):
                ck.ok(R, "first edge from minus infinity")
                # a strict comparison would leave a team of undefined bids without edge
                if any(k2 == "back" and s2.m.get(L) not in (None, ph) and isinstance(s2.m.get(B), tuple) and ">" in order_(s2.facts, s2.m.get(B), bp)
                       and ">=" not in order_(s2.facts, s2.m.get(B), bp) for k2, s2 in heads) and nv(e or ("c", 1)) in (0, None) and (e is None or e[0] != "ld"):
                    ck.bad(R, f.loc(), "no edge is followed when every bid is undefined")
            elif b is not None and (b[0] == "f" or nv(b) is not None):
                ck.bad(R, f.loc(), "the bids are compared to %s: lower ones are never followed" % pp(b))
            else:
                ck.und(R, f.loc(), "first bid kept not interpreted")
            continue
        if e == ph and b == bp:
            new = [x for t, v in s.facts for x in subterms(t) if is_eval(x) and x in s.auto]
            if not s.auto:
                continue
            if not new:
                ck.bad(R, f.loc(), "an edge is passed over without comparing its bid")
                continue
            o = order_(s.facts, new[0], bp)
            if o & {"<", "<=", "=="}:
                ck.ok(R, "lower bid passed over")
            elif o & {">", ">="}:
                ck.bad(R, f.loc(), "an edge with a higher bid is passed over")
            elif any(mentions(t, lambda x: x == bp) and mentions(t, lambda x: x == new[0]) for t, v in s.facts):
                ck.und(R, f.loc(), "comparison of the bids not interpreted")
            else:
                ck.bad(R, f.loc(), "an edge is passed over without comparing its bid with the best one")
        elif e != ph and b != bp:
            if not (b and is_eval(b)):
                ck.und(R, f.loc(), "bid kept not interpreted: " + pp(b) if b else "bid kept not interpreted")
                continue
            if eval_arg(b) != undef(e):
                ck.bad(R, f.loc(), "the bid kept is not that of the edge kept")
                continue
            o = order_(s.facts, b, bp)
            if o & {">", ">=", "=="}:
                ck.ok(R, "higher bid kept")
            elif o & {"<", "<="}:
                ck.bad(R, f.loc(), "an edge with a lower bid replaces the best one")
            elif any(mentions(t, lambda x: x == bp) and mentions(t, lambda x: x == b) for t, v in s.facts):
                ck.und(R, f.loc(), "comparison of the bids not interpreted")
            else:
                ck.bad(R, f.loc(), "an edge replaces the best one without comparing the bids")
        elif e != ph:
            ck.bad(R, f.loc(), "the edge kept is replaced but not the bid it is compared with")
        else:
            ck.bad(R, f.loc(), "the bid kept is replaced but not the edge")


def cover(ck, f, cl, phis):
    R = "R2-all"
    tags = {ph[1] for ph in phis} or {tg for _, tg, _ in cl.heads}
    for tag in tags:
        for tg, s in cl.breaks:
            if tg == tag:
                ck.bad(R, f.loc(), "the bids stop before the last edge")
                return
        for k, tg, s in cl.heads:
            if tg == tag and k == "back":
                ev = [x for x in s.auto if is_eval(x)]
                if not ev:
                    ck.bad(R, f.loc(), "an outgoing edge is passed over without bidding")
                elif len({eval_arg(x) for x in ev}) < len(ev):
                    ck.bad(R, f.loc(), "an edge bids twice")
    # which edges: the one(s) before the loop and those of the loop
    pre = [h for h in cl.hits if not has_sub(h.args[0], lambda s: s[0] in ("phi", "lit", "any"))]
    inl = [h for h in cl.hits if has_sub(h.args[0], lambda s: s[0] in ("phi", "lit", "any"))]
    if not inl:
        return ck.bad(R, f.loc(), "only some of the outgoing edges bid")
    first = bool(pre)
    for h in inl:
        for s in subterms(h.args[0]):
            if s[0] == "E" and fld_of(s[1]) == OUT:
                i = s[2]
                sp = span(cl, i)
                lo = None
                if sp and sp[0] == "all":
                    lo = 0
                elif sp and sp[0] == "from":
                    lo = start_of(sp[1])
                else:
                    ini, stp = loop_vals(cl, i, "init") if i[0] == "phi" else [], loop_vals(cl, i, "step") if i[0] == "phi" else []
                    if len(ini) == 1 and len(stp) == 1 and stp[0] == mkop("+", i, C(1)):
                        lo = start_of(ini[0])
                if lo is None:
                    ck.und(R, h.at, "edges bidding not interpreted: " + pp(h.args[0]))
                elif lo == (1 if first else 0):
                    ck.ok(R, "every outgoing edge")
                elif lo == 0 and first:
                    ck.bad(R, h.at, "the first edge bids twice")
                else:
                    ck.bad(R, h.at, "the first %d outgoing edges do not bid" % (lo - (1 if first else 0)))
                return
    ck.und(R, f.loc(), "edges bidding not interpreted")


def bid(ck):
    f = ck.P.one(TX + "evaluateEdge")
    prim = named("setProgram", "executeProgram", "addRecording")

    def step(st, ev):
        if ev.kind == "call" and ev.base in ("setProgram", "executeProgram", "addRecording"):
            h = Hit(ev, st)
            st.auto = st.auto + ((ev.base, tuple(h.args), ev.o, ev.at(), ev.res),)
    hits, ps, cl = sites(ck, f, lambda ev: False, prim, step, (), gc_facts="all")
    if ps is None:
        return ck.und("R3-bid", f.loc(), ck.why)
    seen = set()
    for p in ps:
        if p.kind != "ret" or p.ret is None:
            continue
        ex = None
        own = False
        arch = fact(p.facts, ("op", "==", NULL, ("ld", TF(ARCH), 0)))
        if arch is None:
            for t, v in p.facts:
                if t[0] == "op" and t[1] == "==" and any(fld_of(x) == ARCH for x in t[2:4] if isinstance(x, tuple)):
                    arch = v
        rec = []
        for base, args, o, at, res in p.auto:
            if base == "setProgram":
                own = any(fld_of(s) == PROG and s[0] in ("ld", "F") and has_sub(s, lambda z: z == ("p", 0)) for a in args for s in subterms(a))
                if not own:
                    ck.bad("R3-bid", at, "the engine runs %s instead of the program of the edge" % pp(args[0]))
                    own = True
            elif base == "executeProgram":
                if not own and ex is None:
                    ck.bad("R3-bid", at, "the program of the edge is not the one run")
                ex = res
            else:
                rec.append((args, at))
        if ex is None:
            ck.bad("R3-bid", f.loc(), "a bid is made without running the program")
            continue
        nan = None
        for t, v in p.facts:
            if t[0] == "call" and t[1].endswith("isnan") and t[3] and t[3][0] == ex:
                nan = v
            elif t[0] == "op" and t[1] == "==" and t[2] == ex and t[3] == ex:
                nan = not v
        inf = "infinity" in repr(p.ret) or p.ret[0] == "call" and p.ret[1].endswith(("::lowest",))
        if nan is True:
            if p.ret[0] in ("neg", "op") and inf:
                ck.ok("R3-bid", "undefined bid is minus infinity")
            elif p.ret == ex:
                ck.bad("R3-bid", f.loc(), "an undefined bid is returned as such")
            elif inf or nv(p.ret) is not None or p.ret[0] == "f" or p.ret[0] == "call" and p.ret[1].endswith(("::min", "::max")):
                ck.bad("R3-bid", f.loc(), "an undefined bid counts as %s" % pp(p.ret))
            else:
                ck.und("R3-bid", f.loc(), "undefined bid not interpreted: " + pp(p.ret))
        elif p.ret == ex:
            if nan is False:
                ck.ok("R3-bid", "bid is the result of the program")
            elif any(has_sub(t, lambda z: z == ex) and not (t[0] == "call" and t[1].endswith(("isinf", "signbit"))) for t, v in p.facts):
                ck.und("R3-bid", f.loc(), "test of the result not interpreted")
            else:
                ck.bad("R3-bid", f.loc(), "an undefined bid is returned as such")
        elif not has_sub(p.ret, lambda z: z == ex) and nan is False:
            ck.bad("R3-bid", f.loc(), "the bid %s is not the result of the program" % pp(p.ret))
        else:
            ck.und("R3-bid", f.loc(), "bid not interpreted: " + pp(p.ret))
        # recording
        R = "R4-recorded"
        if arch is True:
            if rec:
                ck.bad(R, rec[0][1], "a bid is recorded without archive")
            else:
                ck.ok(R, "no archive")
        elif not rec:
            # any other condition leaves bids out
            if arch is False:
                ck.bad(R, f.loc(), "a bid is not offered to the archive")
            else:
                ck.bad(R, f.loc(), "bids are not offered to the archive")
        elif len(rec) > 1:
            ck.bad(R, rec[1][1], "a bid is offered twice to the archive")
        elif arch is None:
            ck.und(R, rec[0][1], "presence of an archive not interpreted")
        else:
            a, at = rec[0]
            if not has_sub(a[0], lambda s: fld_of(s) == PROG and has_sub(s, lambda z: z == ("p", 0))):
                ck.bad(R, at, "the program recorded is not that of the edge")
            elif a[2] != p.ret:
                ck.bad(R, at, "the archive is given %s, the bid being %s" % (pp(a[2]), pp(p.ret)))
            elif not has_sub(a[1], lambda s: (fld_of(s) or "").endswith("::dataSources")):
                if any((fld_of(s) or "").startswith("Program::ProgramEngine::") for s in subterms(a[1])):
                    ck.bad(R, at, "the archive is not given the data sources of the environment")
                else:
                    ck.und(R, at, "data sources recorded not interpreted")
            elif len(a) > 3 and nv(a[3]) not in (0, None) or len(a) > 3 and a[3] == TRUE:
                ck.bad(R, at, "recordings are forced")
            else:
                ck.ok(R, "bid offered to the archive")


def walk_(ck):
    R = "R5-trace"
    f = ck.P.one(TX + "executeFromRoot")

    class B(Sites):
        budget = 400000
        gc_facts = False
        ext_throws = False

        def event(self, st, ev):
            if ev.kind != "call":
                return
            if ev.name == TX + "evaluateTeam":
                st.auto = st.auto + (("eval", ev.res, tuple(Hit(ev, st).args), ev.at()),)
            elif ev.base in ("push_back", "emplace_back") and ev.o and ev.o[0] == "L":
                st.auto = st.auto + (("push", ev.o, Hit(ev, st).args[0], ev.at()),)
            elif ev.base in ("insert", "emplace", "push_front", "erase", "pop_back", "clear", "resize", "assign") and ev.o and ev.o[0] == "L":
                self.other.append(ev.at())

        def loop(self, st, kind, tag, g, eng):
            if kind in ("enter", "back"):
                self.heads.append((kind, tag, st.copy()))
                st.auto = ()
            else:
                self.outs.append((kind, tag, st.copy()))
    cl = B(lambda ev: False, named("evaluateTeam"))
    cl.heads, cl.outs, cl.other = [], [], []
    ps = paths(ck, f, cl, auto=())
    if ps is None:
        return ck.und(R, f.loc(), ck.why)
    evs = [x for _, _, s in cl.heads for x in s.auto if x[0] == "eval"]
    if cl.other:
        return ck.und(R, cl.other[0], "construction of the trace not interpreted")
    if not evs:
        return ck.und(R, f.loc(), "walk not interpreted")
    cur = undef(evs[0][2][0])
    if cur[0] != "phi":
        return ck.und(R, f.loc(), "walk not interpreted")
    tag, L = cur[1], cur[2]
    heads = [(k, s) for k, tg, s in cl.heads if tg == tag]
    mode = None
    root = lambda t: undef(t) == ("p", 0)
    for k, s in heads:
        pushes = [x for x in s.auto if x[0] == "push"]
        c = s.m.get(L)
        if k == "enter":
            if c is None or not root(c):
                ck.bad(R, f.loc(), "the walk does not start from the root")
                return
            if len(pushes) == 1 and root(pushes[0][2]):
                mode = "before"
            elif not pushes:
                mode = "after"
            else:
                ck.bad(R, pushes[0][3], "the trace does not start with the root")
                return
            continue
    for k, s in heads:
        if k != "back":
            continue
        pushes = [x for x in s.auto if x[0] == "push"]
        ev = [x for x in s.auto if x[0] == "eval"]
        c = s.m.get(L)
        if len(ev) != 1:
            ck.bad(R, f.loc(), "a vertex is left without evaluating it" if not ev else "a team is evaluated twice")
            continue
        if undef(ev[0][2][0]) != cur:
            ck.und(R, ev[0][3], "team evaluated not interpreted")
            continue
        if c is None or fld_of(c) != DEST:
            if c is not None and fld_of(c):
                ck.bad(R, f.loc(), "the walk goes on with the %s of the edge" % fld_of(c).rsplit("::", 1)[-1])
            else:
                ck.und(R, f.loc(), "next vertex not interpreted")
            continue
        if not has_sub(c, lambda z: z == ev[0][1]):
            ck.bad(R, f.loc(), "the walk does not follow the edge selected")
            continue
        want = c if mode == "before" else cur
        if len(pushes) != 1:
            ck.bad(R, f.loc(), "a vertex traversed is missing from the trace" if not pushes else "a vertex is listed twice in the trace")
        elif pushes[0][2] != want:
            ck.bad(R, pushes[0][3], "the trace lists %s instead of the vertex traversed" % pp(pushes[0][2]))
        else:
            ck.ok(R, "vertex traversed is listed")
    for p in ps:
        if p.kind != "ret":
            continue
        pushes = [x for x in p.auto if x[0] == "push"]
        c = Engine.load(None, p.st, L)
        if mode == "before" and pushes:
            ck.bad(R, pushes[0][3], "a vertex is listed twice in the trace")
        elif mode == "after" and (len(pushes) != 1 or pushes[0][2] != c):
            ck.bad(R, f.loc(), "the trace does not end with the vertex reached")
        else:
            ck.ok(R, "trace ends with the vertex reached")
        end = None
        for t, v in p.facts:
            if t[0] == "op" and t[1] == "==" and any(isinstance(x, tuple) and x[0] == "dyn" for x in t[2:4]):
                d = [x for x in t[2:4] if isinstance(x, tuple) and x[0] == "dyn"][0]
                if has_sub(d, lambda z: z == c or z == cur):
                    if "TPGTeam" in repr(d[1:]) and v or "TPGAction" in repr(d[1:]) and not v:
                        end = "action"
        if end:
            ck.ok(R, "ends with an action")
        elif any(t[0] == "op" and t[1] == "==" and not v and NULL in t[2:4] and any(isinstance(x, tuple) and x[0] == "dyn" and "TPGTeam" in repr(x[1:2]) + repr(x[-1:]) and has_sub(x, lambda z: z == c or z == cur) for x in t[2:4]) for t, v in p.facts):
            ck.bad(R, f.loc(), "the walk may stop at a team")
        elif any(k == "break" and tg == tag for k, tg, _ in cl.outs):
            ck.bad(R, f.loc(), "the walk may stop before an action is reached")
        elif any(has_sub(t, lambda z: z == c or z == cur) for t, v in p.facts):
            ck.und(R, f.loc(), "end of the walk not interpreted")
        else:
            ck.bad(R, f.loc(), "the walk may stop before an action is reached")


def bound(ck):
    R = "R6-archive"
    fs = [f for f in ck.P.funcs.values() if f.blocks and (f.sname == TX + "setArchive" or f.sname == TX + "TPGExecutionEngine" and f.params and len(f.params) == 2)]
    for f in fs:
        k = 0 if f.base == "setArchive" else 1
        ps = allpaths(ck, f)
        if ps is None:
            ck.und(R, f.loc(), ck.why)
            continue
        for p in ps:
            if p.kind == "ret":
                v = p.get(TF(ARCH))
                if v[0] == "ilist" and len(v) == 2:
                    v = v[1][0] if isinstance(v[1], tuple) and v[1] and isinstance(v[1][0], tuple) else v[1]
                if v == ("p", k):
                    ck.ok(R, f.sname)
                elif v == ("ld", TF(ARCH), 0):
                    ck.bad(R, f.loc(), "%s does not change the archive" % f.sname)
                elif v == NULL or nv(v) == 0:
                    ck.bad(R, f.loc(), "%s forgets the archive it is given" % f.sname)
                else:
                    ck.und(R, f.loc(), "archive kept not interpreted: " + pp(v))

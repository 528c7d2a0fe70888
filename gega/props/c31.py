"""C31: adversarial evaluation is fair."""
from ..core import *
from .c24 import strip
from .c27 import impls, islog
from .c13 import graph_of_agent, key_of, member, nullish
from .c14 import ratio_of, core, isroots, delta

AA = "Learn::AdversarialLearningAgent"
CH = AA + "::champions"
NA = AA + "::agentsPerEvaluation"
OPQN = ("getRootVertices", "getNbRootVertices", "executeFromRoot", "getUnsignedInt64", "getInt32", "getDouble", "getScoreOf", "getNbEvaluation", "mergeArchiveMap", "getSize",
        "getPosOfStudiedRoot", "addRoot", "getRoots", "getRoot", "hasVertex", "getVertices", "removeVertex", "evaluateAllRootsInParallel")


def opaque(g):
    return g.base in OPQN or g.base == "operator+=" or g.sname.startswith(("Learn::AdversarialJob::", "Learn::Job::")) or \
        (g.scls or "").startswith(("TPG::", "Program::", "Data::", "Mutator::")) or islog(g)


def check(ck):
    P = ck.P
    P.need_field(AA, "champions")
    P.need_field(AA, "agentsPerEvaluation")
    ck.rule("R1-jobs", "every root is given a job at each position of each team of champions", 3)
    ck.rule("R2-place", "the root is placed in its team at the position announced, each champion once", 2)
    ck.rule("R3-opponents", "opponents are drawn among all the champions", 2)
    ck.rule("R4-results", "a root's result combines its scores at the positions it was evaluated at, and only those", 3)
    ck.rule("R5-champions", "the champions are the best of the roots just evaluated", 2)
    ck.rule("R7-turns", "the agents of a job play one after the other, in their order", 1)
    ck.rule("R6-alive", "the champions are individuals of the graph", 1)
    for f in impls(ck, AA, "makeJobs"):
        jobs(ck, f)
    for f in impls(ck, AA, "evaluateAllRootsInParallelCompileResults"):
        results(ck, f)
    job_class(ck)
    for f in impls(ck, AA, "evaluateJob"):
        turns(ck, f)
    alive(ck)


class Ev(Sites):
    gc_facts = False
    ext_throws = False
    budget = 900000

    def __init__(self):
        Sites.__init__(self, lambda ev: False, opaque)
        self.h, self.backs, self.brk = {}, [], []

    def hit(self, k, ev, st):
        h = Hit(ev, st)
        self.h.setdefault(k, []).append(h)
        return h

    def loop(self, st, kind, tag, g, eng):
        if kind == "back":
            self.backs.append((tag, st.copy(), frozenset(st.facts), st.auto or ()))
            self.back(st, tag)
        elif kind == "break":
            self.brk.append((tag, frozenset(st.facts), st.auto or ()))
        elif kind == "enter":
            self.enter(st, tag)

    def back(self, st, tag):
        pass

    enter = back


def isfld(t, n):
    t = core(t)
    return (fld_of(t) or fld_of(strip(t)) or "").endswith("::" + n)


def roots_cont(c):
    """the roots of the graph"""
    c = strip(c)
    return has_sub(c, lambda s: s[0] == "call" and s[1].endswith("getRootVertices"))


# ---- jobs -------------------------------------------------------------------
class Jobs(Ev):
    """per job: roots added so far, and where the one studied comes"""

    def event(self, st, ev):
        if ev.kind not in ("call", "ctor", "write", "decl") or ev.kind in ("call", "ctor") and not isinstance(ev.name, str):
            return
        if ev.kind == "write":
            self.write(st, ev)
            return
        if ev.kind == "decl":
            return
        b = ev.name.rsplit("::", 1)[-1]
        if b == "addRoot":
            h = self.hit("add", ev, st)
            st.auto = (st.auto or ()) + (("add", strip(h.args[0])),) if ("add", strip(h.args[0])) not in (st.auto or ()) else st.auto
        elif b in ("push", "push_back", "emplace") and ev.o is not None and "queue" in ev.name:
            self.hit("push", ev, st)
            st.auto = (st.auto or ()) + (("push",),)
        elif ev.kind == "ctor" and b == "AdversarialJob":
            self.hit("job", ev, st)
            st.auto = tuple(x for x in st.auto or () if x != ("job",)) + (("job",),)
        elif b == "getUnsignedInt64":
            self.hit("draw", ev, st)
        elif b in ("emplace_back", "push_back") and ev.o is not None and fld_of(ev.o) == CH:
            self.hit("champ", ev, st)

    def write(self, st, ev):
        if ev.loc is not None and ev.loc[0] == "E" and ev.loc[1][0] == "E":
            self.hit("team", ev, st)

    def loop(self, st, kind, tag, g, eng):
        Ev.loop(self, st, kind, tag, g, eng)
        if kind in ("exit", "break"):
            st.auto = tuple(x for x in st.auto or () if x != ("in", tag))

    def enter(self, st, tag):
        # loops within the making of one job
        if ("job",) in (st.auto or ()):
            st.auto = tuple(x for x in st.auto if x != ("in", tag)) + (("in", tag),)

    def back(self, st, tag):
        if ("in", tag) not in (st.auto or ()):
            st.auto = ()


def jobs(ck, f):
    R1, R2, R3 = "R1-jobs", "R2-place", "R3-opponents"
    cl = Jobs()
    ps = paths(ck, f, cl, auto=())
    if ps is None:
        for r in (R1, R2, R3):
            ck.und(r, f.loc(), ck.why)
        return
    push = cl.h.get("push", [])
    if not push:
        if any(p.kind == "ret" for p in ps):
            ck.bad(R1, f.loc(), "no job is made")
        return
    # loops around the push
    pos = None
    numbers(ck, f, cl)
    for h in cl.h.get("job", []):
        if len(h.args) < 4:
            ck.bad(R2, h.at, "the job does not tell which of its roots is evaluated")
            continue
        x = core(h.args[3])
        if x[0] == "phi":
            pos = x
            ck.ok(R2, "%s: position announced" % f.sname)
        elif nv(x) is not None:
            ck.bad(R2, h.at, "every job announces position %d" % nv(x))
        elif x[0] == "op" and (core(x[2])[0] == "phi" or core(x[3])[0] == "phi"):
            ck.bad(R2, h.at, "the position announced is not that of the root (%s)" % pp(x))
        else:
            ck.und(R2, h.at, "position announced not interpreted: " + pp(x))
    if pos is None:
        ck.und(R1, f.loc(), "positions not interpreted")
    else:
        positions(ck, f, cl, pos, push)
    for h in push:
        rs = [t for t, v in h.facts if v is False and t[0] == "op" and t[1] == "==" and any(x[0] == "lit" and roots_cont_l(cl, h, x[2]) for x in (t[2], t[3]))]
    # the loops over the roots and the teams skip nothing
    whole(ck, f, cl, pos)
    place(ck, f, cl, pos)
    opponents(ck, f, cl)


def numbers(ck, f, cl):
    """results are filed under the number of their job"""
    R1 = "R1-jobs"
    for h in cl.h.get("job", []):
        x = core(h.args[2]) if len(h.args) > 2 else None
        if x is None:
            continue
        if nv(x) is not None:
            ck.bad(R1, h.at, "every job is number %d: results are filed under the number of their job, all but one are lost" % nv(x))
        elif x[0] == "phi":
            same = [st for t, st, facts, au in cl.backs if t == x[1] and Engine.load(None, st, x[2]) == x and any(a[0] == "push" for a in au)]
            if same:
                ck.bad(R1, h.at, "several jobs have the same number: results are filed under the number of their job, all but one are lost")
            elif any(t == x[1] and delta(Engine.load(None, st, x[2]), x) for t, st, facts, au in cl.backs):
                ck.ok(R1, "%s: numbers" % f.sname)


def roots_cont_l(cl, h, c):
    return True


def positions(ck, f, cl, pos, push):
    R1 = "R1-jobs"
    tag, L = pos[1], pos[2]
    lp = cl.loops.get(tag) or {}
    ini = lp.get("init", {}).get(L, ())
    for x in ini:
        if nv(x) == 0:
            ck.ok(R1, "%s: from the first position" % f.sname)
        elif nv(x) is not None:
            ck.bad(R1, push[0].at, "roots are not evaluated at the first position (starts at %d)" % nv(x))
        else:
            ck.und(R1, push[0].at, "first position not interpreted: " + pp(x))
    for t2, st, facts, au in cl.backs:
        if t2 != tag:
            continue
        d = delta(Engine.load(None, st, L), pos)
        if d is None:
            ck.und(R1, push[0].at, "next position not interpreted")
        elif d != 1:
            ck.bad(R1, push[0].at, "positions advance by %d" % d)
        n = sum(1 for x in au if x[0] == "push")
        if n == 0:
            ck.bad(R1, push[0].at, "some position of a root yields no job")
        elif n > 1:
            ck.bad(R1, push[0].at, "%d jobs are made for one position" % n)
    if any(t == tag for t, _, _ in cl.brk):
        ck.bad(R1, push[0].at, "the positions of a root are left before the last one")
    # limit
    for h in push:
        ok = None
        for t, v in h.facts:
            if t[0] == "op" and t[1] == "<" and core(t[2]) == pos and v is True:
                if isfld(t[3], "agentsPerEvaluation"):
                    ok = True
                elif core(t[3])[0] == "op" and has_sub(t[3], lambda s: s[0] == "F" and s[2] == NA):
                    ok = ok or pp(t[3])
            elif t[0] == "op" and t[1] == "<" and core(t[3]) == pos and v is False and has_sub(t[2], lambda s: s[0] == "F" and s[2] == NA):
                # pos <= x
                x = core(t[2])
                ok = True if x[0] == "op" and x[1] == "-" and isfld(x[2], "agentsPerEvaluation") and nv(x[3]) == 1 else ok or "one more than " + pp(t[2])
            elif t[0] == "op" and t[1] == "==" and v is False and pos in (core(t[2]), core(t[3])):
                o = t[3] if core(t[2]) == pos else t[2]
                if isfld(o, "agentsPerEvaluation"):
                    ok = True
        if ok is True:
            ck.ok(R1, "%s: to the last position" % f.sname)
        elif ok:
            ck.bad(R1, h.at, "positions go up to %s" % ok)
        else:
            ck.und(R1, h.at, "last position not interpreted")


def whole(ck, f, cl, pos):
    """the loops over roots and teams go through all of them"""
    R1 = "R1-jobs"
    push = cl.h["push"]
    outer = set()
    for h in push:
        for t, v in h.facts:
            if v is False and t[0] == "op" and t[1] == "==":
                for x, y in ((t[2], t[3]), (t[3], t[2])):
                    if x[0] == "lit" and y[0] == "it":
                        outer.add((x[1], x[2], y[1] == "end" or y[1] == "rend" or y[1] == "cend"))
    for tag, c, full in sorted(outer, key=repr):
        if any(t == tag for t, _, _ in cl.brk):
            ck.bad(R1, push[0].at, "some roots or teams get no job: the loop is left early")
            continue
        lp = cl.loops.get(tag) or {}
        ini = [x for l, xs in lp.get("init", {}).items() for x in xs if x[0] == "it" and strip(x[2]) == strip(c)]
        if any(x[1] not in ("begin", "cbegin", "rbegin", "end", "cend", "rend") for x in ini):
            ck.und(R1, push[0].at, "start of the loop not interpreted")
        elif any(x[0] == "op" for l, xs in lp.get("init", {}).items() for x in xs if x[0] == "op" and has_sub(x, lambda s: s[0] == "it" and strip(s[2]) == strip(c))):
            ck.bad(R1, push[0].at, "some roots or teams are skipped")
        else:
            ck.ok(R1, "%s: every element of %s" % (f.sname, pp(c)))
    # a guard on the job itself
    n = nroots = 0


def place(ck, f, cl, pos):
    R2 = "R2-place"
    adds = cl.h.get("add", [])
    root = [h for h in adds if strip(h.args[0])[0] == "ld" and not team_el(h.args[0])]
    team = [h for h in adds if team_el(h.args[0])]
    if not root:
        if adds and not any(strip(h.args[0])[0] in ("unk", "phi") for h in adds):
            if team and all(strip(h.args[0])[0] == "ld" for h in adds):
                ck.bad(R2, adds[0].at, "the root to be evaluated is not in the team")
                return
        ck.und(R2, f.loc(), "roots of the jobs not interpreted")
        return
    for h in root:
        e = strip(h.args[0])
        l = e[1] if e[0] == "ld" else e
        i = l[2] if l[0] == "E" else None
        if i is not None and i[0] in ("front", "c") or nv(i) is not None if i is not None else False:
            ck.bad(R2, h.at, "the same root is evaluated by every job")
    if pos is None:
        return
    before = after = 0
    seen_root = {strip(h.args[0]) for h in root}
    for h in team:
        j = team_el(h.args[0])[1]
        done = any(x[0] == "add" and x[1] in seen_root for x in h.auto or ())
        if j[0] != "phi":
            ck.und(R2, h.at, "champion placed not interpreted")
            continue
        lp = cl.loops.get(j[1]) or {}
        ini = lp.get("init", {}).get(j[2], ())
        if done:
            after += 1
            for x in ini:
                if core(x) == pos:
                    ck.ok(R2, "%s: champions after the root" % f.sname)
                elif nv(x) is not None or core(x)[0] in ("op",):
                    ck.bad(R2, h.at, "the champions after the root start at %s instead of its position" % pp(x))
                else:
                    # the index may go on from the first loop
                    if core(x)[0] == "phi":
                        ck.ok(R2, "%s: champions after the root" % f.sname)
                    else:
                        ck.und(R2, h.at, "champions after the root not interpreted")
            lim = bound(h, j)
            if lim is not None and not (lim[0] == "op" and lim[1] == "-" and isfld(lim[2], "agentsPerEvaluation") and nv(lim[3]) == 1) and lim[0] != "size":
                ck.bad(R2, h.at, "the champions after the root go up to %s" % pp(lim))
        else:
            before += 1
            for x in ini:
                if nv(x) == 0:
                    ck.ok(R2, "%s: champions before the root" % f.sname)
                elif nv(x) is not None:
                    ck.bad(R2, h.at, "the champions before the root start at %d" % nv(x))
            lim = bound(h, j)
            if lim is not None and lim != pos:
                if lim[0] == "op" and (core(lim[2]) == pos or core(lim[3]) == pos):
                    ck.bad(R2, h.at, "the root comes after %s champions instead of as many as its position" % pp(lim))
                elif isfld(lim, "agentsPerEvaluation") or lim[0] == "op" and isfld(lim[2], "agentsPerEvaluation") or lim[0] == "size":
                    if any(strip(x.args[0]) in seen_root for x in root) and not has_guard(h, j, pos):
                        ck.bad(R2, h.at, "every champion comes before the root, whatever its position")
                else:
                    ck.und(R2, h.at, "champions before the root not interpreted")
    if not team:
        ck.und(R2, f.loc(), "champions of the jobs not interpreted")


def has_guard(h, j, pos):
    return any(t[0] == "op" and has_sub(t, lambda s: s == j) and has_sub(t, lambda s: s == pos) for t, _ in h.facts)


def bound(h, j):
    for t, v in h.facts:
        if t[0] == "op" and t[1] == "<" and core(t[2]) == j and v is True:
            return core(t[3])
        if t[0] == "op" and t[1] == "<" and core(t[3]) == j and v is False:
            # j <= x
            x = core(t[2])
            if x[0] == "op" and x[1] == "-" and nv(x[3]) == 1:
                return core(x[2])
            return ("op", "+", x, ("c", 1))
        if t[0] == "op" and t[1] == "==" and v is False and j in (core(t[2]), core(t[3])):
            return core(t[3] if core(t[2]) == j else t[2])
    return None


def team_el(x):
    """(team, index) for team[index], the team being itself an element"""
    x = strip(x)
    l = x[1] if x[0] == "ld" else x
    if l[0] == "E" and l[1][0] == "E":
        return l[1], core(l[2])
    return None


def opponents(ck, f, cl):
    R3 = "R3-opponents"
    # number of teams
    n = 0
    for h in cl.h.get("team", []):
        v = h.ev.val
        l = strip(v)
        l = l[1] if l[0] == "ld" else l
        if l[0] == "E" and fld_of(l[1]) == CH or l[0] == "E" and l[1][0] == "F" and l[1][2] == CH:
            dr = [s for s in subterms(l[2]) if s[0] == "call" and s[1].endswith("getUnsignedInt64")]
            for d in dr:
                a, b = d[3][0], d[3][1]
                n += 1
                if nv(a) != 0:
                    ck.bad(R3, h.at, "the first champion is never drawn" if nv(a) is not None else "draw of the champions starts at %s" % pp(a))
                elif core(b)[0] == "op" and core(b)[1] == "-" and core(b)[2][0] == "size" and fld_of(core(b)[2][1]) == CH and nv(core(b)[3]) is not None:
                    if nv(core(b)[3]) == 1:
                        ck.ok(R3, "%s: any champion" % f.sname)
                    else:
                        ck.bad(R3, h.at, "not every champion may be drawn")
                elif core(b)[0] == "size":
                    ck.bad(R3, h.at, "a champion past the last one may be drawn")
                else:
                    ck.und(R3, h.at, "draw of the champions not interpreted: " + pp(b))
            if not dr:
                if nv(l[2]) is not None or l[2][0] in ("front", "back"):
                    ck.bad(R3, h.at, "the same champion is the opponent everywhere")
                else:
                    n += 1
                    ck.und(R3, h.at, "opponents not interpreted")
        elif roots_like(l):
            ck.bad(R3, h.at, "opponents are not taken from the champions")
        else:
            ck.und(R3, h.at, "opponents not interpreted: " + pp(v)[:80])
    if not cl.h.get("team"):
        ck.und(R3, f.loc(), "opponents not interpreted")
    for h in cl.h.get("champ", []):
        x = strip(h.args[0])
        if has_sub(x, lambda s: s[0] in ("E",)):
            ck.ok(R3, "%s: first champions" % f.sname)
        # no more than the roots
        lim = False
        for t, v in h.facts:
            if t[0] == "op" and t[1] == "<" and v is True and core(t[3])[0] == "size" and core(t[2])[0] == "phi":
                lim = True
            if t[0] == "op" and t[1] == "==" and v is False and any(s[0] == "lit" for s in (t[2], t[3])):
                lim = True
        if lim or x[0] == "ld" and x[1][0] == "E" and x[1][2][0] == "lit":
            ck.ok("R6-alive", "%s: first champions" % f.sname)
        elif x[0] == "ld" and x[1][0] == "E" and core(x[1][2])[0] == "phi":
            b = bound(h, core(x[1][2]))
            le = [t for t, v in h.facts if t[0] == "op" and t[1] in ("<=", "<") and has_sub(t, lambda s: s == core(x[1][2]))]
            if strict(le, h):
                ck.und("R6-alive", h.at, "number of first champions not interpreted")
            else:
                ck.bad("R6-alive", h.at, "more champions than roots may be taken, past the end of the roots")


def strict(le, h):
    """a limit that keeps the index below the number of roots for every ratio"""
    for t in le:
        if t[1] == "<" and (t, True) in h.facts:
            return True
        if t[1] == "<" and core(t[2])[0] != "phi":
            continue
    return not le


def roots_like(l):
    return l[0] == "E" and has_sub(l, lambda s: s[0] == "call" and s[1].endswith("getRootVertices"))


# ---- results -------------------------------------------------------------------
class Res(Ev):
    def __init__(self):
        Ev.__init__(self)
        self.enters = []

    def event(self, st, ev):
        if ev.kind not in ("call", "ctor") or not isinstance(ev.name, str):
            return
        b = ev.name.rsplit("::", 1)[-1]
        if b == "getScoreOf":
            self.hit("score", ev, st)
        elif b == "operator+=" and "EvaluationResult" in ev.name:
            h = self.hit("add", ev, st)
            st.auto = (st.auto or ()) + (("comb",),)
        elif b in ("emplace", "insert", "operator[]", "insert_or_assign", "try_emplace") and ev.o is not None:
            o = strip(ev.o)
            if o == ("p", 1):
                self.hit("out", ev, st)
                st.auto = (st.auto or ()) + (("out",),)
            elif "map" in ev.name and b != "operator[]":
                self.hit("new", ev, st)
                st.auto = (st.auto or ()) + (("comb",),)
        elif ev.o is not None and fld_of(ev.o) == CH and b in ("emplace_back", "push_back", "insert", "emplace"):
            self.hit("champ", ev, st)
        elif ev.o is not None and fld_of(ev.o) == CH and b in ("clear", "operator=", "assign", "swap"):
            self.hit("clear", ev, st)

    def back(self, st, tag):
        st.auto = ()

    def enter(self, st, tag):
        self.enters.append((tag, st.copy(), frozenset(st.facts)))
        st.auto = ()


def results(ck, f):
    R = "R4-results"
    cl = Res()
    ps = paths(ck, f, cl, auto=())
    if ps is None:
        return ck.und(R, f.loc(), ck.why)
    # score and root at the same position of the same job
    phi = None
    for k in ("new", "add"):
        for h in cl.h.get(k, []):
            if k == "new":
                if len(h.args) < 2:
                    ck.und(R, h.at, "first result of a root not interpreted")
                    continue
                key, val = h.args[0], h.args[1]
            else:
                key = key_in_map(h.o)
                val = h.args[0]
            if key is None:
                ck.und(R, h.at, "root not interpreted")
                continue
            sc = [s for s in subterms(val) if s[0] == "call" and s[1].endswith("getScoreOf")]
            rt = [s for s in subterms(key) if s[0] == "call" and s[1].endswith("AdversarialJob::operator[]")]
            ix_k = rt[0][3][0] if rt else idx_roots(key)
            if not sc:
                if has_sub(val, lambda s: s[0] == "call" and s[1].endswith("getResult")):
                    ck.bad(R, h.at, "a root is given the mean of the scores of all positions")
                else:
                    ck.und(R, h.at, "score not interpreted: " + pp(val)[:100])
                continue
            if ix_k is None:
                ck.und(R, h.at, "root not interpreted: " + pp(key)[:100])
                continue
            ix_s = sc[0][3][0]
            if ix_s == ix_k:
                ck.ok(R, "%s: %s" % (f.sname, "first score" if k == "new" else "further scores"))
                phi = core(ix_s)
            elif {core(ix_s)[0], core(ix_k)[0]} <= {"phi", "c", "call", "op", "ld"}:
                ck.bad(R, h.at, "the score of position %s is given to the root at position %s" % (pp(ix_s)[:60], pp(ix_k)[:60]))
            else:
                ck.und(R, h.at, "positions not interpreted")
            nb = [s for s in subterms(val) if s[0] == "call" and s[1].endswith("getNbEvaluation")]
            if not nb:
                cs = [s for s in subterms(val) if s[0] in ("cobj", "obj", "new") and "EvaluationResult" in str(s[1]) and len(s[3]) >= 2]
                if cs and nv(cs[0][3][1]) is not None:
                    ck.bad(R, h.at, "every job counts for %d evaluations" % nv(cs[0][3][1]))
    if not cl.h.get("add"):
        if cl.h.get("new"):
            ck.bad(R, f.loc(), "only one score of each root is taken into account")
    if phi is not None and phi[0] == "phi":
        window(ck, f, cl, phi)
    # every root
    for h in cl.h.get("out", []):
        args = h.args
        if len(args) == 1 and args[0][0] == "pair":
            args = args[0][1:3]
        if len(args) < 2:
            ck.und(R, h.at, "final results not interpreted")
            continue
        k = key_val(args[0])
        if k is not None and strip(k) == strip(args[1]):
            ck.ok(R, "%s: final results" % f.sname)
        elif k is not None and strip(args[1])[0] == "ld" and strip(k)[0] == "ld" and not second_of(args[1], args[0]):
            ck.bad(R, h.at, "a root is given the result of another")
        elif second_of(args[1], args[0]):
            ck.ok(R, "%s: final results" % f.sname)
        else:
            ck.und(R, h.at, "final results not interpreted")
        # none left out
        for lit in {x for x in subterms(args[1]) if x[0] == "lit"}:
            for t, s, facts, au in cl.backs:
                if t != lit[1] or any(x[0] == "out" for x in au):
                    continue
                if any(y[0] == "has" and v is False for y, v in facts if has_sub(y, lambda z: z == lit)):
                    continue
                why = [y for y, v in facts if y[0] in ("op", "call", "has") and has_sub(y, lambda z: z == lit) and not (y[1] == "==" and any(w[0] == "it" for w in y[2:]))]
                if any(has_sub(y, lambda z: z[0] == "call" and z[1].endswith("getResult") or z[0] == "ld" and str(z[1][2] if len(z[1]) > 2 else "").endswith("::result")) for y in why):
                    ck.bad(R, h.at, "the result of some roots is left out")
                else:
                    ck.und(R, h.at, "condition on the roots given a result not interpreted")
    election(ck, f, cl)


def second_of(a, b):
    """a and b are the key and the value of one entry"""
    x, y = strip(a), strip(b)
    x = x[1] if x[0] == "ld" else x
    y = y[1] if y[0] == "ld" else y
    return x[0] == "F" and y[0] == "F" and x[1] == y[1]


def key_val(t):
    """key of the map entry a value is that of"""
    t = strip(t)
    l = t[1] if t[0] == "ld" else t
    if l[0] == "F" and l[2].endswith("second"):
        l = l[1]
    if l[0] == "E":
        return l[2]
    return None


def key_in_map(o):
    return key_val(o) if o is not None else None


def idx_roots(t):
    for s in subterms(t):
        if s[0] == "E" and has_sub(s[1], lambda z: z[0] == "call" and z[1].endswith("getRoots")):
            return s[2]
    return None


def window(ck, f, cl, phi):
    """positions taken into account in each job"""
    R = "R4-results"
    tag, L = phi[1], phi[2]
    lp = cl.loops.get(tag) or {}
    at = (cl.h.get("add") or cl.h.get("new"))[0].at

    def pos_(t):
        return has_sub(t, lambda s: s[0] == "call" and s[1].endswith("getPosOfStudiedRoot"))
    for t, s, facts, au in cl.backs:
        if t == tag:
            d = delta(Engine.load(None, s, L), phi)
            if d is None:
                ck.und(R, at, "next position not interpreted")
            elif d != 1:
                ck.bad(R, at, "positions advance by %d" % d)
    for h in cl.h.get("add", []) + cl.h.get("new", []):
        for t, v in h.facts:
            if t[0] == "op" and t[1] == "<" and v is True and core(t[2]) == phi and core(t[3])[0] == "op" and core(t[3])[1] == "-" and \
                    has_sub(t[3], lambda s: s[0] == "call" and s[1].endswith("getSize") or s[0] == "size") and (nv(core(t[3])[3]) or 0) > 0:
                ck.bad(R, at, "the last position of each job is never taken into account")
            if t[0] == "op" and t[1] == "<" and v is False and core(t[3]) == phi and core(t[2])[0] in ("call", "size") and \
                    has_sub(t[2], lambda s: s[0] == "call" and s[1].endswith("getSize") or s[0] == "size"):
                ck.bad(R, at, "a position past the last one is read")
    # left after the one evaluated

    def known(facts):
        """None: not tested; True / False: -1 or not on every test of the path
        (earlier iterations included); "mixed" when they differ"""
        r = set()
        for t, v in facts:
            if t[0] == "op" and t[1] == "==" and (nv(t[2]) == -1 and pos_(t[3]) or nv(t[3]) == -1 and pos_(t[2])):
                r.add(bool(v))
            elif t[0] == "op" and t[1] == "<" and pos_(t[2]) and nv(t[3]) == 0:
                r.add(bool(v))
            elif t[0] == "op" and t[1] == "<" and pos_(t[3]) and nv(t[2]) == -1:
                r.add(not v)
        return None if not r else "mixed" if len(r) > 1 else r.pop()
    seen = set()
    for t, s, facts in cl.enters:
        if t != tag:
            continue
        x, kn = Engine.load(None, s, L), known(facts)
        if (x, kn) in seen:
            continue
        seen.add((x, kn))
        lo = [nv(a) for m in subterms(x) if m[0] == "call" and m[1] in ("std::max", "std::clamp") for a in m[3] if isinstance(a, tuple) and nv(a) is not None]
        if pos_(x):
            if any(v > 0 for v in lo):
                ck.bad(R, at, "scores are read from position %d on, even when the first root is the one evaluated" % max(lo))
            else:
                ck.ok(R, "%s: from the position evaluated" % f.sname)
        elif nv(x) is not None and kn is True:
            if nv(x) > 0:
                ck.bad(R, at, "when every root of a job is evaluated, the first is left out")
            else:
                ck.ok(R, "%s: every position" % f.sname)
        elif nv(x) is not None and kn == "mixed":
            ck.und(R, at, "first position not interpreted")
        elif nv(x) is not None:
            ck.bad(R, at, "scores are read from position %d, whatever the position evaluated" % nv(x))
        else:
            ck.und(R, at, "first position not interpreted: " + pp(x))

    def limited(facts):
        """the position after the one evaluated ends the loop"""
        for t, v in facts:
            if t[0] != "op":
                continue
            for a, b in ((t[2], t[3]), (t[3], t[2])):
                o = core(b)
                if core(a) == phi and (t[1] == "==" and v is False or t[1] == "<" and v is True and a is t[2]):
                    if o[0] == "op" and o[1] == "+" and (pos_(o[2]) and nv(o[3]) == 1 or pos_(o[3]) and nv(o[2]) == 1):
                        return True
                if core(a) == phi and t[1] == "<" and v is False and a is t[3] and pos_(o) and o[0] == "call":
                    return True
        return False
    st = {"b": [], "k": []}
    for t, facts, au in cl.brk:
        if t == tag:
            st["b"].append(known(facts))
    for t, s, facts, au in cl.backs:
        if t == tag and not limited(facts):
            st["k"].append(known(facts))
    if any(x is False for x in st["k"]):
        ck.bad(R, at, "the scores of the opponents following the root evaluated are counted too")
    elif any(x is None for x in st["k"]):
        if any(pos_(t) for tg, s, facts, au in cl.backs if tg == tag for t, _ in facts):
            ck.und(R, at, "end of the positions not interpreted")
        elif st["b"]:
            ck.und(R, at, "end of the positions not interpreted")
        else:
            ck.bad(R, at, "the scores of the opponents following the root evaluated are counted too")
    if any(x is True for x in st["b"]):
        ck.bad(R, at, "when every root of a job is evaluated, only the first one is taken into account")
    elif st["b"] and all(x in (False, "mixed") for x in st["b"]):
        ck.ok(R, "%s: to the position evaluated" % f.sname)


# ---- champions ---------------------------------------------------------------------
def election(ck, f, cl):
    R = "R5-champions"
    hs = cl.h.get("champ", [])
    if not hs:
        return ck.und(R, f.loc(), "election of the champions not interpreted")
    for h in hs:
        x = strip(h.args[-1])
        m = member(x, "second")
        if m is None or strip(m[0]) != ("p", 1):
            if roots_like(x[1] if x[0] == "ld" else x):
                ck.bad(R, h.at, "champions are elected regardless of their results")
            else:
                ck.und(R, h.at, "champion not interpreted: " + pp(x)[:100])
            continue
        i = m[1]
        d = direction(cl, i)
        if d == "best":
            ck.ok(R, "%s: from the best" % f.sname)
        elif d == "worst":
            ck.bad(R, h.at, "the champions elected are the worst roots")
        elif d == "past":
            ck.bad(R, h.at, "the champion read is past the end of the results")
        elif d == "skip":
            ck.bad(R, h.at, "the best root is not among the champions")
        else:
            ck.und(R, h.at, "rank of the champions not interpreted: " + pp(i))
        number(ck, f, h)
    if not cl.h.get("clear"):
        ck.bad(R, hs[0].at, "champions of earlier generations are kept beside the new ones")
    else:
        ck.ok(R, "%s: earlier champions given up" % f.sname)


def direction(cl, i):
    # before / after a step
    if i[0] == "lit":
        start = starts(cl, i)
        if i[3]:
            return "best"
        if start == "end":
            return "past" if steps(cl, i) == -1 else None
        return "worst"
    if i[0] == "op" and i[1] == "-" and i[2][0] == "lit" and nv(i[3]) is not None and starts(cl, i[2]) == "end":
        s = steps(cl, i[2])
        if s == -1:
            return "best" if nv(i[3]) == 1 else "skip"
        return None
    if i[0] == "op" and i[1] in "+-" and i[2][0] == "lit":
        s = starts(cl, i[2])
        if s == "rbegin" and i[1] == "+":
            return "skip"
        if s == "begin":
            return "worst"
    if i[0] == "front" or i[0] == "it" and i[1] == "begin":
        return "worst"
    return None


def starts(cl, l):
    for x in (cl.loops.get(l[1]) or {}).get("init", {}).get(l[4], ()):
        if x[0] == "it":
            return x[1]
    return None


def steps(cl, l):
    for x in (cl.loops.get(l[1]) or {}).get("step", {}).get(l[4], ()):
        if x[0] == "op" and x[2] == l and nv(x[3]) is not None:
            return nv(x[3]) if x[1] == "+" else -nv(x[3])
    return None


def keep_of(x):
    """(how, offset) when x is (1 - ratio) * roots + offset"""
    off = 0
    x0 = x
    while core(x)[0] == "op" and core(x)[1] in "+-" and isnum(core(x)[3]):
        c = core(x)
        off += num_(c[3]) if c[1] == "+" else -num_(c[3])
        x = c[2]
    r = ratio_of(x)
    if r is None:
        y = core(x)
        if y[0] == "op" and y[1] == "-":
            q = ratio_of(y[3])
            if q and isroots(core(y[2])):
                return "total-" + q[0], off, q[1]
        return None
    return r[0], off, r[1]


def isnum(c):
    c = core(c)
    return c[0] in ("c", "f") and c[1] is not None and not isinstance(c[1], str) or c[0] == "f"


def num_(c):
    return float(core(c)[1])


def number(ck, f, h):
    """no more than the roots that outlive the decimation"""
    R = "R5-champions"
    for t, v in h.facts:
        if t[0] != "op" or t[1] not in ("<", "<="):
            continue
        for a, b, rel in ((t[2], t[3], t[1] if v is True else None), (t[3], t[2], {"<": "<=", "<=": "<"}[t[1]] if v is False else None)):
            if rel is None or core(a)[0] != "phi":
                continue
            k = keep_of(b)
            if k is None:
                continue
            how, off, n = k
            if how.startswith("keep"):
                # count = #{i >= 0 : i rel (1-r)n + off}
                slack = off + (1 if rel == "<=" else 0)
                up = how == "keepup" or (rel == "<" and how == "keepraw") or how == "keepround"
                if slack > 0:
                    return ck.bad(R, h.at, "more champions are elected than roots outlive the decimation")
                if not isroots(n):
                    return ck.und(R, h.at, "number of champions not interpreted")
                return ck.ok(R, "%s: number" % f.sname)
            if how.startswith("total-"):
                slack = off + (1 if rel == "<=" else 0)
                if slack > 0:
                    return ck.bad(R, h.at, "more champions are elected than roots outlive the decimation")
                return ck.ok(R, "%s: number" % f.sname)
            return ck.bad(R, h.at, "as many champions are elected as roots are removed")
    if any(has_sub(t, lambda s: s[0] == "F" and str(s[2]).endswith("ratioDeletedRoots")) for t, _ in h.facts):
        ck.und(R, h.at, "number of champions not interpreted")
    elif any(t[0] == "op" and t[1] == "==" and any(s[0] == "lit" for s in (t[2], t[3])) for t, _ in h.facts):
        ck.bad(R, h.at, "every root becomes a champion, even those about to be removed")
    else:
        ck.und(R, h.at, "number of champions not interpreted")


# ---- jobs as containers ------------------------------------------------------------
def job_class(ck):
    """the job gives back the roots in the order they were added, and the position announced"""
    R = "R2-place"
    P = ck.P
    J = "Learn::AdversarialJob"
    RF = J + "::roots"
    for f in sorted(P.funcs.values(), key=lambda f: (f.loc(), f.id)):
        if not f.blocks or f.scls != J:
            continue
        if f.base == "addRoot":
            hits, ps, _ = sites(ck, f, lambda ev: ev.kind == "call" and ev.o is not None and fld_of(ev.o) == RF)
            if ps is None:
                ck.und(R, f.loc(), ck.why)
            elif any(h.base in ("push_back", "emplace_back") and h.args and strip(h.args[0]) == ("p", 0) for h in hits):
                ck.ok(R, f.sname)
            elif any(h.base in ("insert", "emplace", "push_front") and any(x[0] == "it" and x[1] == "begin" for x in h.args) for h in hits):
                ck.bad(R, f.loc(), "roots are added at the front of the team")
            elif not hits:
                ck.bad(R, f.loc(), "the root is not added to the team")
            else:
                ck.und(R, f.loc(), "addition not interpreted")
        elif f.base == "operator[]":
            hits, ps, _ = sites(ck, f, lambda ev: False)
            for p in ps or ():
                if p.kind != "ret" or p.ret is None:
                    continue
                l = strip(p.ret)
                l = l[1] if l[0] == "ld" else l
                if l[0] == "E" and fld_of(l[1]) == RF or l[0] == "E" and l[1][0] == "F" and l[1][2] == RF:
                    if core(l[2]) == ("p", 0):
                        ck.ok(R, f.sname)
                    else:
                        ck.bad(R, f.loc(), "the root given for a position is that of %s" % pp(l[2]))
                else:
                    ck.und(R, f.loc(), "root not interpreted: " + pp(p.ret))
        elif f.base == "getPosOfStudiedRoot":
            hits, ps, _ = sites(ck, f, lambda ev: False)
            for p in ps or ():
                if p.kind == "ret" and p.ret is not None:
                    if fld_of(core(p.ret)) == J + "::posOfStudiedRoot":
                        ck.ok(R, f.sname)
                    elif nv(core(p.ret)) is not None:
                        ck.bad(R, f.loc(), "the position announced is always %d" % nv(core(p.ret)))


# ---- turns ------------------------------------------------------------------------------
class Turns(Ev):
    def __init__(self):
        Ev.__init__(self)
        self.prim = lambda g: opaque(g) or "Environment" in (g.scls or "")

    def event(self, st, ev):
        if ev.kind != "call" or not isinstance(ev.name, str):
            return
        b = ev.name.rsplit("::", 1)[-1]
        if b == "executeFromRoot":
            h = self.hit("exec", ev, st)
            l = strip(h.args[0]) if h.args else ("unk",)
            l = l[1] if l[0] == "ld" else l
            st.auto = (("exec", core(l[2]) if l[0] == "E" else None),)
        elif b == "doAction":
            self.hit("act", ev, st)
            st.auto = tuple(x for x in st.auto or () if x != ("act",)) + (("act",),)

    def back(self, st, tag):
        st.auto = ()

    enter = back


def turns(ck, f):
    R = "R7-turns"
    cl = Turns()
    ps = paths(ck, f, cl, auto=())
    if ps is None:
        return ck.und(R, f.loc(), ck.why)
    ex = cl.h.get("exec", [])
    lits = {s for h in ex for a in h.args[:1] for s in subterms(a) if s[0] in ("lit", "phi")}
    keys = {s[4] if s[0] == "lit" else s[2] for s in lits}
    tags = {s[1] for s in lits if s[1][0] == "lp"}
    if not ex or len(keys) != 1 or len(tags) != 1:
        return ck.und(R, f.loc(), "agent playing not interpreted")
    tag0, L = tags.pop(), keys.pop()
    at = ex[0].at
    for x in (cl.loops.get(tag0) or {}).get("init", {}).get(L, ()):
        if x[0] == "it" and x[1] in ("begin", "cbegin", "rbegin"):
            ck.ok(R, "%s: from the first agent" % f.sname)
        elif x[0] == "op":
            ck.bad(R, at, "the agent that plays first is not the first of the job")
    for tag, st, facts, au in cl.backs:
        if tag != tag0 or ("act",) not in au:
            continue
        v = Engine.load(None, st, L)
        lit = [x[1] for x in au if x[0] == "exec"]
        if not lit or lit[0] is None:
            ck.und(R, at, "agent playing not interpreted")
            continue
        lit = lit[0]
        nxt = ("op", "+", lit, ("c", 1))
        end = [b for t, b in facts if t[0] == "op" and t[1] == "==" and nxt in (t[2], t[3]) and any(x[0] == "it" and x[1] in ("end", "cend", "rend") for x in (t[2], t[3]))]
        if v == lit:
            ck.bad(R, at, "the same agent plays twice in a row")
        elif v == nxt:
            if not end or end[0] is not False:
                ck.bad(R, at, "the turn is passed to an agent past the last one")
            else:
                ck.ok(R, "%s: next agent" % f.sname)
        elif v[0] == "it" and v[1] in ("begin", "cbegin", "rbegin"):
            if end and end[0] is True:
                ck.ok(R, "%s: first agent again" % f.sname)
            elif end:
                ck.bad(R, at, "the turn goes back to the first agent before the last one has played")
            else:
                ck.und(R, at, "turn not interpreted")
        elif v[0] == "op" and v[2] == lit and nv(v[3]) is not None:
            ck.bad(R, at, "agents miss their turn")
        else:
            ck.und(R, at, "turn not interpreted: " + pp(v)[:80])


# ---- removed champions ----------------------------------------------------------------
def alive(ck):
    R = "R6-alive"
    P = ck.P
    for base in ("decimateWorstRoots", "keepBestPolicy", "init"):
        own = [f for f in P.funcs.values() if f.blocks and f.scls == AA and f.base == base]
        # the implementation an adversarial agent runs
        if not own:
            up = [f for f in P.funcs.values() if f.blocks and f.base == base and f.scls in ("Learn::ParallelLearningAgent", "Learn::LearningAgent")]
            up.sort(key=lambda f: f.scls != "Learn::ParallelLearningAgent")
            for f in up[:1]:
                if any(P.funcs[i].base in ("removeVertex", "initRandomTPG") for i in P.reach([f.id]) if i in P.funcs):
                    if champions_elsewhere(ck, base):
                        ck.und(R, f.loc(), "champions are looked after elsewhere")
                    else:
                        ck.bad(R, f.loc(), "champions removed from the graph by %s stay champions" % base)
            continue
        for f in own:
            def tch(ev):
                return ev.kind in ("call", "write") and (ev.o is not None and fld_of(ev.o) == CH and ev.name.rsplit("::", 1)[-1] in ("clear", "erase", "operator=", "swap", "assign", "remove_if", "resize", "pop_back") or
                                                         ev.kind == "write" and ev.loc is not None and ev.loc[0] == "F" and ev.loc[2] == CH)

            def tch2(ev):
                return tch(ev) or ev.kind == "call" and ev.name in ("std::erase_if", "std::erase", "std::remove_if") and any(is_loc(a) and fld_of(a) == CH for a in ev.a or ())
            hits, ps, _ = sites(ck, f, tch2, lambda g: opaque(g) or g.scls in ("Learn::ParallelLearningAgent", "Learn::LearningAgent"),
                                gc_facts=False, ext_throws=False)
            if ps is None:
                ck.und(R, f.loc(), ck.why)
            elif hits:
                ck.ok(R, f.sname)
            elif champions_elsewhere(ck, base):
                ck.und(R, f.loc(), "champions are looked after elsewhere")
            else:
                ck.bad(R, f.loc(), "champions removed from the graph by %s stay champions" % base)


def champions_elsewhere(ck, base):
    """some other function of a generation drops champions that left the graph"""
    P = ck.P
    for f in P.funcs.values():
        if f.blocks and f.scls == AA and f.base not in ("decimateWorstRoots", "keepBestPolicy", "init", "evaluateAllRootsInParallelCompileResults", "evaluateAllRoots"):
            hits, ps, _ = sites(ck, f, lambda ev: ev.kind == "call" and (ev.o is not None and fld_of(ev.o) == CH and ev.name.rsplit("::", 1)[-1] in ("erase", "remove_if", "clear", "operator=", "swap") or
                                                                        ev.name in ("std::erase_if", "std::remove_if") and any(has_sub(a, lambda s: s[0] == "F" and s[2] == CH) for a in ev.a or () if isinstance(a, tuple))), opaque, gc_facts=False, ext_throws=False)
            if hits:
                return True
    return False

"""C04: the archive is bounded and consistent."""
from ..core import *

REC, DH, IDX = "Archive::recordings", "Archive::dataHandlers", "Archive::recordingsPerProgram"
SIZE, PROB = "Archive::maxSize", "Archive::archivingProbability"
FRONT, BACK = ("pop_front",), ("pop_back",)


def end_of(h):
    """'front'/'back' for operations on one end of a deque"""
    b = h.base
    if b in ("push_back", "emplace_back", "pop_back"):
        return "back"
    if b in ("push_front", "emplace_front", "pop_front"):
        return "front"
    if b == "erase" and h.args:
        t = h.args[0]
        if t[0] == "it" and t[1] == "begin":
            return "front"
    return None


def is_fld(o, f):
    return o is not None and fld_of(o) == f


def idx_key(o):
    """key of the per-program deque o"""
    if o is not None and o[0] == "E" and fld_of(o[1]) == IDX:
        return o[2]
    return None


def removed(t, fld):
    """t is member fld of an element of recordings"""
    return t[0] == "ld" and t[1][0] == "F" and t[1][2].endswith("::" + fld) and (
        t[1][1][0] == "E" and fld_of(t[1][1][1]) == REC)


def check(ck):
    for c, f in (("Archive", "recordings"), ("Archive", "dataHandlers"), ("Archive", "recordingsPerProgram"), ("Archive", "maxSize")):
        ck.P.need_field(c, f)
    ck.rule("R1-bounded", "adding a recording ends with at most maxSize recordings, the oldest being dropped first", 2)
    ck.rule("R2-recorded", "a recording made holds the program, the hash of the data and the result given, and is made exactly when "
            "forced or drawn with the configured probability", 1)
    ck.rule("R3-snapshot", "the data a recording refers to is stored, as copies, once, under the recording's own hash", 2)
    ck.rule("R4-released", "a snapshot is freed and forgotten exactly when the recording dropped was the last to refer to it", 2)
    ck.rule("R5-index", "the per-program index gains and loses the same recordings as the archive", 2)
    ck.rule("R6-unique", "'unique' is answered only after every recording of every program was compared", 2)
    ck.rule("R7-emptied", "clearing and destroying the archive free every snapshot and leave nothing behind", 2)
    add(ck)
    unique(ck)
    empty(ck)


class Add(Sites):
    gc_facts = "all"
    budget = 400000

    def loop(self, st, kind, tag, g, eng):
        toks = st.auto or ()
        if kind == "enter":
            if not any(t[0] == "pop" for t in toks):
                st.auto = toks + (("L", tag),)
        elif kind == "back":
            if ("L", tag) in toks:
                i = len(toks) - 1 - toks[::-1].index(("L", tag))
                self.rounds.append((toks[i + 1:], frozenset(st.facts)))
                if any(t[0] == "pop" for t in toks[i + 1:]):
                    st.auto = toks[:i + 1]


def add(ck):
    P = ck.P
    f = P.one("Archive::addRecording")

    def step(st, ev):
        toks = st.auto or ()
        x = None
        if ev.kind == "delete":
            x = ("del",)
        elif ev.kind == "call":
            b = ev.name.rsplit("::", 1)[-1]
            if is_fld(ev.o, REC):
                if b.startswith("push") or b.startswith("emplace"):
                    x = ("push",)
                elif b.startswith("pop") or b == "erase":
                    x = ("pop",)
            elif is_fld(ev.o, DH):
                if b in ("emplace", "insert", "try_emplace", "insert_or_assign"):
                    x = ("store",)
                elif b == "erase":
                    x = ("forget",)
            elif is_fld(ev.o, IDX):
                if b in ("emplace", "insert", "try_emplace"):
                    x = ("ipush",)
                elif b == "erase":
                    x = ("idrop",)
            elif idx_key(ev.o) is not None:
                if b.startswith("push") or b.startswith("emplace"):
                    x = ("ipush",)
                elif b.startswith("pop") or b == "erase":
                    x = ("ipop",)
            elif ev.name in ("std::find_if", "std::any_of", "std::none_of", "std::count_if"):
                x = ("search",)
        elif ev.kind == "write" and ev.loc is not None and ev.loc[0] == "E" and fld_of(ev.loc[1]) == DH:
            x = ("store",)
        if x is not None and x not in toks:
            st.auto = toks + (x,)
    pred = lambda ev: ev.kind == "delete" or ev.kind in ("call", "write") and (
        is_call("push_back", "push_front", "emplace_back", "emplace_front", "pop_back", "pop_front", "erase", "emplace", "insert",
                "try_emplace", "insert_or_assign", "getDouble", "clone")(ev) or ev.kind == "write" and ev.loc[0] == "E")
    cl = Add(pred, named("getDouble", "clone", "getCombinedHash", "getHash"), step)
    cl.rounds = []
    ps = paths(ck, f, cl, auto=())
    if ps is None:
        return ck.und("R1-bounded", f.loc(), ck.why)
    HASH = lambda t: t[0] == "call" and t[1] == "Archive::getCombinedHash"
    pushends, popends, ipush, ipop = set(), set(), set(), set()
    clones = False
    asked = False
    for h in cl.hits:
        if h.ev.kind == "delete":
            v = h.ev.val
            ks = [s for s in subterms(v) if s[0] == "E" and fld_of(s[1]) == DH]
            if not ks:
                continue
            k = ks[0][2]
            judge_release(ck, h, k)
            continue
        if h.ev.kind == "write":
            if fld_of(h.ev.loc[1]) == DH:
                store(ck, h, h.ev.loc[2])
            continue
        b = h.base
        if b == "getDouble":
            if h.args != [("f", 0.0), ("f", 1.0)] and [nv_(a) for a in h.args] != [0.0, 1.0]:
                ck.bad("R2-recorded", h.at, "the archiving draw is made between %s" % " and ".join(map(pp, h.args)))
        if is_fld(h.o, REC):
            e = end_of(h)
            if b.startswith("push") or b.startswith("emplace"):
                pushends.add(e)
                a = h.args[0] if h.args else None
                parts = list(a[1:]) if a is not None and a[0] == "ilist" else list(a[3]) if a is not None and a[0] == "obj" else h.args if len(h.args) == 3 else None
                if a is not None and a[0] == "obj" and len(parts) == 1 and parts[0][0] == "ilist":
                    parts = list(parts[0][1:])
                if parts and len(parts) == 3:
                    if parts[0] != ("p", 0):
                        ck.bad("R2-recorded", h.at, "the recording's program is %s" % pp(parts[0]))
                    if not HASH(parts[1]) and not has_sub(parts[1], lambda s: s[0] in ("phi", "call")):
                        ck.bad("R2-recorded", h.at, "the recording's hash is %s" % pp(parts[1]))
                    elif HASH(parts[1]) and not has_sub(parts[1], lambda s: s == ("p", 1)):
                        ck.bad("R2-recorded", h.at, "the recording's hash is that of other data")
                    if parts[2] != ("p", 2):
                        ck.bad("R2-recorded", h.at, "the recording's result is %s" % pp(parts[2]))
                    hs = [t[3] for t, v in h.facts if t[0] == "has" and fld_of(t[1]) == DH and v]
                    if ("store",) not in h.auto and hs and parts[1] not in hs:
                        ck.bad("R3-snapshot", h.at, "the recording refers to other data than the one stored")
                forced = fact(h.facts, ("p", 3))
                prob = None
                for t, v in h.facts:
                    if t[0] == "op" and any(fld_of(x) == PROB for x in t[2:4]):
                        o = t[3] if fld_of(t[2]) == PROB else t[2]
                        draw = has_sub(o, lambda s: s[0] == "call" and s[1].endswith("getDouble"))
                        if draw:
                            good = t[1] in ("<=", "<") and t[2] == o and v or t[1] in ("<=", "<") and t[3] == o and not v
                            prob = bool(good)
                        elif t[1] == "==" and nv_(o) == 1.0 and v:
                            prob = True
                if forced or prob:
                    ck.ok("R2-recorded", "recorded when forced or drawn")
                elif prob is False:
                    ck.bad("R2-recorded", h.at, "a recording is made when the draw is against it")
                else:
                    ck.bad("R2-recorded", h.at, "a recording is made whatever the probability")
                if forced is not None:
                    asked = True
            elif e is not None:
                popends.add(e)
                if not any(t[0] == "op" and t[1] == "<" and v and t[3] == cur_size(h.st, h.o) for t, v in h.facts) and \
                        not any(t[0] == "op" and t[1] == "==" and not v and cur_size(h.st, h.o) in t[2:4] for t, v in h.facts):
                    if any(cur_size(h.st, h.o) in subterms(t) for t, v in h.facts):
                        ck.bad("R1-bounded", h.at, "recordings are dropped when the archive is not over its maximum size")
                    elif not any(fld_of(s) == SIZE for t, v in h.facts for s in subterms(t)):
                        ck.bad("R1-bounded", h.at, "a recording is dropped whatever the size of the archive")
        elif is_fld(h.o, DH):
            if b == "erase":
                k = h.args[0]
                if k[0] == "it" and len(k) > 4:
                    k = k[4]
                judge_release(ck, h, k)
            else:
                k = h.args[0]
                if k[0] == "obj" and k[1].startswith("std::pair"):
                    k = k[3][0]
                elif k[0] == "pair" or k[0] == "ilist":
                    k = k[1]
                store(ck, h, k)
        elif is_fld(h.o, IDX):
            if b == "erase":
                k = h.args[0]
                if k[0] == "it" and len(k) > 4:
                    k = k[4]
                if not removed(k, "prog") and k == ("p", 0):
                    ck.bad("R5-index", h.at, "the entry of the program being recorded is removed")
                zero = [t for t, v in h.facts if v and t[0] == "op" and t[1] == "==" and C(0) in t[2:4] and any(
                    x[0] == "size" and idx_key(x[1]) == k for x in t[2:4])]
                known = [t for t, v in h.facts if any(x[0] == "size" and idx_key(x[1]) is not None for x in subterms(t))]
                if zero:
                    ck.ok("R5-index", "a program's entry is removed when empty")
                else:
                    ck.bad("R5-index", h.at, "a program's entry is removed while recordings of it remain")
        elif idx_key(h.o) is not None:
            k = idx_key(h.o)
            e = end_of(h)
            if b.startswith("push") or b.startswith("emplace"):
                ipush.add(e)
                if k != ("p", 0):
                    ck.bad("R5-index", h.at, "the recording is listed for another program")
                else:
                    ck.ok("R5-index", "recording listed for its program")
            elif e is not None:
                ipop.add(e)
                if removed(k, "prog"):
                    if ("pop",) in h.auto or True:
                        ck.ok("R5-index", "dropped recording removed from the list of its program")
                elif k == ("p", 0):
                    ck.bad("R5-index", h.at, "the recording removed from the index is one of the program being recorded, not of the one dropped")
                else:
                    ck.und("R5-index", h.at, "program of the recording dropped not interpreted")
        elif b in ("push_back", "emplace_back") and root_local(h.o):
            a = h.args[0] if h.args else None
            if a is not None and any(s[0] == "call" and s[1].endswith("::clone") for s in subterms(a)):
                clones = True
                if not has_sub(a, lambda s: s == ("p", 1)):
                    ck.bad("R3-snapshot", h.at, "the data stored is not the one recorded")
            elif a is not None and has_sub(a, lambda s: s == ("p", 1)) and has_sub(a, lambda s: s[0] in ("lit", "phi")):
                ck.bad("R3-snapshot", h.at, "the data is kept by reference instead of being copied")
    if any(h.base == "clone" for h in cl.hits) or clones:
        ck.ok("R3-snapshot", "data copied")
    elif any(("store",) in p.auto for p in ps if p.auto):
        ck.und("R3-snapshot", f.loc(), "copy of the data not interpreted")
    for a, b, r, w in ((pushends, popends, "R1-bounded", "recording"), (ipush, ipop, "R5-index", "recording of the program")):
        if len(a) == 1 and b:
            if a & b:
                ck.bad(r, f.loc(), "the newest %s is dropped instead of the oldest" % w)
            else:
                ck.ok(r, "the oldest %s is dropped" % w)
    if not popends and pushends:
        ck.bad("R1-bounded", f.loc(), "recordings are never dropped")
    if pushends and not asked and not any(fact(p.facts, ("p", 3)) is not None for p in ps):
        ck.bad("R2-recorded", f.loc(), "a recording is not made when forced: the request is ignored")
    # rounds of the eviction loop
    for toks, facts in cl.rounds + [(tuple(p.auto or ()), frozenset(p.facts)) for p in ps if p.kind == "ret"]:
        if ("pop",) in toks:
            i = toks.index(("pop",))
            if ("ipop",) not in toks:
                ck.bad("R5-index", f.loc(), "a dropped recording stays in the list of its program")
            none = [t for t, v in facts if t[0] == "none" and v and fld_of(t[1]) == REC]
            if none and ("forget",) not in toks:
                ck.bad("R4-released", f.loc(), "a snapshot no recording refers to stays in the archive")
            if ("forget",) in toks and ("del",) not in toks:
                # freed in a loop over possibly zero handlers: look for any deletion
                if not any(h.ev.kind == "delete" for h in cl.hits):
                    ck.bad("R4-released", f.loc(), "a forgotten snapshot is not freed")
            if ("del",) in toks and ("forget",) not in toks:
                ck.bad("R4-released", f.loc(), "a freed snapshot stays in the archive")
            if ("search",) in toks and toks.index(("search",)) < i:
                ck.bad("R4-released", f.loc(), "the recording being dropped is itself counted as still referring to the snapshot")
            emp = [t for t, v in facts if v and t[0] == "op" and t[1] == "==" and C(0) in t[2:4] and any(x[0] == "size" and idx_key(x[1]) is not None for x in t[2:4])]
            if emp and ("idrop",) not in toks:
                ck.bad("R5-index", f.loc(), "a program without recordings stays listed")
    for p in ps:
        if p.kind != "ret":
            continue
        toks = p.auto or ()
        if ("push",) in toks:
            if ("ipush",) not in toks:
                ck.bad("R5-index", f.loc(), "a recording is not listed for its program")
            had = [v for t, v in p.facts if t[0] == "has" and fld_of(t[1]) == DH]
            if ("store",) not in toks and True not in had:
                ck.bad("R3-snapshot", f.loc(), "a recording is kept without its data")
            sz = cur_size(p.st, TF(REC))
            rel = [(t, v) for t, v in p.facts if t[0] == "op" and any(s == sz for s in subterms(t)) and any(fld_of(s) == SIZE for s in subterms(t))]
            mx = [s for t, v in rel for s in subterms(t) if fld_of(s) == SIZE]
            if rel and any(t[1] == "<" and t[2] in mx and t[3] == sz and not v or t[1] == "<" and t[2] == sz and t[3] in mx and v or
                           t[1] == "<=" and t[2] == sz and t[3] in mx and v or t[1] == "<=" and t[2] in mx and t[3] == sz and not v or
                           t[1] == "==" and {t[2], t[3]} == {sz, mx[0]} and v for t, v in rel):
                ck.ok("R1-bounded", "at most maxSize recordings when the addition ends")
            elif rel:
                ck.bad("R1-bounded", f.loc(), "the addition can end with more than maxSize recordings")
            elif not popends:
                pass
            elif not any(fld_of(s) == SIZE for t, v in p.facts for s in subterms(t)) and not any(
                    fld_of(s) == SIZE for h in cl.hits for t, v in h.facts for s in subterms(t)):
                ck.bad("R1-bounded", f.loc(), "the number of recordings is not compared with maxSize")
        else:
            draw = [v for t, v in p.facts if t[0] == "op" and has_sub(t, lambda s: s[0] == "call" and s[1].endswith("getDouble"))]
            if fact(p.facts, ("p", 3)):
                ck.bad("R2-recorded", f.loc(), "a forced recording is not made")
            elif any(t[0] == "op" and t[1] in ("<=", "<") and v and has_sub(t[2], lambda s: s[0] == "call" and s[1].endswith("getDouble")) for t, v in p.facts):
                ck.bad("R2-recorded", f.loc(), "a recording drawn is not made")


def nv_(t):
    return t[1] if isinstance(t, tuple) and t and t[0] in ("c", "f") else None


def store(ck, h, k):
    had = [(t, v) for t, v in h.facts if t[0] == "has" and fld_of(t[1]) == DH]
    mine = [v for t, v in had if t[3] == k]
    if not (k[0] == "call" and k[1] == "Archive::getCombinedHash" or has_sub(k, lambda s: s[0] in ("phi", "call"))):
        ck.bad("R3-snapshot", h.at, "the data is stored under %s instead of its hash" % pp(k))
    elif False in mine:
        ck.ok("R3-snapshot", "data stored when it was not yet")
    elif True in mine:
        ck.bad("R3-snapshot", h.at, "the data is copied again although it is already stored")
    elif had:
        ck.bad("R3-snapshot", h.at, "the data is stored under another hash than the one looked up")
    else:
        ck.bad("R3-snapshot", h.at, "the data is copied without checking whether it is already stored: copies made for known data are never freed")


def judge_release(ck, h, k):
    R = "R4-released"
    if not removed(k, "dataHash"):
        if k[0] == "call" or has_sub(k, lambda s: s[0] == "call" and s[1] == "Archive::getCombinedHash"):
            ck.bad(R, h.at, "the snapshot released is that of the recording just made, not of the one dropped")
        else:
            ck.und(R, h.at, "hash of the snapshot released not interpreted")
        return
    none = [t for t, v in h.facts if t[0] == "none" and v and fld_of(t[1]) == REC]
    found = [t for t, v in h.facts if t[0] == "op" and t[1] == "==" and not v and any(
        x[0] == "it" and "find_if" in x[1] and fld_of(x[2]) == REC for x in t[2:4])]
    if found:
        ck.bad(R, h.at, "a snapshot is released while a recording still refers to it")
    elif none:
        p = none[0][3]
        if p[0] == "op" and p[1] == "==" and k in p[2:4] and any(has_sub(x, lambda s: s == ("each",)) and (fld_of(x) or "").endswith("dataHash") for x in p[2:4]):
            ck.ok(R, "a snapshot is released when no recording kept refers to it (%s)" % h.ev.kind)
        elif any((fld_of(x) or "").endswith("::prog") for s in subterms(p) for x in [s] if isinstance(s, tuple)):
            ck.bad(R, h.at, "whether the snapshot is still used is decided from the program, not from the data")
        else:
            ck.bad(R, h.at, "whether the snapshot is still used is decided by %s" % pp(p))
    elif ("search",) in (h.auto or ()):
        ck.und(R, h.at, "search for other users of the snapshot not interpreted")
    elif any(t[0] in ("phi",) or (fld_of(s) or "").endswith("dataHash") for t, v in h.facts for s in subterms(t) if isinstance(s, tuple)) or \
            any(("lit" == s[0]) and fld_of(s[2]) == REC for t, v in h.facts for s in subterms(t) if isinstance(s, tuple) and s):
        ck.und(R, h.at, "search for other users of the snapshot not interpreted")
    elif any(n["k"] == "mem" and n.get("n") == "dataHash" for i in ck.P.reach([ck.P.one("Archive::addRecording")]) for n in ck.P.funcs[i].nodes() if False):
        pass
    else:
        ck.bad(R, h.at, "a snapshot is released without checking that no other recording refers to it")


def unique(ck):
    R = "R6-unique"
    P = ck.P
    f = P.one("Archive::areProgramResultsUnique")

    def diff(facts):
        for t, v in facts:
            if t[0] == "op" and t[1] in ("<", "<=") and has_sub(t, lambda s: (fld_of(s) or "").endswith("::result")):
                return t, v
        return None, None

    def over(t):
        return has_sub(t, lambda s: fld_of(s) == IDX or s[0] == "F" and s[2] == IDX)

    class B(Sites):
        def loop(self, st, kind, tag, g, eng):
            self.evs.append((kind, tag, {k: v for k, v in st.m.items() if k[0] == "L"}, frozenset(st.facts)))
    cl = B(lambda ev: False)
    cl.evs = []
    ps = paths(ck, f, cl)
    if ps is None:
        return ck.und(R, f.loc(), ck.why)
    inner = {tag for kind, tag, m, facts in cl.evs if kind == "back" and any(
        t[0] == "has" and has_sub(t[3], lambda s: (fld_of(s) or "").endswith("::dataHash")) for t, v in facts)}
    inner = {t for t in inner if not any(k == "enter" and tg != t and tg in inner and any(
        has_sub(x, lambda s: s[0] in ("lit", "phi") and s[1] == t) for x, _ in fc) for k, tg, m, fc in cl.evs)} or inner
    if len(inner) != 1:
        tags = {}
        for kind, tag, m, facts in cl.evs:
            if kind == "enter":
                tags[tag] = True
        return ck.und(R, f.loc(), "comparison loop not recognised")
    inner = next(iter(inner))
    flags = set()
    for kind, tag, m, facts in cl.evs:
        if tag != inner or kind != "back":
            continue
        t, v = diff(facts)
        present = [vv for tt, vv in facts if tt[0] == "has" and has_sub(tt[3], lambda s: (fld_of(s) or "").endswith("::dataHash"))]
        tr = {L for L, x in m.items() if x == TRUE}
        if t is not None:
            lhs, rhs = t[2], t[3]
            if ("p", 1) not in (lhs, rhs):
                ck.bad(R, f.loc(), "results are not compared with the margin given")
                continue
            eqv = v if rhs == ("p", 1) else not v
            o = lhs if rhs == ("p", 1) else rhs
            if o[0] == "op" and o[1] == "-":
                ck.bad(R, f.loc(), "the signed difference of the results is compared with the margin")
            if not eqv:
                ck.bad(R, f.loc(), "comparison goes on after a different result: the program may still be found equivalent")
            elif not tr:
                ck.bad(R, f.loc(), "an equivalent result is not taken into account")
            else:
                flags |= tr
                ck.ok(R, "equivalent results noted")
        elif tr - flags and False in present:
            ck.bad(R, f.loc(), "a recording without a result for its data counts as equivalent")
    n = 0
    for L in flags:
        for v in ((cl.loops.get(inner) or {}).get("init") or {}).get(L, ()):
            if v == TRUE:
                ck.bad(R, f.loc(), "a program is presumed equivalent before any recording is compared")
            elif v == FALSE:
                n += 1
            else:
                ck.bad(R, f.loc(), "equivalence found for one program is carried over to the next")
    for p in ps:
        if p.kind != "ret":
            continue
        ended = any(t[0] == "op" and t[1] == "==" and v and any(x[0] == "it" and x[1] == "end" and fld_of(x[2]) == IDX for x in t[2:4]) for t, v in p.facts)
        inend = any(t[0] == "phi" and v and t[1] == inner for t, v in p.facts)
        if p.ret == TRUE:
            if ended:
                ck.ok(R, "unique answered after every program")
            elif inend:
                ck.bad(R, f.loc(), "'unique' is answered when an equivalent program is found")
            elif any(over(t) for t, v in p.facts):
                ck.bad(R, f.loc(), "'unique' is answered before every program was compared")
        elif p.ret == FALSE:
            if inend:
                ck.ok(R, "not unique when a program is equivalent")
            elif ended:
                ck.bad(R, f.loc(), "'not unique' is answered although no program is equivalent")
            elif any(t[0] == "phi" and not v and t[1] == inner for t, v in p.facts):
                ck.bad(R, f.loc(), "'not unique' is answered for a program that is not equivalent")


def snap(v, facts):
    """v is a data source of a snapshot (or of a local copy of one, in a loop over the snapshots)"""
    if has_sub(v, lambda s: s[0] == "F" and s[2] == DH):
        return True
    return has_sub(v, lambda s: s[0] == "L") and has_sub(v, lambda s: s[0] == "lit") and any(
        not b and t[0] == "op" and t[1] == "==" and any(x[0] == "it" and x[1] == "end" and fld_of(x[2]) == DH for x in t[2:4]) for t, b in facts)


def empty(ck):
    R = "R7-emptied"
    P = ck.P
    for nm in ("Archive::clear", "Archive::~Archive"):
        f = P.one(nm)

        def step(st, ev):
            if ev.kind == "delete" and snap(ev.val, st.facts):
                st.auto = st.auto | {"del"}
            if ev.kind == "call" and ev.name.endswith("::clear") and fld_of(ev.o) in (REC, DH, IDX):
                if fld_of(ev.o) == DH and "del" not in st.auto:
                    st.auto = st.auto | {"lost"}
                st.auto = st.auto | {fld_of(ev.o)}
        hits, ps, cl = sites(ck, f, lambda ev: ev.kind == "delete", None, step, frozenset(), gc_facts="all")
        if ps is None:
            ck.und(R, f.loc(), nm + ": " + ck.why)
            continue
        dels = [h for h in hits if snap(h.ev.val, h.facts)]
        if not dels:
            if not any(n["k"] == "delete" for i in P.reach([f]) for n in P.funcs[i].nodes()):
                ck.bad(R, f.loc(), "%s does not free the snapshots" % nm)
            else:
                ck.und(R, f.loc(), "%s: freeing of the snapshots not interpreted" % nm)
        else:
            ck.ok(R, nm + " frees every snapshot")
        if dels and any("del" not in h.auto and DH in h.auto for h in dels):
            ck.bad(R, f.loc(), "%s empties the snapshots before freeing them" % nm)
        if nm.endswith("clear"):
            for p in ps:
                for x in (REC, DH, IDX):
                    if p.kind == "ret" and x not in p.auto:
                        ck.bad(R, f.loc(), "clear leaves %s filled" % x)
        # what is freed must be every element
        for h in dels:
            lits = [s for s in subterms(h.ev.val) if s[0] == "lit"]
            if len(lits) < 2 and not has_sub(h.ev.val, lambda s: s[0] == "L") and not any(s[0] == "phi" for s in subterms(h.ev.val)):
                ck.bad(R, h.at, "%s does not free every data source of every snapshot" % nm)

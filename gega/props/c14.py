"""C14: decimation removes the worst individuals."""
from ..core import *
from .c24 import strip
from .c27 import impls
from .c13 import opaque, graph_of_agent, key_of, member, LA, nullish

PUSH = ("push_back", "emplace_back", "insert", "emplace", "push", "emplace_front", "push_front", "emplace_hint")


def check(ck):
    P = ck.P
    P.need_field("Learn::LearningParameters", "ratioDeletedRoots")
    ck.rule("R1-actions", "only roots that are not actions are removed", 2)
    ck.rule("R2-worst", "roots are removed from the worst one up, or kept from the best one down", 3)
    ck.rule("R3-number", "the number of roots removed is the configured ratio of the roots, rounded down", 3)
    ck.rule("R4-kept", "the actions met are put back among the results", 1)
    ck.rule("R5-once", "each generation decimates exactly once", 1)
    for f in impls(ck, LA, "decimateWorstRoots"):
        one(ck, f)
    once(ck)


class Dec(Sites):
    gc_facts = False
    ext_throws = False
    budget = 900000

    def __init__(self):
        Sites.__init__(self, lambda ev: False, opaque)
        self.rem, self.push, self.backs, self.put = [], [], [], []

    def event(self, st, ev):
        if ev.kind != "call" or not isinstance(ev.name, str):
            return
        b = ev.name.rsplit("::", 1)[-1]
        if b == "removeVertex" and graph_of_agent(ev.o):
            h = Hit(ev, st)
            self.rem.append((h, strip(h.args[0])))
            st.auto = (st.auto or ()) + (("rem", strip(h.args[0])),)
        elif b in PUSH + ("merge",) and ev.o is not None and ev.name.startswith("std::"):
            h = Hit(ev, st)
            o = strip(ev.o)
            if o == ("p", 0):
                self.put.append(h)
                st.auto = tuple(x for x in (st.auto or ()) if x[0] != "put") + (("put",),)
            elif o[0] in ("L", "cobj", "obj"):
                self.push.append((o, h))
                st.auto = (st.auto or ()) + (("push", o, tuple(strip(a) for a in h.args)),)
        elif b in ("erase", "extract") and ev.o is not None and strip(ev.o) == ("p", 0):
            st.auto = (st.auto or ()) + (("erase",),)

    def loop(self, st, kind, tag, g, eng):
        if kind == "back":
            self.backs.append((tag, st.copy(), frozenset(st.facts), st.auto or (), eng))
        if kind in ("back", "enter"):
            # what was put back stays so
            st.auto = tuple(x for x in st.auto or () if x[0] == "put")


def action_fact(facts, v):
    """v is known not to be an action (True), to be one (False), or nothing is known (None)"""
    for t, val in facts:
        if t[0] == "op" and t[1] == "==":
            for x, y in ((t[2], t[3]), (t[3], t[2])):
                if x[0] == "dyn" and nullish(y) and strip(x[2]) == v:
                    if "TPGAction" in str(x[1]):
                        return val
                    if "TPGTeam" in str(x[1]):
                        return not val
        if t[0] == "op" and t[1] == "==" and any(s[0] in ("typeid", "dyntype") for s in subterms(t)) and v in subterms(t):
            return "?"
        if t[0] == "call" and v in subterms(t):
            return "?"
    return None


def position(v):
    """(container, 'first'|'last'|'up'|'down'|None) of a root taken from a ranked container"""
    k = key_of(v)
    if k is None:
        return None, None
    c, i = k
    c = strip(c)
    if i[0] == "front":
        return c, "first"
    if i[0] == "back":
        return c, "last"
    if i[0] == "it":
        return c, {"begin": "first", "cbegin": "first", "rbegin": "last", "crbegin": "last"}.get(i[1])
    if i[0] == "op" and i[1] == "-" and i[2][0] == "it" and i[2][1] == "end" and nv(i[3]) == 1:
        return c, "last"
    if i[0] == "lit":
        return c, "down" if i[3] else "up"
    return c, None


def one(ck, f):
    cl = Dec()
    ps = paths(ck, f, cl, auto=())
    if ps is None:
        for r in ("R1-actions", "R2-worst"):
            ck.und(r, f.loc(), ck.why)
        return
    if not cl.rem:
        return
    for h, v in cl.rem:
        a = action_fact(h.facts, v)
        if a is True:
            ck.ok("R1-actions", f.sname)
        elif a is False:
            ck.bad("R1-actions", h.at, "an action is removed from the graph")
        elif a is None and v[0] not in ("unk", "phi", "havoc"):
            ck.bad("R1-actions", h.at, "a root is removed although it may be an action")
        else:
            ck.und("R1-actions", h.at, "kind of the root removed not interpreted")
    kept = set()
    direct = False
    for h, v in cl.rem:
        c, pos = position(v)
        if c == ("p", 0):
            direct = True
            if pos in ("first", "up"):
                ck.ok("R2-worst", "%s: from the worst" % f.sname)
            elif pos in ("last", "down"):
                ck.bad("R2-worst", h.at, "the best root is removed first")
            else:
                ck.und("R2-worst", h.at, "order of removal not interpreted")
            continue
        # those not in the list of roots to keep
        ks = [(strip(t[1]), val) for t, val in h.facts if t[0] == "has" and haskey(t, v) and strip(t[1])[0] in ("L", "cobj", "obj")]
        ks += searched(cl, h, v)
        if any(val for _, val in ks):
            ck.bad("R2-worst", h.at, "the roots removed are those that were to be kept")
        elif ks:
            kept |= {k for k, _ in ks if k[0] != "unk"}
            if any(k[0] == "unk" for k, _ in ks):
                ck.und("R2-worst", h.at, "search for the root not interpreted")
        elif any(g.at == h.at and (searched(cl, g, w) or any(t[0] == "has" and haskey(t, w) for t, _ in g.facts)) for g, w in cl.rem):
            ck.und("R2-worst", h.at, "search for the root not interpreted")
        elif v[0] in ("unk", "phi", "havoc") or any(v in subterms(t) and action_fact([(t, val)], v) is None for t, val in h.facts):
            ck.und("R2-worst", h.at, "choice of the root removed not interpreted")
        else:
            ck.bad("R2-worst", h.at, "a root is removed whatever its rank")
    if direct:
        straight(ck, f, cl)
        preserved(ck, f, cl, ps)
    for k in sorted(kept, key=repr):
        keeping(ck, f, cl, k)


def haskey(t, v):
    return any(isinstance(z, tuple) and z and strip(z) == v for z in t[2:])


def searched(cl, h, v):
    """containers a loop has gone through without meeting v"""
    out = []
    for t, val in h.facts:
        if t[0] != "op" or t[1] != "==" or val is not True:
            continue
        for x, y in ((t[2], t[3]), (t[3], t[2])):
            if x[0] == "it" and x[1] in ("end", "rend") and y[0] == "lit":
                bs = [b for b in cl.backs if b[0] == y[1]]
                if bs and all(any(g[0] == "op" and g[1] == "==" and gv is False and v in (strip(g[2]), strip(g[3])) and
                                  has_sub(g, lambda s: s[0] == "E" and s[2] == y) for g, gv in b[2]) for b in bs):
                    out.append((strip(y[2]), False))
                elif bs and any(any(v in (strip(g[2]), strip(g[3])) for g, _ in b[2] if g[0] == "op" and g[1] == "==") for b in bs):
                    out.append((("unk",), False))
    return out


# ---- removing from the worst up ------------------------------------------------
def ratio_of(x):
    """('down'|'up'|'round'|'raw', number of roots) for ratio * roots"""
    how = "raw"
    while True:
        if x[0] == "toint":
            how = "down" if how == "raw" else how
            x = x[1]
        elif x[0] == "tofloat":
            x = x[1]
        elif x[0] == "call" and x[1].rsplit("::", 1)[-1] in ("floor", "ceil", "round", "lround", "llround", "rint", "nearbyint", "trunc", "floorf", "lrint"):
            n = x[1].rsplit("::", 1)[-1]
            if how in ("raw", "down"):
                how = "down" if n in ("floor", "trunc", "floorf") else "up" if n == "ceil" else "round"
            x = x[3][0]
        else:
            break
    if x[0] == "op" and x[1] == "*":
        for a, b in ((x[2], x[3]), (x[3], x[2])):
            if isratio(a):
                return how, core(b)
            c = core(a)
            if c[0] == "op" and c[1] == "-" and core(c[2])[0] in ("c", "f") and is_one(core(c[2])) and isratio(c[3]):
                return {"down": "keepdown", "up": "keepup"}.get(how, "keep" + how), core(b)
    return None


def is_one(c):
    try:
        return float(c[1]) == 1.0
    except (TypeError, ValueError):
        return False


def isratio(t):
    return (fld_of(core(t)) or "").endswith("::ratioDeletedRoots")


def core(t):
    while t[0] in ("tofloat", "toint"):
        t = t[1]
    return t


def isroots(n):
    """number of roots"""
    if (fld_of(n) or "").endswith("::nbRoots"):
        return True
    if n[0] == "call" and n[1].endswith("getNbRootVertices"):
        return True
    if n[0] == "size":
        c = strip(n[1])
        return has_sub(n, lambda s: s[0] == "call" and s[1].endswith("getRootVertices")) or c == ("p", 0)
    return False


def straight(ck, f, cl):
    R = "R3-number"
    phis_ = {}
    for h, v in cl.rem:
        if position(v)[0] != ("p", 0):
            continue
        done = False
        for t, val in h.facts:
            if t[0] == "op" and t[1] in ("<=", ">=") and val is True and core(t[2 if t[1] == "<=" else 3])[0] == "phi" and ratio_of(t[3 if t[1] == "<=" else 2]):
                done = True
                ck.bad(R, h.at, "one root too many is removed: the count may reach the limit before it is compared")
            if t[0] != "op" or t[1] != "<":
                continue
            for a, b, strict in ((t[2], t[3], val is True), (t[3], t[2], False)):
                r = ratio_of(b)
                c = core(a)
                if r is None or c[0] != "phi":
                    continue
                if (a, b) == (t[2], t[3]) and val is not True:
                    continue
                if (a, b) == (t[3], t[2]) and val is not False:
                    continue
                done = True
                how, n = r
                if not strict:
                    ck.bad(R, h.at, "one root too many is removed: the count may reach the limit before it is compared")
                elif how != "down":
                    if how in ("up", "raw", "round"):
                        ck.bad(R, h.at, "the number of roots removed is not rounded down")
                    elif how.startswith("keep"):
                        ck.bad(R, h.at, "the number removed is that of the roots to keep")
                    else:
                        ck.und(R, h.at, "limit not interpreted: " + pp(b)[:100])
                elif isroots(n):
                    ck.ok(R, "%s: limit" % f.sname)
                    phis_[c] = h.at
                elif n[0] in ("ld", "c", "f"):
                    ck.bad(R, h.at, "the ratio is not one of the roots but of %s" % pp(n))
                else:
                    ck.und(R, h.at, "limit not interpreted: " + pp(b)[:100])
        if not done:
            if any(has_sub(t, isratio) for t, _ in h.facts):
                ck.und(R, h.at, "limit of the removals not interpreted")
            elif any(core(x)[0] in ("phi", "ld") for t, _ in h.facts if t[0] == "op" and t[1] == "<" for x in (t[2], t[3])):
                ck.und(R, h.at, "limit of the removals not interpreted")
            else:
                ck.bad(R, h.at, "the number of roots removed is not limited by the configured ratio")
        # something left to remove
        res = ("p", 0)
        if position(v)[1] == "first":
            if any(has_sub(t, lambda s: s[0] in ("size", "it", "call") and len(s) > 1 and any(strip(z) == res for z in s[1:3] if isinstance(z, tuple) and z)) and t[0] == "op" for t, _ in h.facts):
                ck.ok(R, "%s: while roots are left" % f.sname)
            else:
                ck.bad(R, h.at, "roots are removed although no result is left")
    # counter
    for c, at in sorted(phis_.items(), key=repr):
        tag, L = c[1], c[2]
        ini = (cl.loops.get(tag) or {}).get("init", {}).get(L, ())
        if any(nv(x) not in (0, None) for x in ini):
            ck.bad(R, at, "the count of removals starts at %s" % ", ".join(pp(x) for x in ini))
        for t2, st, facts, au, eng in cl.backs:
            if t2 != tag:
                continue
            v = Engine.load(None, st, L)
            removed = any(x[0] == "rem" for x in au)
            d = delta(v, c)
            if d is None:
                ck.und(R, at, "count of removals not interpreted: " + pp(v))
            elif removed and d == 1 or not removed and d == 0:
                ck.ok(R, "%s: %s" % (f.sname, "each removal counts" if removed else "an action does not count"))
            elif removed:
                ck.bad(R, at, "removing a root changes the count of removals by %d" % d)
            else:
                ck.bad(R, at, "an iteration removing no root changes the count of removals by %d" % d)


def delta(v, c):
    if v == c:
        return 0
    if v[0] == "op" and v[1] in "+-":
        if v[2] == c and nv(v[3]) is not None:
            return nv(v[3]) if v[1] == "+" else -nv(v[3])
        d = delta(v[2], c)
        if d is not None and nv(v[3]) is not None:
            return d + (nv(v[3]) if v[1] == "+" else -nv(v[3]))
        if v[1] == "+" and v[3] == c and nv(v[2]) is not None:
            return nv(v[2])
    return None


def preserved(ck, f, cl, ps):
    R = "R4-kept"
    heads = set()
    for h, v in cl.rem:
        if position(v)[0] == ("p", 0):
            heads.add(v)
    stores = set()
    for tag, st, facts, au, eng in cl.backs:
        if not any(x[0] == "erase" for x in au) or any(x[0] == "rem" for x in au):
            continue
        act = any(action_fact(facts, v) is False for v in heads)
        if not act:
            continue
        ins = [x for x in au if x[0] == "push" and any(v in subterms(a) or any(mentions_entry(a, v) for _ in (0,)) for v in heads for a in x[2])]
        if ins:
            stores |= {x[1] for x in ins}
        elif any(x[0] == "push" for x in au):
            ck.und(R, f.loc(), "what is put aside is not interpreted")
        else:
            ck.bad(R, f.loc(), "the actions met are taken out of the results and lost")
    if not stores:
        if not any(x[0] == "erase" for _, _, _, au, _ in cl.backs for x in au):
            ck.ok(R, "%s: nothing is taken out" % f.sname)
        return
    for s in sorted(stores, key=repr):
        if any(any(strip(y) == s or has_sub(y, lambda z: z[0] in ("E", "it", "lit") and any(strip(w) == s for w in z[1:] if isinstance(w, tuple) and w)) for y in h.args) for h in cl.put):
            # on every path
            full = [h for h in cl.put if any(has_sub(y, lambda z: z[0] == "it" and z[1] == "begin") for y in h.args) and any(has_sub(y, lambda z: z[0] == "it" and z[1] == "end") for y in h.args)]
            every = all(any(x[0] == "put" for x in p.auto or ()) for p in ps if p.kind == "ret") if full else True
            if every:
                ck.ok(R, "%s: actions put back" % f.sname)
            else:
                ck.bad(R, f.loc(), "some path leaves without putting the actions back")
        elif cl.put:
            ck.und(R, f.loc(), "what is put back is not interpreted")
        elif swapped(ck, f):
            ck.und(R, f.loc(), "the results are replaced")
        else:
            ck.bad(R, f.loc(), "the actions put aside are never put back among the results")


def swapped(ck, f):
    hits, ps, _ = sites(ck, f, lambda ev: (ev.kind == "call" and (ev.o is not None and strip(ev.o) == ("p", 0) or any(is_loc(a) and strip(a) == ("p", 0) for a in ev.a or ())) and
                        ev.name.rsplit("::", 1)[-1] in ("swap", "operator=", "merge", "copy", "transform", "inserter")), opaque, gc_facts=False, ext_throws=False)
    return ps is None or bool(hits)


def mentions_entry(a, v):
    """a is (a copy of) the results entry v is in"""
    k = key_of(v)
    if k is None:
        return False
    return has_sub(a, lambda s: s[0] == "E" and s[1] == k[0] and s[2] == k[1])


# ---- keeping from the best down --------------------------------------------------
def keeping(ck, f, cl, k):
    R2, R3 = "R2-worst", "R3-number"
    n2 = 0
    for o, h in cl.push:
        if o != k or not h.args:
            continue
        v = strip(h.args[-1])
        c, pos = position(v)
        if c is None or pos is None:
            ck.und(R2, h.at, "root kept not interpreted: " + pp(v)[:80])
            continue
        if pos in ("first", "up"):
            ck.bad(R2, h.at, "the roots kept are taken from the worst up")
            continue
        if c == ("p", 0):
            n2 += 1
            ck.ok(R2, "%s: kept from the best" % f.sname)
            limit(ck, f, h, k)
        elif c[0] in ("L", "cobj", "obj"):
            perclass(ck, f, cl, c, h)
        else:
            ck.und(R2, h.at, "ranking not interpreted")
        if not any(t[0] == "has" and strip(t[1]) == k and haskey(t, v) and val is False for t, val in h.facts) and not any(z == k and val is False for z, val in searched(cl, h, v)):
            if any(v in subterms(t) for t, _ in h.facts):
                ck.und(R3, h.at, "whether the root is already kept is not interpreted")
            else:
                ck.bad(R3, h.at, "a root already kept takes the place of another")
    if not n2 and not any(e["rule"] == R2 for e in ck.und_ + ck.bad_):
        ck.bad(R2, f.loc(), "the roots kept do not depend on the ranking")


def limit(ck, f, h, k):
    R3 = "R3-number"
    for t, val in h.facts:
        if t[0] != "op" or t[1] != "<":
            continue
        if t[2][0] == "size" and strip(t[2][1]) == k and val is True:
            return lim(ck, f, h, t[3])
        if t[3][0] == "size" and strip(t[3][1]) == k and val is False:
            r = lim_of(t[2])
            if r is not None:
                return ck.bad(R3, h.at, "one root too many is kept")
        if t[3][0] == "size" and strip(t[3][1]) == k and val is True:
            return ck.und(R3, h.at, "limit not interpreted")
    if any(has_sub(t, isratio) for t, _ in h.facts):
        ck.und(R3, h.at, "limit of the roots kept not interpreted")
    else:
        ck.bad(R3, h.at, "the number of roots kept is not limited by the configured ratio")


def lim_of(x):
    x = core(x)
    if x[0] == "op" and x[1] == "-":
        r = ratio_of(x[3])
        if r:
            return r[0], core(x[2]), r[1]
    r = ratio_of(x)
    if r:
        return r[0], None, r[1]
    return None


def lim(ck, f, h, x):
    R3 = "R3-number"
    r = lim_of(x)
    if r is None:
        return ck.und(R3, h.at, "limit of the roots kept not interpreted: " + pp(x)[:100])
    how, tot, n = r
    if tot is None:
        if how.startswith("keep"):
            if how == "keepup":
                return ck.und(R3, h.at, "limit of the roots kept not interpreted")
            return ck.bad(R3, h.at, "the number of roots removed is not rounded down")
        return ck.bad(R3, h.at, "the number of roots kept is that of the roots to remove")
    if how in ("up", "round", "raw"):
        return ck.bad(R3, h.at, "the number of roots removed is not rounded down")
    if not isroots(tot) or not isroots(n):
        return ck.und(R3, h.at, "number of roots not interpreted: " + pp(x)[:100])
    if tot != n and (fld_of(tot) is None) != (fld_of(n) is None):
        return ck.und(R3, h.at, "two numbers of roots")
    ck.ok(R3, "%s: number kept" % f.sname)


def perclass(ck, f, cl, c, h):
    R2, R3 = "R2-worst", "R3-number"
    # ranking by the score for one class
    for o, p in cl.push:
        if o != c:
            continue
        a = p.args
        if len(a) == 1 and a[0][0] in ("pair", "obj", "cobj"):
            a = a[0][1:3] if a[0][0] == "pair" else a[0][3][:2]
        if len(a) < 2:
            ck.und(R2, p.at, "ranking for a class not interpreted")
            continue
        sc, v = strip(a[0]), strip(a[1])
        kv = key_of(v)
        if kv is None or strip(kv[0]) != ("p", 0):
            ck.und(R2, p.at, "ranking for a class not interpreted: " + pp(v)[:80])
        elif not has_sub(sc, lambda s: s[0] == "E" and s[1] == kv[0] and s[2] == kv[1]):
            if has_sub(sc, lambda s: s[0] == "E" and strip(s[1]) == ("p", 0)):
                ck.bad(R2, p.at, "a root is ranked with the score of another")
            else:
                ck.und(R2, p.at, "score not interpreted: " + pp(sc)[:80])
        elif not has_sub(sc, lambda s: s[0] == "call" and s[1].endswith("getScorePerClass") or s[0] == "F" and "erClass" in str(s[2])):
            ck.bad(R2, p.at, "the ranking for a class is not made with the scores for that class")
        else:
            ix = [s[2] for s in subterms(sc) if s[0] == "E" and has_sub(s[1], lambda z: z[0] == "call" and z[1].endswith("getScorePerClass"))]
            if ix and nv(ix[0]) is not None:
                ck.bad(R2, p.at, "the ranking for every class is made with the scores for class %d" % nv(ix[0]))
            else:
                ck.ok(R2, "%s: per class" % f.sname)
    # share of each class
    for t, val in h.facts:
        if t[0] == "op" and t[1] == "<" and val is True and has_sub(t[3], isratio) and core(t[2])[0] == "phi":
            s = share(t[3])
            if s is None:
                ck.und(R3, h.at, "share of a class not interpreted: " + pp(t[3])[:120])
            elif s >= 2:
                ck.ok(R3, "%s: share of a class" % f.sname)
            else:
                ck.bad(R3, h.at, "the classes may take every place, leaving none to the best roots overall")
            return
    ck.und(R3, h.at, "share of a class not interpreted")


def share(x):
    """k for keep / classes / k"""
    k = 1
    nb = 0
    x = core(x)
    while x[0] == "op" and x[1] in ("/", ">>"):
        d = core(x[3])
        if nv(d) is not None:
            k *= nv(d) if x[1] == "/" else 2 ** nv(d)
        elif d[0] == "call" and d[1].endswith("getNbActions"):
            nb += 1
        elif d[0] == "op" and d[1] == "*":
            for a, b in ((d[2], d[3]), (d[3], d[2])):
                if nv(a) is not None and core(b)[0] == "call" and core(b)[1].endswith("getNbActions"):
                    k *= nv(a)
                    nb += 1
                    break
            else:
                return None
        else:
            return None
        x = core(x[2])
    if lim_of(x) is None:
        return None
    if nb == 0:
        return 0
    return k


# ---- once per generation ------------------------------------------------------------
def once(ck):
    R = "R5-once"
    for f in impls(ck, LA, "trainOneGeneration"):
        cl = Sites(lambda ev: False, lambda g: g.base in ("decimateWorstRoots", "updateEvaluationRecords") or opaque(g))
        cl.gc_facts = False
        cl.ext_throws = False

        def step(st, ev):
            if ev.kind == "call" and ev.name.rsplit("::", 1)[-1] == "decimateWorstRoots":
                st.auto = min((st.auto or 0) + 1, 3)
        cl.step = step
        ps = paths(ck, f, cl, auto=0)
        if ps is None:
            ck.und(R, f.loc(), ck.why)
            continue
        for p in ps:
            if p.kind != "ret":
                continue
            if p.auto == 1:
                ck.ok(R, f.sname)
            elif p.auto == 0:
                ck.bad(R, f.loc(), "a generation may end without decimation")
            else:
                ck.bad(R, f.loc(), "a generation decimates %d times" % p.auto)

"""C17: data hashes follow the data."""
from ..core import *

DHC = "Data::DataHandler"
CH, INV, ID = TF(DHC + "::cachedHash"), TF(DHC + "::invalidCachedHash"), TF(DHC + "::id")
HASHFN = ("Data::Hash::operator()", "Data::_Conditionally_enabled_hash::operator()", "Data::Hash::_Do_hash", "Data::_Hash_representation")
prim = named(*HASHFN)


def content(P):
    """content fields of the data sources"""
    out = set()
    for c in P.derived_short(DHC):
        if c == DHC:
            continue
        for x in P.classes[c]["fields"]:
            t = x["t"]
            if x["n"] in ("data", "containerPtr") or (t.startswith("std::vector<") or t.endswith("*")) and not x.get("const"):
                out.add(short(c) + "::" + x["n"])
    return out


def check(ck):
    P = ck.P
    P.need_field(DHC, "cachedHash"), P.need_field(DHC, "invalidCachedHash"), P.need_field(DHC, "id")
    ck.rule("R1-invalidated", "every operation that changes the content marks the cached hash invalid (or recomputes it)", 5)
    ck.rule("R2-fresh", "the hash answered is recomputed whenever the cached one is not valid", 2)
    ck.rule("R3-function", "the hash is computed from the identity and every element, and from nothing else", 2)
    ck.rule("R4-pure", "asking for the hash changes nothing but the cache", 2)
    ck.rule("R5-alike", "a snapshot of a single value hashes like the value", 1)
    ck.rule("R6-combined", "the combined hash of data sources takes each of them into account", 1)
    ck.rule("R7-identity", "each new data source gets an identity of its own", 1)
    invalidated(ck)
    fresh(ck)
    vals = function(ck)
    alike(ck, vals)
    combined(ck)
    identity(ck)


def handlers(P):
    return P.derived_short(DHC)


def recomputes(P, c):
    """getHash used for class c never relies on the cache"""
    for b in P.bases_of(c):
        for f in P.funcs.values():
            if f.cls == b and f.base == "getHash" and f.blocks:
                return not any(n["k"] == "mem" and n.get("n") == "invalidCachedHash" for n in f.nodes()) and any(
                    short(n.get("fn", "")).endswith("::updateHash") for n in f.calls())
    return False


def invalidated(ck):
    R = "R1-invalidated"
    P = ck.P
    flds = content(P)
    hs = handlers(P)
    for f in P.funcs.values():
        if f.cls not in hs or not f.blocks or f.r.get("implicit") or f.r.get("defaulted") or "harness" in f.file:
            continue
        ctor = f.base == f.scls.rsplit("::", 1)[-1]
        if f.r.get("dtor") or f.base.startswith("~") or f.base in ("updateHash", "getHash"):
            continue
        if recomputes(P, f.cls):
            continue

        def mine(loc):
            while isinstance(loc, tuple) and loc:
                if loc[0] == "F" and loc[1] == ("*", THIS):
                    return loc[2] in flds
                if loc[0] not in ("F", "E", "*", "ld", "it", "addr"):
                    return False
                loc = loc[2] if loc[0] == "it" else loc[1]
            return False

        def step(st, ev):
            a = st.auto
            if ev.kind == "write":
                if ev.loc == INV:
                    st.auto = a | {"inv"} if ev.val == TRUE else a - {"inv"} if ev.val == FALSE else a
                elif ev.loc == CH:
                    st.auto = a - {"dirty"}
                elif mine(ev.loc):
                    st.auto = a | {"dirty"}
                    sts.add(ev.at())
            elif ev.kind == "call" and mine(ev.o) and ev.name.rsplit("::", 1)[-1] in MUT:
                st.auto = a | {"dirty"}
                sts.add(ev.at())
            elif ev.kind == "call" and ev.name in ("std::fill", "std::copy", "std::fill_n", "std::transform", "std::swap", "std::copy_n", "memset", "memcpy",
                                                   "std::memcpy", "std::memset") and any(mine(x) for x in (ev.a or ()) if isinstance(x, tuple)):
                st.auto = a | {"dirty"}
                sts.add(ev.at())
        sts = set()
        hits, ps, cl = sites(ck, f, lambda ev: False, prim, step, frozenset(), gc_facts=True)
        if ps is None:
            if any(n["k"] == "mem" and n.get("n") in ("data", "containerPtr") for n in f.nodes()):
                ck.und(R, f.loc(), f.name + ": " + ck.why)
            continue
        done = False
        for p in ps:
            if ctor:
                v = p.st.m.get(INV)
                if p.kind == "ret" and v == FALSE:
                    ck.bad(R, f.loc(), "%s declares its hash valid" % f.name)
                elif p.kind == "ret" and v == TRUE and not done:
                    done = True
                    ck.ok(R, f.name)
            elif "dirty" in p.auto:
                if "inv" not in p.auto:
                    ck.bad(R, f.loc(), "%s changes the content without invalidating its hash" % f.name)
                elif not done:
                    done = True
                    ck.ok(R, f.name)


MUT = ("push_back", "pop_back", "resize", "assign", "clear", "insert", "erase", "emplace_back", "swap", "fill", "operator=")


def fresh(ck):
    R = "R2-fresh"
    P = ck.P
    hs = handlers(P)
    for f in P.funcs.values():
        if f.cls not in hs or f.base != "getHash" or not f.blocks:
            continue

        def step(st, ev):
            if ev.kind == "call" and ev.name.endswith("::updateHash"):
                st.auto = st.auto | {"upd"}
        hits, ps, cl = sites(ck, f, lambda ev: ev.kind == "write", prim, step, frozenset(), gc_facts=True)
        if ps is None:
            ck.und(R, f.loc(), f.name + ": " + ck.why)
            continue
        for p in ps:
            if p.kind != "ret":
                continue
            inv0 = fact(p.facts, ("ld", INV, 0))
            old = p.ret == ("ld", CH, 0)
            if "upd" in p.auto:
                if old:
                    ck.bad(R, f.loc(), "%s answers the hash held before it was recomputed" % f.name)
                else:
                    ck.ok(R, "%s recomputes" % f.name)
            elif inv0 is False and old:
                ck.ok(R, "%s answers the valid hash" % f.name)
            elif old and f.cls and not recomputes_anyway(p):
                ck.bad(R, f.loc(), "%s answers a cached hash that may be out of date" % f.name)
            elif not old and nv(p.ret) is not None:
                ck.bad(R, f.loc(), "%s answers %s" % (f.name, pp(p.ret)))
            else:
                ck.und(R, f.loc(), f.name + ": answer not interpreted")
        pure(ck, f, hits)


def recomputes_anyway(p):
    return False


def base_this(l):
    while isinstance(l, tuple) and l and l[0] in ("F", "E"):
        if l[1] == ("*", THIS):
            return True
        l = l[1]
    return False


def pure(ck, f, hits):
    R = "R4-pure"
    n = 0
    for h in hits:
        l = h.ev.loc
        if l in (CH, INV):
            n += 1
        elif l[0] in ("F", "E") and base_this(l):
            ck.bad(R, h.at, "asking for the hash changes %s" % pp(l))
        elif l[0] == "G":
            ck.bad(R, h.at, "asking for the hash changes %s" % pp(l))
    ck.ok(R, f.name)


def function(ck):
    R = "R3-function"
    P = ck.P
    hs = handlers(P)
    out = {}
    for f in P.funcs.values():
        if f.cls not in hs or f.base != "updateHash" or not f.blocks:
            continue
        cp = short(f.cls) + "::containerPtr"

        class B(Sites):
            def loop(self, st, kind, tag, g, eng):
                if kind in ("enter", "back", "exit"):
                    self.evs.append((kind, tag, st.m.get(CH), {k: v for k, v in st.m.items() if k[0] == "L"}))
        cl = B(lambda ev: ev.kind in ("write", "call"), prim)
        cl.evs = []
        ps = paths(ck, f, cl)
        if ps is None:
            ck.und(R, f.loc(), f.name + ": " + ck.why)
            continue
        pure(ck, f, [h for h in cl.hits if h.ev.kind == "write"])
        for p in ps:
            if p.kind != "ret":
                continue
            null = [v for t, v in p.facts if t[0] == "op" and t[1] == "==" and NULL in t[2:4] and (fld_of(t[2]) == cp or fld_of(t[3]) == cp)]
            v = p.st.m.get(CH)
            if True in null:
                continue
            for x in (v, p.ret):
                if x is not None and has_sub(x, lambda s: s == ("ld", CH, 0)):
                    ck.bad(R, f.loc(), "%s: the hash depends on the previous hash" % f.name)
                    break
            if p.ret is not None and v is not None and p.ret != v:
                ck.bad(R, f.loc(), "%s answers another value than the hash it stores" % f.name)
            if v is None and not any(h.ev.kind == "write" and h.ev.loc == CH for h in cl.hits):
                ck.bad(R, f.loc(), "%s does not store the hash" % f.name)
        # every hashed value
        idh = False
        for h in cl.hits:
            if h.ev.kind == "call" and h.name in HASHFN:
                a = h.args[0] if h.args else None
                if a is None:
                    continue
                if a == ("ld", ID, 0):
                    idh = True
                elif a[0] == "ld" and fld_of(a) == cp or a[0] == "addr" or a == THIS:
                    ck.bad(R, h.at, "%s: the hash depends on a memory address" % f.name)
                elif has_sub(a, lambda s: s[0] == "call" and ("clock" in s[1] or "rand" in s[1] or "now" in s[1])):
                    ck.bad(R, h.at, "%s: the hash depends on %s" % (f.name, pp(a)))
        finals = [p.st.m.get(CH) for p in ps if p.kind == "ret"] + [v for k, t, v, m in cl.evs if k == "enter"]
        if not idh and not any(v is not None and has_sub(v, lambda s: s == ID) for v in finals):
            ck.bad(R, f.loc(), "%s: the hash does not depend on the identity of the data source" % f.name)
        # elements
        elems = [h for h in cl.hits if h.ev.kind == "call" and h.name in HASHFN and h.args and has_sub(h.args[0], lambda s: s[0] == "F" and s[2] == cp)]
        if not elems:
            if any(h.ev.kind == "call" and h.name in HASHFN and h.args and h.args[0] != ("ld", ID, 0) for h in cl.hits):
                ck.und(R, f.loc(), f.name + ": hashed content not interpreted")
            else:
                ck.bad(R, f.loc(), "%s: the hash does not depend on the content" % f.name)
            continue
        a = elems[0].args[0]
        its = [s for s in subterms(a) if s[0] in ("lit", "phi")]
        if not its:
            if a[0] == "ld" and a[1][0] == "*":
                ck.ok(R, f.name)
                out[f.cls] = ("one", [p.st.m.get(CH) for p in ps if p.kind == "ret" and p.st.m.get(CH) is not None and nv(p.st.m.get(CH)) is None], a)
            elif a[0] == "ld" and a[1][0] == "E":
                ck.bad(R, elems[0].at, "%s: only element %s is hashed" % (f.name, pp(a[1][2])))
            else:
                ck.und(R, f.loc(), f.name + ": hashed content not interpreted")
            continue
        sp = span(cl, its[0])
        if sp is None:
            ck.und(R, elems[0].at, f.name + ": range of the elements hashed not interpreted")
            continue
        if sp[0] == "from":
            if nv(sp[1]) != 0 or sp[2] is not None and (sp[2][0] == "op" or nv(sp[2]) is not None) or stops_short(elems[0].facts, its[0]):
                ck.bad(R, elems[0].at, "%s: not every element is hashed" % f.name)
                continue
        step = [v for k, t, v, m in cl.evs if k == "back" and t == its[0][1] and v is not None]
        init = [v for k, t, v, m in cl.evs if k == "enter" and t == its[0][1] and v is not None]
        loc = None
        if not any(has_sub(v, lambda s: s == a) for v in step):
            # accumulated in a local
            for k, t, v, m in cl.evs:
                if k == "back" and t == its[0][1]:
                    for L, x in m.items():
                        if has_sub(x, lambda s: s == a):
                            loc = L
            if loc is not None:
                step = [m.get(loc) for k, t, v, m in cl.evs if k == "back" and t == its[0][1]]
                init = [m.get(loc) for k, t, v, m in cl.evs if k == "enter" and t == its[0][1]]
        ph = ("phi", its[0][1], loc or CH)
        good = False
        for v in step:
            if v is None or not has_sub(v, lambda s: s == a):
                continue
            prevs = [s for s in subterms(v) if s == ph or loc is None and s[0] == "ld" and s[1] == CH]
            prev = bool(prevs)
            if prevs and ph not in prevs:
                ph = prevs[0]
            if not prev:
                ck.bad(R, elems[0].at, "%s: only the last element counts in the hash" % f.name)
            elif v[0] == "op" and v[1] in ("^", "+") and ph in v[2:4]:
                ck.bad(R, elems[0].at, "%s: the hash does not depend on the order of the elements" % f.name)
            elif v[0] == "op" and v[1] in ("&", "|"):
                ck.bad(R, elems[0].at, "%s: elements are combined with %s" % (f.name, v[1]))
            else:
                good = True
        if good:
            ck.ok(R, f.name)
            out[f.cls] = ("all", step, a, init, ph)
        elif step:
            pass
        else:
            ck.und(R, f.loc(), f.name + ": accumulation not interpreted")
    return out


def strip(t, sub):
    if not isinstance(t, tuple) or not t:
        return t
    if t in sub:
        return sub[t]
    if t[0] == "call":
        return ("call", t[1].rsplit("::", 1)[-1] if "Hash" not in t[1] and "hash" not in t[1] else "H", tuple(strip(x, sub) for x in t[3]))
    if t[0] == "op" and t[1] in ("^", "|", "+", "*", "&"):
        a, b = sorted((strip(t[2], sub), strip(t[3], sub)), key=repr)
        return ("op", t[1], a, b)
    if t[0] in ("op", "un"):
        return t[:2] + tuple(strip(x, sub) for x in t[2:])
    return t


def alike(ck, vals):
    R = "R5-alike"
    n = 0
    for c, x in vals.items():
        if x[0] != "one":
            continue
        arg = c[c.find("<"):]
        for d, y in vals.items():
            if y[0] != "all" or d[d.find("<"):] != arg:
                continue
            if not x[1] or len(set(map(repr, y[3]))) != 1:
                ck.und(R, c, "hash of a single value not interpreted")
                continue
            init = y[3][0]
            steps = {strip(v, {y[2]: ("X",), y[4]: strip(init, {})}) for v in y[1] if v is not None and has_sub(v, lambda s: s == y[2])}
            ones = {strip(v, {x[2]: ("X",)}) for v in x[1]}
            n += 1
            if steps & ones:
                ck.ok(R, "%s and %s" % (c, d))
            elif all(only(v) for v in steps | ones):
                ck.bad(R, c, "a snapshot of a %s does not hash like it" % c)
            else:
                ck.und(R, c, "hashes of %s and %s not compared" % (c, d))
    if not n:
        ck.und(R, "", "no pair of hash functions to compare")


def only(t):
    return all(s[0] in ("op", "call", "X", "c", "ld", "F", "*", "this", "un") for s in subterms(t) if isinstance(s, tuple) and s and isinstance(s[0], str))


def combined(ck):
    R = "R6-combined"
    f = ck.P.one("Archive::getCombinedHash")
    cl = Sites(is_call("getHash"), named("getHash"))
    ps = paths(ck, f, cl)
    if ps is None:
        return ck.und(R, f.loc(), ck.why)
    if not cl.hits:
        return ck.und(R, f.loc(), "hashes of the data sources not found")
    for p in ps:
        if p.kind == "ret" and p.ret is not None and has_sub(p.ret, lambda z: z[0] == "G"):
            return ck.bad(R, f.loc(), "the combined hash depends on earlier calls")
    for h in cl.hits:
        its = [s for s in subterms(h.o) if s[0] in ("lit", "phi")]
        sp = span(cl, its[0]) if its else None
        if not its:
            ck.bad(R, h.at, "the combined hash only takes one data source into account")
        elif sp is None:
            ck.und(R, h.at, "data sources combined not interpreted")
        elif sp[0] == "from" and (nv(sp[1]) != 0 or sp[2] is not None and (sp[2][0] == "op" or nv(sp[2]) is not None) or stops_short(h.facts, its[0])):
            ck.bad(R, h.at, "the combined hash skips data sources")
        else:
            tag = its[0][1]
            accs = {L for L, s in ((cl.loops.get(tag) or {}).get("step") or {}).items() if any(has_sub(x, lambda z: z[0] == "call" and z[1].endswith("getHash")) for x in s)}
            prev = any(has_sub(x, lambda z: z == ("phi", tag, L)) for L in accs for x in cl.loops[tag]["step"][L])
            if accs and not prev:
                ck.bad(R, h.at, "only the last data source counts in the combined hash")
            elif accs and not any(p.kind == "ret" and p.ret is not None and has_sub(p.ret, lambda z: z[0] == "phi" and z[2] in accs) for p in ps):
                ck.bad(R, f.loc(), "the combined hash answered is not the one computed")
            else:
                ini = [x for L in accs for x in (cl.loops[tag].get("init") or {}).get(L, ())]
                if any(has_sub(x, lambda z: z[0] in ("G", "this")) for x in ini):
                    ck.bad(R, f.loc(), "the combined hash depends on earlier calls")
                ck.ok(R, "combined hash")


def identity(ck):
    R = "R7-identity"
    for f in ck.P.find(DHC + "::DataHandler"):
        if f.params:
            continue
        ps = paths(ck, f, Sites(lambda e: False))
        if ps is None:
            return ck.und(R, f.loc(), ck.why)
        for p in ps:
            if p.kind != "ret":
                continue
            v = p.st.m.get(ID)
            w = [x for k, x in p.st.m.items() if k[0] == "G" and "DataHandler" in str(k[1])]
            if v is None:
                ck.bad(R, f.loc(), "a new data source has no identity")
            elif has_sub(v, lambda s: s[0] == "G") or has_sub(v, lambda s: s[0] == "call"):
                if has_sub(v, lambda s: s[0] == "G") and not w:
                    ck.bad(R, f.loc(), "two new data sources get the same identity")
                else:
                    ck.ok(R, "identities are distinct")
            elif v[0] in ("c", "ilist") and not has_sub(v, lambda s: s[0] not in ("c", "ilist")):
                ck.bad(R, f.loc(), "every data source gets identity %s" % pp(v))
            else:
                ck.und(R, f.loc(), "identity not interpreted: %s" % pp(v))

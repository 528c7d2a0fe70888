"""C18: data sources refuse invalid accesses."""
from ..core import *
from ..flow import entails_lt

DHC, AW, A2, PW = "Data::DataHandler", "Data::ArrayWrapper", "Data::Array2DWrapper", "Data::PointerWrapper"
NB, W, H = (("ld", TF(x), 0) for x in (AW + "::nbElements", A2 + "::width", A2 + "::height"))
prim = named("getAddressSpace")
READ = ("at", "operator[]", "front", "back", "data")


def check(ck):
    P = ck.P
    for c, f in ((AW, "containerPtr"), (AW, "nbElements"), (A2, "width"), (A2, "height"), (PW, "containerPtr")):
        P.need_field(c, f)
    ck.rule("R1-bound", "data is only read through a container pointer that is known not to be null; otherwise an exception is thrown", 3)
    ck.rule("R2-checked", "data is only returned or set after the type and the location were checked against the address space", 4)
    ck.rule("R3-space", "the address space announced for a type is the number of its valid locations", 4)
    ck.rule("R4-elements", "the elements returned or listed for a location are those at this location", 4)
    ck.rule("R5-handled", "a type is handled exactly when its address space is not empty", 2)
    ck.rule("R6-scaled", "raw locations are wrapped by the address space of the requested type", 1)
    hs = [c for c in P.derived_short(DHC)]
    fs = [f for f in P.funcs.values() if f.cls in hs and f.blocks and not f.r.get("implicit")]
    for f in fs:
        if f.base == "getDataAt":
            access(ck, f, True)
        elif f.base == "setDataAt":
            access(ck, f, False)
        elif f.base == "getAddressSpace":
            space(ck, f)
        elif f.base == "getLargestAddressSpace":
            largest(ck, f)
        elif f.base == "getAddressesAccessed":
            listed(ck, f)
        elif f.base == "canHandle":
            handled(ck, f)
        elif f.base == "scaleLocation":
            scaled(ck, f)


def cp(f):
    return (PW if f.scls == PW else AW) + "::containerPtr"


def is_space(t):
    """a call to getAddressSpace for the requested type (the first parameter)"""
    return t[0] == "call" and t[1].endswith("::getAddressSpace") and t[3] and has_sub(t[3][0], lambda s: s == ("p", 0))


def native(facts):
    """True/False/None: the requested type is the type of the elements"""
    for t, v in facts:
        if t[0] == "op" and t[1] == "==" and any(has_sub(x, lambda s: s[0] == "typeid") for x in t[2:4]) and \
                any(has_sub(x, lambda s: s == ("p", 0)) for x in t[2:4]):
            return v
    return None


def access(ck, f, get):
    P = ck.P
    fld = cp(f)
    ptr = ("ld", TF(fld), 0)
    one = f.scls == PW
    tp, ad = ("p", 0), ("p", 1)
    hits, ps, cl = sites(ck, f, lambda ev: ev.kind in ("call", "write", "read", "new"), lambda g: prim(g) and g.sname != f.sname, gc_facts="all")
    if ps is None:
        ck.und("R2-checked", f.loc(), f.name + ": " + ck.why)
        return
    if get:
        for h in hits:
            if h.ev.kind == "call" and h.base in READ and h.o and has_sub(h.o, lambda s: s == ptr):
                null(ck, f, h.facts, ptr, h.at)
        for p in ps:
            if p.kind == "ret":
                null(ck, f, p.facts, ptr, f.loc())
    ok = False
    for p in ps:
        if p.kind != "ret":
            continue
        nat = native(p.facts)
        bounds, other = [], []
        empty = None
        for t, v in p.facts:
            if t[0] == "op" and t[1] == "<" and ad in t[2:4]:
                if t[2] == ad and v:
                    bounds.append((t[3], 0))
                elif t[3] == ad and not v:
                    bounds.append((t[2], 1))
                else:
                    other.append(t)
            elif t[0] == "op" and t[1] == "==" and ad in t[2:4]:
                x = t[3] if t[2] == ad else t[2]
                if v and nv(x) is not None:
                    bounds.append((C(nv(x) + 1), 0))
                elif not v and nv(x) is None:
                    other.append(t)
            elif t[0] == "op" and has_sub(t, lambda s: s == ad):
                other.append(t)
            if t[0] == "op" and t[1] in ("==", "<") and nv(t[2]) == 0 and is_space(t[3]):
                empty = (t[1] == "==") == v
        what = "returns data" if get else "sets data"
        # location
        if one:
            good = any(nv(b) is not None and nv(b) + k <= 1 or k == 0 and is_space(b) for b, k in bounds)
        else:
            good = any(k == 0 and (is_space(b) or b == NB and nat) for b, k in bounds)
        if good:
            pass
        elif other:
            ck.und("R2-checked", f.loc(), f.name + ": check of the location not interpreted")
            continue
        elif not bounds:
            ck.bad("R2-checked", f.loc(), "%s %s without checking the location" % (f.name, what))
            continue
        elif any(k == 1 and (is_space(b) or b == NB or one and nv(b) is not None) for b, k in bounds):
            ck.bad("R2-checked", f.loc(), "%s accepts the location that follows the last one" % f.name)
            continue
        elif all(b == NB or b == ("size", ("*", ptr), 0) for b, k in bounds) and nat is not True:
            ck.bad("R2-checked", f.loc(), "%s checks the location of every type against the number of elements" % f.name)
            continue
        elif one and all(nv(b) is not None for b, k in bounds):
            ck.bad("R2-checked", f.loc(), "%s accepts a location that does not exist" % f.name)
            continue
        else:
            ck.und("R2-checked", f.loc(), f.name + ": check of the location not interpreted")
            continue
        # type (a location below the space implies the space is not empty)
        if one and nat is not True and not any(is_space(b) for b, k in bounds):
            if nat is False:
                ck.bad("R2-checked", f.loc(), "%s %s of a type it does not provide" % (f.name, what))
            elif any(has_sub(t, lambda s: s == tp) for t, v in p.facts if t != ("op", "==", NULL, tp)):
                ck.und("R2-checked", f.loc(), f.name + ": check of the type not interpreted")
            else:
                ck.bad("R2-checked", f.loc(), "%s %s without checking the type" % (f.name, what))
            continue
        ok = True
    if ok:
        ck.ok("R2-checked", f.name)
    if get:
        elements(ck, f, hits, ps, cl)
    else:
        for h in hits:
            if h.ev.kind == "write" and h.ev.loc[0] == "E" and fld_of(("ld", h.ev.loc[1], 0)) and h.ev.loc[1][0] == "F" and h.ev.loc[1][2].endswith("::data"):
                if h.ev.loc[2] != ad:
                    if atoms(h.ev.loc[2]) <= {ad, NB, W, H} | {x for x in atoms(h.ev.loc[2]) if nv(x) is not None}:
                        ck.bad("R4-elements", h.at, "%s sets element %s" % (f.name, pp(h.ev.loc[2])))
                    else:
                        ck.und("R4-elements", h.at, f.name + ": element not interpreted")
                elif h.ev.val not in (("p", 2), ("ld", ("*", ("p", 2)), 0)) and not has_sub(h.ev.val, lambda s: s == ("p", 2)):
                    ck.bad("R4-elements", h.at, "%s sets %s" % (f.name, pp(h.ev.val)))
                else:
                    ck.ok("R4-elements", f.name)


def null(ck, f, facts, ptr, at):
    R = "R1-bound"
    v = fact(facts, ("op", "==", NULL, ptr))
    if v is None:
        v = fact(facts, ("op", "==", ptr, NULL))
    if v is False:
        ck.ok(R, f.name)
    elif v is True:
        ck.bad(R, at, "%s reads through a null container pointer" % f.name)
    elif not any(has_sub(t, lambda s: s == ptr) for t, w in facts):
        ck.bad(R, at, "%s reads through a container pointer that may be null" % f.name)
    else:
        ck.und(R, at, f.name + ": check of the container pointer not interpreted")


def dims(t):
    """canonical symbols for what getAddressSpace and the class announce"""
    if t[0] == "out" and t[1] == "getAddressSpace":
        return ("DIM", t[2])
    if is_space(t):
        return ("SPACE",)
    return t


def canon(t):
    if not isinstance(t, tuple) or not t:
        return t
    d = dims(t)
    if d != t:
        return d
    if t[0] == "op":
        return t[:2] + tuple(canon(x) for x in t[2:])
    if t[0] == "ld" and t[1] in (NB[1], W[1], H[1]):
        return ("ld", t[1], 0)
    if t[0] == "size" and has_sub(t[1], lambda s: s[0] == "F" and s[2] == AW + "::containerPtr"):
        return NB
    return t


AD = ("p", 1)
SP, D1, D2 = ("SPACE",), ("DIM", 1), ("DIM", 2)
STRIDE = ("op", "+", ("op", "-", W, D2), ("c", 1))
BASE2 = ("op", "+", ("op", "*", ("op", "/", AD, STRIDE), W), ("op", "%", AD, STRIDE))


def judge_index(ck, R, f, at, i, cl, what):
    """index of an element of an array type"""
    i0 = i
    i = canon(i)
    phis = [a for a in atoms(i) if a[0] == "phi"]
    rest = {a for a in atoms(i) if a[0] != "phi"}
    known = {AD, NB, W, H, SP, D1, D2}
    if any(a not in known and nv(a) is None for a in rest):
        return ck.und(R, at, "%s: %s not interpreted" % (f.name, what))
    spans = {}
    for ph in phis:
        sp = span(cl, ph)
        if sp is None or sp[0] != "from" or nv(sp[1]) is None:
            return ck.und(R, at, "%s: loop over %s not interpreted" % (f.name, what))
        spans[ph] = sp
    two = f.scls.startswith(A2)
    if len(phis) != (2 if two else 1):
        if not phis:
            return ck.bad(R, at, "%s: every element %s is element %s" % (f.name, what, pp(i0)))
        return ck.und(R, at, "%s: loops over %s not interpreted" % (f.name, what))
    p = pkey(poly(i))
    if two:
        want = []
        for a, b in (phis, phis[::-1]):
            want.append((pkey(poly(("op", "+", BASE2, ("op", "+", ("op", "*", a, W), b)))), a, b))
        m = [w for w in want if w[0] == p]
        if not m:
            return ck.bad(R, at, "%s: element %s is at %s" % (f.name, what, pp(i0)))
        bounds = ((m[0][1], D1), (m[0][2], D2))
    else:
        if p != pkey(poly(("op", "+", AD, phis[0]))):
            return ck.bad(R, at, "%s: element %s is at %s" % (f.name, what, pp(i0)))
        bounds = ((phis[0], ("op", "+", ("op", "-", NB, SP), ("c", 1))),)
    for ph, b in bounds:
        sp = spans[ph]
        if nv(sp[1]) != 0:
            ck.bad(R, at, "%s: elements %s start at %s" % (f.name, what, pp(sp[1])))
        elif sp[2] is None:
            ck.und(R, at, "%s: number of elements %s not interpreted" % (f.name, what))
        else:
            c = canon(sp[2])
            if pkey(poly(c)) == pkey(poly(b)):
                ck.ok(R, f.name)
            elif all(a in known or nv(a) is not None for a in atoms(c)):
                ck.bad(R, at, "%s: number of elements %s is %s" % (f.name, what, pp(sp[2])))
            else:
                ck.und(R, at, "%s: number of elements %s not interpreted" % (f.name, what))


def elements(ck, f, hits, ps, cl):
    R = "R4-elements"
    fld = cp(f)
    if f.scls == PW:
        for p in ps:
            if p.kind == "ret" and p.ret is not None:
                if has_sub(p.ret, lambda s: s == ("ld", TF(fld), 0)):
                    ck.ok(R, f.name)
                else:
                    ck.und(R, f.loc(), f.name + ": returned data not interpreted")
        return
    seen = set()
    for h in hits:
        if h.ev.kind == "call" and h.base in ("at", "operator[]") and h.o and has_sub(h.o, lambda s: s[0] == "F" and s[2] == fld) and h.args:
            i = h.args[0]
            nat = native(h.facts)
            if (h.at, i, nat) in seen:
                continue
            seen.add((h.at, i, nat))
            if nat is True:
                if i == AD:
                    ck.ok(R, f.name)
                elif atoms(canon(i)) <= {AD, NB, W, H, SP} | {x for x in atoms(i) if nv(x) is not None}:
                    ck.bad(R, h.at, "%s: element returned is at %s" % (f.name, pp(i)))
                else:
                    ck.und(R, h.at, f.name + ": element returned not interpreted")
            elif nat is False:
                judge_index(ck, R, f, h.at, i, cl, "returned")
            else:
                ck.und(R, h.at, f.name + ": type of the element not interpreted")


def listed(ck, f):
    R = "R4-elements"
    hits, ps, cl = sites(ck, f, lambda ev: ev.kind == "call" and ev.base in ("push_back", "emplace_back"), prim, gc_facts="all")
    if ps is None:
        return ck.und(R, f.loc(), f.name + ": " + ck.why)
    seen = set()
    for h in hits:
        if not h.args:
            continue
        i = h.args[0]
        nat = native(h.facts)
        sp = [t for t, v in h.facts if v and t[0] == "op" and t[1] == "<" and t[2] == AD and is_space(t[3])]
        le = [t for t, v in h.facts if not v and t[0] == "op" and t[1] == "<" and t[3] == AD and is_space(t[2])]
        if le and not sp:
            ck.bad("R2-checked", h.at, "%s lists addresses for the location that follows the last one" % f.name)
        elif not sp and not any(has_sub(t, lambda s: s == AD) for t, v in h.facts) and f.scls != PW:
            ck.bad("R2-checked", h.at, "%s lists addresses of a location it did not check" % f.name)
        if (h.at, i, nat) in seen:
            continue
        seen.add((h.at, i, nat))
        if f.scls == PW:
            if nv(i) == 0 or i == AD:
                ck.ok(R, f.name)
            elif nv(i) is not None:
                ck.bad(R, h.at, "%s lists address %s" % (f.name, pp(i)))
        elif nat is True:
            if i == AD:
                ck.ok(R, f.name)
            elif atoms(canon(i)) <= {AD, NB, W, H, SP} | {x for x in atoms(i) if nv(x) is not None}:
                ck.bad(R, h.at, "%s: address listed is %s" % (f.name, pp(i)))
            else:
                ck.und(R, h.at, f.name + ": address listed not interpreted")
        elif nat is False:
            judge_index(ck, R, f, h.at, i, cl, "listed")
        else:
            ck.und(R, h.at, f.name + ": type of the address not interpreted")
    if not hits:
        ck.und(R, f.loc(), f.name + ": no address listed")


def size_syms(t):
    """sizes parsed from the name of the requested type"""
    out = []
    for a in atoms(t):
        if a[0] == "call" and a[1].rsplit("::", 1)[-1] in ("atoi", "stoi", "stol", "stoul", "atol", "strtol", "strtoul", "stoull") and a not in out:
            out.append(a)
    return out


def group(a):
    """which group of the regular expression a size was parsed from"""
    g = [nv(s[2]) for s in subterms(a) if s[0] == "E" and nv(s[2]) is not None]
    return g[0] if len(set(g)) == 1 else None


def ngroup(facts, n):
    for t, v in facts:
        if has_sub(t, lambda s: s[0] == "F" and str(s[2]).endswith("::matched") and s[1][0] == "E" and nv(s[1][2]) == n):
            return v
    return None


def fits(facts, a, b):
    """a <= b on this path?"""
    for t, v in facts:
        if t[0] == "op" and t[1] == "<":
            if t[2] == b and t[3] == a:
                return not v
            if t[2] == a and t[3] == b:
                return "strict" if v else False
    return None


def space(ck, f):
    R = "R3-space"

    def step(st, ev):
        if ev.kind == "write" and ev.loc in (("*", ("p", 1)), ("*", ("p", 2))):
            st.auto = tuple(x for x in st.auto if x[0] != ev.loc[1][1]) + ((ev.loc[1][1], ev.val),)
    hits, ps, cl = sites(ck, f, lambda ev: ev.kind == "call" and ev.base in ("emplace", "insert", "try_emplace", "insert_or_assign"), None, step, (),
                         gc_facts="all")
    if ps is None:
        return ck.und(R, f.loc(), f.name + ": " + ck.why)
    two = f.scls.startswith(A2)
    if f.scls == PW:
        for p in ps:
            if p.kind == "ret":
                n, v = native(p.facts), nv(p.ret)
                if v is None or n is None:
                    ck.und(R, f.loc(), f.name + ": address space not interpreted")
                elif v != (1 if n else 0):
                    ck.bad(R, f.loc(), "%s announces %d location(s) for %s type" % (f.name, v, "its own" if n else "another"))
                else:
                    ck.ok(R, f.name)
        return
    good = False
    for p in ps:
        if p.kind != "ret" or p.ret is None:
            continue
        nat = native(p.facts)
        r = p.ret
        if from_cache(r, two):
            for s in subterms(r):
                if s[0] == "E" and has_sub(s[1], is_cache):
                    keyed(ck, R, f, f.loc(), s[1], s[2], two, "gives back")
            b = cached_part(r)
            if two and b not in (None, 0):
                ck.bad(R, f.loc(), "%s announces a cached dimension" % f.name)
            good = True
            continue
        if nat is True:
            nb0 = fact(p.facts, ("op", "==", ("c", 0), NB))
            if r == NB:
                good = True
            elif nb0 is True:
                continue
            elif all(a in (NB, W, H) or nv(a) is not None for a in atoms(r)):
                if two and pkey(poly(r)) == pkey(poly(("op", "*", W, H))):
                    continue
                ck.bad(R, f.loc(), "%s announces %s locations for its own type" % (f.name, pp(r)))
            else:
                ck.und(R, f.loc(), f.name + ": address space not interpreted")
            continue
        if nv(r) == 0:
            # a fitting type must not be refused
            refused(ck, R, f, p)
            continue
        if nat is None:
            if not has_sub(r, lambda s: s[0] in ("p", "call")):
                ck.bad(R, f.loc(), "%s announces %s locations whatever the type" % (f.name, pp(r)))
            else:
                ck.und(R, f.loc(), f.name + ": address space not interpreted")
            continue
        good |= bool(formula(ck, R, f, p, r, two))
    for h in hits:
        if h.ev.kind == "call" and h.o and has_sub(h.o, is_cache):
            cache(ck, R, f, h, ps, two)
    if two and len(f.params) == 3:
        outs(ck, R, f, ps)
    if good:
        ck.ok(R, f.name)


def from_cache(t, two):
    return has_sub(t, is_cache)


def is_cache(s):
    return s[0] == "F" and str(s[2]).endswith("::cachedAddressSpace") or s[0] == "G"


def keyed(ck, R, f, at, cont, key, two, what):
    """what is remembered may only be given back to a question with the same answer"""
    shared = has_sub(cont, lambda s: s[0] == "G")
    if has_sub(key, lambda s: s[0] in ("phi", "lit", "any")):
        return True
    if not has_sub(key, lambda s: s == ("p", 0)):
        ck.bad(R, at, "%s %s an address space whatever the type" % (f.name, what))
        return False
    if shared and not all(has_sub(key, lambda s: s == x) for x in ((W, H) if two else (NB,))):
        ck.bad(R, at, "%s %s an address space shared with sources of other sizes" % (f.name, what))
        return False
    return True


def cached_part(t):
    for s in subterms(t):
        if s[0] == "F" and str(s[2]).startswith("std::tuple::"):
            return int(s[2][12:])
    return None


def refused(ck, R, f, p):
    pass


def formula(ck, R, f, p, r, two):
    syms = size_syms(r)
    if any(a not in (NB, W, H) and nv(a) is None and a not in syms for a in atoms(r)):
        return ck.und(R, f.loc(), f.name + ": address space not interpreted: " + pp(r))
    if not two:
        if not syms:
            return ck.bad(R, f.loc(), "%s announces %s locations for an array type" % (f.name, pp(r)))
        n = syms[0]
        if len(syms) > 1:
            return ck.und(R, f.loc(), f.name + ": address space not interpreted: " + pp(r))
        if pkey(poly(r)) != pkey(poly(("op", "+", ("op", "-", NB, n), ("c", 1)))):
            return ck.bad(R, f.loc(), "%s announces %s locations for an array type" % (f.name, pp(r)))
        return fit(ck, R, f, p, n, NB, "number of elements")
    # two dimensions
    two_d, one_d = ngroup(p.facts, 4), ngroup(p.facts, 2)
    gs = {group(a): a for a in syms}
    if one_d is False:
        return True  # the expression cannot match without its first size
    if None in gs or two_d is None or one_d is None:
        if not syms:
            return ck.bad(R, f.loc(), "%s announces %s locations for an array type" % (f.name, pp(r)))
        return ck.und(R, f.loc(), f.name + ": address space not interpreted: " + pp(r))
    if two_d:
        h, w = gs.get(2), gs.get(4)
    else:
        h, w = ("c", 1), gs.get(2)
    if h is None or w is None or len(gs) > (2 if two_d else 1):
        return ck.bad(R, f.loc(), "%s ignores a size of the type: %s" % (f.name, pp(r)))
    one = ("c", 1)
    want = ("op", "*", ("op", "+", ("op", "-", H, h), one), ("op", "+", ("op", "-", W, w), one))
    if pkey(poly(r)) != pkey(poly(want)):
        return ck.bad(R, f.loc(), "%s announces %s locations for an array type" % (f.name, pp(r)))
    return fit(ck, R, f, p, h, H, "height") and fit(ck, R, f, p, w, W, "width")


def fit(ck, R, f, p, a, b, what):
    v = fits(p.facts, a, b)
    if v is True:
        return True
    if v == "strict":
        return ck.bad(R, f.loc(), "%s refuses an array as large as its %s" % (f.name, what)) if False else True
    if v is False:
        ck.bad(R, f.loc(), "%s accepts an array larger than its %s" % (f.name, what))
    elif nv(a) is None and any(has_sub(t, lambda s: s == a) and t[0] == "op" for t, w in p.facts):
        if entails_lt(a, b, p.facts, strict=False):
            return True
        if all(y in (NB, W, H) or nv(y) is not None or y in size_syms(y) for t, w in p.facts if t[0] == "op" and has_sub(t, lambda s: s == a)
               for x in t[2:4] for y in atoms(x)):
            return ck.bad(R, f.loc(), "%s does not refuse an array larger than its %s" % (f.name, what))
        ck.und(R, f.loc(), "%s: comparison with its %s not interpreted" % (f.name, what))
    elif nv(a) is not None:
        return True
    else:
        ck.bad(R, f.loc(), "%s does not compare the size of the array with its %s" % (f.name, what))
    return False


def cache(ck, R, f, h, ps, two):
    """the value remembered is the value answered on the same path"""
    v = h.args[1] if len(h.args) > 1 else h.args[0][2] if h.args and h.args[0][0] == "pair" else None
    if v is None:
        return ck.und(R, h.at, f.name + ": remembered address space not interpreted")
    key = h.args[0] if len(h.args) > 1 else h.args[0][1]
    if not keyed(ck, R, f, h.at, h.o, key, two, "remembers"):
        return
    v0 = v[1] if v[0] == "tuple" and len(v) > 1 else v
    rets = {p.ret for p in ps if p.kind == "ret" and p.ret is not None}
    if two and v[0] == "tuple" and len(v) == 4 and native(h.facts) is False:
        gs = [group(x) if nv(x) is None else "1" for x in v[2:4]]
        d2 = ngroup(h.facts, 4)
        if ngroup(h.facts, 2) is not False and d2 is not None and gs != ([2, 4] if d2 else ["1", 2]) and None not in gs:
            ck.bad(R, h.at, "%s remembers other dimensions than those of the type" % f.name)
    if any(pkey(poly(v0)) == pkey(poly(r)) for r in rets):
        ck.ok(R, "%s remembers what it answers" % f.name)
    elif all(a in (NB, W, H) or nv(a) is not None or a in size_syms(v0) for a in atoms(v0)):
        ck.bad(R, h.at, "%s remembers %s, which is not what it answered" % (f.name, pp(v0)))
    else:
        ck.und(R, h.at, f.name + ": remembered address space not interpreted")


def outs(ck, R, f, ps):
    for p in ps:
        if p.kind != "ret" or p.ret is None or nv(p.ret) is not None:
            continue
        cached = from_cache(p.ret, True)
        if not cached and native(p.facts) is not False:
            continue
        d2 = ngroup(p.facts, 4)
        if not cached and (ngroup(p.facts, 2) is not True or d2 is None):
            continue
        for k in (1, 2):
            if fact(p.facts, ("op", "==", NULL, ("p", k))) is not False:
                continue
            v = dict(p.auto).get(k)
            if v is None:
                ck.bad(R, f.loc(), "%s does not tell dimension %d of the type" % (f.name, k))
                continue
            if cached:
                g = cached_part(v)
                if g is not None and g != k:
                    ck.bad(R, f.loc(), "%s tells element %d of the remembered sizes as dimension %d" % (f.name, g, k))
            else:
                g = "1" if nv(v) == 1 else group(v)
                want = {1: 2 if d2 else "1", 2: 4 if d2 else 2}[k]
                if g is not None and g != want:
                    ck.bad(R, f.loc(), "%s tells %s as dimension %d" % (f.name, pp(v), k))


def largest(ck, f):
    R = "R3-space"
    ps = allpaths(ck, f, prim)
    if ps is None:
        return ck.und(R, f.loc(), f.name + ": " + ck.why)
    for p in ps:
        if p.kind != "ret" or p.ret is None:
            continue
        r = canon(p.ret)
        if f.scls == PW and nv(r) == 1 or f.scls != PW and pkey(poly(r)) in (pkey(poly(NB)), pkey(poly(("op", "*", W, H)))):
            ck.ok(R, f.name)
        elif all(a in (NB, W, H) or nv(a) is not None for a in atoms(r)):
            ck.bad(R, f.loc(), "%s announces %s as largest address space" % (f.name, pp(p.ret)))
        else:
            ck.und(R, f.loc(), f.name + ": largest address space not interpreted")


def handled(ck, f):
    R = "R5-handled"
    ps = allpaths(ck, f, prim)
    if ps is None:
        return ck.und(R, f.loc(), f.name + ": " + ck.why)
    for p in ps:
        if p.kind != "ret" or p.ret is None:
            continue
        nat = native(p.facts)
        r = p.ret
        if r == TRUE:
            if nat is True or any(v is True and t[0] == "op" and t[1] == "<" and nv(t[2]) == 0 and is_space(t[3]) or
                                  v is False and t[0] == "op" and t[1] == "==" and nv(t[2]) == 0 and is_space(t[3]) for t, v in p.facts):
                ck.ok(R, f.name)
            else:
                ck.bad(R, f.loc(), "%s claims to handle a type it does not provide" % f.name)
        elif r == FALSE:
            if nat is True:
                ck.bad(R, f.loc(), "%s refuses its own type" % f.name)
            elif f.scls != PW and not any(has_sub(t, is_space) for t, v in p.facts):
                ck.bad(R, f.loc(), "%s refuses every array type" % f.name)
            elif any(v is True and t[0] == "op" and t[1] == "<" and nv(t[2]) == 0 and is_space(t[3]) for t, v in p.facts):
                ck.bad(R, f.loc(), "%s refuses a type it provides" % f.name)
        elif r[0] == "op" and r[1] == "<" and nv(r[2]) == 0 and is_space(r[3]):
            ck.ok(R, f.name)
        elif r[0] == "op" and r[1] == "<" and is_space(r[3]) and nv(r[2]) is not None:
            ck.bad(R, f.loc(), "%s refuses a type with a single location" % f.name)
        elif native([(r, True)]) is True and f.scls == PW or r[0] in ("un", "not") and has_sub(r, is_space):
            ck.ok(R, f.name)
        else:
            ck.und(R, f.loc(), f.name + ": answer not interpreted")


def scaled(ck, f):
    R = "R6-scaled"
    ps = allpaths(ck, f, prim)
    if ps is None:
        return ck.und(R, f.loc(), f.name + ": " + ck.why)
    for p in ps:
        if p.kind != "ret" or p.ret is None:
            continue
        r = p.ret
        sp = [s for s in subterms(r) if s[0] == "call" and s[1].endswith("::getAddressSpace")]
        raw, ty = ("p", 0), ("p", 1)
        if r == raw and any(v and t[0] == "op" and t[1] == "<" and t[2] == raw and t[3][0] == "call" for t, v in p.facts):
            ck.ok(R, f.name)
        elif r[0] == "op" and r[1] == "%" and r[2] == raw and r[3] in sp and has_sub(r[3][3][0], lambda s: s == ty):
            ck.ok(R, f.name)
        elif not sp:
            if any(s[0] == "call" for s in subterms(r)) and not any(s[0] == "call" and s[1].endswith("getLargestAddressSpace") for s in subterms(r)):
                ck.und(R, f.loc(), f.name + ": not interpreted")
            else:
                ck.bad(R, f.loc(), "%s answers %s: locations are not wrapped by the address space of the type" % (f.name, pp(r)))
        elif r[0] == "op" and all(a in sp or a == raw or nv(a) is not None for a in atoms(r)):
            ck.bad(R, f.loc(), "%s answers %s" % (f.name, pp(r)))
        else:
            ck.und(R, f.loc(), f.name + ": not interpreted")

"""C19: copies are complete and memory is owned once."""
from ..core import *

PTA, PTA2 = "Data::PrimitiveTypeArray", "Data::PrimitiveTypeArray2D"
SRC = ("*", ("p", 0))


def copies(P):
    """user-written copy constructors and assignments: (func, class) pairs"""
    out = []
    for f in P.funcs.values():
        if not f.blocks or f.r.get("implicit") or f.r.get("defaulted") or not f.cls or len(f.params) != 1 or "harness" in f.file:
            continue
        if "/gegelatilib/" not in f.file:
            continue
        b = f.base
        t = f.params[0].get("t", "")
        if not t.startswith("const ") or not t.endswith("&") or t.endswith("&&"):
            continue
        src = t[6:-1].strip()
        c = f.scls.rsplit("::", 1)[-1]
        if b == c and src == f.cls or b == "operator=" and src == f.cls:
            out.append(f)
    return out


def check(ck):
    P = ck.P
    ck.rule("R1-complete", "a copy constructor or assignment carries over every field from the same field of the source", 8)
    ck.rule("R2-deep", "copies own their content: every line, operand and element is duplicated and no pointer into the source is kept", 5)
    ck.rule("R3-clone", "cloning returns a new, separately owned object with the same content", 3)
    ck.rule("R4-released", "whatever is allocated by a class is released by it exactly once", 4)
    ck.rule("R5-virtual", "objects released through a base class have a virtual destructor", 5)
    for f in copies(P):
        one_copy(ck, f)
    snapshots(ck)
    lines(ck)
    clones(ck)
    released(ck)
    virtuals(ck)
    moves(ck)


def drop_size(t):
    if isinstance(t, tuple):
        if t and t[0] == "size":
            return ("size",)
        return tuple(drop_size(x) for x in t)
    return t


def has_src(v, fld):
    v = drop_size(v)
    return has_sub(v, lambda s: s[0] in ("F", "fref") and len(s) > 2 and s[2] == fld and has_sub(s[1], lambda z: z == ("p", 0)))


def one_copy(ck, f):
    R = "R1-complete"
    P = ck.P
    assign = f.base == "operator="
    flds = []
    for c in P.bases_of(f.cls):
        if c in P.classes and not c.startswith("std::"):
            sc = short(c)
            flds += [(sc + "::" + x["n"], x) for x in P.classes[c]["fields"] if not x.get("static")]
    cl = Sites(lambda ev: ev.kind == "write" or ev.kind == "call")
    ps = paths(ck, f, cl)
    if ps is None:
        return ck.und(R, f.loc(), "%s: %s" % (f.name, ck.why))
    own = f.scls
    for p in ps:
        if p.kind != "ret":
            continue
        for q, x in flds:
            loc = TF(q)
            v = p.st.m.get(loc)
            touched = [h for h in cl.hits if h.ev.kind == "write" and has_sub(h.ev.loc, lambda s: s == loc)]
            if q.endswith("::invalidCachedHash") or q.endswith("::cachedHash") or q in (PTA + "::data", PTA2 + "::data"):
                continue
            if assign:
                if x["t"].endswith("&") or x.get("const") or q.endswith("::id"):
                    continue
                if not q.startswith(own + "::"):
                    continue  # base part: identity and geometry of the assigned object
            if v is None:
                if assign:
                    same = fact(p.facts, ("op", "==", ("p", 0), ("this",))) or fact(p.facts, ("op", "==", ("this",), ("p", 0)))
                    if same or touched:
                        continue
                    ck.bad(R, f.loc(), "%s leaves %s as it was" % (f.name, q))
                elif not touched:
                    ck.bad(R, f.loc(), "%s does not copy %s" % (f.name, q))
            elif has_src(v, q):
                ck.ok(R, "%s of %s" % (q, f.name))
            elif v == ("addr", TF(PTA + "::data")) or v == ("addr", TF(PTA2 + "::data")):
                ck.ok("R2-deep", "%s points to the copy's own data" % q)
            elif has_sub(v, lambda s: s[0] == "F" and s[1] == ("*", ("this",)) or s[0] in ("phi", "lit")) or touched and len(touched) > 1:
                # allocated, then filled: the content rules decide
                pass
            elif q == "Program::Line::operands" or q == "Program::Program::lines":
                pass
            elif q == "Mutator::RNG::engine":
                if has_src(v, q):
                    ck.ok(R, q)
                else:
                    ck.bad(R, f.loc(), "%s does not take the state of the source's generator" % f.name)
            else:
                ck.bad(R, f.loc(), "%s sets %s to %s instead of copying it" % (f.name, q, pp(v)[:80]))
    # pointers into the source
    for p in ps:
        if p.kind == "ret":
            v = p.st.m.get(TF("Data::ArrayWrapper::containerPtr"))
            if own in (PTA, PTA2) and not assign and v is not None and has_sub(v, lambda s: s == ("p", 0)):
                ck.bad("R2-deep", f.loc(), "%s keeps a pointer to the data of the source" % f.name)
    if own in (PTA, PTA2):
        fill(ck, f, cl, own + "::data", own + "::data", ps)


def fill(ck, f, cl, dst, srcs, ps):
    """every element of own field dst is written with the same element of the source"""
    R = "R2-deep"
    srcs = (srcs,) if isinstance(srcs, str) else srcs
    ws = [h for h in cl.hits if h.ev.kind == "write" and h.ev.loc[0] == "E" and h.ev.loc[1] == TF(dst)]
    whole = any(p.kind == "ret" and any(has_src(p.st.m.get(TF(dst)) or (), s) for s in srcs) for p in ps)
    if whole:
        ck.ok(R, "%s copied as a whole by %s" % (dst, f.name))
        return
    if not ws:
        if any(h.ev.kind == "call" and h.base in ("copy", "copy_n", "assign", "transform", "memcpy", "insert") for h in cl.hits) or \
                any(h.ev.kind == "write" and has_sub(h.ev.loc, lambda s: s == TF(dst)) and h.ev.loc != TF(dst) for h in cl.hits) or \
                any(h.ev.kind == "write" and h.ev.loc == TF(dst) and not (h.ev.val[0] in ("cobj", "obj") and not has_sub(h.ev.val, lambda s: s[0] == "it"))
                    for h in cl.hits):
            return ck.und(R, f.loc(), "%s: filling of %s not interpreted" % (f.name, dst))
        return ck.bad(R, f.loc(), "%s does not copy the elements of %s" % (f.name, dst))
    for h in ws:
        i = h.ev.loc[2]
        es = [s for s in subterms(h.ev.val) if s[0] == "E"]
        if not has_sub(h.ev.val, lambda s: s == ("p", 0) or s[0] == "F" and s[1] == ("*", ("this",)) and s[2] == "Data::ArrayWrapper::containerPtr"):
            if not es and h.ev.val[0] in ("c", "f", "obj", "ilist"):
                continue  # reset when the source is not bound
            ck.und(R, h.at, "%s: value copied not interpreted" % f.name)
            continue
        if es and es[0][2] != i:
            ck.bad(R, h.at, "%s: element %s is copied from element %s" % (f.name, pp(i), pp(es[0][2])))
            continue
        sp = span(cl, i)
        if sp is None:
            if nv(i) is not None and "PointerWrapper" in f.params[0].get("t", ""):
                ck.ok(R, "the element is copied by %s" % f.name)
            elif nv(i) is not None:
                ck.bad(R, h.at, "%s copies only element %s" % (f.name, pp(i)))
            else:
                ck.und(R, h.at, "%s: range of the copy not interpreted" % f.name)
        elif sp[0] == "all":
            ck.ok(R, "every element is copied by %s" % f.name)
        else:
            first, b = sp[1], sp[2]
            if nv(first) != 0:
                ck.bad(R, h.at, "%s: copy starts at element %s" % (f.name, pp(first)))
            elif b is None:
                if stops_short(h.facts, i):
                    ck.bad(R, h.at, "%s: the last elements are not copied" % f.name)
                else:
                    ck.und(R, h.at, "%s: end of the copy not interpreted" % f.name)
            elif b[0] == "op" and b[1] == "-" or nv(b) is not None:
                ck.bad(R, h.at, "%s: copy stops at %s" % (f.name, pp(b)))
            elif (fld_of(b) or "").rsplit("::", 1)[-1] in ("nbElements", "maxNbOperands", "height", "width") or b[0] == "size":
                if (fld_of(b) or "").rsplit("::", 1)[-1] in ("height", "width"):
                    ck.bad(R, h.at, "%s: copy stops at %s" % (f.name, pp(b)))
                else:
                    ck.ok(R, "every element is copied by %s" % f.name)
            else:
                ck.und(R, h.at, "%s: end of the copy not interpreted" % f.name)


def snapshots(ck):
    R = "R2-deep"
    for f in [g for n in (PTA, PTA2) for g in ck.P.find(n + "::" + n.rsplit("::", 1)[-1])]:
        t = f.params[0].get("t", "") if len(f.params) == 1 else ""
        if "Wrapper" not in t or "harness" in f.file:
            continue
        cl = Sites(lambda ev: ev.kind in ("write", "call"))
        ps = paths(ck, f, cl)
        if ps is None:
            ck.und(R, f.loc(), f.name + ": " + ck.why)
            continue
        src = ("Data::PointerWrapper::containerPtr" if "Pointer" in t else "Data::ArrayWrapper::containerPtr")
        fill(ck, f, cl, f.scls + "::data", src, ps)
        for p in ps:
            if p.kind != "ret":
                continue
            v = p.st.m.get(TF("Data::ArrayWrapper::containerPtr"))
            if v == ("addr", TF(f.scls + "::data")):
                ck.ok(R, "%s views its own data" % f.name)
            elif v is not None and has_sub(v, lambda s: s == ("p", 0)):
                ck.bad(R, f.loc(), "%s keeps a pointer to the data of the source" % f.name)
            for q in ("Data::DataHandler::id", "Data::ArrayWrapper::nbElements", "Data::Array2DWrapper::width", "Data::Array2DWrapper::height"):
                v = p.st.m.get(TF(q))
                if v is None or q.endswith("nbElements") and "Pointer" in t:
                    continue
                if not has_src(v, q):
                    ck.bad("R1-complete", f.loc(), "%s sets %s to %s instead of copying it" % (f.name, q, pp(v)[:80]))
                else:
                    ck.ok("R1-complete", "%s of %s" % (q, f.name))


def lines(ck):
    R = "R2-deep"
    P = ck.P
    for f in copies(P):
        if f.sname == "Program::Line::Line":
            hits, ps, cl = sites(ck, f, lambda ev: ev.kind in ("write", "call"))
            if ps is None:
                ck.und(R, f.loc(), ck.why)
                continue
            q = "Program::Line::operands"
            for p in ps:
                v = p.st.m.get(TF(q))
                if v is not None and not has_sub(v, lambda s: s[0] in ("call", "new", "obj")) and has_src(v, q):
                    ck.bad(R, f.loc(), "a copied line shares its operands with the source")
            ws = [h for h in hits if h.ev.kind == "write" and h.ev.loc[0] == "*" or h.ev.kind == "write" and h.ev.loc[0] == "E"]
            ws = [h for h in hits if h.ev.kind == "write" and (h.ev.loc[0] in ("*", "E") or h.ev.loc[0] == "F" and h.ev.loc[2].startswith("std::pair"))]
            ws = [h for h in ws if has_sub(h.ev.loc, lambda s: s[0] == "F" and s[2] == q or s[0] == "call" or s[0] == "new")]
            part = {h.ev.loc[2].rsplit("::", 1)[-1] for h in ws if h.ev.loc[0] == "F"}
            if len(part) == 1 and not any(h.ev.loc[0] != "F" for h in ws):
                ck.bad(R, f.loc(), "only the %s part of the operands is copied" % part.pop())
            if not ws:
                if any(h.ev.kind == "call" and h.base in ("copy", "memcpy", "copy_n") for h in hits):
                    ck.und(R, f.loc(), "copy of the operands not interpreted")
                else:
                    ck.bad(R, f.loc(), "a copied line does not receive the operands of the source")
            for h in ws:
                l, v = h.ev.loc, h.ev.val
                i = [s for s in subterms(l) if s[0] in ("phi", "lit")]
                if h.ev.loc[0] == "F":
                    x = [s[2] for s in subterms(v) if s[0] == "F" and s[2].startswith("std::pair")]
                    if x and x[0] != h.ev.loc[2]:
                        ck.bad(R, h.at, "the %s part of the operands is copied from the other part" % h.ev.loc[2])
                if not has_src(v, q):
                    ck.bad(R, h.at, "the operand copied is %s" % pp(v)[:80])
                    continue
                j = [s for s in subterms(v) if s[0] in ("phi", "lit")]
                if not i or not j:
                    if not i and not j:
                        ck.bad(R, h.at, "only one operand is copied")
                    else:
                        ck.bad(R, h.at, "operand %s is copied from operand %s" % (pp(l)[:40], pp(v)[:60]))
                    continue
                if i[0] != j[0]:
                    ck.bad(R, h.at, "operands are copied at other positions")
                    continue
                strip = lambda t: [s[2] for s in subterms(t) if s[0] in ("E",)] or [s[3] for s in subterms(t) if s[0] == "op"]
                if [x for x in strip(l)[:1]] != [x for x in strip(v)[:1]]:
                    ck.bad(R, h.at, "operands are copied at other positions")
                    continue
                sp = span(cl, i[0])
                if sp is None:
                    ck.und(R, h.at, "range of the copy of the operands not interpreted")
                elif sp[0] == "from" and nv(sp[1]) != 0:
                    ck.bad(R, h.at, "the copy of the operands starts at %s" % pp(sp[1]))
                elif sp[0] == "from" and sp[2] is not None and not (fld_of(sp[2]) or "").endswith("::maxNbOperands"):
                    ck.bad(R, h.at, "the copy of the operands stops at %s" % pp(sp[2]))
                else:
                    ck.ok(R, "every operand is copied")
        elif f.sname == "Program::Program::Program":
            hits, ps, cl = sites(ck, f, lambda ev: ev.kind in ("write", "call", "ctor"))
            if ps is None:
                ck.und(R, f.loc(), ck.why)
                continue
            q = "Program::Program::lines"
            tr = [h for h in hits if h.ev.kind == "call" and h.name == "std::transform"]
            ws = [h for h in hits if h.ev.kind == "write" and h.ev.loc[0] != "F" and has_sub(h.ev.loc, lambda s: s[0] == "F" and s[2] == q) or
                  h.ev.kind == "write" and h.ev.loc[0] == "F" and h.ev.loc[2].startswith("std::pair") and has_sub(h.ev.loc, lambda s: s[0] == "F" and s[2] == q)]
            ps_ = [h for h in hits if h.ev.kind == "call" and h.base in ("push_back", "emplace_back", "insert") and fld_of(h.o) == q]
            lams = [g for g in P.funcs.values() if "Program::Program(const Program::Program &)" in g.name and g.base == "operator()" and g.blocks]
            if tr:
                a = tr[0].args
                if len(a) >= 3 and all(x[0] == "it" for x in a[:3]):
                    if a[0][1] != "begin" or a[1][1] != "end" or fld_of(a[0][2]) != q or fld_of(a[1][2]) != q:
                        ck.bad(R, tr[0].at, "only the lines from %s to %s are duplicated" % (pp(a[0]), pp(a[1])))
                    if fld_of(a[2][2]) != q or a[2][1] != "begin":
                        ck.bad(R, tr[0].at, "duplicated lines are written to %s" % pp(a[2]))
                for g in lams:
                    gl = Sites(lambda e: e.kind == "ctor" and e.name == "Program::Line::Line", named("Program::Line::Line"))
                    gp = paths(ck, g, gl) or []
                    for h in gl.hits:
                        if h.args and not has_sub(tuple(h.args), lambda s: s == ("p", 0)):
                            ck.und(R, h.at, "source of the copied line not interpreted")
                        elif len(h.args) == 1 and not (is_loc(h.ev.a[0]) and h.ev.a[0][0] == "*" and (fld_of(h.ev.a[0][1]) or "").endswith("first")):
                            ck.bad(R, h.at, "the line created is not a copy of the source's line")
                    for p in gp:
                        if p.kind != "ret":
                            continue
                        pair(ck, g.loc(), p.ret)
            elif ws or ps_:
                for h in ws:
                    v = h.ev.val
                    if h.ev.loc[0] == "F" and h.ev.loc[2].endswith("first"):
                        if v[0] == "new":
                            ck.ok(R, "lines duplicated")
                        elif has_sub(v, lambda s: s == ("p", 0)):
                            ck.bad(R, h.at, "lines are shared with the source")
                for h in ps_:
                    if h.args:
                        pair(ck, h.at, h.args[0])
            else:
                ck.bad(R, f.loc(), "a copied program shares its lines with the source")


def pair(ck, at, v):
    R = "R2-deep"
    if v is None:
        return
    parts = list(v[1:3]) if v[0] in ("pair", "ilist") and len(v) >= 3 else None
    if parts is None:
        ck.und(R, at, "copied line not interpreted: %s" % pp(v)[:60])
        return
    if parts[0][0] == "new":
        ck.ok(R, "lines duplicated")
    elif parts[0][0] in ("ld", "addr", "p"):
        ck.bad(R, at, "lines are shared with the source")
    else:
        ck.und(R, at, "copied line not interpreted")
    s = parts[1]
    if s in (TRUE, FALSE) or nv(s) is not None or s[0] == "not":
        ck.bad("R1-complete", at, "the intron marks of the source are not copied")
    elif s[0] == "ld" and s[1][0] == "F" and s[1][2].endswith("pair::second"):
        ck.ok("R1-complete", "intron marks copied")


def clones(ck):
    R = "R3-clone"
    P = ck.P
    for f in P.funcs.values():
        if f.base != "clone" or not f.blocks or "/gegelatilib/" not in f.file or f.scls == "Learn::LearningEnvironment":
            continue
        hits, ps, cl = sites(ck, f, lambda ev: ev.kind == "ctor", lambda g: g.base in ("PrimitiveTypeArray", "PrimitiveTypeArray2D"))
        if ps is None:
            ck.und(R, f.loc(), f.name + ": " + ck.why)
            continue
        for p in ps:
            if p.kind != "ret":
                continue
            v = p.ret
            if v == THIS or v == NULL:
                ck.bad(R, f.loc(), "%s returns %s" % (f.name, pp(v)))
                continue
            cs = [h for h in hits]
            if v[0] in ("new", "obj") and cs:
                for h in cs:
                    a = h.args[0] if h.args else None
                    if len(h.args) == 1 and a is not None and (a == SRC_(THIS) or has_sub(a, lambda s: s == THIS) and (a[0] in ("*", "ld", "T") or is_loc(a)) and not has_sub(a, lambda s: s[0] == "F")):
                        ck.ok(R, f.name)
                    else:
                        ck.bad(R, h.at, "%s builds its result from %s, not from the object" % (f.name, ", ".join(map(pp, h.args))))
                # a 2D source must give a 2D copy
                t = v[1] if isinstance(v[1], str) else ""
                if ("2D" in f.scls) != ("2D" in t) and t:
                    ck.bad(R, f.loc(), "%s returns a %s: its geometry is lost" % (f.name, t))
            else:
                ck.und(R, f.loc(), "%s: result not interpreted" % f.name)


def SRC_(t):
    return ("*", t)


def released(ck):
    R = "R4-released"
    P = ck.P
    LN = "Program::Program::lines"
    f = P.one("Program::Program::~Program")
    hits, ps, cl = sites(ck, f, lambda ev: ev.kind == "delete" or ev.kind == "call" and fld_of(ev.o) == LN)
    if ps is None:
        ck.und(R, f.loc(), ck.why)
    else:
        dels = [h for h in hits if h.ev.kind == "delete" and has_sub(h.ev.val, lambda s: s[0] == "F" and s[2] == LN)]
        if not dels:
            if any(n["k"] == "delete" for i in P.reach([f]) for n in P.funcs[i].nodes()):
                ck.und(R, f.loc(), "release of the lines not interpreted")
            else:
                ck.bad(R, f.loc(), "a destroyed program does not release its lines")
        for h in dels:
            if has_sub(h.ev.val, lambda s: s[0] in ("lit", "phi")) or has_sub(h.ev.val, lambda s: s[0] == "it" and s[1] == "begin") and False:
                i = [s for s in subterms(h.ev.val) if s[0] in ("lit", "phi")][0]
                sp = span(cl, i)
                if sp and sp[0] == "from" and (nv(sp[1]) != 0 or sp[2] is not None and sp[2][0] == "op"):
                    ck.bad(R, h.at, "a destroyed program does not release every line")
                else:
                    ck.ok(R, "lines released with their program")
            else:
                # taken from one end: the same element must go
                back = has_sub(h.ev.val, lambda s: s == ("back",)) or "(back)" in pp(h.ev.val)
                pops = [x for x in hits if x.ev.kind == "call" and x.base in ("pop_back", "erase", "pop_front")]
                if not pops:
                    ck.und(R, h.at, "release of the lines not interpreted")
                elif back and any(x.base == "pop_back" for x in pops):
                    ck.ok(R, "lines released with their program")
                elif back:
                    ck.und(R, h.at, "release of the lines not interpreted")
                elif any(x.base == "pop_back" for x in pops):
                    ck.bad(R, h.at, "the line released is not the one removed")
    # all paths out of the destructor: no line left
        for p in ps:
            if p.kind == "ret" and dels and any(x.base == "pop_back" for x in hits if x.ev.kind == "call"):
                e = [v for t, v in p.facts if t == ("op", "==", C(0), cur_size(p.st, TF(LN))) or t == ("op", "==", cur_size(p.st, TF(LN)), C(0))]
                bad = [t for t, v in p.facts if t[0] == "op" and t[1] in ("<", "<=") and cur_size(p.st, TF(LN)) in t[2:4]]
                if bad and not e:
                    for t in bad:
                        o = t[2] if t[3] == cur_size(p.st, TF(LN)) else t[3]
                        if nv(o) is not None and nv(o) >= 1 and (t, True) not in p.facts and t[3] == cur_size(p.st, TF(LN)):
                            ck.bad(R, f.loc(), "a destroyed program may keep lines unreleased")
    f = P.one("Program::Program::removeLine")
    hits, ps, cl = sites(ck, f, lambda ev: ev.kind == "delete" or ev.kind == "call" and fld_of(ev.o) == LN and ev.name.endswith("::erase"))
    if ps is None:
        ck.und(R, f.loc(), ck.why)
    else:
        dels = [h for h in hits if h.ev.kind == "delete"]
        er = [h for h in hits if h.ev.kind == "call"]
        if er and not dels:
            ck.bad(R, f.loc(), "a removed line is not released")
        elif dels and not er:
            ck.bad(R, f.loc(), "a released line stays in the program")
        else:
            for h in dels:
                ck.ok(R, "removed lines released") if has_sub(h.ev.val, lambda s: s == ("p", 0)) else ck.und(R, h.at, "released line not interpreted")
    f = P.one("Program::Line::~Line")
    hits, ps, cl = sites(ck, f, lambda ev: ev.kind == "delete" or is_call("free", "cfree", "std::free")(ev))
    if ps is None:
        ck.und(R, f.loc(), ck.why)
    else:
        fr = [h for h in hits if has_sub(h.ev.val if h.ev.kind == "delete" else h.args[0], lambda s: s[0] == "F" and s[2] == "Program::Line::operands")]
        t = [x["t"] for x in P.cls("Program::Line")[0]["fields"] if x["n"] == "operands"]
        raw = t and "*" in t[0]
        if not fr:
            if raw:
                ck.bad(R, f.loc(), "a destroyed line does not release its operands")
        else:
            kinds = {h.ev.kind for h in fr}
            if len(fr) > len({(h.at) for h in fr}) + 50:
                pass
            alloc = {n.get("fn", "").rsplit("::", 1)[-1] for g in P.find("Program::Line::Line") for n in g.calls()} & {"calloc", "malloc"}
            newarr = any(n["k"] == "new" for g in P.find("Program::Line::Line") for n in g.nodes())
            if kinds == {"delete"} and alloc and not newarr:
                ck.bad(R, f.loc(), "operands obtained with calloc are released with delete")
            elif "call" in kinds and newarr and not alloc:
                ck.bad(R, f.loc(), "operands obtained with new are released with free")
            else:
                ck.ok(R, "operands released with their line")
            if len({h.at for h in fr}) > 1:
                seen = {}
                for p in ps:
                    pass
    # private copies of the environment
    f = P.one("Learn::ParallelLearningAgent::slaveEvalJobThread")

    def step(st, ev):
        if ev.kind == "call" and ev.name.endswith("LearningEnvironment::clone"):
            st.auto = st.auto | {"made"}
            if ev.a is not None:
                pass
        elif ev.kind == "delete":
            k = "freed" if has_sub(ev.val, lambda s: s[0] == "call" and s[1].endswith("LearningEnvironment::clone")) else \
                "main" if has_sub(ev.val, lambda s: s[0] in ("F", "fref") and s[2] == "Learn::LearningAgent::learningEnvironment") else None
            if k == "freed" and "freed" in st.auto:
                k = "twice"
            if k:
                st.auto = st.auto | {k}
    prim = lambda g: g.base in ("evaluateJob", "createTPGExecutionEngine", "clone") or g.scls in ("Environment", "Archive", "TPG::TPGGraph", "TPG::TPGExecutionEngine", "Learn::Job")
    hits, ps, cl = sites(ck, f, lambda ev: ev.kind == "delete", prim, step, frozenset(), gc_facts="all")
    if ps is None:
        ck.und(R, f.loc(), ck.why)
    else:
        used = [n for n in f.nodes() if n["k"] == "delete"]
        for p in ps:
            if p.kind != "ret":
                continue
            if "main" in p.auto:
                ck.bad(R, f.loc(), "a worker releases the agent's own environment")
            elif "twice" in p.auto:
                ck.bad(R, f.loc(), "a worker releases its private environment twice")
            elif "made" in p.auto and "freed" not in p.auto:
                if hits or not any(n["k"] == "delete" for i in P.reach([f], stop=prim) for n in P.funcs[i].nodes()):
                    if any("unique_ptr" in str(n.get("t", "")) and "LearningEnvironment" in str(n.get("t", "")) for n in f.nodes()):
                        continue
                    ck.bad(R, f.loc(), "a worker does not release its private environment")
            elif "freed" in p.auto:
                ck.ok(R, "private environments released by their worker")
    # temporary archives
    f = P.one("Learn::ParallelLearningAgent::mergeArchiveMap")
    prim = lambda g: g.scls == "Archive"
    hits, ps, cl = sites(ck, f, lambda ev: ev.kind == "delete", prim, gc_facts="all")
    if ps is None:
        ck.und(R, f.loc(), ck.why)
    elif not hits:
        if any(n["k"] == "delete" for i in P.reach([f], stop=prim) if not prim(P.funcs[i]) for n in P.funcs[i].nodes()) or not any(
                n["k"] == "new" and "Archive" in str(n.get("ty", n.get("t", ""))) for g in P.funcs.values() for n in g.nodes()):
            ck.und(R, f.loc(), "release of the workers' archives not interpreted")
        else:
            ck.bad(R, f.loc(), "the archives of the workers are never released")
    else:
        ck.ok(R, "archives of the workers released after merging")


def virtuals(ck):
    R = "R5-virtual"
    P = ck.P
    owned = set()
    for g in P.funcs.values():
        if "/gegelatilib/" not in g.file:
            continue
        for n in g.nodes():
            if n["k"] == "delete":
                t = str(n.get("t") or n.get("ty") or "")
                owned |= {c for c in P.classes if c in t}
    for c in ("Data::DataHandler", "TPG::TPGVertex", "TPG::TPGEdge", "Learn::LearningEnvironment", "TPG::TPGFactory", "TPG::TPGExecutionEngine",
              "Data::UntypedSharedPtr::Concept"):
        if c in P.classes:
            owned.add(c)
    for c in sorted(owned):
        if len(P.derived(c)) < 2 or c.startswith("std::"):
            continue
        d = [m for m in P.classes[c]["methods"] if m.get("dtor")]
        if any(m.get("virt") for m in d) or any(m.get("virt") for b in P.bases_of(c) for m in P.classes.get(b, {}).get("methods", []) if m.get("dtor")):
            ck.ok(R, c)
        else:
            ck.bad(R, "%s:%s" % (P.classes[c].get("file", "?"), P.classes[c].get("line", "?")),
                   "%s has no virtual destructor although derived objects are released through it" % c)


def moves(ck):
    """swapping two graphs exchanges every field that can be exchanged"""
    R = "R1-complete"
    P = ck.P
    fs = P.find("TPG::swap", must=False) or [g for g in P.funcs.values() if g.base == "swap" and g.blocks and len(g.params) == 2 and "TPGGraph" in g.params[0].get("t", "")]
    for f in fs:
        hits, ps, cl = sites(ck, f, lambda ev: is_call("swap", "iter_swap", "exchange")(ev) or ev.kind == "write")
        if ps is None:
            ck.und(R, f.loc(), ck.why)
            continue
        if "TPGGraph" not in f.params[0].get("t", ""):
            continue
        for x in P.cls("TPG::TPGGraph")[0]["fields"]:
            if x["t"].endswith("&") or x["t"].startswith("const ") or x.get("const"):
                continue
            q = "TPG::TPGGraph::" + x["n"]
            if any(has_sub(h.ev.loc if h.ev.kind == "write" else tuple([h.o or ()] + list(h.ev.a or []) + h.args), lambda s: s[0] == "F" and s[2] == q) for h in hits):
                ck.ok(R, "%s exchanged by swap" % q)
            else:
                ck.bad(R, f.loc(), "swap does not exchange %s" % q)

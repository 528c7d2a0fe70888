"""C11: intron marks match the program."""
from ..core import *
from ..flow import mkop
from .c09 import index_in, cont_fld, intron_of, nlines, LINES, OPS, TYPES
from .c10 import LN, PM

FAKE = "Environment::fakeDataSources"
ACC = "Data::DataHandler::getAddressesAccessed"


def dest_line(t):
    """line index whose destinationIndex t is"""
    if t[0] == "ld" and fld_of(t) == "Program::Line::destinationIndex":
        return index_in(t, LINES)
    if t[0] == "call" and t[1] == LN + "getDestinationIndex":
        return index_in(t[2], LINES) if t[2] else None
    return None


def operand_part(t):
    """(line, operand index, 'first'/'second') of an operand value"""
    if t[0] == "ld" and t[1][0] == "F" and t[1][2].startswith("std::pair::"):
        e = t[1][1]
        if e[0] == "E" and cont_fld(e[1]) == OPS:
            return index_in(e[1], LINES), e[2], t[1][2].rsplit("::", 1)[-1]
        c = [s for s in subterms(e) if s[0] == "call" and s[1] == LN + "getOperand"]
        if c:
            return index_in(c[0][2], LINES) if c[0][2] else None, c[0][3][0], t[1][2].rsplit("::", 1)[-1]
    return None


def type_index(t):
    i = index_in(t, TYPES)
    return i


def check(ck):
    ck.P.need_field("Program::Program", "lines")
    ck.rule("R1-backward", "marks are computed from the last line to the first, starting from the result register (0) alone", 1)
    ck.rule("R2-mark", "a line is marked intron when its destination is not needed by the lines after it, and only then", 2)
    ck.rule("R3-needs", "a useful line no longer needs its own destination but needs every register each of its register "
            "operands accesses at the location and with the type execution uses", 2)
    ck.rule("R4-recomputed", "whenever lines change (mutation, initialisation, import) marks are recomputed before the program is used", 3)
    ck.rule("R5-kept", "nothing else writes the marks than their computation, a fresh line and the program copy", 1)
    compute(ck)
    recomputed(ck)
    kept(ck)


def compute(ck):
    P = ck.P
    f = P.one("Program::Program::identifyIntrons")

    class B(Sites):
        def loop(self, st, kind, tag, g, eng):
            Sites.loop(self, st, kind, tag, g, eng) if hasattr(Sites, "loop") else None
            if kind == "back":
                self.backs.append((tag, st.auto, tuple(st.facts)))
                if st.auto and st.auto[0][1] == tag:
                    st.auto = ()
    pred = lambda ev: is_call("getAddressesAccessed", "insert", "erase", "emplace", "find", "count", "contains", "end", "clear")(ev) or ev.kind == "write"

    def line_tag(i):
        for s in subterms(i):
            if s[0] in ("lit", "phi"):
                return s[1]
        return None

    def step(st, ev):
        if ev.kind == "call" and ev.name in ("std::set::erase", "std::unordered_set::erase") and root_local(ev.o):
            a = ev.av[0] if ev.av else (ev.a or [None])[0]
            if a is None:
                return
            if is_loc(a):
                a = Engine.load(None, st, a)
            for s in subterms(a):
                i = dest_line(s)
                if i is not None:
                    st.auto = (st.auto or ()) + (("erased", line_tag(i)),)
                    return
    cl = B(pred, named("getAddressSpace", "getAddressesAccessed"), step, budget=300000)
    cl.backs = []
    ps = paths(ck, f, cl, auto=())
    if ps is None:
        return ck.und("R1-backward", f.loc(), ck.why)
    # the useful set: the local container asked for a line's destination
    useful = set()
    for h in cl.hits:
        for t, v in h.facts:
            for s in subterms(t):
                if s[0] == "has" and root_local(s[1]) and dest_line(s[3]) is not None:
                    useful.add(s[1])
    if len(useful) != 1:
        marks = [h for h in cl.hits if h.ev.kind == "write" and h.ev.loc[0] == "F" and h.ev.loc[2].endswith("pair::second") and index_in(("ld", h.ev.loc, 0), LINES)]
        if not marks:
            ck.bad("R2-mark", f.loc(), "no intron mark is written")
        elif not any(dest_line(s) is not None for h in cl.hits for a in h.args for s in subterms(a)) and \
                not any(dest_line(s) is not None for h in cl.hits for t, _ in h.facts for s in subterms(t)):
            ck.bad("R2-mark", f.loc(), "marks do not depend on the destination of the line")
        else:
            ck.und("R1-backward", f.loc(), "set of needed registers not recognised")
        return
    U = next(iter(useful))
    ltag = None
    # --- R2: marks
    nfalse = ntrue = 0
    for h in cl.hits:
        if h.ev.kind != "write" or h.ev.loc[0] != "F" or not h.ev.loc[2].endswith("pair::second"):
            continue
        i = index_in(("ld", h.ev.loc, 0), LINES)
        if i is None:
            continue
        ltag = line_tag(i)
        rev = direction(i, cl)
        if rev is False:
            ck.bad("R1-backward", h.at, "lines are scanned from the first to the last")
        elif rev:
            ck.ok("R1-backward", "lines scanned from the last to the first")
        has = None
        other = None
        for t, v in h.facts:
            if t[0] == "has" and t[1] == U:
                if dest_line(t[3]) == i:
                    has = v
                else:
                    other = t[3]
        val = h.ev.val
        want = None
        if val in (TRUE, FALSE):
            want = val == TRUE
            if has is None:
                if other is not None:
                    ck.bad("R2-mark", h.at, "the mark of a line depends on %s instead of its destination" % pp(other))
                else:
                    ck.bad("R2-mark", h.at, "a line is marked %s whatever its destination" % ("intron" if want else "useful"))
                continue
            if want == has:
                ck.bad("R2-mark", h.at, "a line whose destination is %s is marked %s" % (
                    "needed" if has else "not needed", "intron" if want else "useful"))
            else:
                ck.ok("R2-mark", "%s when the destination is %s" % ("intron" if want else "useful", "not needed" if want else "needed"))
                ntrue += want
                nfalse += not want
        else:
            from ..flow import fact_of
            t, w = fact_of(val, True)
            if t[0] == "has" and t[1] == U and dest_line(t[3]) == i:
                if w:
                    ck.bad("R2-mark", h.at, "a line is marked intron when its destination is needed")
                else:
                    ck.ok("R2-mark", "intron iff the destination is not needed")
                    ntrue += 1
                    nfalse += 1
            elif has is not None and val[0] in ("b", "c"):
                pass
            else:
                ck.und("R2-mark", h.at, "mark %s not interpreted" % pp(val))
                ntrue += 1
                nfalse += 1
    if not ntrue:
        ck.bad("R2-mark", f.loc(), "no line is ever marked intron again")
    if not nfalse:
        ck.bad("R2-mark", f.loc(), "lines are never marked useful again")
    # --- start: exactly register 0
    seeds = set()
    inner = []
    for h in cl.hits:
        if h.ev.kind == "call" and h.base in ("insert", "emplace") and h.ev.o == U:
            inloop = any(t[0] == "has" and t[1] == U for t, _ in h.facts)
            if inloop:
                inner.append(h)
            else:
                seeds.add((h.at, h.args[0] if h.args else None))
    for at, v in seeds:
        if v == C(0):
            ck.ok("R1-backward", "needed set starts with register 0")
        elif nv(v) is not None:
            ck.bad("R1-backward", at, "the scan starts with register %s needed" % pp(v))
    if not seeds:
        init = [h.st.m.get(U) for h in cl.hits if h.st.m.get(U) is not None]
        if init and all(v[0] == "cobj" and v[3] == () for v in init[:1]):
            ck.bad("R1-backward", f.loc(), "the scan starts without the result register")
        else:
            ck.und("R1-backward", f.loc(), "initial content of the needed set not interpreted")
    # --- R3
    erased_ok = False
    for tag, auto, facts in cl.backs:
        if tag != ltag:
            continue
        need = [v for t, v in facts if t[0] == "has" and t[1] == U and dest_line(t[3]) is not None]
        er = any(a[0] == "erased" for a in auto or ())
        if True in need and not er:
            ck.bad("R3-needs", f.loc(), "the destination of a useful line stays needed")
        elif er and True in need:
            erased_ok = True
        elif er and False in need:
            ck.und("R3-needs", f.loc(), "destination erased although not needed")
    if erased_ok:
        ck.ok("R3-needs", "destination of a useful line erased")
    for h in inner:
        if any(t[0] == "has" and t[1] == U and v and dest_line(t[3]) is not None for t, v in h.facts) and \
                not any(a[0] == "erased" for a in h.auto or ()):
            ck.bad("R3-needs", h.at, "operands are added before the destination is removed: a line reading its own destination loses it")
        elif any(t[0] == "has" and t[1] == U and v is False and dest_line(t[3]) is not None for t, v in h.facts):
            ck.bad("R3-needs", h.at, "operands of an intron are counted as needed")
    acc = [h for h in cl.hits if h.ev.kind == "call" and h.base == "getAddressesAccessed"]
    if not inner:
        ck.bad("R3-needs", f.loc(), "registers read by useful lines never become needed")
    for h in inner:
        a = h.args[0] if h.args else None
        op = [operand_part(s) for s in subterms(a) if operand_part(s)] if a is not None else []
        viaacc = any(s[0] == "call" and s[1] == ACC for s in subterms(a)) if a is not None else False
        if op and not viaacc:
            ck.bad("R3-needs", h.at, "only the register at the operand's location becomes needed, not every register accessed")
    for h in acc:
        ty, loc = h.args[0], h.args[1]
        o = h.ev.o
        ops = [operand_part(s) for s in subterms(loc)]
        ops = [x for x in ops if x]
        sec = [x for x in ops if x[2] == "second"]
        ti = type_index(ty)
        if not has_sub(o, lambda s: fld_of(s) in (FAKE, "Environment::fakeRegisters") or s[0] == "F" and s[2] in (FAKE, "Environment::fakeRegisters")):
            ck.und("R3-needs", h.at, "source asked for the registers accessed not recognised")
            continue
        ix = index_in(("ld", o, 0), FAKE)
        if ix is not None and ix != C(0):
            ck.bad("R3-needs", h.at, "accessed registers are asked of source %s instead of the registers" % pp(ix))
        if not sec:
            if ops:
                ck.bad("R3-needs", h.at, "the location is taken from the operand's source index")
            else:
                ck.und("R3-needs", h.at, "location not interpreted")
            continue
        line, k, _ = sec[0]
        if ti is not None and ti != k:
            ck.bad("R3-needs", h.at, "the type of operand %s is used for operand %s" % (pp(ti), pp(k)))
            continue
        # scaled as in execution
        md = [s for s in subterms(loc) if s[0] == "op" and s[1] == "%"]
        if not md:
            ck.bad("R3-needs", h.at, "the location is not scaled to the address space as execution does")
            continue
        sp = [s for s in subterms(md[0][3]) if s[0] == "call" and s[1].endswith("getAddressSpace")]
        if sp and type_index(sp[0][3][0]) not in (None, k):
            ck.bad("R3-needs", h.at, "the location is scaled by the address space of another operand's type")
        elif sp:
            j = index_in(("ld", sp[0][2], 0), FAKE) if sp[0][2] else None
            if j is not None and j != C(0):
                ck.bad("R3-needs", h.at, "the location is scaled by the address space of another source")
        # condition: register operand, of an operand the instruction uses
        first = inrange = None
        for t, v in h.facts:
            if t[0] == "op" and t[1] == "==":
                for x, y in ((t[2], t[3]), (t[3], t[2])):
                    p = operand_part(x)
                    if p and p[2] == "first" and p[1] == k:
                        if y == C(0):
                            first = v
                        elif nv(y) is not None and v:
                            first = False
                    elif p and p[2] == "second" and y == C(0) and v:
                        pass
            if t[0] == "op" and t[1] == "<" and t[2] == k and t[3][0] == "size" and fld_of(t[3][1]) == TYPES:
                inrange = v
        if first is None:
            if any(operand_part(s) and operand_part(s)[2] == "first" for t, _ in h.facts for s in subterms(t)):
                ck.und("R3-needs", h.at, "register test not interpreted")
            else:
                ck.bad("R3-needs", h.at, "operands are counted as registers whatever their source")
        elif first is False:
            ck.bad("R3-needs", h.at, "operands that are not registers are counted, registers are not")
        elif inrange is None:
            if any(t[0] == "op" and t[1] == "<" and t[2] == k and (cont_fld_lim(t[3])) for t, v in h.facts if v):
                pass
            if k[0] == "phi" and not any(t[0] == "op" and t[1] in ("<", "!=", "==") and t[2] == k and "maxNbOperands" not in repr(t[3]) for t, v in h.facts):
                ck.bad("R3-needs", h.at, "operands the instruction does not use are counted")
            else:
                ck.und("R3-needs", h.at, "bound of the operand loop not interpreted")
        else:
            ck.ok("R3-needs", "registers accessed by each register operand become needed")
        if k[0] == "phi":
            if any(nv(x) not in (None, 0) for x in cl_vals(cl, k, "init")):
                ck.bad("R3-needs", h.at, "the first operands are not counted")
            for x in cl_vals(cl, k, "step"):
                if x[0] == "op" and x[1] == "+" and x[2] == k and nv(x[3]) not in (None, 1):
                    ck.bad("R3-needs", h.at, "operands are skipped")
    return


def cont_fld_lim(t):
    return fld_of(t) == "Environment::maxNbOperands"


def cl_vals(cl, ph, which):
    """values of a loop variable at loop entry ('init') or on the way back ('step')"""
    return list(((cl.loops.get(ph[1]) or {}).get(which) or {}).get(ph[2], ()))


def direction(i, cl):
    """True: the index runs from the last line to the first, False: forward, None: unknown"""
    if i[0] == "lit":
        return True if i[3] else False
    ph = [s for s in subterms(i) if s[0] == "phi"]
    if ph:
        for x in cl_vals(cl, ph[0], "step"):
            d = None
            if x[0] == "op" and x[1] == "+" and nv(x[3]) is not None:
                d = nv(x[3])
            elif x[0] == "op" and x[1] == "-" and nv(x[3]) is not None:
                d = -nv(x[3])
            if d is not None:
                if has_sub(i, lambda s: s[0] == "op" and s[1] == "-" and any(z == ph[0] for z in subterms(s[3]))):
                    d = -d
                return d < 0
    return None


CHG = (PM + "insertRandomLine", PM + "deleteRandomLine", PM + "swapRandomLines", PM + "alterRandomLine",
       "Program::Program::addNewLine", "Program::Program::removeLine", "Program::Program::swapLines",
       "Mutator::LineMutator::initRandomCorrectLine", "Mutator::LineMutator::alterCorrectLine",
       LN + "setDestinationIndex", LN + "setInstructionIndex", LN + "setOperand")
USE = ("Program::Program::identifyIntrons",)


LINEPRIM = ("Program::Program::addNewLine", "Program::Program::removeLine", "Program::Program::swapLines",
            "Mutator::LineMutator::initRandomCorrectLine", "Mutator::LineMutator::alterCorrectLine",
            LN + "setDestinationIndex", LN + "setInstructionIndex", LN + "setOperand")
OWN = ("Program::Program", "Program::Line", "Mutator::LineMutator")


def recomputed(ck):
    R = "R4-recomputed"
    P = ck.P
    callers = P.callers()
    todo = [P.one(PM + "mutateProgram"), P.one(PM + "initRandomProgram")]
    for g in P.funcs.values():
        if g.blocks and "harness" not in g.file and g.scls not in OWN and not g.sname.startswith("Mutator::LineMutator::") and \
                any(short(n.get("fn", "")) in LINEPRIM for n in g.calls()):
            todo.append(g)
    done = {}
    for f in todo:
        settle(ck, R, f, callers, done, 0)


def settle(ck, R, f, callers, done, depth):
    """True when f, or every caller of f, recomputes the marks after changing lines"""
    P = ck.P
    if f.id in done:
        return
    done[f.id] = True

    def step(st, ev):
        if ev.kind == "call":
            if ev.name in CHG:
                st.auto = "changed"
            elif ev.name in USE:
                st.auto = "done" if st.auto == "changed" else st.auto
    prim = lambda g: g.id != f.id and (g.sname in CHG or g.sname.startswith("Data::") or g.sname in USE or g.sname.startswith("Mutator::RNG::") or
                                       g.base in ("alterRandomConstant", "setDataAt"))
    hits, ps, cl = sites(ck, f, lambda ev: False, prim, step, None, gc_facts=True, budget=300000)
    if ps is None:
        ck.und(R, f.loc(), f.sname + ": " + ck.why)
        return True
    if any(p.kind == "ret" and p.auto == "changed" for p in ps):
        up = [P.funcs[c] for c in callers.get(f.id, ()) if "harness" not in P.funcs[c].file and P.funcs[c].blocks]
        top = f.sname in (PM + "mutateProgram", PM + "initRandomProgram")
        if not up or top or depth > 2:
            ck.bad(R, f.loc(), "%s can end with lines changed and marks not recomputed" % f.sname)
            return
        for g in up:
            settle(ck, R, g, callers, done, depth + 1)
        return
    if any(p.auto == "done" for p in ps):
        ck.ok(R, f.sname)
    elif f.sname.startswith(PM):
        ck.und(R, f.loc(), "%s: no path changing lines was interpreted" % f.sname)
    return True


def kept(ck):
    R = "R5-kept"
    P = ck.P
    n = 0
    for g in P.funcs.values():
        if g.scls != "Program::Program" or not g.blocks or g.base == "identifyIntrons":
            continue
        if g.r.get("const"):
            continue
        hits, ps, cl = sites(ck, g, lambda ev: ev.kind == "write" and ev.loc is not None and ev.loc[0] == "F" and ev.loc[2] == "std::pair::second" and
                             index_in(("ld", ev.loc, 0), LINES) is not None, named("identifyIntrons"), budget=60000)
        for h in hits:
            v = h.ev.val
            if v is not None and v[0] == "ld" and intron_of(v) is not None or v == FALSE:
                continue
            ck.bad(R, h.at, "%s writes an intron mark (%s)" % (g.sname, pp(v)))
        n += 1
    if n:
        ck.ok(R, "%d functions of Program write no other mark" % n)

"""C09: program execution is hermetic and ordered."""
from ..core import *
from ..flow import mkop
from .c07 import elem_cont

PE = "Program::ProgramEngine::"
PX = "Program::ProgramExecutionEngine::"
PC = TF(PE + "programCounter")
LINES = "Program::Program::lines"
SRC = PE + "dataScsConstsAndRegs"
OPS = "Program::Line::operands"
TYPES = "Instructions::Instruction::operandTypes"


def cont_fld(c):
    """field holding the container c (possibly through a pointer)"""
    if is_loc(c) and c[0] == "*":
        return fld_of(c[1])
    return fld_of(c) if is_loc(c) else None


def index_in(t, fld):
    """index used to read an element of the container field fld inside t"""
    for s in subterms(t):
        if s[0] == "E" and cont_fld(s[1]) == fld:
            return s[2]
    return None


def intron_of(t):
    """index of the line whose intron mark t is"""
    if t[0] == "ld" and t[1][0] == "F" and t[1][2].endswith("pair::second") and t[1][1][0] == "E" and fld_of(t[1][1][1]) == LINES:
        return t[1][1][2]
    if t[0] == "call" and t[1] == "Program::Program::isIntron":
        return t[3][0]
    return None


def nlines(t):
    return isinstance(t, tuple) and (t[0] == "size" and fld_of(t[1]) == LINES or t[0] == "call" and t[1] == "Program::Program::getNbLines")


def known(facts, pc):
    """(intron?, in range?) of line pc"""
    intr = rng = None
    for t, v in facts:
        if intron_of(t) == pc:
            intr = v
        elif t[0] == "op" and t[1] == "<" and t[2] == pc and nlines(t[3]):
            rng = v
        elif t[0] == "op" and t[1] == "==" and any(nlines(x) for x in t[2:4]):
            o = t[3] if nlines(t[2]) else t[2]
            if o == pc and v:
                rng = False
            elif o == C(0) and pc == C(0):
                rng = not v
            elif o == C(0) and v and rng is None:
                rng = False
    return intr, rng


def check(ck):
    ck.P.need_field("Program::ProgramEngine", "programCounter")
    ck.P.need_field("Program::ProgramEngine", "dataScsConstsAndRegs")
    ck.rule("R1-fresh-registers", "executeProgram zeroes the registers before the first line and returns register 0", 1)
    ck.rule("R2-lines-in-order", "the engine executes line after line from line 0, executing every line not marked intron "
            "and skipping only lines marked intron, up to the last", 1)
    ck.rule("R3-operands", "operand i is read from the source and (scaled) location line operand i designates, with the type "
            "the instruction announces for operand i, for every operand in order", 1)
    ck.rule("R4-result", "the value computed by the line's own instruction from exactly the fetched operands is written to "
            "the line's destination register and nowhere else", 1)
    ck.rule("R5-own-data", "binding a program resets the registers and replaces the constants by the program's own", 1)
    registers(ck)
    order(ck)
    fetch(ck)
    line(ck)
    bind(ck)


def registers(ck):
    R = "R1-fresh-registers"
    f = ck.P.one(PX + "executeProgram")
    REG = PE + "registers"

    def step(st, ev):
        if ev.kind != "call":
            return
        b = ev.name.rsplit("::", 1)[-1]
        if b == "resetData" and fld_of(ev.o) == REG:
            st.auto = "reset" if st.auto in (None, "reset") else st.auto
        elif b in ("processLine", "iterateThroughtProgram", "executeCurrentLine"):
            st.auto = "run" if st.auto in ("reset", "run") else "dirty"
    hits, ps, cl = sites(ck, f, lambda ev: ev.kind == "call" and ev.name.rsplit("::", 1)[-1] == "getDataAt",
                         named("processLine", "iterateThroughtProgram", "resetData", "getDataAt", "executeCurrentLine"), step, None)
    if ps is None:
        return ck.und(R, f.loc(), ck.why)
    for p in ps:
        if p.kind != "ret":
            continue
        if p.auto == "run":
            ck.ok(R, "registers reset before the lines are executed")
        elif p.auto == "dirty":
            ck.bad(R, f.loc(), "lines are executed on registers that were not reset")
        else:
            ck.bad(R, f.loc(), "the program is not executed")
    for h in hits:
        if fld_of(h.o) != REG:
            ck.bad(R, h.at, "the result is read from %s instead of the registers" % pp(h.o))
        elif h.args[1] != C(0):
            ck.bad(R, h.at, "the result is register %s instead of register 0" % pp(h.args[1]))
        elif h.auto not in ("run", "dirty"):
            ck.bad(R, h.at, "the result is read before the program is executed")
        else:
            ck.ok(R, "returns register 0")


def order(ck):
    R = "R2-lines-in-order"
    f = ck.P.one(PE + "iterateThroughtProgram")
    run = lambda ev: ev.kind == "call" and ev.name.rsplit("::", 1)[-1] in ("processLine", "executeCurrentLine")

    class B(Sites):
        budget = 200000
        gc_facts = True
        ext_throws = False

        def event(self, st, ev):
            if run(ev):
                pc = Engine.load(None, st, PC)
                self.runs.append((ev.at(), st.copy(), pc))
                if st.auto == ("p", pc):
                    self.twice.append(ev.at())
                st.auto = ("p", pc)
            elif ev.kind == "write" and ev.loc == PC:
                old = ev.prev if ev.prev is not None else None
                self.writes.append((ev.at(), st.copy(), old, ev.val))
                st.auto = None if st.auto is None else ("w",)

        def refine(self, st, t, truth):
            if t[0] == "phi" and isinstance(t[2], tuple) and t[2][0] == "L":
                self.cond.add((t[1], t[2]))
            return True

        def loop(self, st, kind, tag, g, eng):
            if kind in ("enter", "back"):
                self.heads.append((kind, tag, st.copy()))
    cl = B(lambda ev: False, named("processLine", "executeCurrentLine"))
    cl.runs, cl.writes, cl.heads, cl.cond, cl.twice = [], [], [], set(), []
    ps = paths(ck, f, cl, auto=None)
    if ps is None:
        return ck.und(R, f.loc(), ck.why)
    if not cl.runs:
        return ck.bad(R, f.loc(), "no line is executed")
    n = 0
    # start and steps of the counter
    for at, st, old, val in cl.writes:
        pc0 = old
        if val == C(0):
            if st.auto is not None:
                ck.bad(R, at, "the program counter goes back to the first line")
            continue
        if pc0 is None:
            ck.und(R, at, "counter update: " + pp(val))
            continue
        d = mkop("-", val, pc0)
        if d != C(1):
            if d[0] == "c":
                ck.bad(R, at, "the program counter advances by %s" % pp(d))
            else:
                ck.und(R, at, "counter update: " + pp(val))
            continue
        if st.auto == ("p", pc0) or st.auto and st.auto[0] == "p":
            n += 1
            continue
        intr, rng = known(st.facts, pc0)
        if intr is True or rng is False:
            n += 1
            continue
        if intr is False:
            ck.bad(R, at, "a line that is not an intron is skipped")
        elif not any(intron_of(t) is not None for t, v in st.facts):
            # the head invariant may hold it
            if any(intron_of(t) is not None for _, _, s in cl.heads for t, v in s.facts):
                n += 1
                continue
            ck.bad(R, at, "a line is passed over without looking at its intron mark")
    # executed lines
    for at, st, pc in cl.runs:
        intr, rng = known(st.facts, pc)
        if intr is False and rng is not False:
            ck.ok(R, "executed line is not an intron")
            continue
        if intr is True:
            ck.bad(R, at, "a line marked as intron is executed")
            continue
        conds = [(tag, L) for tag, L in cl.cond if any(t == ("phi", tag, L) and v for t, v in st.facts)]
        done, est, unk = None, [], []
        for tag, L in conds:
            for kind, tg, s in cl.heads:
                if tg != tag:
                    continue
                val = s.m.get(L)
                tv = fact(s.facts, val) if isinstance(val, tuple) else None
                if tv is False:
                    done = done or "ok"
                    continue
                p2 = Engine.load(None, s, PC)
                i2, r2 = known(s.facts, p2)
                if i2 is True:
                    ck.bad(R, at, "a line marked as intron is executed (%s)" % ("first line" if kind == "enter" else "following line"))
                    done = "bad"
                elif r2 is False:
                    ck.bad(R, at, "execution goes on past the last line")
                    done = "bad"
                elif i2 is False:
                    done = done or "ok"
                else:
                    done = "unk"
                    unk.append(kind)
                if i2 is False:
                    est.append(kind)
        if done == "unk" and est:
            ck.bad(R, at, "the %s line is executed without its own intron mark having been looked at" % ("first" if unk[0] == "enter" else "following"))
        elif done == "ok":
            ck.ok(R, "executed line is not an intron")
        elif done == "unk" or done is None:
            if not any(intron_of(t) is not None for t, v in st.facts) and not any(intron_of(t) is not None for _, _, s in cl.heads for t, v in s.facts):
                ck.bad(R, at, "lines are executed whatever their intron mark")
            else:
                ck.und(R, at, "intron mark of the executed line not established")
    # nothing left out
    for p in ps:
        if p.kind != "ret":
            continue
        pc = p.get(PC)
        intr, rng = known(p.facts, pc)
        if rng is False:
            ck.ok(R, "stops after the last line")
            continue
        good = False
        for tag, L in cl.cond:
            if any(t == ("phi", tag, L) and not v for t, v in p.facts):
                good = True
                for kind, tg, s in cl.heads:
                    if tg != tag:
                        continue
                    val = s.m.get(L)
                    tv = fact(s.facts, val) if isinstance(val, tuple) else None
                    if tv is True:
                        continue
                    i2, r2 = known(s.facts, Engine.load(None, s, PC))
                    if tv is not True and r2 is True:
                        ck.bad(R, f.loc(), "execution stops before the last line")
                        good = False
        if good:
            ck.ok(R, "stops after the last line")
        elif not any(b["rule"] == R for b in ck.bad_):
            ck.und(R, f.loc(), "end of the execution not interpreted")
    if cl.twice:
        ck.bad(R, cl.twice[0], "a line is executed twice")
    if not any(v == C(0) for _, _, _, v in cl.writes):
        ck.bad(R, f.loc(), "execution does not start at the first line")
    elif n:
        ck.ok(R, "counter advances by one line")


def fetch(ck):
    R = "R3-operands"
    f = ck.P.one(PE + "fetchCurrentOperands")
    hits, ps, cl = sites(ck, f, lambda ev: ev.kind == "call" and ev.name.rsplit("::", 1)[-1] in ("getDataAt", "push_back", "emplace_back", "insert"),
                         named("getDataAt", "scaleLocation"), use_cov=True)
    if ps is None:
        return ck.und(R, f.loc(), ck.why)
    n = 0
    for h in hits:
        if h.base != "getDataAt":
            if h.o == ("*", ("p", 0)):
                if not has_sub(("x",) + tuple(h.args), lambda z: z[0] == "call" and z[1].endswith("::getDataAt")):
                    ck.bad(R, h.at, "a value that was not read from a source is passed as operand")
            continue
        ty, loc = h.args[0], h.args[1]
        src = h.o
        i0 = index_in(src, OPS)
        it = index_in(ty, TYPES)
        sl = [s for s in subterms(loc) if s[0] == "call" and s[1].endswith("::scaleLocation")]
        if index_in(src, SRC) is None:
            ck.bad(R, h.at, "the operand is read from %s, not from the bound data sources" % pp(src))
            continue
        if i0 is None or not _side(index_in(src, SRC), "first"):
            ck.bad(R, h.at, "the source read (%s) is not the one the line's operand designates" % pp(src))
            continue
        if not sl:
            if _side(loc, "second"):
                ck.bad(R, h.at, "the location is not scaled to the source's address space")
            else:
                ck.und(R, h.at, "location: " + pp(loc))
            continue
        s = sl[0]
        i1, i2 = index_in(s[3][0], OPS), index_in(s[3][1], TYPES)
        if s[2] != src and index_in(s[2], SRC) != index_in(src, SRC):
            ck.bad(R, h.at, "the location is scaled for another source than the one read")
        elif not _side(s[3][0], "second"):
            ck.bad(R, h.at, "the location is not the one the line's operand designates: " + pp(s[3][0]))
        elif not (i0 == i1 == i2 == it):
            ck.bad(R, h.at, "source, location and type of an operand are taken from different operand positions")
        else:
            ck.ok(R, h.at + " operand i from its own source, location and type")
            n += 1
    # every operand, in order
    for tag, info in cl.loops.items():
        for L in set(info["init"]):
            if any(h.base == "getDataAt" and has_sub(("x", h.o) + tuple(h.args), lambda z: z == ("phi", tag, L)) for h in hits):
                i, s = info["init"][L], info["step"].get(L, set())
                if i != {C(0)}:
                    ck.bad(R, f.loc(), "the first operand fetched is operand %s" % ", ".join(map(pp, i)))
                if s and s != {mkop("+", ("phi", tag, L), C(1))}:
                    ck.bad(R, f.loc(), "operands are not fetched one after the other")
                for p in ps:
                    if p.kind == "ret":
                        up = [t[3] for t, v in p.facts if t[0] == "op" and t[1] == "<" and t[2] == ("phi", tag, L) and not v]
                        if up and not any(u[0] == "size" and fld_of(u[1]) == TYPES or u[0] == "call" and u[1].endswith("getNbOperands") for u in up):
                            ck.bad(R, f.loc(), "operands are fetched up to %s instead of the instruction's number of operands" % pp(up[0]))
                        elif up:
                            ck.ok(R, "all operands fetched")


def _side(t, side):
    return has_sub(t, lambda z: z[0] == "F" and z[2].endswith("pair::" + side) and z[1][0] == "E" and cont_fld(z[1][1]) == OPS) and \
        not has_sub(t, lambda z: z[0] == "F" and z[2].endswith("pair::" + ("first" if side == "second" else "second")) and z[1][0] == "E" and cont_fld(z[1][1]) == OPS)


def line(ck):
    R = "R4-result"
    f = ck.P.one(PX + "executeCurrentLine")
    hits, ps, cl = sites(ck, f, lambda ev: ev.kind == "call" and ev.name.rsplit("::", 1)[-1] in ("execute", "setDataAt"),
                         lambda g: g.base in ("execute", "setDataAt", "fetchCurrentOperands", "getDataAt", "scaleLocation"))
    if ps is None:
        return ck.und(R, f.loc(), ck.why)
    ex = [h for h in hits if h.base == "execute"]
    wr = [h for h in hits if h.base == "setDataAt"]
    if not ex or not wr:
        return ck.bad(R, f.loc(), "the line's instruction is not executed or its result not written")
    for h in ex:
        if index_in(h.o, "Instructions::Set::instructions") is None:
            ck.und(R, h.at, "instruction executed: " + pp(h.o))
        elif not has_sub(h.o, lambda z: z[0] == "F" and z[2] == "Program::Line::instructionIndex") or index_in(h.o, LINES) != Engine.load(None, h.st, PC):
            ck.bad(R, h.at, "the instruction executed is not the one of the current line")
        else:
            ck.ok(R, "instruction of the current line")
    for h in wr:
        if fld_of(h.o) != PE + "registers":
            ck.bad(R, h.at, "the result is written to %s" % pp(h.o))
        elif not (has_sub(h.args[1], lambda z: z[0] == "F" and z[2] == "Program::Line::destinationIndex") and h.args[1][0] == "ld"):
            ck.bad(R, h.at, "the result is written at %s instead of the line's destination" % pp(h.args[1]))
        elif index_in(h.args[1], LINES) != Engine.load(None, h.st, PC):
            ck.bad(R, h.at, "the destination is that of another line")
        elif not (h.args[2][0] == "call" and h.args[2][1].endswith("::execute")):
            if has_sub(h.args[2], lambda z: z[0] == "call" and z[1].endswith("::execute")):
                ck.und(R, h.at, "value written: " + pp(h.args[2]))
            else:
                ck.bad(R, h.at, "the value written is not the result of the instruction")
        else:
            ck.ok(R, "result written to the destination register")


def bind(ck):
    R = "R5-own-data"
    f = ck.P.one(PE + "setProgram")
    prog = ("*", ("p", 0))

    def step(st, ev):
        if ev.kind == "call" and ev.name.rsplit("::", 1)[-1] == "resetData" and fld_of(ev.o) == PE + "registers":
            st.auto = st.auto | {"reset"}
        elif ev.kind in ("write", "call") and _w1(st, ev):
            st.auto = st.auto | {"const"}
        elif ev.kind == "write" and fld_of(ev.loc) == PE + "program":
            v = ev.val
            st.auto = st.auto | ({"prog"} if v == ("p", 0) or v == ("addr", prog) or v == ("addr_of", prog) else {"other"})

    def _w1(st, ev):
        loc = ev.loc if ev.kind == "write" else (ev.o if ev.name.endswith("operator=") else None)
        if not (is_loc(loc) and loc[0] == "E" and fld_of(loc[1]) == SRC and loc[2] == C(1)):
            return False
        vals = [ev.val] if ev.kind == "write" else list(ev.a or [])
        return any(has_sub(v, lambda z: z[0] == "F" and z[2] == "Program::Program::constants" and has_sub(z, lambda y: y == ("p", 0)))
                   or has_sub(v, lambda z: z[0] == "call" and z[1].endswith("ConstantHandler") and z[2] == prog) for v in vals if isinstance(v, tuple))
    hits, ps, cl = sites(ck, f, lambda ev: False, named("resetData"), step, frozenset(), budget=200000)
    if ps is None:
        return ck.und(R, f.loc(), ck.why)
    nc = lambda t: fld_of(t) == "Environment::nbConstants" or t[0] == "call" and t[1].endswith("getNbConstant")
    for p in ps:
        if p.kind != "ret":
            continue
        if "reset" not in p.auto:
            ck.bad(R, f.loc(), "the registers are not reset when a program is bound")
        if "other" in p.auto or "prog" not in p.auto:
            ck.bad(R, f.loc(), "the program given is not the one bound")
        has = None
        for t, v in p.facts:
            if t[0] == "op" and t[1] == "<" and t[2] == C(0) and nc(t[3]):
                has = v
            elif t[0] == "op" and t[1] == "==" and C(0) in t[2:4] and any(nc(x) for x in t[2:4]):
                has = not v
        if has is not False and "const" not in p.auto:
            ck.bad(R, f.loc(), "the constants of the previously bound program stay in use")
        if "reset" in p.auto and "prog" in p.auto and ("const" in p.auto or has is False):
            ck.ok(R, "bound with fresh registers and its own constants")

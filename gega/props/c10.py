"""C10: generated and mutated programs are well-formed."""
from ..core import *
from ..flow import mkop
from .c09 import index_in, cont_fld, nlines, LINES, OPS, TYPES

LN = "Program::Line::"
PM = "Mutator::ProgramMutator::"
FAKE = "Environment::fakeDataSources"
LIM = {"Environment::nbRegisters": "getNbRegisters", "Environment::nbInstructions": "getNbInstructions",
       "Environment::nbDataSources": "getNbDataSources", "Environment::largestAddressSpace": "getLargestAddressSpace",
       "Environment::maxNbOperands": "getMaxNbOperands"}
DRAW = "Mutator::RNG::getUnsignedInt64"


def lim(t):
    f = fld_of(t)
    return f if f in LIM else None


def check(ck):
    P = ck.P
    ck.rule("R1-refused", "a line refuses (returns false, unchanged) a destination, instruction, source or location that does "
            "not exist, and throws on an operand index that does not exist", 3)
    ck.rule("R2-checked", "the library never disables these checks when it writes a line", 1)
    ck.rule("R3-typed-source", "when an operand's source is drawn for an operand the instruction uses, the source retained can "
            "provide the type of that very operand", 1)
    ck.rule("R4-revalidated", "after the instruction of a line changes, every operand the new instruction uses is accepted by "
            "its source or drawn again", 1)
    ck.rule("R5-length", "mutation removes a line only from a program of more than one line and adds one only below "
            "maxProgramSize; a new program gets between one and maxProgramSize lines", 2)
    ck.rule("R6-initialised", "a line inserted by mutation receives a drawn destination, instruction and every operand", 2)
    setters(ck)
    checked(ck)
    typed(ck)
    revalidated(ck)
    length(ck)
    initialised(ck)


def setters(ck):
    R = "R1-refused"
    for nm, pairs in (("setDestinationIndex", [(0, "Environment::nbRegisters", "destinationIndex")]),
                      ("setInstructionIndex", [(0, "Environment::nbInstructions", "instructionIndex")]),
                      ("setOperand", [(1, "Environment::nbDataSources", "first"), (2, "Environment::largestAddressSpace", "second")])):
        f = ck.P.one(LN + nm)
        ci = len(f.params) - 1
        hits, ps, cl = sites(ck, f, lambda ev: ev.kind == "write" and ev.loc is not None and has_sub(ev.loc, lambda z: z == SELF))
        if ps is None:
            ck.und(R, f.loc(), nm + ": " + ck.why)
            continue
        for h in hits:
            chk = fact(h.facts, ("p", ci))
            fl = h.ev.loc[2] if h.ev.loc[0] == "F" else None
            for i, lm, fld in pairs:
                if fl is None or not fl.endswith("::" + fld):
                    continue
                v = h.ev.val
                if v != ("p", i):
                    ck.bad(R, h.at, "%s stores %s instead of its argument" % (nm, pp(v)))
                    continue
                if chk is False:
                    continue
                lt = [t for s, _ in h.facts for t in subterms(s) if lim(t) == lm]
                if any(entails_lt(v, t, h.facts) for t in lt):
                    ck.ok(R, "%s: %s below %s" % (nm, fld, lm))
                elif any(t[0] == "op" and ("p", i) in t[2:4] and t[1] in ("<", "<=") for t, _ in h.facts) and not lt:
                    ck.bad(R, h.at, "%s compares the %s with %s instead of %s" % (nm, fld, [pp(t) for t, _ in h.facts if t[0] == "op" and ("p", i) in t[2:4]][0], lm))
                else:
                    ck.bad(R, h.at, "%s accepts a %s that is not below %s" % (nm, fld, LIM[lm]))
        if nm == "setOperand":
            for h in hits:
                ix = index_in(h.ev.loc, OPS)
                if ix is not None and ix != ("p", 0):
                    ck.bad(R, h.at, "setOperand writes operand %s" % pp(ix))
                lt = [t for s, _ in h.facts for t in subterms(s) if lim(t) == "Environment::maxNbOperands"]
                if not any(entails_lt(("p", 0), t, h.facts) for t in lt):
                    ck.bad(R, h.at, "setOperand writes an operand that does not exist")
            if not any(p.kind == "throw" for p in ps):
                ck.bad(R, f.loc(), "setOperand does not refuse an operand index that does not exist")
        for p in ps:
            if p.kind != "ret":
                continue
            wr = p.st.m
            touched = [k for k in wr if is_loc(k) and has_sub(k, lambda z: z == SELF) and k[0] in ("F", "E") and any(
                (k[2] if k[0] == "F" else "").endswith("::" + fld) for _, _, fld in pairs)]
            if p.ret == FALSE and touched:
                ck.bad(R, f.loc(), "%s answers false after having changed the line" % nm)
            if p.ret == TRUE and len(touched) < len(pairs):
                ck.bad(R, f.loc(), "%s answers true without having stored %s" % (nm, pairs[-1][2]))
    f = ck.P.one(LN + "getOperand")
    hits, ps, cl = sites(ck, f, lambda ev: False)
    for p in ps or []:
        if p.kind == "ret":
            lt = [t for s, _ in p.facts for t in subterms(s) if lim(t) == "Environment::maxNbOperands"]
            if not any(entails_lt(("p", 0), t, p.facts) for t in lt):
                ck.bad(R, f.loc(), "getOperand reads an operand that does not exist")
            else:
                ck.ok(R, "getOperand refuses an operand that does not exist")


def checked(ck):
    R = "R2-checked"
    n = 0
    for g in ck.P.funcs.values():
        if "harness" in g.file:
            continue
        for c in g.calls():
            nm = short(c.get("fn", ""))
            if nm in (LN + "setDestinationIndex", LN + "setInstructionIndex", LN + "setOperand"):
                a = c["a"][-1] if c.get("a") else None
                x = g.node(a)
                while isinstance(x, dict) and x["k"] in ("cast", "load", "paren", "default", "defarg"):
                    x = g.node(x["x"])
                if isinstance(x, dict) and x["k"] in ("bool", "lit", "int") and x.get("v") in (False, 0, "false"):
                    ck.bad(R, g.loc(c.get("l")), "%s writes a line with its checks disabled" % g.sname)
                else:
                    n += 1
    if n:
        ck.ok(R, "%d writes of lines keep the checks" % n)


def drawers(P):
    """functions that set an operand from a random draw"""
    return [g for g in P.funcs.values() if g.blocks and not g.sname.startswith("Program::") and
            any(short(n.get("fn", "")) == LN + "setOperand" for n in g.calls()) and
            any(short(n.get("fn", "")).startswith("Mutator::RNG::") for n in [m for i in P.reach([g]) for m in P.funcs[i].calls()])]


def typed(ck):
    R = "R3-typed-source"
    P = ck.P
    fs = drawers(P)
    # innermost functions only
    ids = {g.id for g in fs}
    if not fs:
        return ck.und(R, "lineMutator", "no function drawing operands found")
    for f in sorted(fs, key=lambda g: g.id):
        class B(Sites):
            budget = 200000

            def loop(self, st, kind, tag, g, eng):
                if kind == "back":
                    for L, v in st.m.items():
                        if L[0] == "L" and isinstance(v, tuple) and v[0] == "call" and v[1].endswith("::canHandle"):
                            self.found.setdefault((tag, L), []).append((v, {K: w for K, w in st.m.items() if K[0] == "L"}))
                elif kind == "enter":
                    self.ent.setdefault(tag, []).append({K: w for K, w in st.m.items() if K[0] == "L"})
        cl = B(is_call("setOperand", "canHandle"), named("setOperand", "canHandle", "getUnsignedInt64"))
        cl.found, cl.ent = {}, {}
        ps = paths(ck, f, cl)
        if ps is None:
            ck.und(R, f.loc(), f.sname + ": " + ck.why)
            continue
        for h in cl.hits:
            if h.base != "setOperand":
                continue
            op, src = h.args[0], h.args[1]
            if src[0] == "ld" and has_sub(src, lambda z: z[0] == "F" and z[2].endswith("pair::first") and cont_fld(z[1][1] if z[1][0] == "E" else z[1]) == OPS):
                continue          # source unchanged
            used = None
            for t, v in h.facts:
                if t[0] == "op" and t[1] == "<" and t[2] == op and (t[3][0] == "size" and fld_of(t[3][1]) == TYPES or
                                                                    t[3][0] == "call" and t[3][1].endswith("getNbOperands")):
                    used = v
            if used is False:
                continue
            verdict = None
            for t, v in h.facts:
                if not v:
                    continue
                if t[0] == "call" and t[1].endswith("::canHandle"):
                    verdict = judge(t, src, op, {}, verdict)
                if t[0] == "phi" and (t[1], t[2]) in cl.found:
                    for val, env in cl.found[(t[1], t[2])]:
                        i = index_in(val[2], FAKE)
                        ok = i is not None and any(w == i for K, w in env.items() if src == ("phi", t[1], K)) or i == src
                        if not ok:
                            verdict = "other source"
                        else:
                            verdict = judge(val, i, op, env, verdict)
                    for e in cl.ent.get(t[1], []):
                        w = e.get(t[2])
                        if w == TRUE:
                            verdict = "entered"
            if verdict == "ok":
                ck.ok(R, h.at + " source able to provide the operand's type")
            elif verdict == "entered":
                ck.und(R, h.at, "search loop entered with the source already accepted")
            elif verdict is None:
                if any(x.base == "canHandle" for x in cl.hits) and not any(t[0] == "phi" for t, v in h.facts):
                    ck.bad(R, h.at, "the drawn source is retained whatever canHandle answers")
                elif not any(x.base == "canHandle" for x in cl.hits):
                    ck.bad(R, h.at, "the drawn source is not checked for the operand's type")
                else:
                    ck.bad(R, h.at, "the drawn source is retained without being able to provide the operand's type") if \
                        any(t[0] == "phi" and v and (t[1], t[2]) not in cl.found for t, v in h.facts) else \
                        ck.und(R, h.at, "check of the drawn source not interpreted")
            else:
                ck.bad(R, h.at, "the drawn source is checked for %s" % verdict)


def judge(t, src, op, env, prev):
    i = index_in(t[2], FAKE)
    if i is not None and i != src:
        return prev or "another source than the one retained"
    ty = index_in(t[3][0], TYPES) if t[3] else None
    nv = lambda x: ("ld", x[1]) if isinstance(x, tuple) and x[0] == "ld" else x
    if ty is not None and nv(ty) != nv(op):
        return "the type of another operand"
    if ty is None or i is None:
        return prev or "ok"
    return "ok"


def revalidated(ck):
    R = "R4-revalidated"
    P = ck.P
    f = P.one("Mutator::LineMutator::alterCorrectLine")
    dr = {g.id for g in drawers(P) if g.id != f.id and any(short(n.get("fn", "")) == LN + "setOperand" for n in g.calls())}

    class B(Sites):
        use_cov = True
        budget = 200000

        def refine(self, st, t, truth):
            if t[0] == "call" and t[1].endswith("::canHandle") and truth:
                i = index_in(t[2], FAKE)
                j = index_in(t[3][0], TYPES)
                if i is not None and j is not None and index_in(i, OPS) == j and i[0] == "ld" and \
                        has_sub(i, lambda z: z[0] == "F" and z[2].endswith("pair::first")):
                    self.eng.mark(st, j, "valid")
                elif i is not None:
                    self.wrong.add(pp(t))
            return True

        def event(self, st, ev):
            if ev.kind == "call" and (ev.f in dr or ev.name == LN + "setOperand"):
                for a in ev.av or ev.a:
                    v = Engine.load(None, st, a) if is_loc(a) else a
                    if isinstance(v, tuple) and v[0] == "phi":
                        self.eng.mark(st, v, "valid")
            if ev.kind == "call" and ev.name == LN + "setInstructionIndex":
                st.auto = True
            super().event(st, ev)
    cl = B(lambda ev: False, lambda g: g.id in dr or g.base in ("setOperand", "canHandle", "getUnsignedInt64", "setInstructionIndex", "setDestinationIndex"))
    cl.wrong = set()
    e = Engine(P, cl)
    cl.eng = e
    try:
        r = e.run(f, auto=None)
    except Undecided as x:
        return ck.und(R, f.loc(), str(x))
    ck.steps += e.steps
    ck.funcs |= e.funcs_seen
    for k, s, rv in r:
        if k != "ret" or not s.auto:
            continue
        cov = [x for x in s.cov if x[0] == "cov"]
        full = [x for x in cov if x[1][0] == "upto" or x[1][0] in ("F", "size")]
        if any(x[2] in ("valid", "*") for x in cov):
            rng = [x[1] for x in cov if x[2] in ("valid", "*")]
            if any(fld_of(c) == TYPES or c[0] == "upto" and "getNbOperands" in str(c) for c in rng):
                ck.ok(R, "every operand of the new instruction checked or drawn again")
            else:
                ck.und(R, f.loc(), "range of the operand check: %s" % [pp(c) for c in rng])
        elif any(x[2] == "#" for x in cov):
            ck.bad(R, f.loc(), "after the instruction changed, some operands are neither accepted by their source nor drawn again")
        elif not cl.loops:
            ck.bad(R, f.loc(), "after the instruction changed, operands are not checked against it")
        else:
            ck.und(R, f.loc(), "operand check not interpreted")
    for tag, info in cl.loops.items():
        for L, i in info["init"].items():
            if info["step"].get(L) and info["step"][L] == {mkop("+", ("phi", tag, L), C(1))} and i != {C(0)} and all(num(x) for x in i):
                ck.bad(R, f.loc(), "the first operands are not checked after the instruction changed")


def length(ck):
    R = "R5-length"
    P = ck.P
    f = P.one(PM + "mutateProgram")
    PR = named("identifyIntrons", "initRandomCorrectLine", "alterCorrectLine", DRAW, "Mutator::RNG::getDouble", "Mutator::RNG::getInt32",
               "setDataAt", "swapLines", "removeLine", "addNewLine")
    hits, ps, cl = sites(ck, f, is_call("removeLine", "addNewLine"), PR)
    mx = lambda t: (fld_of(t) or "").endswith("::maxProgramSize")
    if ps is None:
        ck.und(R, f.loc(), ck.why)
    for h in hits if ps is not None else []:
        cur = [t for s, _ in h.facts for t in subterms(s) if nlines(t)]
        if h.base == "removeLine":
            if any(entails_lt(C(1), t, h.facts) for t in cur):
                ck.ok(R, "a line is removed only from a program of several lines")
            elif any(t[0] == "op" and t[1] == "==" and nlines(t[2]) or nlines(t[3]) for t, v in h.facts if t[0] == "op" and len(t) == 4):
                ck.bad(R, h.at, "a line may be removed from a program with a single line")
            else:
                ck.bad(R, h.at, "a line is removed whatever the length of the program")
        else:
            v = ("lines", h.st.ver.get(LINES, 0))
            lm = [t for s, _ in h.facts for t in subterms(s) if mx(t)]
            now = cur_size(h.st, ("F", h.o, LINES)) if h.o else None
            if any(entails_lt(t, m, h.facts) for t in cur for m in lm if now is None or t == now or now[2] == t[2]):
                ck.ok(R, "a line is added only below maxProgramSize")
            elif any(entails_lt(t, m, h.facts) for t in cur for m in lm):
                if any(x[0] == "rm" for x in (h.auto or ())):
                    ck.ok(R, "a line is added only below maxProgramSize")
                else:
                    ck.und(R, h.at, "length compared before a line was removed")
            else:
                ck.bad(R, h.at, "a line may be added to a program that already has maxProgramSize lines")
    f = P.one(PM + "deleteRandomLine")
    hits, ps, cl = sites(ck, f, is_call("removeLine"), PR)
    for h in hits if ps is not None else []:
        cur = [t for s, _ in h.facts for t in subterms(s) if nlines(t)]
        if any(entails_lt(C(1), t, h.facts) for t in cur):
            ck.ok(R, "deleteRandomLine keeps the last line")
        else:
            ck.bad(R, h.at, "deleteRandomLine may remove the only line of a program")
    f = P.one(PM + "initRandomProgram")
    hits, ps, cl = sites(ck, f, lambda ev: ev.kind == "call" and ev.name.rsplit("::", 1)[-1] in ("addNewLine", "removeLine"), PR)
    isd = lambda t: isinstance(t, tuple) and t[0] == "call" and t[1] == DRAW
    for h in hits if ps is not None else []:
        if h.base != "addNewLine":
            continue
        dr = [t for s, _ in h.facts for t in subterms(s) if isd(t) and has_sub(t[3], mx)]
        cur = [t for s, _ in h.facts for t in subterms(s) if nlines(t)]
        if not dr:
            b = [m for s, _ in h.facts for m in subterms(s) if mx(m)]
            if b and any(entails_lt(t, m, h.facts) for t in cur for m in b):
                ck.ok(R, "new programs stay below maxProgramSize")
            else:
                ck.und(R, h.at, "number of lines of a new program not interpreted")
            continue
        d = dr[0]
        lo, hi = d[3]
        if lo == C(0):
            ck.bad(R, h.at, "a new program may have no line")
        elif mkop("-", hi, [m for m in subterms(hi) if mx(m) and m[0] == "ld"][0]) not in (C(0),) and num(mkop("-", hi, [m for m in subterms(hi) if mx(m) and m[0] == "ld"][0])) and \
                mkop("-", hi, [m for m in subterms(hi) if mx(m) and m[0] == "ld"][0])[1] > 0:
            ck.bad(R, h.at, "a new program may have more than maxProgramSize lines")
        elif any(entails_lt(t, d, h.facts) for t in cur):
            ck.ok(R, "new programs have between one and maxProgramSize lines")
        elif any(t[0] == "op" and t[1] in ("<", "<=") and d in t[2:4] and any(nlines(x) for x in t[2:4]) for t, v in h.facts):
            ck.bad(R, h.at, "a new program may get one line more than the number drawn")
        else:
            ck.und(R, h.at, "number of lines of a new program not interpreted")


def initialised(ck):
    R = "R6-initialised"
    P = ck.P
    f = P.one(PM + "insertRandomLine")

    def step(st, ev):
        if ev.kind == "call":
            b = ev.name.rsplit("::", 1)[-1]
            if b == "addNewLine":
                st.auto = ("new", ev.res)
            elif b == "initRandomCorrectLine":
                a = ev.a[0]
                if st.auto and st.auto[0] == "new" and has_sub(a, lambda z: z == st.auto[1]):
                    st.auto = ("init",)
                elif st.auto and st.auto[0] == "new":
                    st.auto = ("other", st.auto[1])
    hits, ps, cl = sites(ck, f, lambda ev: False, named("addNewLine", "initRandomCorrectLine", DRAW), step, None)
    for p in ps or []:
        if p.kind != "ret":
            continue
        if p.auto == ("init",):
            ck.ok(R, "inserted line initialised")
        elif p.auto and p.auto[0] == "new":
            ck.bad(R, f.loc(), "an inserted line is left uninitialised")
        elif p.auto:
            ck.bad(R, f.loc(), "another line than the one inserted is initialised")
        else:
            ck.und(R, f.loc(), "no line inserted")
    f = P.one("Mutator::LineMutator::initRandomCorrectLine")
    dr = {g.id for g in drawers(P) if g.id != f.id and any(short(n.get("fn", "")) == LN + "setOperand" for n in g.calls())}

    class B(Sites):
        use_cov = True

        def event(self, st, ev):
            if ev.kind != "call":
                return
            if ev.f in dr or ev.name == LN + "setOperand":
                for a in ev.av or ev.a:
                    v = Engine.load(None, st, a) if is_loc(a) else a
                    if isinstance(v, tuple) and v[0] == "phi":
                        self.eng.mark(st, v, "operand")
            elif ev.name in (LN + "setInstructionIndex", LN + "setDestinationIndex"):
                v = ev.av[0] if ev.av else ev.a[0]
                d = has_sub(v, lambda z: z[0] == "call" and z[1] == DRAW)
                st.auto = st.auto | {(ev.name.rsplit("::", 1)[-1], d)}
    cl = B(lambda ev: False, lambda g: g.id in dr or g.base in ("setOperand", "canHandle", "getUnsignedInt64", "setInstructionIndex", "setDestinationIndex"))
    e = Engine(P, cl)
    cl.eng = e
    try:
        r = e.run(f, auto=frozenset())
    except Undecided as x:
        return ck.und(R, f.loc(), str(x))
    ck.steps += e.steps
    for k, s, rv in r:
        if k != "ret":
            continue
        for nm in ("setInstructionIndex", "setDestinationIndex"):
            x = [d for n, d in s.auto if n == nm]
            if not x:
                ck.bad(R, f.loc(), "a new line is left without %s" % nm)
            elif not any(x):
                ck.und(R, f.loc(), "%s not drawn" % nm)
            else:
                ck.ok(R, nm + " drawn")
        cov = [x for x in s.cov if x[0] == "cov"]
        c = [x[1] for x in cov if x[2] in ("operand", "*")]
        if c:
            if any(has_sub(y, lambda z: lim(z) == "Environment::maxNbOperands") for y in c):
                ck.ok(R, "every operand drawn")
            elif any(fld_of(y) == TYPES or "getNbOperands" in str(y) for y in c):
                ck.ok(R, "every operand of the instruction drawn")
            else:
                ck.und(R, f.loc(), "operands drawn: %s" % [pp(y) for y in c])
        elif cov:
            ck.bad(R, f.loc(), "some operands of a new line are not drawn")
        else:
            ck.und(R, f.loc(), "operands of a new line")
    for tag, info in cl.loops.items():
        for L, i in info["init"].items():
            if info["step"].get(L) == {mkop("+", ("phi", tag, L), C(1))} and i != {C(0)} and all(num(x) for x in i):
                ck.bad(R, f.loc(), "the first operands of a new line are not drawn")

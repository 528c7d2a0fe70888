"""C12: shared programs are never modified in place."""
from ..core import *
from ..flow import mkop
from .c07 import msites, elem_cont, target, TM, PARAM_TEAM, OUT, STRUCT, outs_of

PM = "Mutator::ProgramMutator::"
PP_ = "Program::Program::"
EPROG = "TPG::TPGEdge::program"


def prog_of_edge(t):
    """edge whose program term t denotes"""
    while isinstance(t, tuple) and t:
        if t[0] == "*":
            t = t[1]
        elif t[0] == "ld" and t[1][0] == "*":
            t = t[1]
        elif t[0] == "ld" and t[1][0] == "F" and t[1][2] == EPROG and t[1][1][0] == "*":
            return t[1][1][1]
        elif t[0] == "call" and t[1] in ("TPG::TPGEdge::getProgram", "TPG::TPGEdge::getProgramSharedPointer"):
            return t[2][1] if t[2][0] == "*" else None
        elif t[0] in ("addr_of",):
            t = t[1]
        elif t[0] == "F" and t[2] == EPROG and t[1][0] == "*":
            return t[1][1]
        else:
            return None
    return None


def fresh_copy_of(v):
    """source of a program copy: v is a newly made Program(src)"""
    if isinstance(v, tuple) and v and v[0] == "new":
        if len(v) > 3 and v[3]:
            return v[3][0]
        return True
    if isinstance(v, tuple) and v and v[0] == "obj" and v[1] == "Program::Program" and v[3]:
        return v[3][0]
    return None


def check(ck):
    P = ck.P
    P.need_field("TPG::TPGEdge", "program")
    ck.rule("R1-fresh-program", "mutation attaches to an edge only a program newly copied from that edge's own program, and "
            "queues every such copy (and nothing else) for behaviour mutation", 2)
    ck.rule("R2-who-mutates", "program mutators are only applied to queued copies and to newly created programs", 4)
    ck.rule("R3-all-mutated", "every queued copy is mutated exactly through mutateProgramBehaviorAgainstArchive, sequentially or by the workers", 2)
    ck.rule("R4-accepted", "a mutated program is accepted only when the last mutation changed it, its behaviour differs from the "
            "copy made beforehand when required, and the archive found its results unique", 3)
    ck.rule("R5-archive-results", "the results compared with the archive are those of the mutated program on every archived data set", 2)
    ck.rule("R6-same-behaviour", "two programs are declared identical only when all non-intron lines, and the constants they use, are equal", 3)
    edges(ck)
    who(ck)
    allm(ck)
    accept(ck)
    same(ck)


def edges(ck):
    P, R = ck.P, "R1-fresh-program"
    f = P.one(TM + "mutateTPGTeam")
    prim = named(*STRUCT, "Mutator::RNG::getUnsignedInt64", "Mutator::RNG::getDouble", "TPG::TPGEdge::setProgram",
                 "TPG::TPGEdge::getProgram", "TPG::TPGEdge::getProgramSharedPointer", "Program::Program::Program")
    newp = ("*", ("p", 6))
    def step(st, ev):
        if ev.kind == "new" and ev.name == "Program::Program":
            a = ev.a[0]
            st.auto = frozenset(x for x in st.auto if x[:2] != ("made", ev.val)) | \
                {("made", ev.val, a[3][0] if isinstance(a, tuple) and a[0] == "obj" and a[3] else None)}
        elif ev.kind == "call" and ev.name == "std::make_shared" and isinstance(ev.res, tuple) and "Program::Program" in str(ev.res[1]):
            st.auto = frozenset(x for x in st.auto if x[:2] != ("made", ev.res)) | {("made", ev.res, ev.res[3][0] if ev.res[3] else None)}
        elif ev.kind == "call" and ev.name == "TPG::TPGEdge::setProgram":
            st.auto = st.auto | {("set", Engine.load(None, st, ev.a[0]) if is_loc(ev.a[0]) else ev.a[0])}
        elif ev.kind == "call" and ev.o == newp and ev.name.rsplit("::", 1)[-1] in ("push_back", "emplace_back", "push_front", "insert"):
            v = ev.a[-1]
            st.auto = st.auto | {("push", Engine.load(None, st, v) if is_loc(v) else v)}

    class B(object):
        pass
    cl_ = {"bad": None}
    hits, ps, cl = msites(ck, f, lambda ev: ev.kind == "call" and ev.name == "TPG::TPGEdge::setProgram", prim, step, frozenset(), loop=None)
    if ps is None:
        ck.und(R, f.loc(), "mutateTPGTeam: " + ck.why)
        return
    out = outs_of(("*", ("p", PARAM_TEAM)))
    for h in hits:
        e = h.o[1] if h.o and h.o[0] == "*" else None
        v = h.args[0]
        made = {x[1]: x[2] for x in h.auto if x[0] == "made"}
        if elem_cont(e) is not None and cl.copies.get(elem_cont(e), elem_cont(e)) not in (out,):
            ck.bad(R, h.at, "the program of %s, which is not an outgoing edge of the mutated team, is replaced" % pp(e))
            continue
        if v in made:
            src = prog_of_edge(made[v])
            if src == e:
                ck.ok(R, h.at + " copy of the edge's own program")
            elif src is not None:
                ck.bad(R, h.at, "the edge receives a copy of another edge's program (%s)" % pp(made[v]))
            elif made[v] is None or ("::env'" in repr(made[v]) or "::environment'" in repr(made[v])) and prog_of_edge(made[v]) is None:
                ck.bad(R, h.at, "the edge receives a program that is not a copy of its own")
            else:
                ck.und(R, h.at, "copied program: " + pp(made[v]))
        elif prog_of_edge(v) is not None:
            ck.bad(R, h.at, "the edge receives the program object of an existing edge instead of a fresh copy")
        else:
            ck.und(R, h.at, "program attached: " + pp(v))
    okq = True
    anyq = False
    for p in ps:
        s = {x[1] for x in p.auto if x[0] == "set"}
        q = {x[1] for x in p.auto if x[0] == "push"}
        anyq = anyq or bool(s) or bool(q)
        for v in s - q:
            ck.bad(R, f.loc(), "a copy attached to an edge is not queued for mutation, leaving the edge unmutated")
            okq = False
        for v in q - s:
            if prog_of_edge(v) is not None:
                ck.bad(R, f.loc(), "a program in use by an existing edge (%s) is queued for mutation" % pp(v))
                okq = False
            elif any(x[:2] == ("made", v) for x in p.auto):
                ck.bad(R, f.loc(), "a program is queued for mutation but never attached to the edge it was copied for")
                okq = False
    if okq and anyq:
        ck.ok(R, "copies attached and queued together")


def who(ck):
    P, R = ck.P, "R2-who-mutates"
    muts = {f.id: f for f in P.funcs.values() if f.scls == "Mutator::ProgramMutator" or f.scls == "Mutator::LineMutator" or
            f.sname.startswith("Mutator::ProgramMutator::") or f.sname.startswith("Mutator::LineMutator::")}
    if not muts:
        raise AnalysisError("anchor vanished: program mutators")
    inner = set(muts)
    callers = P.callers()
    # helpers only reachable from the mutators themselves belong to them
    for fid in sorted(muts):
        for c in sorted(callers.get(fid, ())):
            g = P.funcs[c]
            if c in inner:
                continue
            if "harness" in g.file:
                continue
            for n in g.nodes():
                if n["k"] == "call" and n.get("f") == fid:
                    ck.ok(R, "%s calls %s" % (g.sname, muts[fid].base))
            root = owner(P, g)
            if g.sname.startswith(TM) or root and root.startswith(TM):
                continue
            if g.scls in ("Mutator::ProgramMutator", "Mutator::LineMutator"):
                continue
            ck.und(R, g.loc(), "%s mutates programs outside of the TPG mutator" % g.sname)
    # initRandomProgram: on programs created in the same function
    f = P.one(TM + "initRandomTPG")
    # programs changed through the TPG mutator: receiver must not come from an edge or a graph
    progw = {g.id for g in P.funcs.values() if g.scls == "Program::Program" and not g.r.get("const") and
             g.base in ("addNewLine", "removeLine", "swapLines", "clearIntrons", "getConstantHandler", "identifyIntrons")}
    for g in sorted(P.funcs.values(), key=lambda g: g.id):
        if not g.blocks or not (g.sname.startswith("Mutator::") or g.sname.startswith("Learn::")) or g.scls in ("Mutator::RNG",):
            continue
        if not any(n.get("f") in muts or n.get("f") in progw for n in g.calls()):
            continue
        if g.id in inner:
            continue
        hits, ps, cl = msites(ck, g, lambda ev: ev.kind == "call" and (ev.f in muts or ev.f in progw),
                              lambda x: x.id in muts or x.id in progw or x.scls in ("TPG::TPGGraph", "TPG::TPGEdge", "Program::Program", "Archive", "Mutator::RNG")
                              or x.scls == "Program::ProgramExecutionEngine")
        if ps is None:
            ck.und(R, g.loc(), g.sname + ": " + ck.why)
            continue
        for h in hits:
            v = h.ev.o if h.ev.f in progw else (h.ev.a[0] if h.ev.a else None)
            if v is None:
                continue
            if prog_of_edge(v) is not None:
                ck.bad(R, h.at, "%s modifies the program attached to an edge in place (%s)" % (g.sname, pp(v)))
            else:
                ck.ok(R, "%s %s" % (h.at, h.base))


def owner(P, g):
    if g.r.get("lambda"):
        m = re.search(r"\|(.*)$", g.id)
        o = P.funcs.get(m.group(1)) if m else None
        return o.sname if o else None
    return None


import re
import os


def allm(ck):
    P, R = ck.P, "R3-all-mutated"
    f = P.one(TM + "mutateNewProgramBehaviors")
    newp = ("*", ("p", 1))
    prim = named(TM + "mutateProgramBehaviorAgainstArchive", "Mutator::RNG::getUnsignedInt64", "Mutator::RNG::setSeed", "Mutator::RNG::RNG")

    class B(Sites):
        use_cov = True

        def event(self, st, ev):
            super().event(st, ev)
            if ev.kind == "call" and ev.name == TM + "mutateProgramBehaviorAgainstArchive":
                a = ev.a[0]
                v = ev.av[0]
                if elem_cont(v) == newp or elem_cont(a) == newp:
                    self.eng.mark(st, v, "mutated")
                    self.eng.mark(st, a, "mutated")
                    st.auto = st.auto | {"m"}
            elif ev.kind == "call" and ev.name.rsplit("::", 1)[-1] in ("push", "push_back", "emplace", "emplace_back") and ev.o and ev.o[0] == "L":
                for a in ev.a:
                    v = Engine.load(None, st, a) if is_loc(a) else a
                    for s in subterms(v):
                        if elem_cont(s) == newp:
                            self.eng.mark(st, s, ("queued", ev.o))
    cl = B(lambda ev: ev.kind == "call" and ev.name == TM + "mutateProgramBehaviorAgainstArchive", prim)
    e = Engine(P, cl)
    cl.eng = e
    try:
        r = e.run(f, auto=frozenset())
    except Undecided as x:
        ck.und(R, f.loc(), str(x))
        return
    ck.steps += e.steps
    ck.sites += e.sites
    ck.funcs |= e.funcs_seen
    queues = set()
    for h in cl.hits:
        v = h.args[0]
        c = elem_cont(v)
        if c is not None and c[0] == "L":
            queues.add(c)
            # popped in the same critical section as it was read
        for s in subterms(v):
            if s[0] == "E" and s[1][0] == "L":
                queues.add(s[1])
    good = False
    for k, s, rv in r:
        if k != "ret":
            continue
        cov = {x[2] for x in s.cov if x[0] == "cov" and x[1] == newp}
        if "mutated" in cov or "*" in cov:
            good = True
            continue
        if any(isinstance(w, tuple) and w[0] == "queued" for w in cov):
            q = [w[1] for w in cov if isinstance(w, tuple) and w[0] == "queued"][0]
            if q in queues:
                good = True
                # workers stop only when the queue is empty
                continue
            ck.bad(R, f.loc(), "copies are queued for the workers but the workers take theirs elsewhere")
            return
        if "#" in cov:
            ck.bad(R, f.loc(), "some queued programs are left unmutated")
            return
        if not cl.hits:
            ck.bad(R, f.loc(), "queued programs are never mutated")
            return
        ck.und(R, f.loc(), "loop over the queued programs not interpreted")
        return
    if good:
        ck.ok(R, "%d exits: every queued program reaches the behaviour mutation" % len(r))
    from .c06 import check_ranges
    try:
        check_ranges(ck, R, f, cl)
    except TypeError:
        pass
    # worker loop: a job is taken from the queue whenever it is not empty
    for h in cl.hits:
        for s in subterms(h.args[0]):
            if s[0] == "E" and s[1][0] == "L":
                nz = [(t, v) for t, v in h.facts if t[0] == "op" and t[1] == "==" and C(0) in (t[2], t[3]) and
                      any(x[0] == "size" and x[1] == s[1] for x in (t[2], t[3]))]
                if any(not v for t, v in nz):
                    ck.ok(R, h.at + " job taken from a non-empty queue")
                lim = [(t, v) for t, v in h.facts if t[0] == "op" and t[1] == "<" and
                       any(x[0] == "size" and x[1] == s[1] for x in (t[2], t[3])) and any(num(x) and x[1] > 0 for x in (t[2], t[3]))]
                if lim:
                    ck.bad(R, h.at, "the last programs of the queue are never mutated")


def accept(ck):
    P = ck.P
    f = P.one(TM + "mutateProgramBehaviorAgainstArchive")
    prog = ("p", 0)
    prim = named("mutateProgram", "hasIdenticalBehavior", "areProgramResultsUnique", "setDataSources", "executeProgram",
                 "Program::Program::Program", "getDataHandlers", "Program::ProgramExecutionEngine::ProgramExecutionEngine",
                 "Program::ProgramEngine::setProgram")
    R, R5 = "R4-accepted", "R5-archive-results"
    mut, hib, uni = PM + "mutateProgram", PP_ + "hasIdenticalBehavior", "Archive::areProgramResultsUnique"

    def step(st, ev):
        a = st.auto
        if ev.kind != "call" and ev.kind != "ctor" and ev.kind != "new":
            return
        if ev.name == mut:
            st.auto = a | {("last", ev.res)}
            st.auto = frozenset(x for x in st.auto if x[0] != "last" or x[1] == ev.res)
            st.auto = frozenset(x for x in st.auto if x[0] not in ("hib", "uni", "res")) | {("mutated",)}
        elif ev.name == hib:
            st.auto = a | {("hib", ev.res, ev.o, Engine.load(None, st, ev.a[0]) if is_loc(ev.a[0]) and ev.a[0][0] != "*" else ev.a[0])}
        elif ev.name == uni:
            st.auto = a | {("uni", ev.res)}
        elif (ev.kind == "call" and ev.name == "std::make_shared") or (ev.kind == "new" and ev.name == "Program::Program"):
            v = ev.res if ev.kind == "call" else ev.val
            if "Program::Program" in str(v[1]):
                st.auto = a | {("copy", v, ("mutated",) in a)}
    hits, ps, cl = msites(ck, f, lambda ev: ev.kind in ("call", "ctor") and (ev.name in (mut, hib, uni) or
                          ev.name.rsplit("::", 1)[-1] in ("executeProgram", "setDataSources", "ProgramExecutionEngine", "setProgram", "insert", "emplace", "operator[]", "insert_or_assign")),
                          prim, step, frozenset(), use_cov=True)
    if ps is None:
        ck.und(R, f.loc(), ck.why)
        ck.und(R5, f.loc(), ck.why)
        return
    tru = lambda p, t: fact(p.facts, t)
    force = lambda p: next((v for t, v in p.facts if (fld_of(t) or "").endswith("::forceProgramBehaviorChangeOnMutation")), None)
    nret = 0
    for p in ps:
        if p.kind != "ret":
            continue
        nret += 1
        last = [x[1] for x in p.auto if x[0] == "last"]
        if not last:
            ck.bad(R, f.loc(), "the program is accepted without having been mutated")
            continue
        m = fact(p.facts, last[0])
        if m is False:
            ck.bad(R, f.loc(), "the program is accepted although the last mutation changed nothing")
        elif m is None:
            # fact dropped in a loop?
            if not any(mentions(t, lambda z: z[0] == "call" and z[1] == mut) for t, v in p.facts):
                ck.bad(R, f.loc(), "the program is accepted whether or not the last mutation changed it")
            else:
                ck.und(R, f.loc(), "result of the mutation not interpreted")
        else:
            ck.ok(R, "exit: last mutation changed the program")
        u = [x for x in p.auto if x[0] == "uni"]
        us = [fact(p.facts, x[1]) for x in u]
        if not u:
            ck.bad(R, f.loc(), "the program is accepted without checking its results against the archive after the last mutation")
        elif True in us:
            ck.ok(R, "exit: results unique in the archive")
        elif False in us:
            ck.bad(R, f.loc(), "the program is accepted when its results are not unique in the archive")
        else:
            ck.bad(R, f.loc(), "the program is accepted whatever the archive answers")
        if force(p) is not False:
            hs = [x for x in p.auto if x[0] == "hib"]
            vals = [fact(p.facts, x[1]) for x in hs]
            cp = [x for x in p.auto if x[0] == "copy"]
            if not cp:
                if force(p) is True:
                    ck.bad(R, f.loc(), "no copy of the program is kept to compare its behaviour with")
                else:
                    ck.bad(R, f.loc(), "a required behaviour change is not checked")
            elif any(x[2] for x in cp):
                ck.bad(R, f.loc(), "the program is compared with a copy made after it was mutated")
            elif not hs:
                ck.bad(R, f.loc(), "the program is accepted without comparing its behaviour with the original, although required")
            elif False in vals and True not in vals:
                ck.ok(R, "exit: behaviour differs from the original")
            else:
                ck.bad(R, f.loc(), "the program is accepted although its behaviour is identical to the original")
    if not nret:
        ck.und(R, f.loc(), "no normal exit")
    # R5
    pl = ("*", ("ld", ("*", prog), 0))
    def isprog(x):
        while isinstance(x, tuple) and x and x[0] in ("*", "ld", "addr_of"):
            x = x[1]
        return x == prog
    runs = [h for h in hits if h.base == "executeProgram"]
    ds = [h for h in hits if h.base == "setDataSources"]
    eng = [h for h in hits if h.base in ("ProgramExecutionEngine", "setProgram")]
    seen_eng = {}
    for h in eng:
        if h.args and not isprog(h.ev.a[0]):
            ck.bad(R5, h.at, "the program executed on the archived data is not the mutated one")
        elif h.args:
            ck.ok(R5, h.at + " runs the mutated program")
    if not runs or not ds:
        ck.bad(R5, f.loc(), "the mutated program is not executed on the archived data")
        return
    whole = True
    for tag, info in cl.loops.items():
        pass
    for h in [x for x in hits if x.base in ("insert", "emplace", "insert_or_assign") and x.o and x.o[0] == "L"]:
        ok = has_sub(("x",) + tuple(h.args), lambda z: z[0] == "call" and z[1].endswith("::executeProgram"))
        if ok:
            ck.ok(R5, h.at + " result recorded")
        else:
            ck.bad(R5, h.at, "the value compared with the archive is not the result of executing the program")
    for h in ds:
        a = h.args[0]
        if not has_sub(a, lambda z: z[0] in ("lit", "any", "phi")):
            ck.und(R5, h.at, "data set executed: " + pp(a))
    # the loop over the archived data must not stop early
    from .c06 import check_ranges
    check_ranges(ck, R5, f, cl)


def same(ck):
    P, R = ck.P, "R6-same-behaviour"
    # Line equality
    f = P.one("Program::Line::operator==")
    class B(Sites):
        use_cov = True

        def refine(self, st, t, truth):
            if t[0] == "op" and t[1] == "==" and truth:
                a, b = t[2], t[3]
                if all(x[0] in ("ld", "E") for x in (a, b)) and all(has_sub(x, lambda z: z[0] == "F" and z[2] == "Program::Line::operands") for x in (a, b)):
                    self.eng.mark(st, a, "eq")
                    if has_sub(a, lambda z: z[0] == "F" and z[2].endswith("pair::first")):
                        self.eng.mark(st, a, "eq1")
                    if has_sub(a, lambda z: z[0] == "F" and z[2].endswith("pair::second")):
                        self.eng.mark(st, a, "eq2")
            return True
    cl = B(lambda ev: False)
    e = Engine(P, cl)
    cl.eng = e
    try:
        r = e.run(f)
    except Undecided as x:
        ck.und(R, f.loc(), str(x))
        return
    ck.funcs |= e.funcs_seen
    other = ("*", ("p", 0))
    for k, s, rv in r:
        if k != "ret" or rv == FALSE:
            continue
        if rv != TRUE:
            # a single returned expression
            for fl in ("instructionIndex", "destinationIndex"):
                pass
            ck.und(R, f.loc(), "Line::operator== result not interpreted")
            continue
        fx = eqs(s.facts)
        okk = True
        for fl in ("instructionIndex", "destinationIndex"):
            a, b = ("ld", TF("Program::Line::" + fl), 0), ("ld", ("F", other, "Program::Line::" + fl), 0)
            if fx(a) != fx(b):
                ck.bad(R, f.loc(), "lines with different %s compare equal" % fl)
                okk = False
        cov = {x[2] for x in s.cov if x[0] == "cov"}
        if not ({"*"} & cov or ("eq" in cov and (not ({"eq1", "eq2"} & cov) or {"eq1", "eq2"} <= cov))):
            if "#" in cov:
                ck.bad(R, f.loc(), "lines with different operands compare equal")
            elif any(n["k"] == "call" and short(n.get("fn", "")) in ("std::equal",) for n in f.calls()):
                ck.und(R, f.loc(), "operand comparison by std::equal")
            else:
                ck.bad(R, f.loc(), "lines are compared without their operands") if not cl.loops else ck.und(R, f.loc(), "operand loop")
            okk = False
        if okk:
            ck.ok(R, "Line::operator== compares destination, instruction and every operand")
    from .c06 import check_ranges
    check_ranges(ck, R, f, cl)
    # hasIdenticalBehavior
    f = P.one(PP_ + "hasIdenticalBehavior")
    res = {"back": []}

    class H(Sites):
        budget = 400000
        max_states = 200
        gc_facts = True

        def keep_fact(self, t):
            return "lines'" in repr(t) or has_sub(t, lambda z: z[0] == "call" and z[1].endswith(("operator==", "operator!="))) or t[0] == "op" and t[1] == "^"

        def primitive(self, g):
            return g.sname in ("Program::Line::operator==", "Program::Line::operator!=", "Program::Program::getLine", "Program::Program::isIntron",
                               "Program::Line::getOperand", "Program::Program::getConstantAt", "Data::DataHandler::scaleLocation",
                               "Data::ConstantHandler::scaleLocation") or g.base in ("scaleLocation", "getInstruction", "getNbOperands") or \
                g.scls in ("Data::Constant", "Data::DataHandler", "Instructions::Instruction", "Instructions::Set")

        def event(self, st, ev):
            if ev.kind == "call" and ev.name in ("Program::Line::operator==", "Program::Line::operator!="):
                st.auto = st.auto | {("cmp", ev.res if ev.name.endswith("==") else ("not", ev.res))}
            if ev.kind == "call" and ev.name in ("Data::Constant::operator==", "Data::Constant::operator!="):
                st.auto = st.auto | {("const", ev.res if ev.name.endswith("==") else ("not", ev.res))}

        def loop(self, st, kind, tag, g, eng):
            if kind == "back" and g.id == f.id:
                c = [x for x in st.auto if x[0] == "cmp"]
                cc = [x for x in st.auto if x[0] == "const"]
                for x in c:
                    v = fact(st.facts, x[1])
                    if v is False:
                        self.res.append(("line", False))
                    elif v is None:
                        self.res.append(("line", None))
                for x in cc:
                    v = fact(st.facts, x[1])
                    if v is not None:
                        self.res.append(("const", v))
                st.auto = frozenset()
    h = H(None)
    h.pred = lambda ev: False
    h.res = []
    h.event = H.event.__get__(h)
    ps = paths(ck, f, h, auto=frozenset())
    if ps is None:
        ck.und(R, f.loc(), ck.why)
        return
    if ("line", False) in h.res:
        ck.bad(R, f.loc(), "programs are declared identical although two corresponding lines differ")
    elif ("const", False) in h.res:
        ck.bad(R, f.loc(), "programs are declared identical although constants they use differ")
    else:
        ck.ok(R, "hasIdenticalBehavior goes on only past equal lines and constants")
    names = {short(n.get("fn", "")).rsplit("::", 1)[-1] for g in [P.funcs[i] for i in P.reach([f])] for n in g.calls()}
    if not names & {"getConstantAt", "getDataAt", "cGetConstantHandler"}:
        ck.bad(R, f.loc(), "constants used by the lines are not compared")
    else:
        ck.ok(R, "constants compared")
    # true only when both programs end together: the branch facts, as boolean
    # functions of "line index < number of lines" of either program
    nb = lambda t: t[0] == "size" and has_sub(t, lambda z: z[0] == "F" and z[2] == "Program::Program::lines")

    def atom(t):
        if t[0] == "op" and len(t) == 4 and (nb(t[2]) or nb(t[3])):
            oth = has_sub(t[3] if nb(t[3]) else t[2], lambda z: z == ("p", 0))
            if t[1] == "<" and nb(t[3]):
                return oth, True
            if t[1] in ("==", "<=") and (t[1] == "==" or nb(t[2])):
                return oth, False
        return None

    def ev(t, a):
        x = atom(t)
        if x:
            return a[x[0]] == x[1]
        if t[0] == "not":
            v = ev(t[1], a)
            return None if v is None else not v
        if t[0] in ("b", "c") and t[1] is not None:
            return bool(t[1])
        if t[0] == "op" and t[1] in ("^", "==", "&", "|", "&&", "||"):
            v, w = ev(t[2], a), ev(t[3], a)
            if v is None or w is None:
                return None
            return {"^": v != w, "==": v == w, "&": v and w, "&&": v and w, "|": v or w, "||": v or w}[t[1]]
        return None
    for p in ps:
        if p.kind != "ret":
            continue
        rv = p.ret
        if rv == FALSE:
            continue
        fs = list(p.facts)
        if rv != TRUE:
            if rv is None or ev(rv, {False: True, True: True}) is None:
                continue
            fs.append((rv, True))
        if not any(has_sub(t, nb) for t, v in fs):
            ck.und(R, f.loc(), "ends of the programs not interpreted")
            continue
        worst = [a for a in ({False: True, True: False}, {False: False, True: True})
                 if all(ev(t, a) in (None, v) for t, v in fs)]
        if worst:
            ck.bad(R, f.loc(), "programs are declared identical when only one of them has reached its end")
        else:
            ck.ok(R, "identical only when both programs end together")

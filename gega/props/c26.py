"""C26: the environment vets instructions and orders sources consistently."""
from ..core import *
from ..ir import short
from .c24 import strip

EN = "Environment"
PE = "Program::ProgramEngine"
LAY = PE + "::dataScsConstsAndRegs"
FAKE = EN + "::fakeDataSources"
ADD = ("push_back", "emplace_back")


def check(ck):
    P = ck.P
    P.need_field(EN, "fakeDataSources")
    P.need_field(EN, "nbDataSources")
    P.need_field(PE, "dataScsConstsAndRegs")
    ck.rule("R1-filter", "an instruction is offered if and only if every operand type is provided by some source", 3)
    ck.rule("R2-announced", "the numbers announced are those of the vetted instructions and of all sources", 5)
    ck.rule("R3-order", "sources are ordered registers, then constants when there are any, then the user's sources", 3)
    ck.rule("R4-replace", "replacing a program or its sources keeps the order", 2)
    ck.rule("R5-getters", "the accessors answer what was computed", 6)
    filt(ck)
    announced(ck)
    largest(ck)
    operands(ck)
    order(ck)
    replace(ck)
    getters(ck)


def kind_of(h, types):
    """registers / constants / source element / None, of the object asked"""
    o = h
    for s in [o] + list(subterms(o)):
        t = types.get(s)
        if t:
            if "ConstantHandler" in t:
                return "constants"
            if "PrimitiveTypeArray" in t:
                return "registers"
        if s[0] in ("obj", "cobj") and len(s) > 1:
            if "ConstantHandler" in str(s[1]):
                return "constants"
            if "PrimitiveTypeArray" in str(s[1]):
                return "registers"
        if s[0] == "E" and has_sub(s[1], lambda x: x == ("p", 3)):
            return "source"
    return None


def nconst(facts, c):
    """True: there are constants, False: there are none, None: not known"""
    for t, v in facts:
        if t[0] != "op" or len(t) < 4:
            continue
        a, b = t[2], t[3]
        if t[1] == "<" and nv(a) == 0 and b == c:
            return v
        if t[1] == "<" and a == c and nv(b) == 1:
            return not v
        if t[1] == "<=" and nv(a) == 1 and b == c:
            return v
        if t[1] == "<=" and a == c and nv(b) == 0:
            return not v
        if t[1] == "==" and {0} == {nv(x) for x in (a, b) if nv(x) is not None} and c in (a, b):
            return not v
    return None


class Filt(Sites):
    budget = 600000
    gc_facts = False
    ext_throws = False

    def __init__(self, P):
        Sites.__init__(self, None, named("canHandle", "getInstruction", "getNbInstructions", "getNbOperands", "getOperandTypes", "add"))
        self.types = {}
        self.out = {}
        self.asked = []
        self.added = []
        self.ops = set()
        self.ins = set()
        self.src = set()
        self.rec = []

    def event(self, st, ev):
        if ev.kind == "decl" and ev.loc is not None:
            self.types[ev.loc] = short(str(ev.name))
            return
        self.note(st)
        if ev.kind != "call":
            return
        b = ev.name.rsplit("::", 1)[-1]
        if b == "canHandle":
            h = Hit(ev, st)
            k = kind_of(ev.o, self.types)
            self.asked.append((h, k))
            for s in subterms(("x", h.args[0])):
                # the operand asked about
                if s[0] == "E" and has_sub(s[1], lambda x: x[0] == "call" and x[1].endswith("getOperandTypes")):
                    if s[2][0] in ("phi", "lit"):
                        self.ops.add(s[2])
                if s[0] == "call" and s[1].endswith("getInstruction") and s[3] and strip(s[3][0])[0] in ("phi", "lit"):
                    self.ins.add(strip(s[3][0]))
            for s in subterms(("x", ev.o)):
                if s[0] == "E" and has_sub(s[1], lambda x: x == ("p", 3)) and s[2][0] in ("phi", "lit", "any"):
                    self.src.add(s[2])
        elif b == "add" and "Set" in ev.name:
            h = Hit(ev, st)
            self.added.append((h, st.auto))
            st.auto = st.auto | {"added"} if "added" not in st.auto else st.auto | {"twice"}

    def note(self, st):
        """keep what is known of the operand examined, which merging states would lose"""
        new = set()
        nc = nconst(st.facts, ("p", 2))
        if nc is not None:
            new.add("nc:%s" % nc)
        for t, v in st.facts:
            if t[0] == "call" and t[1].endswith("canHandle"):
                new.add("t:%s:%s" % (kind_of(t[2], self.types), v))
            elif t[0] == "op" and t[1] == "==" and any(x[0] == "call" and x[1].endswith("canHandle") for x in t[2:4] if isinstance(x, tuple)):
                new.add("t:None:True")
        if not new <= st.auto:
            st.auto = st.auto | new

    def loop(self, st, kind, tag, g, eng):
        self.note(st)
        self.rec.append((kind, tag, st.auto, frozenset(st.facts)))
        optags = {i[1] for i in self.ops}
        srctags = {i[1] if i[0] != "any" else ("any", i[1]) for i in self.src}
        instags = {i[1] for i in self.ins}
        if tag in srctags and kind in ("exit", "break", "enter", "back"):
            st.auto = (st.auto - {"src-all", "src-found"}) | ({"src-all"} if kind == "exit" else {"src-found"} if kind == "break" else set())
        elif tag in optags:
            if kind in ("break", "back"):
                e = self.evidence(st)
                if kind == "break":
                    st.auto = st.auto | {"broke-" + e[0]}
                elif e[0] != "provided":
                    st.auto = st.auto | {"passed-" + e[0]}
                self.out.setdefault((kind, e), tag)
            st.auto = frozenset(y for y in st.auto if not y.startswith(("src-", "t:")))
        elif tag in instags and kind in ("back", "enter"):
            if kind == "back":
                self.out.setdefault(("instr", frozenset(y for y in st.auto if not y.startswith(("t:", "src-", "nc:")))), tag)
            st.auto = frozenset()
        elif tag in instags and kind == "break":
            self.out.setdefault(("stop", st.auto), tag)

    def evidence(self, st):
        """what the facts tell about the operand just examined"""
        nc = True if "nc:True" in st.auto else False if "nc:False" in st.auto else None
        told = {}
        for y in st.auto:
            if y.startswith("t:"):
                told.setdefault(y.split(":")[1], set()).add(y.endswith("True"))
        if "None" in told:
            return ("unknown", "")
        if True in told.get("registers", ()) or True in told.get("source", ()) or "src-found" in st.auto:
            return ("provided", "")
        if True in told.get("constants", ()):
            if nc is True:
                return ("provided", "")
            return ("phantom", "")
        miss = []
        if "registers" not in told:
            miss.append("registers")
        if "constants" not in told and nc is not False:
            miss.append("constants")
        if "src-all" not in st.auto:
            miss.append("sources")
        return ("none", ",".join(miss))


def filt(ck):
    R = "R1-filter"
    f = ck.P.one(EN + "::filterInstructionSet")
    ck.P.one("Data::DataHandler::canHandle") if False else None
    pre = Filt(ck.P)
    if paths(ck, f, pre, auto=frozenset()) is None:
        return ck.und(R, f.loc(), ck.why)
    # the loops are known now
    cl = Filt(ck.P)
    cl.ops, cl.ins, cl.src = pre.ops, pre.ins, pre.src
    ps = paths(ck, f, cl, auto=frozenset())
    if ps is None:
        return ck.und(R, f.loc(), ck.why)
    if not cl.asked:
        return ck.und(R, f.loc(), "no source is asked for its types")
    if any(k is None for h, k in cl.asked):
        return ck.und(R, f.loc(), "source asked not interpreted")
    if not cl.added:
        return ck.und(R, f.loc(), "instructions offered not found")
    if not cl.ops or not cl.ins:
        return ck.und(R, f.loc(), "loops over the operands not interpreted")
    for i, what, bound in [(i, "operand", "getNbOperands") for i in cl.ops] + [(i, "instruction", "getNbInstructions") for i in cl.ins] + [(i, "source", None) for i in cl.src]:
        sp = span(cl, i) if i[0] != "any" else ("all", None)
        if sp is None:
            ck.und(R, f.loc(), "loop over the %ss not interpreted" % what)
        elif sp[0] == "from" and nv(sp[1]) is None:
            ck.und(R, f.loc(), "first %s not interpreted" % what)
        elif sp[0] == "from" and nv(sp[1]) > 0:
            ck.bad(R, f.loc(), "the first %s is not examined" % what)
        elif any(stops_short(fa, i) for k, tg, a, fa in cl.rec):
            ck.bad(R, f.loc(), "the last %s is not examined" % what)
        elif any(v and t[0] == "op" and t[1] == "<" and t[2] == i and nv(t[3]) is not None for k, tg, a, fa in cl.rec for t, v in fa):
            ck.bad(R, f.loc(), "only the first %ss are examined" % what)
        else:
            ck.ok(R, "every %s is examined" % what)
    for h, a in cl.added:
        x = strip(h.args[0])
        idx = [strip(s[3][0]) for s in subterms(h.args[0]) if s[0] == "call" and s[1].endswith("getInstruction") and s[3]]
        if not idx:
            ck.und(R, h.at, "instruction offered not interpreted: " + pp(x))
        elif idx[0] not in cl.ins:
            ck.bad(R, h.at, "the instruction offered is not the one examined") if num(idx[0]) or idx[0][0] == "op" else ck.und(R, h.at, "instruction offered not interpreted")
        phis = {i[1] for i in cl.ops}
        flag = any(has_sub(t, lambda s: s[0] in ("phi", "any") and s[1] in phis and s not in cl.ops) for t, v in h.facts)
        bad = [y for y in a if y.startswith(("passed-none", "passed-phantom"))]
        if "broke-none" in a or "broke-phantom" in a:
            ck.bad(R, h.at, "an instruction is offered although no source provides one of its operands")
        elif bad and not flag:
            ck.bad(R, h.at, "an instruction is offered although %s" % ("no source provides one of its operands" if bad[0] == "passed-none" else "only constants, of which there are none, would provide one of its operands"))
        elif bad or any(y.endswith("-unknown") for y in a):
            ck.und(R, h.at, "condition of the offer not interpreted")
        else:
            ck.ok(R, "offered when every operand is provided")
    for k, v in cl.out.items():
        if k[0] == "break" and k[1][0] == "none" and k[1][1] or k[0] == "back" and k[1][0] == "none" and k[1][1]:
            ck.bad(R, f.loc(), "an operand is refused without considering the %s" % k[1][1])
        if k[0] == "instr":
            a = k[1]
            if "twice" in a:
                ck.bad(R, f.loc(), "an instruction is offered twice")
            if "added" in a:
                continue
            if any(y.startswith("broke-none") or y.startswith("passed-none") or y == "broke-phantom" or y == "passed-phantom" for y in a):
                ck.ok(R, "refused when an operand is not provided")
            elif any(y.endswith("unknown") for y in a):
                ck.und(R, f.loc(), "condition of the refusal not interpreted")
            else:
                fl = [fa for kk, tg, aa, fa in cl.rec if kk == "back" and tg == v and a <= aa]
                phis = {i[1] for i in cl.ops}
                if fl and all(any(has_sub(t, lambda s: s[0] == "phi" and s[1] in phis and s not in cl.ops) for t, vv in fa) for fa in fl):
                    ck.und(R, f.loc(), "condition of the refusal not interpreted")
                else:
                    ck.bad(R, f.loc(), "an instruction all of whose operands are provided is not offered")
        if k[0] == "stop":
            ck.bad(R, f.loc(), "the instructions after some instruction are not examined")


def ctor_env(ck):
    return [f for f in ck.P.funcs.values() if f.blocks and f.scls == EN and f.base == EN and len(f.params) >= 3]


def announced(ck):
    R = "R2-announced"
    for f in ctor_env(ck):
        ps = allpaths(ck, f, named("filterInstructionSet", "computeLargestAddressSpace", "computeLineSize", "getNbInstructions", "getMaxNbOperands"))
        if ps is None:
            ck.und(R, f.loc(), ck.why)
            continue
        for p in ps:
            if p.kind != "ret":
                continue
            src = ("p", 1)
            nc = nconst(p.facts, ("p", 3))

            def val(fl):
                v = p.get(TF(EN + "::" + fl))
                while v[0] == "ilist" and len(v) == 2:
                    v = v[1][0] if isinstance(v[1], tuple) and v[1] and isinstance(v[1][0], tuple) else v[1]
                return v
            # instruction set
            v = val("instructionSet")
            calls = [s for s in subterms(("x", v)) if s[0] == "call" and s[1].endswith("filterInstructionSet")]
            if calls:
                a = [strip(x) for x in calls[0][3]]
                if a[:4] == [("p", 0), ("p", 2), ("p", 3), ("p", 1)]:
                    ck.ok(R, "vetted instructions")
                elif all(x[0] in ("p", "c") for x in a):
                    ck.bad(R, f.loc(), "the instructions are vetted with (%s)" % ", ".join(pp(x) for x in a))
                else:
                    ck.und(R, f.loc(), "vetting not interpreted")
            elif strip(v) == ("p", 0) or has_sub(v, lambda s: s == ("p", 0)):
                ck.bad(R, f.loc(), "the instructions are not vetted")
            else:
                ck.und(R, f.loc(), "instruction set not interpreted: " + pp(v))
            for fl, m in (("nbInstructions", "getNbInstructions"), ("maxNbOperands", "getMaxNbOperands")):
                v = val(fl)
                if v[0] == "call" and v[1].endswith("::" + m):
                    if has_sub(v[2], lambda s: s == ("F", SELF, EN + "::instructionSet")) or has_sub(v[2], lambda s: s[0] == "call" and s[1].endswith("filterInstructionSet")):
                        ck.ok(R, fl)
                    elif has_sub(v[2], lambda s: s == ("p", 0)):
                        ck.bad(R, f.loc(), "%s counts the instructions before they are vetted" % fl)
                    else:
                        ck.und(R, f.loc(), fl + " not interpreted: " + pp(v))
                elif v[0] == "call" and v[1].startswith("Instructions::Set::") or num(v):
                    ck.bad(R, f.loc(), "%s is %s" % (fl, pp(v)))
                else:
                    ck.und(R, f.loc(), fl + " not interpreted: " + pp(v))
            v = val("nbDataSources")
            pv = poly(v)
            sz = [k for k in pv if len(k) == 1 and k[0][0] == "size"]
            if len(sz) == 1 and pv[sz[0]] == 1 and set(pv) <= {sz[0], ()} and nc is not None:
                k = pv.get((), 0)
                ck.require(R, k == (2 if nc else 1), f.loc(), "%s sources are announced besides the user's when there are %s constants" % (k, "" if nc else "no"), "nbDataSources (%s)" % nc)
            elif len(sz) == 1 and set(pv) <= {sz[0], ()} and nc is None:
                ck.bad(R, f.loc(), "the number of sources does not depend on the constants")
            else:
                ck.und(R, f.loc(), "nbDataSources not interpreted: " + pp(v))
            v = val("largestAddressSpace")
            if v[0] == "call" and v[1].endswith("computeLargestAddressSpace"):
                a = [strip(x) for x in v[3]]
                if set(a[:2]) == {("p", 2), ("p", 3)} and a[2] == ("p", 1):
                    ck.ok(R, "largestAddressSpace")
                elif all(x[0] in ("p", "c") for x in a):
                    ck.bad(R, f.loc(), "the largest address space is computed from (%s)" % ", ".join(pp(x) for x in a))
                else:
                    ck.und(R, f.loc(), "largestAddressSpace not interpreted")
            elif num(v):
                ck.bad(R, f.loc(), "the largest address space is %s" % pp(v))
            else:
                ck.und(R, f.loc(), "largestAddressSpace not interpreted: " + pp(v))
            for fl, q in (("nbRegisters", 2), ("nbConstants", 3)):
                v = val(fl)
                if v == ("p", q):
                    ck.ok(R, fl)
                elif v[0] in ("p", "c"):
                    ck.bad(R, f.loc(), "%s is %s" % (fl, pp(v)))
                else:
                    ck.und(R, f.loc(), fl + " not interpreted: " + pp(v))
            for fl, q in (("fakeRegisters", 2), ("fakeConstants", 3)):
                v = val(fl)
                ps_ = {s for s in subterms(("x", v)) if s[0] == "p"}
                if ps_ == {("p", q)}:
                    ck.ok(R, fl)
                elif ps_ and ps_ <= {("p", 2), ("p", 3)}:
                    ck.bad(R, f.loc(), "%s is built with %s" % (fl, pp(v)))


def maximum(ck, R, f, what, want, prim, elems):
    """the value answered is the maximum of several candidates, over loops"""
    hits, ps, cl = sites(ck, f, lambda ev: False, prim, None, None, gc_facts=False, ext_throws=False)
    if ps is None:
        return ck.und(R, f.loc(), ck.why)
    seen = set()

    def le(facts, a, b):
        return any(t[0] == "op" and len(t) == 4 and ((t[1] in ("<", "<=") and v and (t[2], t[3]) == (a, b)) or (t[1] in ("<", "<=") and not v and (t[3], t[2]) == (a, b))
                                                     or t[1] == "==" and v and {t[2], t[3]} == {a, b}) for t, v in facts)
    return hits, ps, cl, le


class Max(Sites):
    budget = 300000
    gc_facts = False
    ext_throws = False

    def __init__(self, prim):
        Sites.__init__(self, lambda ev: False, prim)
        self.backs, self.brk, self.enters = [], set(), []

    def loop(self, st, kind, tag, g, eng):
        if kind == "enter":
            self.enters.append((tag, st.copy()))
        elif kind == "back":
            self.backs.append((tag, st.copy()))
        elif kind == "break":
            self.brk.add(tag)


def flat_max(t):
    """operands of nested std::max"""
    t = strip(t)
    if t[0] == "call" and t[1] in ("std::max",):
        out = []
        for a in t[3]:
            a = strip(a)
            if a[0] == "ilist":
                for x in a[1] if isinstance(a[1], tuple) and a[1] and isinstance(a[1][0], tuple) else a[1:]:
                    out += flat_max(x)
            else:
                out += flat_max(a)
        return out
    if t[0] == "op" and t[1] == "max":
        return flat_max(t[2]) + flat_max(t[3])
    return [t]


def leq(facts, a, b):
    """is a <= b (True), a > b (False) or not known (None)?"""
    if a == b:
        return True
    for t, v in facts:
        if t[0] != "op" or len(t) != 4:
            continue
        if t[1] == "<":
            if (t[2], t[3]) == (a, b) and v:
                return True
            if (t[2], t[3]) == (b, a):
                return not v
        if t[1] == "<=":
            if (t[2], t[3]) == (a, b):
                return v
            if (t[2], t[3]) == (b, a) and not v:
                return True
        if t[1] == "==" and v and {t[2], t[3]} == {a, b}:
            return True
    return None


def running_max(ck, R, f, cl, ps, start, cand, what):
    """value answered starts from the maximum of `start` and is raised by each candidate"""
    for p in ps:
        if p.kind != "ret":
            continue
        r = strip(p.ret)
        if r[0] != "phi":
            if r[0] in ("p", "c") or r in start:
                ck.bad(R, f.loc(), "%s is %s whatever the elements" % (what, pp(r)))
            else:
                ck.und(R, f.loc(), what + " not interpreted: " + pp(r))
            continue
        tag = r[1]
        var = r[2]
        if tag in cl.brk or (cl.loops.get(tag) or {}).get("brk"):
            ck.bad(R, f.loc(), what + " may stop before the last element")
        for tg, st in cl.enters:
            if tg != tag:
                continue
            v = strip(Engine.load(None, st, var))
            xs = flat_max(v)
            if nv(v) == 0 and not start:
                ck.ok(R, what + ": start")
            elif start and set(xs) == set(start):
                ck.ok(R, what + ": start")
            elif start and len(xs) == 1 and xs[0] in start:
                o = [x for x in start if x != xs[0]][0]
                q = leq(st.facts, o, xs[0])
                if q is True:
                    ck.ok(R, what + ": start")
                else:
                    ck.bad(R, f.loc(), "%s starts from %s%s" % (what, pp(xs[0]), ", the smaller" if q is False else " alone"))
            elif start and num(v):
                ck.bad(R, f.loc(), "%s starts from %s" % (what, pp(v)))
            else:
                ck.und(R, f.loc(), what + ": start not interpreted: " + pp(v))
        done = False
        for tg, st in cl.backs:
            if tg != tag:
                continue
            v = strip(Engine.load(None, st, var))
            xs = flat_max(v)
            cs = {s for t in [("x", v)] + [t for t, _ in st.facts] for s in subterms(t) if cand(s)}
            if not cs:
                ck.und(R, f.loc(), what + ": candidates not found")
                continue
            done = True
            for c in cs:
                i = index_of(c)
                sp = span(cl, i) if i is not None else None
                if i is not None and sp is not None and sp[0] == "from" and (nv(sp[1]) or 0) > 0:
                    ck.bad(R, f.loc(), what + " leaves out the first element")
                if i is not None and any(stops_short(st.facts, j) for j in [i]):
                    ck.bad(R, f.loc(), what + " leaves out the last element")
            if r in xs and cs & set(xs):
                ck.ok(R, what + ": raised by each")
            elif v in cs:
                q = leq(st.facts, r, v)
                if q is True:
                    ck.ok(R, what + ": raised by each")
                elif q is False:
                    ck.bad(R, f.loc(), what + " is lowered")
                else:
                    ck.bad(R, f.loc(), what + " is that of the last element") if not any(has_sub(t, lambda s: s == v) for t, _ in st.facts) else ck.und(R, f.loc(), what + " not interpreted")
            elif v == r:
                q = [leq(st.facts, c, r) for c in cs]
                if all(x is True for x in q):
                    ck.ok(R, what + ": kept when larger")
                elif any(x is False for x in q):
                    ck.bad(R, f.loc(), what + " is not raised by a larger element")
                else:
                    ck.und(R, f.loc(), what + " not interpreted")
            else:
                ck.und(R, f.loc(), what + " not interpreted: " + pp(v))
        if not done:
            ck.und(R, f.loc(), what + ": loop not interpreted")


def index_of(t):
    for s in subterms(("x", t)):
        if s[0] == "E" and s[2][0] in ("phi", "lit"):
            return s[2]
        if s[0] in ("phi", "lit") and s[0] == "lit":
            return s
    return None


def largest(ck):
    f = ck.P.one(EN + "::computeLargestAddressSpace")
    cl = Max(named("getLargestAddressSpace"))
    ps = paths(ck, f, cl)
    if ps is None:
        return ck.und("R2-announced", f.loc(), ck.why)
    running_max(ck, "R2-announced", f, cl, ps, [("p", 0), ("p", 1)], lambda s: s[0] == "call" and s[1].endswith("getLargestAddressSpace"), "largest address space")


def operands(ck):
    fs = [f for f in ck.P.funcs.values() if f.blocks and f.sname == "Instructions::Set::getMaxNbOperands"]
    for f in fs:
        cl = Max(named("getNbOperands"))
        ps = paths(ck, f, cl)
        if ps is None:
            ck.und("R2-announced", f.loc(), ck.why)
            continue
        if any(p.kind == "ret" and p.ret and has_sub(p.ret, lambda s: s[0] == "call" and s[1] in ("std::max_element",)) for p in ps):
            ck.und("R2-announced", f.loc(), "maximum not interpreted")
            continue
        running_max(ck, "R2-announced", f, cl, ps, [], lambda s: s[0] == "call" and s[1].endswith("getNbOperands"), "maximum number of operands")


class Order(Sites):
    """sequence of additions to an ordered list of sources"""
    budget = 300000
    gc_facts = "all"
    ext_throws = False

    def __init__(self, cont, prim):
        Sites.__init__(self, lambda ev: False, prim)
        self.cont = cont
        self.brk = set()
        self.iters = {}

    def event(self, st, ev):
        if ev.kind == "call" and ev.o is not None and fld_of(ev.o) == self.cont:
            b = ev.name.rsplit("::", 1)[-1]
            if b in ADD + ("insert", "emplace", "clear", "pop_back", "erase", "resize", "assign", "swap", "operator=") or b == "push_front":
                h = Hit(ev, st)
                st.auto = st.auto + ((b, tuple(h.args), tuple(ev.a or ()), ev.at()),)

    def loop(self, st, kind, tag, g, eng):
        if kind == "enter":
            st.auto = st.auto + (("loop", tag),)
        elif kind == "back":
            k = max((i for i, x in enumerate(st.auto) if x == ("loop", tag)), default=None)
            if k is not None:
                self.iters.setdefault(tag, set()).add(st.auto[k + 1:])
                st.auto = st.auto[:k + 1]
        elif kind == "break":
            self.brk.add(tag)


def what_src(t, raw, env_fake=True):
    """registers / constants / ('user', index) / None"""
    for x in (t, raw):
        for s in [x] + list(subterms(x)) if x is not None else ():
            if not isinstance(s, tuple) or not s:
                continue
            if s[0] == "F":
                n = s[2].rsplit("::", 1)[-1]
                if n in ("registers", "fakeRegisters"):
                    return "registers"
                if n in ("fakeConstants", "constants"):
                    return "constants"
            if s[0] == "call" and s[1].endswith("cGetConstantHandler"):
                return "constants"
            if s[0] == "E":
                c = s[1]
                if has_sub(c, lambda y: y[0] == "call" and y[1].endswith("getFakeDataSources") or y[0] == "F" and y[2] == FAKE):
                    if nv(s[2]) == 0:
                        return "registers"
                    if nv(s[2]) == 1:
                        return "constants"
                    return None
                if has_sub(c, lambda y: y[0] == "call" and y[1].endswith("::getDataSources") or y[0] == "p" or y[0] == "F" and y[2].endswith("::dataSources")):
                    return ("user", s[2])
    return None


def hasconst(facts):
    """are there constants, according to the path?"""
    for t, v in facts:
        for s in subterms(("x", t)):
            if s[0] == "call" and s[1].endswith("getNbConstant") or s[0] == "ld" and fld_of(s) == EN + "::nbConstants":
                r = nconst([(t, v)], s)
                if r is not None:
                    return r
    return None


def order(ck):
    R = "R3-order"
    P = ck.P
    for f in sorted(P.funcs.values(), key=lambda f: f.loc()):
        if not f.blocks or f.base not in (EN, "ProgramEngine") or f.scls not in (EN, PE):
            continue
        if f.scls == EN and len(f.params) < 3:
            continue
        cont = FAKE if f.scls == EN else LAY
        cl = Order(cont, lambda g: g.scls != f.scls or g.base in ("setProgram", "filterInstructionSet", "computeLargestAddressSpace", "computeLineSize"))
        ps = paths(ck, f, cl, auto=())
        if ps is None:
            ck.und(R, f.loc(), ck.why)
            continue
        for p in ps:
            if p.kind != "ret":
                continue
            nc = hasconst(p.facts) if f.scls != EN else nconst(p.facts, ("p", 3))
            seq = []
            ok = True
            for x in p.auto:
                if x[0] == "loop":
                    its = cl.iters.get(x[1], set())
                    if not any(its):
                        continue
                    if any(len(i) == 0 for i in its):
                        ck.bad(R, f.loc(), "some of the user's sources are left out")
                        ok = False
                        continue
                    one = True
                    for it in sorted(its, key=repr):
                        y = it[0]
                        w = what_src(y[1][-1], y[2][-1]) if y[1] and len(it) == 1 else None
                        if w is None or w[0] != "user" or y[0] not in ADD:
                            ck.und(R, f.loc(), "source added not interpreted")
                            ok = one = False
                            break
                        i = w[1]
                        sp = span(cl, i) if i[0] != "any" else ("all", None)
                        if sp is None or sp[0] == "from" and nv(sp[1]) is None:
                            ck.und(R, y[3], "order of the user's sources not interpreted: " + pp(i))
                            ok = one = False
                            break
                        if sp[0] == "from" and nv(sp[1]) or x[1] in cl.brk:
                            ck.bad(R, y[3], "some of the user's sources are left out")
                    if one:
                        seq.append("user")
                elif x[0] in ADD:
                    w = what_src(x[1][-1], x[2][-1])
                    if w is None or not isinstance(w, str):
                        ck.und(R, x[3], "source added not interpreted: " + pp(x[1][-1]))
                        ok = False
                    else:
                        seq.append(w)
                elif x[0] == "insert":
                    if any(has_sub(a, lambda s: s[0] == "it" and s[1] in ("begin", "cbegin") and (has_sub(s[2], lambda y: y[0] == "F" and y[2].endswith("dataSources") or y[0] == "p" or y[0] == "call"))) for a in x[1]) \
                            and any(has_sub(a, lambda s: s[0] == "it" and s[1] in ("end", "cend") and fld_of(s[2]) == cont) for a in x[1][:1]):
                        seq.append("user")
                    else:
                        ck.und(R, x[3], "insertion not interpreted")
                        ok = False
                else:
                    ck.und(R, x[3], "%s not interpreted" % x[0])
                    ok = False
            if not ok:
                continue
            if not seq:
                ck.und(R, f.loc(), "no source is added")
                continue
            if nc is None:
                if "constants" in seq:
                    ck.bad(R, f.loc(), "constants are a source even when there are none")
                else:
                    ck.bad(R, f.loc(), "constants are not a source when there are some")
                continue
            want = ["registers"] + (["constants"] if nc else []) + ["user"]
            if seq == want:
                ck.ok(R, "%s %s: %s" % (f.sname, f.loc().rsplit(":", 1)[-1], ", ".join(seq)))
            else:
                ck.bad(R, f.loc(), "%s orders its sources as %s instead of %s" % (f.sname, ", ".join(seq), ", ".join(want)))


def replace(ck):
    R = "R4-replace"
    P = ck.P
    for f in sorted(P.funcs.values(), key=lambda f: f.loc()):
        if not f.blocks or f.scls != PE or f.base not in ("setProgram", "setDataSources"):
            continue

        class W(Sites):
            budget = 300000
            gc_facts = "all"
            ext_throws = False

            def event(self, st, ev):
                if ev.kind in ("write", "call") and ev.kind == "write" or ev.kind == "call" and ev.name.rsplit("::", 1)[-1] == "operator=":
                    loc = ev.loc if ev.kind == "write" else ev.o
                    if loc is not None and loc[0] == "E" and fld_of(loc[1]) == LAY:
                        h = Hit(ev, st)
                        v = ev.val if ev.kind == "write" else (h.args[-1] if h.args else None)
                        raw = None if ev.kind == "write" else (ev.a[-1] if ev.a else None)
                        self.hits.append((loc[2], v, raw, st.copy(), ev.at()))
        cl = W(lambda ev: False, lambda g: g.base in ("getNbConstant", "getDataSources", "cGetConstantHandler", "getEnvironment", "resetData", "getId") or g.base == "setProgram" and f.base != "setProgram")
        ps = paths(ck, f, cl, auto=())
        if ps is None:
            ck.und(R, f.loc(), ck.why)
            continue
        for i, v, raw, st, at in cl.hits:
            nc = hasconst(st.facts)
            w = what_src(v, raw)
            if w is None:
                ck.und(R, at, "source replaced not interpreted: " + pp(v))
            elif w == "constants":
                if nv(i) is None:
                    ck.und(R, at, "index not interpreted")
                else:
                    ck.require(R, nv(i) == 1 and nc is True, at, "the constants replace source %s%s" % (pp(i), "" if nc else " even when there are none"), f.base + ": constants")
            elif isinstance(w, tuple):
                d = poly(i)
                j = w[1]
                k = d.get((), 0)
                jj = poly(j)
                diff = {m: d.get(m, 0) - jj.get(m, 0) for m in set(d) | set(jj) if d.get(m, 0) != jj.get(m, 0)}
                if set(diff) <= {()} and nc is not None:
                    ck.require(R, diff.get((), 0) == (2 if nc else 1), at, "source n of the user becomes source n+%d when there are %sconstants" % (diff.get((), 0), "" if nc else "no "), f.base + ": sources (%s)" % nc)
                    base = [m[0] for m in jj if len(m) == 1]
                    for b in base:
                        sp = span(cl, b)
                        if sp and sp[0] == "from" and nv(sp[1]):
                            ck.bad(R, at, "the first source is not replaced")
                        if stops_short(st.facts, b):
                            ck.bad(R, at, "the last source is not replaced")
                elif set(diff) <= {()}:
                    ck.bad(R, at, "the sources are replaced at the same place with and without constants")
                else:
                    ck.und(R, at, "place of the source not interpreted: %s for %s" % (pp(i), pp(j)))
        if f.base == "setProgram":
            for p in ps:
                if p.kind == "ret" and hasconst(p.facts) is True and not any(nv(i) == 1 for i, *_ in cl.hits):
                    ck.bad(R, f.loc(), "the constants of the program are not used")


def getters(ck):
    R = "R5-getters"
    for m, fl in (("getNbRegisters", "nbRegisters"), ("getNbConstant", "nbConstants"), ("getNbInstructions", "nbInstructions"), ("getMaxNbOperands", "maxNbOperands"),
                  ("getNbDataSources", "nbDataSources"), ("getLargestAddressSpace", "largestAddressSpace"), ("getDataSources", "dataSources"),
                  ("getFakeDataSources", "fakeDataSources"), ("getInstructionSet", "instructionSet")):
        for f in [x for x in ck.P.funcs.values() if x.blocks and x.sname == EN + "::" + m]:
            for p in allpaths(ck, f) or ():
                if p.kind != "ret":
                    continue
                fs = {s[2] for s in subterms(("x", p.ret)) if s[0] == "F" and s[1] == SELF}
                if fs == {EN + "::" + fl} and p.ret[0] in ("ld", "F", "addr", "addr_of", "*"):
                    ck.ok(R, m)
                elif len(fs) == 1 and p.ret[0] in ("ld", "F", "addr", "addr_of") or num(p.ret):
                    ck.bad(R, f.loc(), "%s answers %s" % (m, pp(p.ret)))
                else:
                    ck.und(R, f.loc(), m + " not interpreted: " + pp(p.ret))

"""C32: policy and execution statistics count what they name."""
import re
from ..core import *
from ..flow import lin
from .c24 import strip
from .c30 import norm
from .c31 import Ev

PS = "TPG::PolicyStats::"
XS = "TPG::ExecutionStats::"
ADD = ("push_back", "emplace_back", "emplace", "insert", "insert_or_assign", "try_emplace", "push_front", "push")
ZERO = ("clear",)
DEEP = ("TPG::", "Program::", "Data::", "Instructions::", "Environment")


def last(n):
    return str(n).rsplit("::", 1)[-1]


class Seq(Ev):
    """what each path counts, stores and calls, in order; loops are markers"""

    def __init__(self, f):
        Ev.__init__(self)
        self.f = f
        self.prim = lambda g: g is not f and ((g.scls or "").startswith(DEEP) and not (g.scls == f.scls and not g.base.startswith("analyze") and g.base != "clearInferenceTracesStats"))
        self.locs = {}

    def add(self, st, x, at):
        if len(st.auto) < 24:
            st.auto = st.auto + (x,)
            self.locs.setdefault(x, at)

    def event(self, st, ev):
        if ev.kind == "write" and isinstance(ev.loc, tuple) and ev.loc[0] in ("E", "F") and isinstance(ev.val, tuple):
            loc = norm(ev.loc)
            d, k = lin(norm(ev.val))
            me = [x for x in d if norm(x) in (loc, ("ld", loc))]
            if len(me) == 1 and d[me[0]] == 1:
                rest = tuple(sorted(((x, c) for x, c in d.items() if x != me[0]), key=repr))
                self.add(st, ("inc", loc, rest, k), ev.at())
            else:
                self.add(st, ("set", loc, norm(ev.val)), ev.at())
            return
        if ev.kind != "call" or not isinstance(ev.name, str):
            return
        b = last(ev.name)
        h = Hit(ev, st)
        if ev.name.startswith("std::") and b in ("swap", "exchange"):
            for x in list(ev.a or []) + ([ev.o] if ev.o is not None else []):
                if isinstance(x, tuple):
                    self.add(st, ("swap", norm(x)), ev.at())
            return
        if ev.name.startswith("std::") and ev.o is not None:
            if b in ADD:
                self.add(st, ("add", norm(ev.o), tuple(norm(a) for a in h.args)), ev.at())
            elif b in ZERO:
                self.add(st, ("clear", norm(ev.o)), ev.at())
            elif b in ("assign", "operator=", "erase", "pop_back", "resize", "pop", "pop_front"):
                self.add(st, (b, norm(ev.o), tuple(norm(a) for a in h.args)), ev.at())
            return
        if b.startswith("analyze") or b == "clearInferenceTracesStats" or b == "clear" and not ev.name.startswith("std::"):
            self.add(st, ("call", b, tuple(norm(a) for a in h.args)), ev.at())

    def enter(self, st, tag):
        if len(st.auto) < 24:
            st.auto = st.auto + (("loop", tag),)

    def back(self, st, tag):
        ix = [i for i, x in enumerate(st.auto) if x == ("loop", tag)]
        if ix:
            st.auto = st.auto[:ix[-1] + 1]


def run(ck, f):
    cl = Seq(f)
    cl.ps = paths(ck, f, cl, auto=())
    return cl


def body(auto, tag):
    """what one iteration of the loop did"""
    ix = [i for i, x in enumerate(auto) if x == ("loop", tag)]
    return auto[ix[-1] + 1:] if ix else auto


def check(ck):
    P = ck.P
    for c, ns in (("TPG::PolicyStats", ("nbUsePerProgram", "nbUsePerTPGTeam", "nbUsagePerInstruction", "nbUsagePerDataLocation")),
                  ("TPG::ExecutionStats", ("distribEvaluatedPrograms", "avgExecutedLines", "inferenceTracesStats"))):
        for n in ns:
            P.need_field(c, n)
    ck.rule("R1-reset", "every counter an analysis accumulates into is emptied by the reset of its class, and an execution analysis starts by it", 3)
    ck.rule("R2-line", "a line counts its instruction once and each location each of its operands reads once", 2)
    ck.rule("R3-program", "a program is analysed at its first use, line by line, introns apart, and each use is counted", 3)
    ck.rule("R4-vertex", "a team or action counts once per use, and a team's edges at its first use", 2)
    ck.rule("R5-scan", "every vertex reached from the root is analysed, with the program of each of its edges, stage after stage", 3)
    ck.rule("R6-trace", "a trace counts the edges evaluated from each of its teams, with the lines of their programs", 3)
    ck.rule("R7-average", "averages divide what all the visits executed by the number of inferences, without rounding", 3)
    ck.rule("R8-getters", "each statistic is reported under its own name", 5)
    fs = {}
    for c in (PS, XS):
        for f in P.funcs.values():
            if f.blocks and f.scls == c[:-2]:
                fs[f.sname] = f
    resets(ck, fs)
    if PS + "analyzeLine" in fs:
        line(ck, fs[PS + "analyzeLine"])
    if PS + "analyzeProgram" in fs:
        program(ck, fs[PS + "analyzeProgram"])
    for n in ("analyzeTPGTeam", "analyzeTPGAction"):
        if PS + n in fs:
            vertex(ck, fs[PS + n], n)
    if PS + "analyzePolicy" in fs:
        scan(ck, fs[PS + "analyzePolicy"])
    if XS + "analyzeProgram" in fs:
        instructions(ck, fs[XS + "analyzeProgram"])
    if XS + "analyzeInferenceTrace" in fs:
        trace_(ck, fs[XS + "analyzeInferenceTrace"])
    if XS + "analyzeInstrumentedGraph" in fs:
        average(ck, fs[XS + "analyzeInstrumentedGraph"])
    getters(ck, fs)


# -- helpers ---------------------------------------------------------------------
def field(loc, c=None):
    """name of the counter of this object that a location belongs to, with the keys"""
    keys = []
    while loc[0] == "E":
        keys.insert(0, loc[2])
        loc = loc[1]
    if loc[0] == "F" and loc[1] == ("*", ("this",)) and isinstance(loc[2], str):
        n = loc[2]
        if n.startswith((PS, XS)):
            return last(n), tuple(keys)
    return None, ()


def items(auto, kinds=("inc", "add", "set", "clear")):
    r = []
    for x in auto:
        if x[0] in kinds:
            n, k = field(x[1])
            if n:
                r.append((x[0], n, k, x))
    return r


def call_in(t, name):
    """innermost calls of that name in t"""
    return [s for s in subterms(t) if s[0] == "call" and last(s[1]) == name]


def is_only(t, name):
    t = strip(t)
    return t[0] == "call" and last(t[1]) == name


def upto(cl, i):
    """what a loop index ranges over: ("all", container) | ("from", first, bound) | None"""
    if i[0] == "lit":
        return ("all", norm(i[2]))
    for tg, info in cl.loops.items():
        if i[0] == "phi" and norm(tg) == norm(i[1]):
            for v in info["init"]:
                if norm(v) == norm(i[2]):
                    ini, stp = list(info["init"][v]), list(info["step"].get(v, ()))
                    if len(ini) != 1 or not stp:
                        return None
                    d = [lin(norm(x)) for x in stp]
                    k = {c for dd, c in d if len(dd) == 1}
                    if len(k) != 1 or any(len(dd) != 1 for dd, c in d):
                        return None
                    c = info.get("cont")
                    b = norm(c[1]) if c and c[0] == "upto" and norm(info.get("var") or ()) == norm(v) else None
                    return ("from", norm(ini[0]), b, list(k)[0])
    return None


def whole(ck, rule, f, cl, i, size, what):
    """the loop whose index is i visits all of `size` (a predicate on a term); None when unknown"""
    r = upto(cl, i)
    if r is None:
        ck.und(rule, f.loc(), "%s: range of the loop not recognised" % what)
        return None
    if r[0] == "all":
        return True
    _, a, b, k = r
    if k == 1 and num(a) and a[1] > 0:
        ck.bad(rule, f.loc(), "%s: the first %d left out" % (what, a[1]))
        return False
    if abs(k) > 1:
        ck.bad(rule, f.loc(), "%s: one out of %d is looked at" % (what, abs(k)))
        return False
    if k != 1 or b is None or not num(a):
        ck.und(rule, f.loc(), "%s: range of the loop not recognised" % what)
        return None
    d, c = lin(b)
    if len(d) == 1 and size(list(d)[0]) and list(d.values()) == [1]:
        if c < 0:
            ck.bad(rule, f.loc(), "%s: the last %d left out" % (what, -c))
            return False
        return True
    ck.und(rule, f.loc(), "%s: range of the loop not recognised (%s)" % (what, pp(b)[:60]))
    return None


def nobreak(ck, rule, f, cl, tag, what):
    for t, facts, _a in cl.brk:
        if t == tag:
            ck.bad(rule, f.loc(), "%s: the loop may stop before the end" % what)
            return False
    return True


def count(auto, name, facts=()):
    """how much is added to a counter by these items, or None"""
    n = 0
    for kind, fn, k, x in items(auto):
        if fn != name:
            continue
        if kind == "inc":
            n = n + x[3] if not x[2] else None
        elif kind == "add":
            a = x[2]
            if len(a) == 2 and num(a[1]):
                n += a[1][1]
            elif a and a[0][0] in ("obj", "cobj") or len(a) == 1 and a[0][0] == "ilist":
                n = None
            else:
                n = None
        elif kind == "set" and k:
            # overwrites what was counted, unless it is new
            new = any(t[0] == "has" and v is False and field(norm(t[1]))[0] == name for t, v in facts)
            n = None if not num(x[2]) else x[2][1] if new else 0
        elif kind == "set":
            n = x[2][1] if num(x[2]) else None
        if n is None:
            return None
    return n


# -- reset -----------------------------------------------------------------------
def touched(ck, fs, c, names):
    r = {}
    for n in names:
        if c + n not in fs:
            continue
        cl = run(ck, fs[c + n])
        for auto in [p.auto for p in cl.ps or ()] + [a for _t, _s, _f, a in cl.backs]:
            for kind, fn, k, x in items(auto, ("inc", "add", "set")):
                r.setdefault(fn, set()).add(kind)
    return r


def emptied(auto):
    r, fuzzy = set(), False
    for x in auto:
        if x[0] in ("clear", "set", "assign", "swap", "operator=", "erase", "resize"):
            n, k = field(x[1])
            if n and not k:
                if x[0] == "set":
                    if num(x[2]) and x[2][1] == 0 or x[2][0] in ("f", "obj", "cobj"):
                        r.add(n)
                elif x[0] in ("assign", "erase", "resize"):
                    fuzzy = True
                else:
                    r.add(n)
            elif x[1] == ("*", ("this",)):
                fuzzy = True
    return r, fuzzy


def resets(ck, fs):
    for c, reset, ns in ((PS, "clear", ("analyzeLine", "analyzeProgram", "analyzeTPGTeam", "analyzeTPGAction", "analyzePolicy")),
                         (XS, "clearInferenceTracesStats", ("analyzeInferenceTrace",))):
        t = touched(ck, fs, c, ns)
        f = fs.get(c + reset)
        if f is None or not t:
            continue
        cl = run(ck, f)
        for p in cl.ps or ():
            if p.kind != "ret":
                continue
            e, fuzzy = emptied(p.auto)
            miss = sorted(set(t) - e)
            if miss and (fuzzy or any(x[0] == "loop" for x in p.auto)):
                ck.und("R1-reset", f.loc(), "%s not recognised" % f.sname)
            elif miss:
                ck.bad("R1-reset", f.loc(), "%s leaves %s as the last analysis filled it" % (f.sname, ", ".join(miss)))
            else:
                ck.ok("R1-reset", "%s empties the %d counters of an analysis" % (f.sname, len(t)))
    f = fs.get(XS + "analyzeExecution")
    if f is not None:
        cl = run(ck, f)
        t = set(touched(ck, fs, XS, ("analyzeInferenceTrace",)))
        for p in cl.ps or ():
            if p.kind != "ret":
                continue
            pre = []
            for x in p.auto:
                if x[0] == "loop" or x[:2] == ("call", "analyzeInferenceTrace"):
                    break
                pre.append(x)
            if any(x[:2] == ("call", "clearInferenceTracesStats") for x in pre) or not t - emptied(pre)[0]:
                ck.ok("R1-reset", "analyzeExecution starts from zero")
            else:
                ck.bad("R1-reset", f.loc(), "analyzeExecution adds to the traces and distributions of the previous analysis")
            ng = sum(1 for x in p.auto if x[:2] == ("call", "analyzeInstrumentedGraph"))
            if ng == 0:
                ck.bad("R1-reset", f.loc(), "analyzeExecution leaves the averages of the previous analysis")
        for tag, st, facts, a in cl.backs:
            b = [x for x in body(a, tag) if x[:2] == ("call", "analyzeInferenceTrace")]
            if len(b) != 1:
                ck.bad("R1-reset", f.loc(), "analyzeExecution analyses a recorded trace %d times" % len(b))
            else:
                lits = [s for s in subterms(b[0][2][0]) if s[0] in ("lit", "phi")]
                if lits and call_in(b[0][2][0], "getTraceHistory"):
                    if whole(ck, "R1-reset", f, cl, lits[0], lambda x: x[0] == "size", "recorded traces"):
                        ck.ok("R1-reset", "analyzeExecution: each trace once")
        for tag in {t for t, _s, _f, _a in cl.backs}:
            nobreak(ck, "R1-reset", f, cl, tag, "recorded traces")
    f = fs.get(XS + "analyzeInstrumentedGraph")
    if f is not None:
        cl = run(ck, f)
        grows = any(n == "avgNbExecutionPerInstruction" and k for a in [a for _t, _s, _f, a in cl.backs] for _k, n, k, _x in items(a, ("inc", "set", "add")))
        bad = False
        for p in cl.ps or ():
            if p.kind == "ret" and grows:
                e, fuzzy = emptied(p.auto)
                if "avgNbExecutionPerInstruction" not in e and not fuzzy:
                    bad = True
        if bad:
            ck.bad("R1-reset", f.loc(), "analyzeInstrumentedGraph keeps the instructions of the previous analysis")
        elif grows:
            ck.ok("R1-reset", "analyzeInstrumentedGraph forgets the previous analysis")


# -- policy: lines, programs, vertices ---------------------------------------------
def line(ck, f):
    R = "R2-line"
    cl = run(ck, f)
    if cl.ps is None:
        ck.und(R, f.loc(), getattr(ck, "why", ""))
        return
    for p in cl.ps:
        if p.kind != "ret":
            continue
        inc = [x for x in items(p.auto) if x[1] == "nbUsagePerInstruction"]
        n = count(p.auto, "nbUsagePerInstruction", p.facts)
        if n is None:
            ck.und(R, f.loc(), "count of the instructions not recognised")
        elif n != 1:
            ck.bad(R, f.loc(), "a line counts its instruction %d times" % n)
        elif inc[0][2] and is_only(inc[0][2][0], "getInstructionIndex") and strip(inc[0][2][0])[2] == ("*", ("p", 0)):
            ck.ok(R, "instruction of the line")
        elif inc[0][2] and (num(inc[0][2][0]) or inc[0][2][0][0] == "op" and call_in(inc[0][2][0], "getInstructionIndex")):
            ck.bad(R, f.loc(), "a line counts instruction %s" % pp(inc[0][2][0])[:50])
        else:
            ck.und(R, f.loc(), "instruction counted not recognised")
    seen = set()
    for tag, st, facts, a in cl.backs:
        b = body(a, tag)
        inc = [x for x in items(b) if x[1] == "nbUsagePerDataLocation"]
        if any(x[0] == "loop" for x in b):
            if inc:
                ck.und(R, f.loc(), "count of the locations not recognised")
            continue
        n = count(b, "nbUsagePerDataLocation", facts)
        inner = [t for t, _s, _f, a2 in cl.backs if t != tag and ("loop", tag) in body(a2, t)]
        if not inner and not inc:
            outer = True
        if inner or inc:
            if n is None:
                ck.und(R, f.loc(), "count of the locations not recognised")
            elif n != 1:
                ck.bad(R, f.loc(), "an access to a location is counted %d times" % n)
            elif inc[0][2]:
                where(ck, f, cl, inc[0][2], seen)
        nobreak(ck, R, f, cl, tag, "operands of a line")
    if any(not any(x[0] == "loop" or x[1:2] and field(x[1])[0] == "nbUsagePerDataLocation" for x in body(a, t) if x[0] in ("loop", "inc", "add", "set")) for t, _s, _f, a in cl.backs):
        ck.bad(R, f.loc(), "the locations of some operands are not counted")
    # scaling and accesses are those of the operand and its type
    hits, ps, c2 = sites(ck, f, lambda ev: ev.kind == "call" and isinstance(ev.name, str) and last(ev.name) in ("getAddressesAccessed", "scaleLocation", "getOperand"), cl.prim, gc_facts=False, ext_throws=False)
    for h in hits:
        t = [norm(a) for a in h.args]
        if last(h.name) == "getOperand":
            lits = [s for s in subterms(t[0]) if s[0] in ("lit", "phi")]
            if num(t[0]):
                ck.bad(R, h.at, "operand %d only is looked at" % t[0][1])
            elif lits and not seen & {("op", norm(lits[0]))}:
                seen.add(("op", norm(lits[0])))
                if whole(ck, R, f, c2, lits[0], lambda x: is_only(x, "getNbOperands"), "operands of a line"):
                    ck.ok(R, "each operand")
            continue
        o = norm(h.o)
        opd = {strip(x) for x in subterms(o) if x[0] == "call" and last(x[1]) == "getOperand"}
        opa = {strip(x) for y in t for x in subterms(y) if x[0] == "call" and last(x[1]) == "getOperand"}
        ty = {pkey_(x[2]) for y in t for x in subterms(y) if x[0] == "E" and call_in(x[1], "getOperandTypes")}
        oi = {pkey_(x[3][0]) for x in opd | opa if len(x) > 3 and x[3]}
        if ty and oi and (ty != oi) and len(ty) == 1 and len(oi) == 1:
            ck.bad(R, h.at, "%s is asked for the type of another operand" % last(h.name))
        elif len(oi) > 1:
            ck.bad(R, h.at, "%s mixes two operands" % last(h.name))
        if last(h.name) == "scaleLocation" and t and not any(x[0] == "F" and str(x[2]).endswith("second") for x in subterms(t[0])):
            if any(x[0] == "F" and str(x[2]).endswith("first") for x in subterms(t[0])):
                ck.bad(R, h.at, "the location scaled is the index of the data source")
        if last(h.name) == "getAddressesAccessed" and len(t) > 1 and not has_sub(t[1], lambda s: s[0] == "call" and last(s[1]) in ("scaleLocation", "getOperandLocation")) and \
                has_sub(t[1], lambda s: s[0] == "F" and str(s[2]).endswith("second")):
            ck.bad(R, h.at, "the accesses counted are those of an unscaled location")


def pkey_(t):
    d, k = lin(norm(t))
    return (frozenset(d.items()), k)


def where(ck, f, cl, keys, seen):
    R = "R2-line"
    k = keys[0]
    parts = k[3] if k[0] in ("obj", "cobj") and len(k) > 3 else k[1:] if k[0] in ("ilist", "pair") else ()
    if len(parts) != 2:
        ck.und(R, f.loc(), "location counted not recognised: %s" % str(k)[:300])
        return
    a, b = norm(parts[0]), norm(parts[1])
    fa = [x for x in subterms(a) if x[0] == "F" and call_in(x, "getOperand")]
    if has_sub(b, lambda s: s[0] == "call" and last(s[1]) == "getOperand") and not has_sub(b, lambda s: s[0] in ("lit",) or s[0] == "call" and last(s[1]) == "getAddressesAccessed") \
            and b[0] in ("ld", "F") and a != b:
        ck.bad(R, f.loc(), "the location counted is the one written in the line, not the one accessed")
        return
    if any(str(x[2]).endswith("second") for x in fa) and not any(str(x[2]).endswith("first") for x in fa):
        ck.bad(R, f.loc(), "accesses are counted under the location instead of the data source")
        return
    if ("loc",) not in seen:
        seen.add(("loc",))
        ck.ok(R, "each location accessed")


def program(ck, f):
    R = "R3-program"
    cl = run(ck, f)
    if cl.ps is None:
        ck.und(R, f.loc(), getattr(ck, "why", ""))
        return
    for p in cl.ps:
        if p.kind != "ret":
            continue
        n = count(p.auto, "nbUsePerProgram", p.facts)
        nl = sum(1 for x in items(p.auto) if x[1] == "nbLinesPerProgram")
        ni = sum(1 for x in items(p.auto) if x[1] == "nbIntronPerProgram")
        if n is None:
            ck.und(R, f.loc(), "count of the uses of a program not recognised")
            continue
        if n != 1:
            ck.bad(R, f.loc(), "a use of a program is counted %d times" % n)
            continue
        known = [v for t, v in p.facts if has_sub(t, lambda s: s[0] == "F" and str(s[2]).endswith("nbUsePerProgram"))]
        if nl or ni or any(x[0] == "loop" for x in p.auto):
            if not known:
                ck.bad(R, f.loc(), "a program is analysed again at each use")
                continue
            if nl != 1 or ni != 1:
                ck.bad(R, f.loc(), "the numbers of lines and introns of a program are stored %d and %d times" % (nl, ni))
                continue
            old = [t for t, v in p.facts if v is True and t[0] == "has" and norm(t[1])[0] == "F" and norm(t[1])[2].endswith("nbUsePerProgram")]
            if old:
                ck.bad(R, f.loc(), "a program is analysed at each use but the first")
                continue
            for x in items(p.auto):
                if x[1] == "nbLinesPerProgram":
                    v = strip(x[3][2][0])
                    if is_only(v, "getNbLines"):
                        ck.ok(R, "number of lines")
                    elif lin(v)[1] and len(lin(v)[0]) == 1:
                        ck.bad(R, f.loc(), "the number of lines stored is %s" % pp(v)[:50])
                    else:
                        ck.und(R, f.loc(), "number of lines stored not recognised")
        else:
            new = [t for t, v in p.facts if v is False and t[0] == "has" and norm(t[1])[0] == "F" and norm(t[1])[2].endswith("nbUsePerProgram")]
            if new or not known:
                ck.bad(R, f.loc(), "a program is not analysed at its first use")
                continue
        ck.ok(R, "use of a program")
    kept = {norm(strip(x[3][2][0])) for p in cl.ps if p.kind == "ret" for x in items(p.auto, ("add",)) if x[1] == "nbIntronPerProgram"}
    calls = {}
    for tag, st, facts, a in cl.backs:
        b = body(a, tag)
        if any(x[0] == "loop" for x in b):
            continue
        i = [x for x in b if x[:2] == ("call", "analyzeLine")]
        intr = [(t, v) for t, v in facts if t[0] == "call" and last(t[1]) == "isIntron"]
        if not intr:
            if i:
                ck.bad(R, f.loc(), "the lines of a program are analysed without asking whether they are introns")
            continue
        t, v = intr[-1]
        idx = norm(t[3][0])
        if len(i) != (0 if v else 1):
            ck.bad(R, f.loc(), "%s line is analysed %d times" % ("an intron" if v else "a", len(i)))
            return
        if i:
            g = call_in(i[0][2][0], "getLine")
            if g and norm(g[0][3][0]) != idx:
                if pkey_(g[0][3][0])[0] == pkey_(idx)[0]:
                    ck.bad(R, f.loc(), "the line analysed is not the one found not to be an intron")
                    return
        for k in kept:
            if k[0] == "phi" and norm(tag) == norm(k[1]):
                d, c = lin(norm(Engine.load(None, st, unnorm(cl, k))))
                if len(d) == 1 and c != (1 if v else 0):
                    ck.bad(R, f.loc(), "%s counts %d introns" % ("an intron" if v else "a line that is none", c))
                    return
        if calls.get(idx) is None:
            calls[idx] = whole(ck, R, f, cl, [s for s in subterms(idx) if s[0] in ("phi", "lit")][0] if has_sub(idx, lambda s: s[0] in ("phi", "lit")) else idx, lambda x: is_only(x, "getNbLines"), "lines of a program")
        nobreak(ck, R, f, cl, tag, "lines of a program")
    if any(calls.values()):
        ck.ok(R, "each line")
    for k in kept:
        if k[0] == "phi":
            for tg, info in cl.loops.items():
                if norm(tg) == norm(k[1]):
                    for v, ts in info["init"].items():
                        if norm(v) == norm(k[2]) and any(num(x) and x[1] for x in ts):
                            ck.bad(R, f.loc(), "the introns are not counted from zero")
        elif num(k):
            ck.bad(R, f.loc(), "the number of introns stored is always %d" % k[1])


def unnorm(cl, k):
    for tg, info in cl.loops.items():
        if norm(tg) == norm(k[1]):
            for v in list(info["init"]) + list(info["step"]):
                if norm(v) == norm(k[2]):
                    return v
    return k[2]


def vertex(ck, f, name):
    R = "R4-vertex"
    cl = run(ck, f)
    if cl.ps is None:
        ck.und(R, f.loc(), getattr(ck, "why", ""))
        return
    team = name == "analyzeTPGTeam"
    for p in cl.ps:
        if p.kind != "ret":
            continue
        for c in ("nbUsePerTPGTeam",) if team else ("nbUsePerTPGAction", "nbUsagePerActionID"):
            n = count(p.auto, c, p.facts)
            if n is None:
                ck.und(R, f.loc(), "%s not recognised" % c)
            elif n != 1:
                ck.bad(R, f.loc(), "%s counts %d for one use" % (c, n))
            else:
                k = [x[2][0] for x in items(p.auto) if x[1] == c and x[2]]
                if c == "nbUsagePerActionID" and k and not is_only(k[0], "getActionID") and (num(k[0]) or k[0][0] == "op" or call_in(k[0], "getActionClass")):
                    ck.bad(R, f.loc(), "%s counts under %s" % (c, pp(k[0])[:40]))
                else:
                    ck.ok(R, "%s: %s" % (name, c))
        if not team:
            continue
        n = count(p.auto, "nbDistinctTeams")
        e = sum(1 for x in items(p.auto) if x[1] == "nbOutgoingEdgesPerTeam")
        for x in items(p.auto, ("add",)):
            if x[1] == "nbOutgoingEdgesPerTeam":
                d, k = lin(strip(x[3][2][0]))
                if k or call_in(x[3][2][0], "getIncomingEdges"):
                    ck.bad(R, f.loc(), "the number of edges stored is %s" % pp(x[3][2][0])[:60])
        about = [(t, v) for t, v in p.facts if has_sub(t, lambda s: s[0] == "F" and str(s[2]).endswith("nbUsePerTPGTeam"))]
        if n is None or n != e:
            ck.und(R, f.loc(), "first use of a team not recognised") if n is None else ck.bad(R, f.loc(), "a team counts as %d new and its edges %d times" % (n, e))
        elif n and not about:
            ck.bad(R, f.loc(), "a team counts as new at each use")
        elif not n and not about:
            ck.bad(R, f.loc(), "a new team is not counted")
        else:
            w = uses(about, (0, 1, 2, 3))
            if w and (w - {0} if n else w & {0}):
                ck.bad(R, f.loc(), "a team is counted as new %s its first use" % ("after" if n else "but at"))
            elif w is None and not any(t[0] == "has" for t, v in about):
                ck.und(R, f.loc(), "first use of a team not recognised")
            else:
                ck.ok(R, "distinct teams")


def uses(about, values):
    """numbers of uses among `values` for which all these facts hold; None when not evaluable"""
    r = set()
    known = False
    for n in values:
        ok = True
        for t, v in about:
            if t[0] != "op" or t[1] not in ("==", "<"):
                continue
            xs = []
            for x in (t[2], t[3]):
                d, k = lin(x)
                at = [y for y in d if norm(y)[0] == "ld" and field(norm(y)[1])[0] == "nbUsePerTPGTeam"]
                if len(d) != len(at) or len(at) > 1:
                    xs = None
                    break
                xs.append(sum(d[y] * n for y in at) + k)
            if xs is None:
                continue
            known = True
            if (xs[0] == xs[1] if t[1] == "==" else xs[0] < xs[1]) != v:
                ok = False
        if ok:
            r.add(n)
    return r if known else None


# -- policy: scan ------------------------------------------------------------------
def casts(facts, ty):
    """is the element at hand a ty? None when not known"""
    r = []
    for t, v in facts:
        if t[0] == "op" and t[1] == "==":
            for a in (t[2], t[3]):
                if a[0] == "dyn" and re.search(r"\b%s\b" % ty, str(a[1])):
                    r.append((has_sub(a, lambda s: s[0] == "lit"), not v))
    if any(x for x, v in r):
        r = [(x, v) for x, v in r if x]
    vs = {v for x, v in r}
    return list(vs)[0] if len(vs) == 1 else None


def scan(ck, f):
    R = "R5-scan"
    cl = run(ck, f)
    if cl.ps is None:
        ck.und(R, f.loc(), getattr(ck, "why", ""))
        return
    ok = {"v": 0, "e": 0, "d": 0}
    stage = {t for t, _s, _f, a in cl.backs if any(x[:2] in (("call", "analyzeTPGTeam"), ("call", "analyzeTPGAction")) for x in body(a, t))}
    for tag, st, facts, a in cl.backs:
        b = body(a, tag)
        T, A = casts(facts, "TPGTeam"), casts(facts, "TPGAction")
        nt = sum(1 for x in b if x[:2] == ("call", "analyzeTPGTeam"))
        na = sum(1 for x in b if x[:2] == ("call", "analyzeTPGAction"))
        npg = [x for x in b if x[:2] == ("call", "analyzeProgram")]
        dst = [x for x in b if x[0] == "add" and x[2] and call_in(x[2][0], "getDestination")]
        has_loop = any(x[0] == "loop" for x in b)
        outer = any(field(x[1])[0] == "nbTPGVertexPerDepthLevel" for x in b if x[0] in ("set", "add", "inc"))
        if outer:
            n = sum(1 for x in items(b) if x[1] == "nbTPGVertexPerDepthLevel")
            x = [x for x in items(b) if x[1] == "nbTPGVertexPerDepthLevel"][0]
            v = x[3][2] if x[0] == "set" else None
            if v is not None and v[0] in ("c",) or v is not None and lin(v)[1] and any(s[0] == "size" for s in lin(v)[0]):
                ck.bad(R, f.loc(), "the number of vertices of a stage is stored as %s" % pp(v)[:50])
                return
            continue
        if npg or dst:
            # an edge
            if T is None and not (len(npg) and len(dst)):
                pass
            if len(npg) != 1 or len(dst) != 1:
                ck.bad(R, f.loc(), "an edge has its program analysed %d times and its destination visited %d times" % (len(npg), len(dst)))
                return
            e1 = {norm(s[2]) for s in call_in(npg[0][2][0], "getProgram")}
            e2 = {norm(s[2]) for s in call_in(dst[0][2][0], "getDestination")}
            if e1 and e2 and e1 != e2:
                ck.und(R, f.loc(), "edge scanned not recognised")
            ok["e"] += 1
            nobreak(ck, R, f, cl, tag, "edges of a team")
            continue
        if T is None and A is None:
            # the edges of a team, one of them left out?
            inner = [x for x in cl.backs if x[0] == tag and any(y[:2] == ("call", "analyzeProgram") for y in body(x[3], tag))]
            if inner:
                ck.bad(R, f.loc(), "some edges of a team are not followed")
                return
            continue
        if T and A or tag not in stage:
            continue
        inner = [x for x in cl.backs if x[0] == tag and any(y[:2] == ("call", "analyzeProgram") for y in body(x[3], tag))]
        if inner and not nt and not na:
            # same loop as the edges'
            ck.bad(R, f.loc(), "some edges of a team are not followed")
            return
        if T and nt != 1:
            ck.bad(R, f.loc(), "a team reached is analysed %d times" % nt)
            return
        if A and na != 1:
            ck.bad(R, f.loc(), "an action reached is analysed %d times" % na)
            return
        if T is False and nt or A is False and na:
            ck.bad(R, f.loc(), "a vertex is analysed as what it is not")
            return
        if T and not has_loop:
            about = [(t, v) for t, v in facts if has_sub(t, lambda s: s[0] == "F" and str(s[2]).endswith("nbUsePerTPGTeam"))]
            if not about and not any(s[0] == "call" for t, v in facts for s in subterms(t)):
                ck.bad(R, f.loc(), "the edges of a team are not scanned")
                return
            w = uses(about, (1, 2, 3, 4))
            if w and 1 in w:
                ck.bad(R, f.loc(), "the edges of a team are not scanned at its first use")
                return
        if T and has_loop:
            about = [(t, v) for t, v in facts if has_sub(t, lambda s: s[0] == "F" and str(s[2]).endswith("nbUsePerTPGTeam") or s[0] == "call" and last(s[1]) in ("count", "find") or s[0] == "has")]
            if not about:
                ck.bad(R, f.loc(), "the edges of a team are scanned at each of its uses")
                return
            w = uses(about, (1, 2, 3, 4))
            if w and w - {1}:
                ck.bad(R, f.loc(), "the edges of a team are scanned at its later uses")
                return
        nobreak(ck, R, f, cl, tag, "vertices of a stage")
        ok["v"] += 1
    if ok["v"]:
        ck.ok(R, "each vertex of a stage (%d paths)" % ok["v"])
    if ok["e"]:
        ck.ok(R, "each edge of a team (%d paths)" % ok["e"])
    # what is visited next
    for tag, st, facts, a in cl.backs:
        b = body(a, tag)
        dst = [x for x in b if x[0] == "add" and x[2] and call_in(x[2][0], "getDestination")]
        if not dst or not stage:
            continue
        roots = {s for s in subterms(dst[0][1]) if s[0] == "L" or s[0] == "phi" for s in ([s] if s[0] == "L" else [norm(s[2])])}
        outer = [t for t in cl.loops if any(x[0] == "loop" and norm(x[1]) in {norm(z) for z in stage} for _t, _s, _f, a2 in cl.backs if _t == t for x in body(a2, t))]
        emptying = any(x[0] in ("clear", "assign", "swap", "operator=", "erase", "resize", "pop", "pop_front", "pop_back") for t2, _s, _f, a2 in cl.backs for x in a2)
        held = {norm(v) for t in outer for v in cl.loops[t]["init"]}
        if outer and not emptying and roots & held and not any(x[0] == "set" and x[1][0] in ("L",) for t2, _s, _f, a2 in cl.backs for x in a2):
            ck.bad(R, f.loc(), "vertices of a stage are visited again in later stages")
            return
        break
    # depth
    keys = {x[2][0] for tag, st, facts, a in cl.backs for x in items(a, ("set",)) if x[1] == "nbTPGVertexPerDepthLevel" and x[2]}
    mx = {strip(x[3][2]) for p in cl.ps if p.kind == "ret" for x in items(p.auto, ("set",)) if x[1] == "maxPolicyDepth"}
    if len(keys) == 1 and len(mx) == 1:
        (dk, kk), (dm, km) = lin(norm(list(keys)[0])), lin(norm(list(mx)[0]))
        if len(dk) == 1 and {norm(x) for x in dk} == {norm(x) for x in dm} and list(dk)[0][0] == "phi":
            r = upto(cl, list(dk)[0])
            if r and r[0] == "from" and r[3] == 1 and num(r[1]):
                if r[1][1] + kk != 0:
                    ck.bad(R, f.loc(), "the first stage is numbered %d" % (r[1][1] + kk))
                elif km - kk != -1:
                    ck.bad(R, f.loc(), "the depth stored is the number of the last stage %+d" % (km - kk + 1))
                else:
                    ck.ok(R, "depth of the policy")
                return
    if any(p.kind == "ret" for p in cl.ps) and not mx:
        ck.bad(R, f.loc(), "the depth of the policy is not stored")
        return
    ck.und(R, f.loc(), "depth of the policy not recognised")


# -- execution -----------------------------------------------------------------------
def instructions(ck, f):
    R = "R6-trace"
    cl = run(ck, f)
    if cl.ps is None:
        return
    seen = False
    for tag, st, facts, a in cl.backs:
        b = [x for x in body(a, tag) if x[0] == "inc" and x[1][0] == "E" and x[1][1] == ("*", ("p", 0))]
        if any(x[0] == "loop" for x in body(a, tag)):
            continue
        if not b:
            if any(t[0] == "call" and last(t[1]) == "isIntron" for t, v in facts):
                continue
            ck.bad(R, f.loc(), "some lines of a program are not counted")
            return
        n = sum(x[3] for x in b)
        if n != 1 or any(x[2] for x in b):
            ck.bad(R, f.loc(), "a line counts %d times" % n)
            return
        g = call_in(b[0][1][2], "getLine")
        if g:
            i = [s for s in subterms(g[0][3][0]) if s[0] in ("phi", "lit")]
            if num(g[0][3][0]):
                ck.bad(R, f.loc(), "only the instruction of line %d is counted" % g[0][3][0][1])
                return
            if i and not whole(ck, R, f, cl, i[0], lambda x: is_only(x, "getNbLines"), "lines of a program"):
                return
            d, k = lin(norm(g[0][3][0]))
            if k:
                ck.und(R, f.loc(), "line counted not recognised")
                return
        if not nobreak(ck, R, f, cl, tag, "lines of a program"):
            return
        seen = True
    if seen:
        ck.ok(R, "each line of a program counts its instruction")
    elif not cl.backs:
        ck.und(R, f.loc(), "count of the instructions of a program not recognised")


def trace_(ck, f):
    R = "R6-trace"
    cl = run(ck, f)
    if cl.ps is None:
        ck.und(R, f.loc(), getattr(ck, "why", ""))
        return
    tr = ("*", ("p", 0))
    teams = progs = lines = None
    for p in cl.ps:
        if p.kind != "ret":
            continue
        it = items(p.auto)
        kept = [x for x in it if x[1] == "inferenceTracesStats"]
        if len(kept) != 1:
            ck.bad(R, f.loc(), "the statistics of a trace are stored %d times" % len(kept))
            return
        d = {}
        for c in ("distribEvaluatedTeams", "distribEvaluatedPrograms", "distribExecutedLines"):
            n = count(p.auto, c, p.facts)
            if n is None:
                ck.und(R, f.loc(), "%s not recognised" % c)
                return
            if n != 1:
                ck.bad(R, f.loc(), "%s counts a trace %d times" % (c, n))
                return
            d[c] = norm([x[2][0] for x in it if x[1] == c][0])
        teams, progs, lines = d["distribEvaluatedTeams"], d["distribEvaluatedPrograms"], d["distribExecutedLines"]
        v = kept[0][3][2]
        v = v[0] if v else None
        parts = [norm(x) for x in v[1:]] if v is not None and v[0] == "ilist" else [norm(x) for x in v[3]] if v is not None and v[0] in ("obj", "cobj") and len(v) > 3 else None
        if parts is not None and len(parts) == 5:
            for i, (n, w) in enumerate((("teams", teams), ("programs", progs), ("lines", lines))):
                if parts[i + 1] != w:
                    ck.bad(R, f.loc(), "the number of %s stored with the trace is not the one counted in the distribution" % n)
                    return
            ck.ok(R, "statistics of a trace")
        dd, k = lin(teams)
        if len(dd) == 1 and list(dd)[0][0] == "size" and list(dd)[0][1] == tr:
            if k != -1:
                ck.bad(R, f.loc(), "a trace of n vertices counts n%+d teams" % k)
                return
            ck.ok(R, "teams of a trace")
        nl = sum(1 for x in p.auto if x[0] == "loop")
    if teams is None:
        return
    ok = 0
    for tag, st, facts, a in cl.backs:
        b = body(a, tag)
        if any(x[0] == "loop" for x in b):
            inner = [x for x in b if x[0] == "loop"]
            if any(any(y[:2] == ("call", "analyzeProgram") for y in body(x[3], inner[-1][1])) for x in cl.backs if x[0] == inner[-1][1]):
                outer_range(ck, f, cl, tag, st)
            continue
        its = items(b)
        if its:
            for kind, n, k, x in its:
                if n == "distribUsedVertices":
                    c = count(b, n, facts)
                    lits = [s for s in subterms(k[0]) if s[0] in ("lit", "phi")]
                    if c != 1 and c is not None:
                        ck.bad(R, f.loc(), "a vertex of a trace counts %d times" % c)
                        return
                    if lits and whole(ck, R, f, cl, lits[0], lambda x: x[0] == "size" and x[1] == tr, "vertices of a trace") is False:
                        return
                elif n == "distribNbExecutionPerInstruction" and len(k) == 2:
                    q = [str(s[2]) for y in k for s in subterms(y)[:3] if s[0] == "F"] if False else None
                    a1 = has_sub(k[0], lambda s: s[0] == "F" and str(s[2]).endswith("second"))
                    b1 = has_sub(k[1], lambda s: s[0] == "F" and str(s[2]).endswith("first"))
                    if a1 and b1:
                        ck.bad(R, f.loc(), "instructions and numbers of executions are exchanged in their distribution")
                        return
            continue
        calls = [x for x in b if x[:2] == ("call", "analyzeProgram")]
        edges = any(any(y[:2] == ("call", "analyzeProgram") for y in body(x[3], tag)) for x in cl.backs if x[0] == tag)
        if not edges:
            continue
        n = len(calls)
        for w, cnt, isit in (("programs", progs, None), ("lines", lines, "getNbLines")):
            if cnt[0] != "phi":
                ck.und(R, f.loc(), "number of %s not recognised" % w)
                return
            loc = unnorm(cl, cnt)
            d, k = lin(norm(Engine.load(None, st, loc)))
            rest = {x: c for x, c in d.items() if not (x[0] == "phi" and norm(x[2]) == norm(loc))}
            if len(rest) == len(d):
                ck.bad(R, f.loc(), "the number of %s keeps that of the last edge only" % w)
                return
            if isit is None:
                if rest:
                    ck.und(R, f.loc(), "number of %s not recognised" % w)
                    return
                if k != n:
                    ck.bad(R, f.loc(), "an edge %s counts %d programs" % ("evaluated" if n else "not evaluated", k))
                    return
            else:
                good = len(rest) == 1 and is_only(list(rest)[0], isit) and list(rest.values()) == [1] and k == 0 if n else not rest and not k
                if not good:
                    if n and not rest or not n or len(rest) == 1 and is_only(list(rest)[0], isit):
                        ck.bad(R, f.loc(), "an edge %s counts %s lines" % ("evaluated" if n else "not evaluated", pp(list(rest)[0])[:40] + (" %+d" % k if k else "") if rest else k))
                    else:
                        ck.und(R, f.loc(), "number of %s not recognised" % w)
                    return
        if n > 1:
            ck.bad(R, f.loc(), "the program of an edge counts %d times" % n)
            return
        vis = [(t, v) for t, v in facts if has_sub(t, lambda s: s[0] == "call" and last(s[1]) == "getDestination")]
        if not n and not vis:
            ck.bad(R, f.loc(), "edges are left out whatever their destination")
            return
        if n and not vis:
            ck.bad(R, f.loc(), "edges to vertices already visited are counted")
            return
        for t, v in vis:
            if t[0] == "op" and t[1] == "==":
                fd = [x for x in (t[2], t[3]) if x[0] == "it" and x[1] == "find" or x[0] == "call" and last(x[1]) == "find"]
                if len(fd) == 1:
                    if bool(v) != bool(n):
                        ck.bad(R, f.loc(), "edges to vertices already visited are counted and the others are not")
                        return
        nobreak(ck, R, f, cl, tag, "edges of a team")
        ok += 1
    hits, ps, c2 = sites(ck, f, lambda ev: ev.kind == "call" and ev.name == "std::find", cl.prim, gc_facts=False, ext_throws=False)
    for h in hits:
        if len(h.args) == 3 and call_in(norm(h.args[2]), "getDestination"):
            a = norm(h.args[1])
            d, k = lin(a)
            lits = [x for x in d if x[0] == "lit"]
            if len(d) == 1 and lits and k != 1:
                ck.bad(R, h.at, "destinations are looked up among %s" % ("the teams visited before this one only" if k < 1 else "vertices not visited yet"))
                return
            if a[0] == "it" and a[1] == "end":
                ck.bad(R, h.at, "destinations are looked up among all the vertices of the trace")
                return
            b0 = norm(h.args[0])
            if b0[0] == "it" and b0[1] != "begin" or start_of(h.args[0]):
                ck.bad(R, h.at, "destinations are not looked up from the root")
                return
    if ok:
        ck.ok(R, "edges of a team (%d paths)" % ok)


def outer_range(ck, f, cl, tag, st):
    """teams looked at: from the first to the last but one vertex"""
    for t, v in st.facts:
        if t[0] == "op" and t[1] == "==" and v is False:
            for a, b in ((t[2], t[3]), (t[3], t[2])):
                if a[0] == "lit" and norm(a[1]) == norm(tag):
                    d, k = lin(b)
                    e = [x for x in d if x[0] == "it" and x[1] == "end"]
                    if len(d) == 1 and e and k != -1:
                        ck.bad("R6-trace", f.loc(), "the edges of the last %d vertices of a trace are %s" % (abs(k), "left out" if k < -1 else "looked at"))
                        return
    info = cl.loops.get(tag) or {}
    for v, ts in info.get("init", {}).items():
        for x in ts:
            if norm(v) in {norm(info.get("var") or ())} or x[0] == "op" and start_of(x):
                if x[0] == "op" and start_of(x):
                    ck.bad("R6-trace", f.loc(), "the edges of the root are left out")
                    return


# -- averages ------------------------------------------------------------------------
AVG = ("avgEvaluatedTeams", "avgEvaluatedPrograms", "avgExecutedLines")


def average(ck, f):
    R = "R7-average"
    cl = run(ck, f)
    if cl.ps is None:
        ck.und(R, f.loc(), getattr(ck, "why", ""))
        return
    P = ck.P
    tot, den = {}, set()
    for p in cl.ps:
        if p.kind != "ret":
            continue
        for n in AVG:
            xs = [x for x in items(p.auto, ("set", "inc")) if x[1] == n]
            if not xs:
                ck.bad(R, f.loc(), "%s keeps the value of the previous analysis" % n)
                return
            v = xs[-1][3][2] if xs[-1][0] == "set" else None
            if v is None:
                ck.bad(R, f.loc(), "%s adds to the value of the previous analysis" % n)
                return
            if v[0] == "tofloat" and v[1][0] == "op" and v[1][1] == "/":
                ck.bad(R, f.loc(), "%s is rounded to an integer" % n)
                return
            if v[0] == "op" and v[1] == "/":
                if v[2][0] != "tofloat" and v[3][0] != "tofloat":
                    ck.und(R, f.loc(), "%s not recognised" % n)
                    continue
                tot.setdefault(n, set()).add(norm(strip(v[2][1] if v[2][0] == "tofloat" else v[2])))
                den.add(norm(strip(v[3][1] if v[3][0] == "tofloat" else v[3])))
            elif v[0] not in ("f", "c"):
                ck.und(R, f.loc(), "%s not recognised: %s" % (n, pp(v)[:50]))
    for tag, st, facts, a in cl.backs:
        for kind, n, k, x in items(body(a, tag), ("set",)):
            if n == "avgNbExecutionPerInstruction":
                v = x[2]
                if v[0] == "tofloat" and v[1][0] == "op" and v[1][1] == "/":
                    ck.bad(R, f.loc(), "the averages per instruction are rounded to integers")
                    return
                if v[0] == "op" and v[1] == "/":
                    den.add(norm(strip(v[3][1] if v[3][0] == "tofloat" else v[3])))
                    num_ = norm(v[2])
                    if has_sub(num_, lambda s: s[0] == "F" and str(s[2]).endswith("first")):
                        ck.bad(R, f.loc(), "the average of an instruction is computed from its number")
                        return
    src = {s for tag, st, facts, a in cl.backs for kind, n, k, x in items(body(a, tag), ("set",)) if n == "avgNbExecutionPerInstruction" and k
           for s in subterms(norm(k[0])) if s[0] == "L"}
    for tag, st, facts, a in cl.backs:
        for x in body(a, tag):
            if x[0] in ("inc", "set") and x[1][0] == "E" and x[1][1] in src:
                v = x[2] if x[0] == "set" else tuple(y for y, c in x[2])
                vs = [s for y in ((v,) if x[0] == "set" else v) for s in subterms(y)]
                nv_, se = any(s[0] == "call" and last(s[1]) == "getNbVisits" for s in vs), any(s[0] == "F" and str(s[2]).endswith("second") for s in vs)
                if x[0] == "set":
                    ck.bad(R, f.loc(), "the executions of an instruction in the other programs are forgotten") if nv_ or se else None
                elif se and not nv_:
                    ck.bad(R, f.loc(), "the instructions of a program count once, however often it was executed")
                elif nv_ and not se:
                    ck.bad(R, f.loc(), "an instruction counts once per execution, however often it is in the program")
                elif nv_ and se:
                    ck.ok(R, "executions of an instruction")
                    continue
                else:
                    continue
                return
    if len(den) > 1:
        phis = [x for x in den if x[0] == "phi"]
        ck.bad(R, f.loc(), "the averages are not all divided by the same number") if all(x[0] in ("phi", "call", "size") for x in den) else ck.und(R, f.loc(), "divisor not recognised")
        return
    for d in den:
        inferences(ck, f, cl, d)
    for n in AVG:
        t = tot.get(n, set())
        if len(t) == 1 and list(t)[0][0] == "phi":
            totals(ck, f, cl, n, list(t)[0])
        elif t:
            ck.und(R, f.loc(), "total behind %s not recognised" % n)


def visits(t, cls):
    t = strip(t)
    return t[0] == "call" and last(t[1]) == "getNbVisits" and (cls in t[1] or "Vertex" in t[1] and cls == "TPGTeam" or has_sub(t[2], lambda s: s[0] == "dyn" and cls in str(s[1])))


def inferences(ck, f, cl, d):
    R = "R7-average"
    calls = {last(h.name) for h in sites(ck, f, lambda ev: ev.kind == "call" and isinstance(ev.name, str), cl.prim, gc_facts=False, ext_throws=False)[0]}
    if "getVertices" in calls and not any("oot" in c or "Incoming" in c for c in calls):
        ck.bad(R, f.loc(), "inferences are counted on all the vertices instead of the roots")
        return
    if d[0] == "call" and last(d[1]) == "accumulate":
        hits, ps, c2 = sites(ck, f, lambda ev: ev.kind == "call" and ev.name == "std::accumulate", cl.prim, gc_facts=False, ext_throws=False)
        for h in hits:
            if len(h.args) != 4:
                continue
            if start_of(h.args[0]) or lin(norm(h.args[1]))[1]:
                ck.bad(R, h.at, "the visits of some roots are left out of the number of inferences")
                return
            if num(h.args[2]) and h.args[2][1] != 0:
                ck.bad(R, h.at, "the number of inferences starts at %s" % h.args[2][1])
                return
            src = h.args[0]
            loc = [s for s in subterms(src) if s[0] in ("L", "call")]
            bad = [s for s in subterms(src) if s[0] == "call" and last(s[1]) == "getVertices"]
            if bad:
                ck.bad(R, h.at, "inferences are counted on all the vertices instead of the roots")
                return
            lam = [s for a in h.args for s in subterms(a) if s[0] == "lambda"]
            for l in lam:
                g = ck.P.funcs.get(l[1])
                if g is not None:
                    hs, ps2, _ = sites(ck, g, lambda ev: False, lambda x: True, gc_facts=False, ext_throws=False)
                    for p in ps2 or ():
                        if p.kind == "ret" and isinstance(p.ret, tuple):
                            dd, k = lin(norm(p.ret))
                            vs = [x for x in dd if is_only(x, "getNbVisits")]
                            if ("p", 0) in {norm(x) for x in dd} and (not vs or k):
                                ck.bad(R, g.loc(), "a root adds %s to the number of inferences" % (pp(p.ret)[:50]))
                                return
        ck.ok(R, "number of inferences")
    elif d[0] == "phi":
        ck.ok(R, "number of inferences")
    elif num(d):
        ck.bad(R, f.loc(), "the averages are divided by %d" % d[1])
    elif d[0] == "size":
        ck.bad(R, f.loc(), "the averages are divided by a number of vertices")
    else:
        ck.und(R, f.loc(), "number of inferences not recognised: %s" % pp(d)[:60])


def totals(ck, f, cl, n, ph):
    R = "R7-average"
    loc = unnorm(cl, ph)
    cls = "TPGTeamInstrumented" if n == "avgEvaluatedTeams" else "TPGEdgeInstrumented"
    ok = 0
    for tag, st, facts, a in cl.backs:
        cur = norm(Engine.load(None, st, loc))
        d, k = lin(cur)
        base = [x for x in d if x[0] == "phi" and norm(x[2]) == norm(loc)]
        if not base:
            continue
        rest = {x: c for x, c in d.items() if x not in base}
        T = casts(facts, "TPGActionInstrumented")
        inloop = {x for x in (norm(b[1]) for b in base)}
        if norm(tag) not in inloop:
            continue
        if not rest and not k:
            continue
        if len(rest) == 1 and not k and list(rest.values()) == [1]:
            t = strip(list(rest)[0])
            if t[0] == "op" and t[1] in ("<", "==") or t[0] == "!":
                ck.bad(R, f.loc(), "%s counts at most 1 per %s whatever its visits" % (n, "team" if cls[3] == "T" else "edge"))
                return
            if n == "avgEvaluatedTeams" and is_only(t, "getNbVisits") or n == "avgEvaluatedPrograms" and is_only(t, "getNbVisits"):
                ok += 1
                continue
            if n == "avgExecutedLines":
                if t[0] == "op" and t[1] == "*" and {last(strip(x)[1]) for x in (t[2], t[3]) if strip(x)[0] == "call"} == {"getNbVisits", "getNbLines"}:
                    ok += 1
                    continue
                if is_only(t, "getNbLines"):
                    ck.bad(R, f.loc(), "%s counts the lines of a program once, however often it was executed" % n)
                    return
                if is_only(t, "getNbVisits"):
                    ck.bad(R, f.loc(), "%s counts executions instead of lines" % n)
                    return
        if not rest and k:
            ck.bad(R, f.loc(), "%s counts %d per %s whatever its visits" % (n, k, "team" if cls[3] == "T" else "edge"))
            return
        ck.und(R, f.loc(), "total behind %s not recognised" % n)
        return
    # what is left out
    for tag, st, facts, a in cl.backs:
        d, k = lin(norm(Engine.load(None, st, loc)))
        base = [x for x in d if x[0] == "phi" and norm(x[2]) == norm(loc) and norm(x[1]) == norm(tag)]
        if not base or len(d) != 1 or k:
            continue
        rich = [1 for t2, s2, f2, a2 in cl.backs if t2 == tag and len(lin(norm(Engine.load(None, s2, loc)))[0]) > 1]
        if not rich:
            continue
        if n == "avgEvaluatedTeams":
            if casts(facts, "TPGActionInstrumented") is not True and casts(facts, "TPGTeamInstrumented") is not False and casts(facts, "TPGAction") is not True and casts(facts, "TPGTeam") is not False:
                ck.bad(R, f.loc(), "the visits of some teams are left out of %s" % n)
                return
        else:
            z = [(t, v) for t, v in facts if has_sub(t, lambda s: s[0] == "call" and last(s[1]) == "getNbVisits" and (has_sub(s[2], lambda q: q[0] == "dyn" and "Edge" in str(q[1]))))]
            good = any(t[0] == "op" and (t[1] == "<" and v is False and num(t[2]) and t[2][1] == 0 or t[1] == "==" and v is True and ("c", 0) in (t[2], t[3])) for t, v in z)
            if not good and z:
                ck.bad(R, f.loc(), "some edges that were executed are left out of %s" % n)
                return
            if not good and not z:
                ck.bad(R, f.loc(), "some edges are left out of %s whatever their visits" % n)
                return
    for tag in cl.loops:
        nobreak(ck, R, f, cl, tag, "vertices and edges of the graph")
    if ok:
        ck.ok(R, "total behind %s" % n)


# -- getters ---------------------------------------------------------------------------
def getters(ck, fs):
    R = "R8-getters"
    names = {}
    for c in ("TPG::ExecutionStats",):
        r = ck.P.cls(c)
        flds = {x["n"] for q in r for x in q["fields"]}
    for s, f in fs.items():
        m = re.match(r"get([A-Z]\w*)$", f.base or "")
        if not m or f.params:
            continue
        want = m.group(1)[0].lower() + m.group(1)[1:]
        if want not in flds or f.scls != "TPG::ExecutionStats":
            continue
        ps = sites(ck, f, lambda ev: False, lambda g: False, gc_facts=False, ext_throws=False)[1]
        for p in ps or ():
            if p.kind != "ret" or not isinstance(p.ret, tuple):
                continue
            r = norm(p.ret)
            while r[0] in ("ld", "*", "addr", "addr_of"):
                r = r[1]
            if r[0] == "F" and isinstance(r[2], str) and r[2].startswith(XS):
                if last(r[2]) != want:
                    ck.bad(R, f.loc(), "%s reports %s" % (f.base, last(r[2])))
                else:
                    ck.ok(R, f.base)
            else:
                ck.und(R, f.loc(), "%s not recognised" % f.base)

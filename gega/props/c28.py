"""C28: instructions check and use their operands."""
import re
from ..core import *
from ..flow import lin
from .c24 import strip
from .c27 import short_
from .c30 import norm
from .c31 import Ev

I = "Instructions::"
TYPES = I + "Instruction::operandTypes"


def check(ck):
    P = ck.P
    P.need_field("Instructions::Instruction", "operandTypes")
    P.need_field("Instructions::Set", "instructions")
    for n in ("Instruction::execute", "Instruction::checkOperandTypes", "Set::getInstruction", "Set::getMaxNbOperands"):
        P.one(I + n)
    ck.rule("R1-checked", "no operand is read before the operands given were checked", 5)
    ck.rule("R2-announced", "the operands announced are, in number, order and type, those that are read", 5)
    ck.rule("R3-order", "the function given by the user receives every operand, in the order announced", 3)
    ck.rule("R4-check", "operands are accepted only if their number and each of their types are those announced", 4)
    ck.rule("R5-base", "the number and types reported are those announced, and the base check reports its verdict", 2)
    ck.rule("R6-set", "a set returns the instruction asked for or throws, counts its instructions, and knows their largest number of operands", 4)
    classes = sorted(c for c in P.derived_short("Instructions::Instruction") if c != "Instructions::Instruction")
    for c in classes:
        fs = [f for f in P.funcs.values() if f.blocks and f.cls == c]
        ex = [f for f in fs if f.base == "execute"]
        if not ex:
            continue
        executes(ck, c, ex[0], [f for f in fs if f.base == last(short(c)) and not f.r.get("implicit") and not f.r.get("defaulted")])
    for f in P.funcs.values():
        if f.blocks and f.base == "checkOperandTypes" and (f.scls or "").startswith(I):
            checks(ck, f)
    base(ck)
    sets(ck)


def last(n):
    return str(n).rsplit("::", 1)[-1]


def real(facts):
    """False when the facts contradict a compile-time constant"""
    for t, v in facts:
        for s in subterms(t):
            if s[0] == "G":
                m = re.search(r"integral_constant<bool, (true|false)>::value", str(s))
                if m and t == s or m and t[0] == "ld" and t[1] == s:
                    if (m.group(1) == "true") != v:
                        return False
    return True


def kind(t):
    """type of the elements behind an announced or read type"""
    t = re.sub(r"\bconst\b", "", str(t)).strip()
    return re.sub(r"\s*(\[\d*\])+", "", t).strip()


def verdict(t):
    t = strip(t)
    return t[0] == "call" and isinstance(t[1], str) and (last(t[1]) == "checkOperandTypes" or t[1] == I + "Instruction::execute")


def val(t, x):
    """value of the term t when the verdict is x, or None"""
    t = strip(t)
    if verdict(t):
        return x
    if t[0] in ("f", "c", "b") and not isinstance(t[1], str):
        return float(t[1])
    if t[0] == "!":
        v = val(t[1], x)
        return None if v is None else float(not v)
    if t[0] == "op" and len(t) == 4:
        a, b = val(t[2], x), val(t[3], x)
        if a is None or b is None:
            return None
        if t[1] in ("==", "<", "<=", "!=", ">", ">="):
            return float({"==": a == b, "<": a < b, "<=": a <= b, "!=": a != b, ">": a > b, ">=": a >= b}[t[1]])
    return None


def passed(facts, obj=None):
    """True when the operands passed the check, None when that is not known"""
    r = False
    for t, v in facts:
        if has_sub(t, verdict):
            a, b = val(t, 1.0), val(t, 0.0)
            if a is None or b is None:
                r = None
            elif bool(a) == v and bool(b) != v:
                return True
    return r


def executes(ck, c, f, ctors):
    P = ck.P
    w = re.sub(r"Instructions::", "", c)
    prim = lambda g: g is not f and (g.base in ("checkOperandTypes", "getSharedPointer") or g.sname == I + "Instruction::execute")
    hits, ps, cl = sites(ck, f, lambda ev: ev.kind == "call" and isinstance(ev.name, str) and (last(ev.name) == "getSharedPointer" or ev.name == "std::function::operator()"), prim, gc_facts=False, ext_throws=False)
    if ps is None:
        ck.und("R1-checked", f.loc(), "%s: %s" % (w, getattr(ck, "why", "")))
        return
    used = {}
    calls = []
    nocheck = None
    for h in hits:
        if not real(h.facts):
            continue
        pd = passed(h.facts)
        if pd is None:
            ck.und("R1-checked", h.at, "%s: check of the operands not recognised" % w)
        elif not pd:
            nocheck = h
        if last(h.name) == "getSharedPointer":
            o = norm(h.o)
            if o[0] == "E" and o[1] == ("*", ("p", 0)) and num(o[2]):
                m = re.match(r"std::shared_ptr<(.*)>$", str(h.ev.node.get("t") or ""))
                if m:
                    used.setdefault(o[2][1], set()).add((kind(m.group(1)), h.at))
                    continue
            ck.und("R2-announced", h.at, "%s reads an unrecognised operand %s" % (w, pp(o)[:60]))
            used = None
            break
        else:
            calls.append(h)
    if nocheck is not None:
        ck.bad("R1-checked", nocheck.at, "%s: operands are used whether or not they passed the check" % w)
    elif hits:
        ck.ok("R1-checked", w)
    # operands announced by the constructors
    for g in ctors:
        if g.params and all("LambdaInstruction" in str(p.get("t")) or short(c) in str(p.get("t")) for p in g.params):
            continue        # copies
        ann = announced(ck, g, w)
        if ann is None or used is None:
            continue
        rd = {i: {k for k, _ in s} for i, s in used.items()}
        if not rd and not ann:
            continue
        if set(rd) != set(range(len(ann))):
            miss = sorted(set(range(len(ann))) - set(rd))
            extra = sorted(set(rd) - set(range(len(ann))))
            ck.bad("R2-announced", f.loc(), "%s announces %d operands but %s" % (w, len(ann), "never reads number %s" % miss[0] if miss else "reads number %s" % extra[0]))
            continue
        wrong = [(i, rd[i], ann[i]) for i in rd if rd[i] != {kind(ann[i])}]
        if wrong:
            i, r, a = wrong[0]
            ck.bad("R2-announced", f.loc(), "%s announces operand %d as %s but reads it as %s" % (w, i, a, "/".join(sorted(r))))
            continue
        ck.ok("R2-announced", "%s: %s" % (w, ", ".join(ann)))
    # order in the user's function
    for h in calls:
        n = len(h.args)
        ok = True
        for i, a in enumerate(h.args):
            ix = {s[2][1] for s in subterms(a) if s[0] == "E" and s[1] == ("*", ("p", 0)) and num(s[2])}
            if len(ix) != 1:
                ck.und("R3-order", h.at, "%s: argument %d not recognised: %s" % (w, i, pp(a)[:60]))
                ok = False
            elif ix != {i}:
                ck.bad("R3-order", h.at, "%s: the function's argument %d is operand %d" % (w, i, sorted(ix)[0]))
                ok = False
            if not ok:
                break
        if ok:
            ck.ok("R3-order", "%s: %d operands in order" % (w, n))
    # what is returned depends on every operand
    for p in ps:
        if p.kind != "ret" or not real(p.facts) or not passed(p.facts) or not used or not isinstance(p.ret, tuple):
            continue
        t = strip(p.ret)
        if t[0] in ("f", "c"):
            ck.bad("R3-order", f.loc(), "%s: the result is %s whatever the operands" % (w, pp(t)))
            continue
        ix = {s[2][1] for s in subterms(t) if s[0] == "E" and s[1] == ("*", ("p", 0)) and num(s[2])}
        miss = sorted(set(used) - ix)
        if not ix:
            continue
        if miss:
            ck.bad("R3-order", f.loc(), "%s: the result does not depend on operand %d" % (w, miss[0]))
        else:
            ck.ok("R3-order", "%s: the result depends on each operand" % w)


def announced(ck, g, w):
    """types announced once constructed, in order, or None"""
    def step(st, ev):
        if ev.kind == "call" and isinstance(ev.name, str) and ev.o is not None and fld_of(ev.o) == TYPES:
            b = last(ev.name)
            a = st.auto
            if a is None:
                return
            if b in ("push_back", "emplace_back") and len(a) < 12:
                m = [s[1] if isinstance(s[1], str) else s for x in Hit(ev, st).args for s in subterms(x) if s[0] == "typeid"]
                st.auto = a + (str(m[0]),) if m else None
            elif b == "clear":
                st.auto = ()
            elif b in ("insert", "assign", "operator=", "pop_back", "erase", "resize", "emplace"):
                st.auto = None
    hits, ps, cl = sites(ck, g, lambda ev: False, lambda x: False, step, (), gc_facts=False, ext_throws=False)
    if ps is None:
        ck.und("R2-announced", g.loc(), "%s: %s" % (w, getattr(ck, "why", "")))
        return None
    r = {p.auto for p in ps if p.kind == "ret" and real(p.facts)}
    if len(r) != 1 or None in r:
        ck.und("R2-announced", g.loc(), "%s: operands announced not recognised" % w)
        return None
    return list(r)[0]


# -- check -----------------------------------------------------------------------
def checks(ck, f):
    w = re.sub(r"Instructions::", "", f.name)
    hits = []

    def pred(ev):
        return ev.kind == "call" and isinstance(ev.name, str) and ev.name in ("std::type_info::operator!=", "std::type_info::operator==")
    cl = Ev()
    cl.prim = lambda g: g is not f and g.base == "getType"
    cl.gc_facts = False
    try:
        ps = paths(ck, f, cl, auto=())
    except AttributeError:
        ps = None
    if ps is None:
        ck.und("R4-check", f.loc(), "%s: %s" % (w, getattr(ck, "why", "")))
        return
    argsv, tv = ("*", ("p", 0)), ("F", ("*", ("this",)), TYPES)
    for p in ps:
        if p.kind != "ret" or p.ret != ("b", True) or not real(p.facts):
            continue
        sizes = False
        for t, v in p.facts:
            if t[0] == "op" and t[1] == "==" and v is True:
                cs = {norm(x[1]) for x in (t[2], t[3]) if x[0] == "size"}
                if cs == {argsv, tv}:
                    sizes = True
                lens = [x for x in (t[2], t[3]) if x[0] == "size" and norm(x[1]) == argsv]
                if lens and any(has_sub(x, lambda s: s[0] == "call" and last(s[1]) == "getNbOperands") for x in (t[2], t[3])):
                    sizes = True
        if not sizes:
            lt = [t for t, v in p.facts if t[0] == "op" and t[1] in ("<", "==") and any(x[0] == "size" and norm(x[1]) in (argsv, tv) for x in (t[2], t[3]))
                  and all(x[0] == "size" for x in (t[2], t[3]))]
            if not lt and any(s[0] == "call" and last(s[1]) not in ("getType", "hash_code") for t, v in p.facts for s in subterms(t)):
                ck.und("R4-check", f.loc(), "%s: comparison of the numbers of operands not recognised" % w)
                continue
            ck.bad("R4-check", f.loc(), "%s: operands are accepted whatever their number" % w if not lt else "%s: operands are accepted with a number that may differ from the one announced" % w)
        else:
            ck.ok("R4-check", "%s: number" % w)
    # each iteration compares the types at one same position
    res = {"n": 0}
    seen = []
    sites(ck, f, lambda ev: seen.append(ev), lambda g: g is not f and g.base == "getType", gc_facts=False, ext_throws=False)
    for tag, st, _f, _a in list(cl.backs):
        facts = st.facts
        if not real(facts):
            continue
        eq = [t for t, v in facts if t[0] == "op" and t[1] == "==" and v is True and typed(t)]
        if not eq:
            late = any(has_sub(t, lambda s: s[0] == "op" and typed(s) or s[0] == "lambda" or s[0] == "call" and last(s[1]) not in ("getType", "hash_code"))
                       for ts in (cl.loops.get(tag) or {"step": {}})["step"].values() for t in ts)
            late = late or any(has_sub(t, lambda s: s[0] == "lambda" or s[0] == "call" and last(s[1]) not in ("getType", "hash_code")) for t, _v in facts)
            if late or any(e.kind == "call" and last(str(e.name)) in ALGO for e in seen):
                ck.und("R4-check", f.loc(), "%s: comparison of the types not recognised" % w)
            else:
                ck.bad("R4-check", f.loc(), "%s: an operand is accepted whatever its type" % w)
            return
        res["n"] += 1
    if not cl.backs:
        if any(p.kind == "ret" and p.ret == ("b", True) for p in ps):
            ck.bad("R4-check", f.loc(), "%s: the types of the operands are not compared" % w)
        else:
            ck.und("R4-check", f.loc(), "%s: no comparison of types recognised" % w)
        return
    for tag, info in cl.loops.items():
        for v, ts in info["init"].items():
            for t in ts:
                if num(t) and t[1] != 0 and v in info["step"]:
                    ck.bad("R4-check", f.loc(), "%s: the first %s operands are not checked" % (w, t[1]))
                    return
        for v, ts in info["step"].items():
            for t in ts:
                d, k = lin(norm(t))
                if k > 1 and len(d) == 1:
                    ck.bad("R4-check", f.loc(), "%s: one operand out of %d is checked" % (w, k))
                    return
    hits, ps2, c2 = sites(ck, f, pred, lambda g: g is not f and g.base == "getType", gc_facts=False, ext_throws=False)
    for h in hits:
        both = list(h.args) + ([h.o] if h.o is not None else [])
        ga = {norm(s[2][2]) for x in both for s in subterms(x) if s[0] == "call" and last(s[1]) == "getType" and isinstance(s[2], tuple) and s[2][0] == "E"}
        gt = {norm(s[2]) for x in both for s in subterms(x) if s[0] == "E" and not (s[1] == argsv)}
        idx = {frozenset(x for x in lin(k)[0] if x[0] in ("phi", "lit")) for k in ga | gt}
        if ga and gt and ga.isdisjoint(gt) and (len(idx) == 1):
            ck.bad("R4-check", h.at, "%s: the type of an operand is compared with the one announced for another" % w)
            return
    # loops up to the last
    for p in ps:
        if p.kind == "ret" and p.ret == ("b", True) and real(p.facts):
            for t, v in p.facts:
                t = norm(t)
                if t[0] == "op" and t[1] == "<" and v is False:
                    d, k = lin(("op", "-", t[3], t[2]))
                    sz = [x for x in d if x[0] == "size"]
                    ph = [x for x in d if x[0] in ("phi", "lit")]
                    if len(d) == 2 and sz and ph and k < 0:
                        ck.bad("R4-check", f.loc(), "%s: the last %d operands are not checked" % (w, -k))
                        return
    ck.ok("R4-check", "%s: each type compared (%d paths)" % (w, res["n"]))


ALGO = ("equal", "mismatch", "all_of", "any_of", "none_of", "find_if", "find_if_not", "for_each", "transform", "inner_product", "count_if", "accumulate")


def typed(t):
    return any(s[0] == "typeid" or s[0] == "call" and last(s[1]) == "getType" for x in (t[2], t[3]) for s in subterms(x))


# -- base ------------------------------------------------------------------------
def base(ck):
    P = ck.P
    f = P.one(I + "Instruction::execute")
    ps = sites(ck, f, lambda ev: False, lambda g: g.base == "checkOperandTypes", gc_facts=False, ext_throws=False)[1]
    for p in ps or ():
        if p.kind != "ret" or not isinstance(p.ret, tuple):
            continue
        v = [b for t, b in p.facts if t[0] == "call" and last(t[1]) == "checkOperandTypes"]
        r = strip(p.ret)
        if verdict(r):
            ck.ok("R5-base", "execute")
            continue
        if not v:
            if r == ("f", 1.0):
                ck.bad("R5-base", f.loc(), "Instruction::execute accepts operands without checking them")
            continue
        if r[0] in ("f", "c"):
            if (float(r[1]) == 1.0) != v[0]:
                ck.bad("R5-base", f.loc(), "Instruction::execute answers %s when the check %s" % (r[1], "passes" if v[0] else "fails"))
            else:
                ck.ok("R5-base", "execute: %s" % r[1])
    for n, want in (("getNbOperands", "size"), ("getOperandTypes", "F")):
        for f in P.find(I + "Instruction::" + n):
            ps = sites(ck, f, lambda ev: False, lambda g: False, gc_facts=False, ext_throws=False)[1]
            for p in ps or ():
                if p.kind != "ret":
                    continue
                r = norm(p.ret)
                while r[0] in ("ld", "*", "addr"):
                    r = r[1]
                if r[0] == want and fld_of(r[1] if want == "size" else r) == TYPES:
                    ck.ok("R5-base", n)
                elif want == "size" and (num(r) or lin(r)[1]):
                    ck.bad("R5-base", f.loc(), "getNbOperands does not return the number of operands announced but %s" % pp(r)[:60])
                else:
                    ck.und("R5-base", f.loc(), "%s returns %s" % (n, pp(r)[:60]))


# -- sets ------------------------------------------------------------------------
def sets(ck):
    P = ck.P
    cont = I + "Set::instructions"
    for f in P.find(I + "Set::getInstruction"):
        hits, ps, cl = sites(ck, f, lambda ev: ev.kind == "call" and isinstance(ev.name, str) and ev.o is not None and fld_of(ev.o) == cont and last(ev.name) in ("at", "operator[]", "front", "back"), lambda g: False, gc_facts=False, ext_throws=False)
        for h in hits:
            if last(h.name) in ("front", "back"):
                ck.bad("R6-set", h.at, "the instruction returned is the %s one" % last(h.name))
                continue
            ix = norm(h.args[0])
            d, k = lin(ix)
            par = [x for x in d if x == ("p", 0) or x == ("ld", ("*", ("p", 0)))]
            if num(ix) or has_sub(ix, lambda s: s[0] == "op" and s[1] == "%") or par and (k or d[par[0]] != 1 or len(d) != 1):
                ck.bad("R6-set", h.at, "the instruction returned is the one at %s" % pp(ix)[:60])
                continue
            if last(h.name) == "operator[]":
                g = any(t[0] == "op" and t[1] == "<" and v is True and norm(t[2]) == ix and t[3][0] == "size" for t, v in h.facts) or any(t[0] == "op" and t[1] == "<" and v is False and t[2][0] == "size" for t, v in ())
                if not g:
                    ck.bad("R6-set", h.at, "an instruction is read without checking that it exists")
                    continue
            ck.ok("R6-set", "getInstruction")
    for f in P.find(I + "Set::getNbInstructions"):
        ps = sites(ck, f, lambda ev: False, lambda g: False, gc_facts=False, ext_throws=False)[1]
        for p in ps or ():
            if p.kind == "ret":
                r = norm(strip(p.ret))
                if r[0] == "size" and fld_of(r[1]) == cont:
                    ck.ok("R6-set", "getNbInstructions")
                elif num(r) or any(x[0] == "size" for x in lin(r)[0]):
                    ck.bad("R6-set", f.loc(), "getNbInstructions returns %s" % pp(r)[:60])
                else:
                    ck.und("R6-set", f.loc(), "getNbInstructions returns %s" % pp(r)[:60])
    for f in P.find(I + "Set::add"):
        def step(st, ev):
            if ev.kind == "call" and isinstance(ev.name, str) and ev.o is not None and fld_of(ev.o) == cont:
                b = last(ev.name)
                if b in ("push_back", "emplace_back"):
                    st.auto = min(st.auto + 1, 3)
                elif b in ("insert", "emplace", "push_front", "clear", "erase", "pop_back", "assign"):
                    st.auto = 9
        ps = sites(ck, f, lambda ev: False, lambda g: False, step, 0, gc_facts=False, ext_throws=False)[1]
        for p in ps or ():
            if p.kind != "ret":
                continue
            if p.auto == 9:
                ck.und("R6-set", f.loc(), "add changes the set in an unrecognised way")
            elif p.ret == ("b", True) and p.auto != 1:
                ck.bad("R6-set", f.loc(), "add answers true having added the instruction %d times" % p.auto)
            elif p.ret == ("b", False) and p.auto:
                ck.bad("R6-set", f.loc(), "add answers false having added the instruction")
            else:
                ck.ok("R6-set", "add")
    for f in P.find(I + "Set::getMaxNbOperands"):
        cl = Ev()
        cl.prim = lambda g: g.base == "getNbOperands"
        ps = paths(ck, f, cl, auto=())
        if ps is None:
            ck.und("R6-set", f.loc(), getattr(ck, "why", ""))
            continue
        isn = lambda t: t[0] == "call" and last(t[1]) == "getNbOperands"
        done = False
        for tag, st, _f, _a in cl.backs:
            for p in ps:
                if p.kind != "ret":
                    continue
                r = strip(p.ret)
                if r[0] != "phi":
                    continue
                v = strip(Engine.load(None, st, r[2]))
                xs = [s for s in subterms(v) if isn(s)]
                if isn(v) and not any(has_sub(t, isn) for t, b in st.facts):
                    done = True
                    ck.bad("R6-set", f.loc(), "getMaxNbOperands keeps the number of operands of the last instruction, whatever it is")
                    continue
                cmp_ = [(t, b) for t, b in st.facts if t[0] == "op" and t[1] == "<" and any(isn(strip(x)) for x in (t[2], t[3]))]
                for t, b in cmp_:
                    x, y = strip(t[2]), strip(t[3])
                    small, big = (x, y) if b else (y, x)
                    done = True
                    if isn(v) and isn(small) and not isn(big) or not isn(v) and v[0] == "phi" and isn(big) and not isn(small) and b:
                        ck.bad("R6-set", f.loc(), "getMaxNbOperands keeps the smaller number of operands")
                    else:
                        ck.ok("R6-set", "getMaxNbOperands: keeps the larger")
        if any((info or {}).get("brk") for info in cl.loops.values()):
            ck.bad("R6-set", f.loc(), "getMaxNbOperands may stop before the last instruction")
        for p in ps:
            if p.kind == "ret" and num(p.ret) and not cl.backs:
                ck.bad("R6-set", f.loc(), "getMaxNbOperands returns %s" % pp(p.ret))
        if not done:
            ck.und("R6-set", f.loc(), "getMaxNbOperands not interpreted")

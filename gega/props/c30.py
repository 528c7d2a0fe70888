"""C30: random draws stay in range and index what they are drawn for."""
from ..core import *
from ..flow import lin, lin_le
from .c24 import strip
from .c27 import short_

RNG = "Mutator::RNG"
G64, G32, GDB = RNG + "::getUnsignedInt64", RNG + "::getInt32", RNG + "::getDouble"
M64 = 2 ** 64 - 1
LM = "Mutator::LineMutator::"

# what an index handed to a function counts: quantity, and how far below it the last valid value lies
USES = {
    ("Program::Program::removeLine", 0): ("getNbLines", 1), ("Program::Program::getLine", 0): ("getNbLines", 1),
    ("Program::Program::swapLines", 0): ("getNbLines", 1), ("Program::Program::swapLines", 1): ("getNbLines", 1),
    ("Program::Program::addNewLine", 0): ("getNbLines", 0),
    ("Program::Line::setDestinationIndex", 0): ("getNbRegisters", 1),
    ("Program::Line::setInstructionIndex", 0): ("getNbInstructions", 1),
    ("Instructions::Set::getInstruction", 0): ("getNbInstructions", 1),
    ("Program::Line::setOperand", 1): ("getNbDataSources", 1),
    ("Program::Line::setOperand", 2): ("getLargestAddressSpace", 1),
}
COUNTS = {"getNbLines", "getNbRegisters", "getNbInstructions", "getNbDataSources", "getLargestAddressSpace", "getNbConstant"}


def check(ck):
    P = ck.P
    for n in (G64, G32, GDB, RNG + "::setSeed"):
        ck.P.one(n)
    ck.rule("R1-range", "a draw between two bounds is lower bound plus a number below the distance between them", 3)
    ck.rule("R2-index", "an element is drawn between zero and the last position of the very collection indexed", 8)
    ck.rule("R3-nonempty", "no element is drawn from a collection that may be empty", 5)
    ck.rule("R4-bounds", "the bounds of a draw are given in order", 2)
    ck.rule("R5-seed", "the seed fully determines the sequence", 3)
    ranges(ck)
    seeds(ck)
    draws(ck)


# -- R1 ------------------------------------------------------------------------
def bounded(t, a):
    """the two bounds the distribution was given"""
    def sub(s):
        if s[0] == "fv" and s[1][0] in ("obj", "cobj") and isinstance(s[2], str) and len(s[1]) > 3 and isinstance(s[1][3], tuple) and len(s[1][3]) == 2:
            f = s[2].rsplit("::", 1)[-1]
            if f in ("_Min", "_A"):
                return s[1][3][0]
            if f in ("_Max", "_B"):
                return s[1][3][1]
        return None
    return rewrite(t, sub)


def rewrite(t, f):
    if not isinstance(t, tuple):
        return t
    if t and isinstance(t[0], str):
        r = f(t)
        if r is not None:
            return r
    return tuple(rewrite(x, f) for x in t)


def linb(t, bits):
    d, c = lin(t)
    out = {}
    for k, v in d.items():
        if k == ("op", ">>", ("c", -1), ("c", 1)) or k[0] == "op" and k[1] == ">>" and num(k[2]) and k[2][1] in (-1, 2 ** bits - 1):
            c += v * (2 ** (bits - 1) - 1)
        else:
            out[k] = out.get(k, 0) + v
    return {k: v for k, v in out.items() if v % 2 ** bits}, c % 2 ** bits


def ranges(ck):
    P = ck.P
    lo, hi = ("p", 0), ("p", 1)
    prim = lambda g: g.sname.startswith("Mutator::_Rng")
    for name, bits in ((G64, 64), (G32, 32)):
        f = P.one(name)
        hits, ps, cl = sites(ck, f, lambda ev: False, prim, gc_facts=False, ext_throws=False)
        if ps is None:
            ck.und("R1-range", f.loc(), ck.why)
            continue
        for p in ps:
            if p.kind != "ret":
                continue
            t = bounded(p.ret, None)
            d, c = linb(t, bits)
            gens = [k for k in d if k[0] == "call" and "_Rng" in str(k[1])]
            std = [k for k in d if k[0] == "call" and "uniform_int_distribution" in str(k[1]) and k[1].startswith("std::")]
            if std:
                ck.und("R1-range", f.loc(), "drawn by a standard library distribution")
                continue
            if len(gens) != 1:
                ck.und("R1-range", f.loc(), "unrecognised draw " + pp(t)[:120])
                continue
            g = gens[0]
            rest = {k: v for k, v in d.items() if k != g}
            if any(k not in (lo, hi) for k in rest):
                ck.und("R1-range", f.loc(), "unrecognised draw " + pp(t)[:120])
                continue
            if d[g] % 2 ** bits != 1 or {k: v % 2 ** bits for k, v in rest.items()} != {lo: 1} or c:
                ck.bad("R1-range", f.loc(), "the number drawn is not the lower bound plus what the generator gave: %s" % pp(t)[:200])
                continue
            ok = True
            if g[1].endswith("_Get_all_bits"):
                full = False
                for ft, v in p.facts:
                    if v and ft[0] == "op" and ft[1] == "==":
                        a, ca = linb(bounded(("op", "-", ft[2], ft[3]), None), bits)
                        a = {k: x % 2 ** bits for k, x in a.items()}
                        n = 2 ** bits
                        if (a, ca % n) in (({hi: n - 1, lo: 1}, n - 1), ({hi: 1, lo: n - 1}, 1)):
                            full = True
                if not full:
                    ck.bad("R1-range", f.loc(), "every bit is drawn without the bounds spanning the whole type")
                    ok = False
            else:
                a, ca = linb(bounded(g[3][0], None), bits) if g[3] else ({}, 0)
                a = {k: x % 2 ** bits for k, x in a.items()}
                if set(a) - {lo, hi}:
                    ck.und("R1-range", f.loc(), "unrecognised number of values " + pp(g[3][0])[:120])
                    continue
                if a != {hi: 1, lo: 2 ** bits - 1} or ca != 1:
                    ck.bad("R1-range", f.loc(), "the generator is not asked for one of (upper - lower + 1) values but of %s" % pp(bounded(g[3][0], None))[:200])
                    ok = False
            if ok:
                ck.ok("R1-range", "%s: %s" % (short_(f.sname), pp(g)[:60]))
    # the generator itself
    for f in P.funcs.values():
        if f.blocks and f.sname.startswith("Mutator::_Rng") and f.base == "operator()":
            hits, ps, cl = sites(ck, f, lambda ev: False, None, gc_facts=False, ext_throws=False)
            if ps is None:
                ck.und("R1-range", f.loc(), ck.why)
                continue
            for p in ps:
                if p.kind != "ret":
                    continue
                t = p.ret
                if not (t[0] == "op" and t[1] == "%"):
                    ck.und("R1-range", f.loc(), "unrecognised number generated " + pp(t)[:100])
                    continue
                if strip(t[3]) != strip(("p", 0)):
                    ck.bad("R1-range", f.loc(), "a number asked below %s is taken modulo %s" % ("arg0", pp(t[3])[:80]))
                    continue
                # rejection: the number lies in a complete period
                good = False
                x = t[2]
                for ft, v in p.facts:
                    if v and ft[0] == "op" and ft[1] == "<" and ft[2][:2] == ("op", "/") and ft[2][2] == x and ft[2][3] == t[3] and ft[3][:2] == ("op", "/") and ft[3][3] == t[3]:
                        good = True
                    if ft[0] == "op" and ft[1] == "==" and v and any(s[:2] == ("op", "%") and s[3] == t[3] for s in (ft[2], ft[3]) if s[0] == "op") and \
                            any(linb(s, 64)[1] == M64 for s in (ft[2], ft[3])):
                        good = True
                if good:
                    ck.ok("R1-range", short_(f.sname) + " unbiased")
                else:
                    ck.und("R1-range", f.loc(), "no complete period recognised (range holds)")
    f = P.one(GDB)
    hits, ps, cl = sites(ck, f, lambda ev: False, None, gc_facts=False, ext_throws=False)
    for p in ps or []:
        if p.kind != "ret":
            continue
        t = bounded(p.ret, None)
        g = [s for s in subterms(t) if s[0] == "call" and "generate_canonical" in str(s[1])]
        if len(set(g)) != 1:
            ck.und("R1-range", f.loc(), "unrecognised draw " + pp(t)[:150])
            continue
        try:
            vals = [eval_(t, g[0], u, a, b) for (u, a, b) in ((0.0, 2.0, 7.0), (0.5, 2.0, 7.0), (1.0, 2.0, 7.0), (0.25, -4.0, 4.0))]
        except ValueError:
            ck.und("R1-range", f.loc(), "unrecognised draw " + pp(t)[:150])
            continue
        if vals == [2.0, 4.5, 7.0, -2.0]:
            ck.ok("R1-range", short_(f.sname))
        else:
            ck.bad("R1-range", f.loc(), "a real number drawn is not lower + u * (upper - lower): %s" % pp(t)[:200])


def eval_(t, g, u, a, b):
    """value of an affine expression of the two bounds and the canonical draw (constant folding)"""
    if t == g:
        return u
    if t == ("p", 0):
        return a
    if t == ("p", 1):
        return b
    if t[0] in ("tofloat", "toint", "toff"):
        return eval_(t[1], g, u, a, b)
    if t[0] == "fop" or t[0] == "op":
        x, y = eval_(t[2], g, u, a, b), eval_(t[3], g, u, a, b)
        if t[1] in ("+", "f+"):
            return x + y
        if t[1] in ("-", "f-"):
            return x - y
        if t[1] in ("*", "f*"):
            return x * y
    if num(t):
        return t[1]
    if t[0] == "f":
        return float(t[1])
    raise ValueError(t)


# -- R5 ------------------------------------------------------------------------
def seeds(ck):
    P = ck.P
    for f in P.funcs.values():
        if not f.blocks or f.scls != RNG or f.base not in ("setSeed", "RNG"):
            continue
        ps_ = f.params
        want = None
        def isseed(ev):
            return ev.kind in ("call", "ctor") and any(s in str(ev.name) for s in ("::seed", "make_unique", "make_shared", "mersenne_twister_engine"))

        def step(st, ev):
            if isseed(ev):
                a = Hit(ev, st).args
                if any(has_sub(x, lambda s: s == ("p", 0)) for x in a):
                    st.auto = "seeded"
                elif a:
                    st.auto = "other"
        hits, ps, cl = sites(ck, f, isseed, None, step, None, gc_facts=False, ext_throws=False)
        if ps is None:
            ck.und("R5-seed", f.loc(), ck.why)
            continue
        seeds_ = [h for h in hits]
        if f.base == "RNG" and not ps_:
            continue
        for p in ps:
            if p.kind != "ret":
                continue
            if p.auto == "seeded":
                ck.ok("R5-seed", short_(f.sname))
            elif p.auto == "other":
                ck.bad("R5-seed", f.loc(), "the generator is seeded with something else than the seed given")
            elif f.base == "setSeed" or seeds_:
                ck.bad("R5-seed", f.loc(), "the generator keeps its state on a path of %s" % f.base)
            else:
                ck.und("R5-seed", f.loc(), "seeding not recognised")
        for h in hits:
            for a in h.args:
                a = strip(a)
                if has_sub(a, lambda s: s == ("p", 0)) and a != strip(("p", 0)) and a[0] not in ("obj", "cobj", "new", "call"):
                    b = [s for s in subterms(a) if s[0] == "op"]
                    if b and any(s[1] in ("%", "&", ">>", "/") for s in b):
                        ck.bad("R5-seed", h.at, "only part of the seed given reaches the generator: %s" % pp(a)[:100])
    # no other state: what a draw reads of the generator is its engine
    for name in (G64, G32, GDB):
        f = P.one(name)
        hits, ps, cl = sites(ck, f, lambda ev: ev.kind in ("read", "write") and ev.loc is not None, lambda g: g.sname.startswith("Mutator::_Rng"), gc_facts=False, ext_throws=False)
        if ps is None:
            ck.und("R5-seed", f.loc(), ck.why)
            continue
        extra = set()
        for h in hits:
            for s in subterms(h.ev.loc):
                if s[0] == "F" and isinstance(s[2], str) and s[2].startswith(RNG + "::") and s[2] != RNG + "::engine":
                    extra.add((s[2], h.at))
                if s[0] == "G":
                    extra.add((str(s[1]), h.at))
        if not extra:
            ck.ok("R5-seed", "%s uses the engine only" % f.base)
        for n, at in sorted(extra):
            setf = P.one(RNG + "::setSeed")
            h2, ps2, _ = sites(ck, setf, lambda ev: ev.kind == "write" and ev.loc is not None and has_sub(ev.loc, lambda s: s[0] == "F" and s[2] == n), None, gc_facts=False, ext_throws=False)
            wr = {h.ev.kind for h in hits if h.ev.kind == "write" and has_sub(h.ev.loc, lambda s: s[0] in ("F", "G") and n in s)}
            if h2 or ps2 is None:
                ck.ok("R5-seed", "%s resets %s" % (setf.base, n))
            elif not wr and f.base not in ("getUnsignedInt64",):
                ck.und("R5-seed", at, "the draw depends on %s, which the seed does not set" % n)
            elif wr:
                ck.bad("R5-seed", at, "a draw depends on %s, which it changes and which setting the seed does not reset" % n)
            else:
                ck.und("R5-seed", at, "the draw depends on %s, which the seed does not set" % n)


# -- R2, R3 --------------------------------------------------------------------
OPQ = ("Program::", "TPG::", "Data::", "Instructions::", "Environment", "Archive", "Mutator::RNG", "Mutator::uniform")


def opaque_for(f):
    def prim(g):
        if (g.scls or "").startswith(OPQ) or g.scls == "Environment":
            return True
        if g is f:
            return False
        if (g.scls or "").startswith("Mutator::ProgramMutator") or g.sname.startswith("Mutator::ProgramMutator::"):
            return g.base in ("initRandomProgram", "mutateProgram", "mutateProgramBehavior") or f.base == "mutateProgram"
        if g.base in ("initRandomCorrectLine", "alterCorrectLine") or g.base == "initRandomCorrectLineOperand" and f.base != "alterCorrectLine":
            return True
        if g.base in ("mutateTPGTeam", "initRandomTPG", "mutateNewProgramBehaviors", "mutateProgramBehaviorAgainstArchive", "mutateOutgoingEdge", "mutateEdgeDestination", "addRandomEdge", "removeRandomEdge"):
            return True
        if (g.scls or "").startswith("Learn::") and g.base in ("addRoot", "getRoots") or (g.scls or "").endswith("Job"):
            return True
        return False
    return prim


def isdraw(t):
    return isinstance(t, tuple) and t and t[0] == "call" and t[1] == G64


def draw_of(t):
    """(draw, const, base iterator) when the index t is a draw plus something constant"""
    d, c = lin(strip(t))
    dr = [k for k in d if isdraw(k)]
    if len(dr) != 1 or d[dr[0]] != 1:
        return None
    rest = [k for k in d if k != dr[0]]
    base = None
    if rest:
        if len(rest) == 1 and rest[0][0] == "it" and d[rest[0]] == 1:
            base = rest[0]
        else:
            return None
    return dr[0], c, base


def qname(k):
    """('size', container) or a counting getter"""
    if k[0] == "size":
        return ("size", k[1])
    if k[0] == "call" and isinstance(k[1], str) and k[1].rsplit("::", 1)[-1] in COUNTS:
        return ("get", k[1].rsplit("::", 1)[-1])
    if k[0] == "ld":
        f = fld_of(k[1])
        if f:
            return ("fld", f)
    return None


def container_size(cont):
    """what counts a container: itself, or the getter known to give its size"""
    if has_sub(cont, lambda s: s[0] == "call" and str(s[1]).endswith("getFakeDataSources")):
        return ("get", "getNbDataSources")
    return ("size", cont)


def root_of(loc):
    """where a container lives: parameter, local, field"""
    l = loc
    while isinstance(l, tuple) and l and l[0] in ("*", "ld", "addr", "E"):
        l = l[1]
    return l


def uses_of(ev):
    """index uses in an event: (index term, ('size',cont)|('get',name), last offset)"""
    out = []
    a = ev.a or ()
    n = ev.name if isinstance(ev.name, str) else ""
    b = n.rsplit("::", 1)[-1]
    if ev.kind in ("call", "ctor"):
        for (fn, j), (q, k) in USES.items():
            if n == fn and len(a) > j:
                out.append((a[j], ("get", q), k))
        if b in ("at", "operator[]") and n.startswith("std::") and ev.o is not None and a and "map" not in n.split("::")[1] and "set" not in n.split("::")[1]:
            out.append((a[0], container_size(ev.o), 1))
        if b == "setDataAt" and len(a) > 1 and ev.o is not None and has_sub(ev.o, lambda s: s[0] == "call" and str(s[1]).endswith("getConstantHandler")):
            out.append((a[1], ("get", "getNbConstant"), 1))
        if b == "erase" and ev.o is not None and a:
            out.append((a[0], container_size(ev.o), 1))
    for x in list(a) + [ev.o, ev.loc, ev.val]:
        if x is None:
            continue
        for s in subterms(x):
            if s[0] == "E" and len(s) == 3 and isinstance(s[2], tuple):
                out.append((s[2], container_size(s[1]), 1))
    return out


def draws(ck):
    P = ck.P
    callers = set()
    for f in P.funcs.values():
        if f.blocks and (f.scls or "") != RNG and any(c in ("getUnsignedInt64", "getInt32", "getDouble") for c in called(P, f)):
            callers.add(f.sname)
    fs = [f for f in P.funcs.values() if f.blocks and f.sname in callers]
    if len(fs) < 8:
        raise AnalysisError("only %d functions draw" % len(fs))
    seen = set()
    for f in sorted(fs, key=lambda f: f.sname):
        analyse(ck, f, seen)
    known = set(seen)
    for q in ("getNbLines", "getNbRegisters", "getNbInstructions", "getNbDataSources", "getLargestAddressSpace", "getNbConstant"):
        if not any(u == ("get", q) for u in known):
            ck.und("R2-index", "gegelatilib/src/mutator", "no draw indexes what %s counts" % q)


def called(P, f):
    out = set()
    for c in P.callgraph().get(f.id, ()):
        g = P.funcs.get(c)
        if g is not None and g.scls == RNG:
            out.add(g.base)
    return out


def analyse(ck, f, seen):
    P = ck.P

    def pred(ev):
        if ev.kind in ("call", "ctor") and ev.name in (G64, G32, GDB):
            return True
        if ev.kind == "write" and ev.val is not None and ev.val[:2] == ("op", "+") and ("c", 1) in ev.val[2:]:
            return True
        if ev.kind in ("call", "ctor", "write"):
            return any(draw_of(i) is not None for i, q, k in uses_of(ev))
        return False
    hits, ps, cl = sites(ck, f, pred, opaque_for(f), gc_facts=False, ext_throws=False, budget=900000)
    if ps is None:
        ck.und("R2-index", f.loc(), "%s: %s" % (f.base, ck.why))
    w = short_(f.sname)
    for h in hits:
        if h.ev.kind in ("call", "ctor") and h.name in (G64, G32, GDB):
            order(ck, f, h)
            if h.name == G64:
                nonempty(ck, f, h)
            continue
        if h.ev.kind == "write" and h.ev.val[:2] == ("op", "+") and ("c", 1) in h.ev.val[2:]:
            corrected(ck, f, h)
        for i, q, k in uses_of(h.ev):
            d = draw_of(i)
            if d is not None:
                use(ck, f, h, d, q, k, seen)


def corrected(ck, f, h):
    """an index moved past those already tried, seen in increasing order"""
    x = [y for y in h.ev.val[2:] if y != ("c", 1)]
    if len(x) != 1:
        return
    x = x[0]
    if not (isdraw(x) or x[0] in ("phi", "ld") or has_sub(x, isdraw)):
        return

    def tried(t):
        return t != x and has_sub(t, lambda s: s[0] in ("any", "each", "lit", "it", "key", "some") or s[0] == "E") and not has_sub(t, isdraw) and not has_sub(t, lambda s: s[0] in ("call", "size"))
    for t, v in h.facts:
        if t[0] == "op" and t[1] == "<" and len(t) == 4:
            if t[2] == x and tried(t[3]):
                if (t, not v) in h.facts:
                    continue
                if v:
                    ck.bad("R2-index", h.at, "%s: the index drawn is moved past those tried which lie beyond it" % short_(f.sname))
                else:
                    ck.ok("R2-index", "%s: moved past the ones tried up to it" % short_(f.sname))
            elif t[3] == x and tried(t[2]) and v and (t, False) not in h.facts:
                ck.bad("R2-index", h.at, "%s: the index drawn is not moved past the one tried that it equals" % short_(f.sname))


def order(ck, f, h):
    a = [strip(x) for x in h.args]
    if len(a) != 2:
        return
    n0 = (fld_of(a[0]) or "").rsplit("::", 1)[-1]
    n1 = (fld_of(a[1]) or "").rsplit("::", 1)[-1]
    at = "%s %s" % (short_(f.sname), h.name.rsplit("::", 1)[-1])
    if n0.startswith("max") and n1.startswith("min"):
        ck.bad("R4-bounds", h.at, "the draw goes from %s to %s" % (n0, n1))
    elif num(a[0]) and num(a[1]) and a[0][1] > a[1][1] and not (a[1][1] == -1):
        ck.bad("R4-bounds", h.at, "the draw goes from %s to %s" % (a[0][1], a[1][1]))
    elif n0.startswith("min") and n1.startswith("max"):
        if n0[3:] == n1[3:]:
            ck.ok("R4-bounds", at)
        else:
            ck.bad("R4-bounds", h.at, "the draw goes from %s to %s, bounds of different things" % (n0, n1))
    elif a[0][0] == "f" and a[1][0] == "f":
        if float(a[0][1]) > float(a[1][1]):
            ck.bad("R4-bounds", h.at, "the draw goes from %s to %s" % (a[0][1], a[1][1]))


def use(ck, f, h, dr, q, k, seen):
    d, c, base = dr
    w = "%s: %s" % (short_(f.sname), q[1] if q[0] == "get" else pp(q[1])[:60])
    if base is not None and q[0] == "size":
        if base[1] not in ("b", "begin") or base[2] != q[1]:
            if base[2] != q[1]:
                ck.und("R2-index", h.at, "%s: drawn from another iterator %s" % (w, pp(base)[:60]))
                return
    lo, hi = strip(d[3][0]), strip(d[3][1])
    dl, cl_ = lin(lo)
    dh, ch = lin(hi)
    if dl:
        ck.und("R2-index", h.at, "%s: drawn from %s" % (w, pp(lo)[:60]))
        return
    # which quantity bounds the draw
    atoms = {a: v for a, v in dh.items()}
    mine = [a for a, v in atoms.items() if v == 1 and same(qname(a), q)]
    if not mine:
        other = [a for a, v in atoms.items() if v == 1 and qname(a) is not None and qname(a)[0] in ("size", "get")]
        if len(other) == 1 and len(atoms) == 1 and foreign(qname(other[0]), q):
            ck.bad("R2-index", h.at, "%s is indexed by a number drawn up to %s" % (q[1] if q[0] == "get" else pp(q[1])[:80], pp(hi)[:120]),
                   key="%s indexed with the size of another collection" % f.base)
            seen.add(q)
        elif len(other) == 1 and len(atoms) == 1 and qname(other[0])[0] == "size" and q[0] == "size" and root_of(q[1])[0] == "L" and norm(q[1]) != norm(other[0][1]) and reduced(ck, f, q):
            ck.bad("R2-index", h.at, "%s, which holds only some elements, is indexed by a number drawn up to %s" % (pp(q[1])[:60], pp(hi)[:100]), key="%s reduced" % f.base)
            seen.add(q)
        elif len(other) == 1 and len(atoms) == 1 and has_sub(hi, lambda s: s[0] == "p"):
            ck.und("R2-index", h.at, "%s: drawn up to %s" % (w, pp(hi)[:100]))
        else:
            ck.und("R2-index", h.at, "%s: drawn up to %s" % (w, pp(hi)[:100]))
        return
    a = mine[0]
    rest = {x: v for x, v in atoms.items() if x != a}
    if rest:
        # numbers already tested are skipped afterwards
        if all(v == -1 and x[0] == "size" for x, v in rest.items()) and len(rest) == 1:
            x = list(rest)[0]
            if ch == -k and cl_ == 0:
                ck.ok("R2-index", w + " minus those already tried")
                seen.add(q)
            elif ch > -k:
                ck.bad("R2-index", h.at, "%s: the draw reaches past the last one not tried yet: %s" % (w, pp(hi)[:100]))
            else:
                ck.bad("R2-index", h.at, "%s: the last one is never drawn: %s" % (w, pp(hi)[:100]))
        else:
            ck.und("R2-index", h.at, "%s: drawn up to %s" % (w, pp(hi)[:100]))
        return
    seen.add(q)
    # one skipped: the current one
    skip = [(t, v) for t, v in h.facts if t[0] == "op" and t[1] == "<" and (isplain(t[2], d) or isplain(t[3], d))
            and not any(s[0] == "size" or s == a for s in lin(t[3] if isplain(t[2], d) else t[2])[0])]
    top = c + ch        # largest index, relative to the quantity
    if cl_ + c > 0 and not skip:
        ck.bad("R2-index", h.at, "%s: the first one is never drawn (drawn from %d)" % (w, cl_ + c))
        return
    if cl_ + c < 0:
        ck.bad("R2-index", h.at, "%s: drawn from %d" % (w, cl_ + c))
        return
    if skip:
        t, v = skip[-1]
        left = isplain(t[2], d)           # draw < cur
        if left:
            shift_ok = (c == 1 and not v) or (c == 0 and v)
        else:                              # cur < draw
            # not (cur < draw) leaves both "is the current one" and "is below it"
            shift_ok = bool(v) and c == 1
        both = {v2 for t2, v2 in h.facts if t2 == t}
        if c == 0 and ch == -k:
            ck.ok("R2-index", w)
            return
        if len(both) > 1:
            ck.und("R2-index", h.at, "%s: drawn and tested several times" % w)
            return
        if c not in (0, 1):
            ck.und("R2-index", h.at, "%s: shifted by %d" % (w, c))
            return
        if shift_ok is False:
            ck.bad("R2-index", h.at, "%s: the number drawn is shifted on the wrong side of the current one (%s=%s)" % (w, pp(t)[:100], v))
            return
        if ch == -k - 1:
            ck.ok("R2-index", w + " but the current one")
        elif ch > -k - 1 and c == 1:
            ck.bad("R2-index", h.at, "%s: a number drawn up to %s and shifted by one goes past the last one" % (w, pp(hi)[:80]))
        elif ch < -k - 1:
            ck.bad("R2-index", h.at, "%s: the last one is never drawn: %s" % (w, pp(hi)[:80]))
        return
    if top == -k:
        ck.ok("R2-index", w)
    elif top > -k:
        ck.bad("R2-index", h.at, "%s: the draw reaches %s, past the last one" % (w, pp(hi)[:80]))
    else:
        ck.bad("R2-index", h.at, "%s: the last one is never drawn: %s" % (w, pp(hi)[:80]))


def reduced(ck, f, q):
    """elements are removed from the collection, or only added to it when they pass a test"""
    def pred(ev):
        return ev.kind == "call" and ev.o is not None and norm(ev.o) == norm(q[1]) and str(ev.name).rsplit("::", 1)[-1] in ("erase", "remove_if", "remove", "pop_back", "pop_front", "push_back", "emplace_back")
    hits, ps, cl = sites(ck, f, pred, opaque_for(f), gc_facts=False, ext_throws=False, budget=900000)
    for h in hits:
        if not h.base.endswith("_back") or h.base == "pop_back":
            return True
        if any(has_sub(t, lambda s: s[0] == "dyn") for t, v in h.facts):
            return True
    return False


def isplain(t, d):
    return t == d


def norm(l):
    """a location without the versions of the values read on the way"""
    if not isinstance(l, tuple):
        return l
    if l and l[0] in ("ld", "size") and len(l) == 3:
        return (l[0], norm(l[1]))
    if l and l[0] == "call" and len(l) == 5:
        return l[:2] + tuple(norm(x) for x in l[2:4])
    return tuple(norm(x) for x in l)


def same(a, q):
    if a is None:
        return False
    if a[0] == "size" and q[0] == "size":
        return norm(a[1]) == norm(q[1])
    return a == q


def foreign(a, q):
    """certainly the size of something else"""
    if a[0] == "get" and q[0] == "get":
        return a[1] != q[1]
    if a[0] == "size" and q[0] == "size":
        x, y = root_of(norm(a[1])), root_of(norm(q[1]))
        return isinstance(x, tuple) and isinstance(y, tuple) and x[0] == "p" and y[0] == "p" and x != y
    return False


def nonempty(ck, f, h):
    """draws between 0 and the size of something minus one"""
    lo, hi = strip(h.args[0]), strip(h.args[1])
    dl, cl_ = lin(lo)
    dh, ch = lin(hi)
    if ch == 0 and len(dh) == 1 and qname(list(dh)[0]) == ("fld", "LineSize::totalNbBits"):
        ck.bad("R2-index", h.at, "%s: a bit past the last one of the line may be selected" % short_(f.sname))
    if dl or cl_ or ch >= 0:
        return
    qs = [(a, v) for a, v in dh.items()]
    w = short_(f.sname)
    if len(qs) == 1 and qs[0][1] == 1:
        a = qs[0][0]
        n = qname(a)
        need = -ch
        if n is None:
            return
        if enough(norm(a), need, h.facts):
            ck.ok("R3-nonempty", "%s: %s" % (w, pp(a)[:60]))
            return
        if n[0] == "fld":
            ps = n[1].rsplit("::", 1)[-1]
            if ps == "totalNbBits":
                if need == 1:
                    ck.ok("R2-index", w + ": a bit of the line")
                else:
                    ck.bad("R2-index", h.at, "%s: the last bit of the line is never selected: %s" % (w, pp(h.args[1])[:60]))
                return
            floors(ck, f, h, a, ps, need)
            return
        if n[0] == "get" and n[1] in ("getNbRegisters", "getNbInstructions", "getNbDataSources", "getLargestAddressSpace"):
            environment(ck, f, h, a, n[1], need)
            return
        if n[0] == "size" and root_of(n[1])[0] == "L":
            local(ck, f, h, a, n, need)
            return
        incallers(ck, f, h, a, n, need)
    elif len(qs) == 2:
        pos = [a for a, v in qs if v == 1]
        neg = [a for a, v in qs if v == -1]
        if len(pos) == 1 and len(neg) == 1 and neg[0][0] == "size":
            if lin_le(({pos[0]: 1, neg[0]: -1}, ch), h.facts):
                ck.ok("R3-nonempty", "%s: %s not all tried" % (w, pp(pos[0])[:60]))
            elif any(t[0] == "op" and t[1] == "<" and len(t) == 4 and {norm(t[2]), norm(t[3])} == {norm(pos[0]), norm(neg[0])} for t, v in h.facts):
                ck.bad("R3-nonempty", h.at, "%s: a number is drawn up to %s although all may have been tried" % (w, pp(h.args[1])[:80]))
            else:
                ck.und("R3-nonempty", h.at, "%s: %s not shown above %s" % (w, pp(pos[0])[:60], pp(neg[0])[:40]))


def enough(a, need, facts):
    """the facts say there are at least that many (a: without versions)"""
    facts = [(norm(t), v) for t, v in facts]
    return lin_le(({a: 1}, -need), facts) or need == 1 and any(t[0] == "op" and t[1] == "==" and not v and a in (t[2], t[3]) and ("c", 0) in (t[2], t[3]) for t, v in facts)


def floors(ck, f, h, a, field, need):
    """a parameter from which something is subtracted"""
    w = short_(f.sname)
    ck.bad("R3-nonempty", h.at, "the draw reaches %s, which wraps around when %s is below %d, and nothing excludes it" % (pp(h.args[1])[:80], field, need), key="%s %s" % (f.base, field))


def local(ck, f, h, a, n, need):
    w = short_(f.sname)
    g = f
    cut = []
    name = None

    def pred(ev):
        return ev.kind == "call" and ev.o is not None and norm(ev.o) == norm(n[1]) and str(ev.name).rsplit("::", 1)[-1] in ("erase", "remove_if", "remove", "pop_back", "pop_front")
    hits, ps, cl = sites(ck, f, pred, opaque_for(f), gc_facts=False, ext_throws=False, budget=900000)
    if hits:
        ck.bad("R3-nonempty", h.at, "an element is drawn from %s, from which elements were removed (line %s) and which may be left empty" % (pp(n[1])[:40], hits[0].at.rsplit(":", 1)[-1]), key="%s empty" % f.base)
    else:
        ck.ok("R3-nonempty", "%s: %s, from which nothing is removed" % (w, pp(n[1])[:40]))


def environment(ck, f, h, a, q, need):
    """the environment guarantees its quantities; a draw among the other ones needs two of them"""
    P = ck.P
    cs = P.one("Environment::computeLineSize")
    mins, bits = line_size(ck, cs)
    w = "%s: %s" % (short_(f.sname), q)
    if mins is None:
        ck.und("R3-nonempty", h.at, "%s: %s" % (w, ck.why))
        return
    if mins.get(q, 0) >= need:
        ck.ok("R3-nonempty", "%s at least %d in any environment" % (w, need))
        return
    if need > 2:
        ck.bad("R3-nonempty", h.at, "%s: needs %d of them, nothing guarantees more than %d" % (w, need, mins.get(q, 0)), key="%s %s" % (f.base, q))
        return
    fl = tested(h.facts)
    if q in {bits.get(x) for x in fl}:
        ck.ok("R3-nonempty", "%s: several when one of its bits is selected" % w)
    elif fl:
        ck.bad("R3-nonempty", h.at, "another one of the %s is drawn when a bit of %s is selected, which is computed from %s: with a single one the draw is not bounded" % (q, "/".join(sorted(fl)), "/".join(sorted(str(bits.get(x)) for x in fl))),
               key="%s %s" % (f.base, q))
    elif f.base == "initRandomCorrectLineOperand" or any(v is False for t, v in h.facts if t[0] == "ld"):
        ck.ok("R3-nonempty", "%s: left to the caller" % w)
    else:
        ck.und("R3-nonempty", h.at, "%s: not shown to be several" % w)


def tested(facts):
    """bits fields known to be positive: X >= A and X < A + field;  X % (A + field) >= A"""
    out = set()
    L = "LineSize::"

    def flds(d):
        r = []
        for k, v in d.items():
            f = fld_of(k)
            if v == 1 and f and L in f:
                r.append(f.rsplit("::", 1)[-1])
            else:
                return None
        return r
    lt = [(t[2], lin(t[3]), v) for t, v in facts if t[0] == "op" and t[1] == "<" and len(t) == 4]
    for x, (d, c), v in lt:
        if v:
            r = flds(d)
            if r is None or c:
                continue
            if len(r) == 1 and not any(not v2 and x2 == x for x2, _, v2 in lt):
                out.add(r[0])
            for x2, (d2, c2), v2 in lt:
                if not v2 and x2 == x and c2 == 0:
                    r2 = flds(d2)
                    if r2 is not None and set(r2) < set(r) and len(r) - len(r2) == 1:
                        out |= set(r) - set(r2)
        elif x[0] == "op" and x[1] == "%":
            m, cm = lin(x[3])
            rm, r = flds(m), flds(d)
            if rm is not None and r is not None and set(r) < set(rm) and len(rm) - len(r) == 1:
                out |= set(rm) - set(r)
    if len(out) > 1:
        # the operand tests refine the operands' bits
        out -= {"nbOperandsBits"}
    return out


_LS = {}


def line_size(ck, cs):
    if id(ck) in _LS:
        return _LS[id(ck)]
    hits, ps, cl = sites(ck, cs, lambda ev: False, lambda g: g.scls == "Environment", gc_facts=False, ext_throws=False)
    if ps is None:
        _LS[id(ck)] = (None, None)
        return None, None
    mins, bits = {}, {}
    first = True
    for p in ps:
        if p.kind != "ret":
            continue
        cur = {}
        for t, v in p.facts:
            for s in subterms(t):
                if s[0] == "call" and s[1].rsplit("::", 1)[-1].startswith("get"):
                    q = s[1].rsplit("::", 1)[-1]
                    if t[0] == "op" and t[1] == "==" and not v and ("c", 0) in (t[2], t[3]):
                        cur[q] = max(cur.get(q, 0), 1)
                    for n in (2, 1):
                        if lin_le(({s: 1}, -n), p.facts):
                            cur[q] = max(cur.get(q, 0), n)
                            break
        mins = cur if first else {k: min(v, cur.get(k, 0)) for k, v in mins.items()}
        first = False
    # what each number of bits is computed from
    hs, ps2, _ = sites(ck, cs, lambda ev: ev.kind == "write" and ev.loc is not None and "LineSize::" in str(fld_of(ev.loc) or ""), lambda g: g.scls == "Environment", gc_facts=False, ext_throws=False)
    for h in hs:
        n = fld_of(h.ev.loc).rsplit("::", 1)[-1]
        src = {s[1].rsplit("::", 1)[-1] for s in subterms(h.ev.val) if s[0] == "call" and s[1].startswith("Environment::get")}
        if len(src) == 1:
            bits[n] = src.pop()
    _LS[id(ck)] = (mins, bits)
    return mins, bits


def subst(t, args):
    def f(s):
        if s[0] == "*" and len(s) == 2 and s[1][:1] == ("p",) and isinstance(s[1][1], int) and s[1][1] < len(args) and is_loc(args[s[1][1]]):
            return args[s[1][1]]
        if s[0] == "p" and isinstance(s[1], int) and s[1] < len(args):
            return args[s[1]]
        return None
    return rewrite(t, f)


def incallers(ck, f, h, a, n, need, depth=0):
    """the function, or every caller of it, shows there are enough"""
    P = ck.P
    w = short_(f.sname)
    cs = [P.funcs[i] for i in P.callers().get(f.id, ()) if i in P.funcs and P.funcs[i].blocks]
    if not cs or depth > 2 or not has_sub(a, lambda s: s[0] == "p"):
        if not has_sub(a, lambda s: s[0] == "p") and n[0] == "get":
            ck.bad("R3-nonempty", h.at, "an element is drawn among %s, which may be none" % pp(a)[:80], key="%s %s" % (f.base, n[1]))
        else:
            ck.und("R3-nonempty", h.at, "%s: %s not shown to hold any" % (w, pp(a)[:60]))
        return
    for g in cs:
        base = opaque_for(g)
        hits, ps, cl = sites(ck, g, lambda ev: ev.kind == "call" and ev.name == f.sname, lambda x: x is f or base(x), gc_facts=False, ext_throws=False, budget=900000)
        if ps is None:
            ck.und("R3-nonempty", g.loc(), ck.why)
            continue
        for c in hits:
            t = subst(a, list(c.ev.a or ()))
            nt = norm(t)
            facts = [(norm(x), v) for x, v in c.facts]
            if enough(nt, need, c.facts):
                ck.ok("R3-nonempty", "%s, called by %s: %s" % (w, short_(g.sname), pp(t)[:60]))
            elif n[0] == "get" and not any(has_sub(x, lambda s: s == nt) for x, v in facts):
                ck.bad("R3-nonempty", c.at, "%s draws an element among %s, which %s does not check" % (w, pp(t)[:80], short_(g.sname)), key="%s %s" % (f.base, g.base))
            elif n[0] == "size" and has_sub(t, lambda s: s[0] == "call" and str(s[1]).endswith("getOutgoingEdges")) and not any(has_sub(x, lambda s: s == nt) for x, v in facts):
                ck.bad("R3-nonempty", c.at, "%s draws an element among %s, which %s does not check" % (w, pp(t)[:80], short_(g.sname)), key="%s %s" % (f.base, g.base))
            elif n[0] == "get" and any(x[0] == "op" and x[1] == "<" and len(x) == 4 and norm(a) in (norm(x[2]), norm(x[3])) and (num(x[2]) or num(x[3])) for x, v in h.facts):
                ck.bad("R3-nonempty", h.at, "%s draws up to %s: the number it checks is too low" % (w, pp(h.args[1])[:80]), key="%s %s" % (f.base, n[1]))
            elif has_sub(t, lambda s: s[0] == "p") and n[0] == "size":
                incallers(ck, g, c, t, n, need, depth + 1)
            elif n[0] == "size" and root_of(t[1])[0] == "L":
                ck.ok("R3-nonempty", "%s: filled by %s" % (w, short_(g.sname)))
            else:
                ck.und("R3-nonempty", c.at, "%s: %s not shown to hold any" % (w, pp(t)[:60]))


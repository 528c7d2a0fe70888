"""C01: seeded runs are reproducible."""
import re
from ..core import *
from .c24 import strip
from .c27 import short_
from .c30 import norm
from .c31 import Ev

LA = "Learn::LearningAgent::"
NOW = re.compile(r"^(?:std::)?(?:chrono::.*::now|time|clock|gettimeofday|clock_gettime|rand|random|drand48|lrand48|mrand48|rand_r|getpid|gettid|getenv|this_thread::get_id|getrandom|arc4random|timespec_get)$"
                 r"|(?:^|::)random_device::|(?:^|::)__rdtsc$|thread::get_id$")
GEN = re.compile(r"(?:mersenne_twister_engine|linear_congruential_engine|subtract_with_carry_engine|discard_block_engine|shuffle_order_engine|Mutator::RNG\b|random_device)")
SEQ = ("push_back", "emplace_back", "push_front", "emplace_front", "push", "emplace", "insert", "assign")


def check(ck):
    P = ck.P
    for c, n in (("Learn::LearningAgent", "rng"), ("Mutator::RNG", "engine")):
        P.need_field(c, n)
    P.one("Mutator::RNG::setSeed")
    ck.rule("R1-sources", "nothing that steers the evolution reads the clock, process-wide randomness, the environment or thread identities", 20)
    ck.rule("R2-order", "no collection ordered by addresses decides the order of draws, additions or choices", 1)
    ck.rule("R3-state", "no generator and no number that steers the evolution outlives the run in static storage", 1)
    ck.rule("R4-seeds", "every generator is seeded from the user's seed, a draw, or a constant", 5)
    ck.rule("R5-init", "initialising an agent sets its seed first and puts back everything training changes", 4)
    ev = evolution(P)
    sources(ck, ev)
    statics(ck, ev)
    flows(ck, ev)
    init(ck)


def last(n):
    return str(n).rsplit("::", 1)[-1]


def islog(f):
    return f.sname.startswith(("Log::", "File::")) or (f.scls or "").startswith(("Log::", "File::"))


def evolution(P):
    roots = []
    agents = P.derived_short("Learn::LearningAgent")
    if not agents:
        raise AnalysisError("anchor vanished: class Learn::LearningAgent")
    for f in P.funcs.values():
        if not f.blocks:
            continue
        if f.cls in agents and f.base in ("init", "train", "trainOneGeneration", "evaluateAllRoots", "evaluateOneRoot", "keepBestPolicy", "decimateWorstRoots"):
            roots.append(f)
        if f.sname in ("Mutator::TPGMutator::populateTPG", "Mutator::TPGMutator::initRandomTPG"):
            roots.append(f)
    ids = P.reach(roots, stop=islog)
    fs = [P.funcs[i] for i in ids]
    return [f for f in fs if f.blocks and not islog(f)]


# -- sources ---------------------------------------------------------------------
def sources(ck, ev):
    P = ck.P
    bad = []
    for f in ev:
        for n in f.calls():
            name = short(str(n.get("fn") or ""))
            if NOW.search(name) and not name.startswith(("Util::", "Log::")):
                bad.append((f, n, name))
            elif name == "std::hash::operator()" and re.search(r"std::hash<[^<>]*\*>", str(n.get("fn"))):
                bad.append((f, n, name))
        for n in f.nodes():
            if n["k"] == "cast" and n.get("c") == "PointerToIntegral":
                ck.bad("R1-sources", f.loc(n.get("l")), "%s computes with the address of an object" % short_(f.sname))
    direct = {f.id for f, n, x in bad}
    for f, n, name in bad:
        w = short_(f.sname)
        use = used(ck, f, name)
        if use:
            ck.bad("R1-sources", f.loc(n.get("l")), "%s: what %s gives %s" % (w, name, use))
        else:
            ck.und("R1-sources", f.loc(n.get("l")), "%s calls %s" % (w, name))
    for f in sorted(ev, key=lambda f: f.sname):
        if f.id not in direct and (f.scls or f.sname).startswith(("Learn::", "Mutator::", "TPG::", "Program::", "Archive", "Environment")):
            ck.ok("R1-sources", f.sname)


class Use(Ev):
    def __init__(self, f, isrc):
        Ev.__init__(self)
        self.f = f
        self.isrc = isrc
        self.why = None

    def primitive(self, g):
        return g is not self.f

    def event(self, st, ev):
        if self.why:
            return
        h = lambda t: isinstance(t, tuple) and has_sub(t, self.isrc)
        if ev.kind in ("call", "ctor") and isinstance(ev.name, str):
            args = Hit(ev, st).args
            if any(h(a) for a in args):
                b = last(ev.name)
                if b in ("setSeed", "seed", "setRandomSeed", "reset") or GEN.search(ev.name) or b.startswith("getUnsignedInt"):
                    self.why = "seeds a generator (%s)" % ev.at()
                elif ev.name.startswith(("Learn::", "Mutator::", "TPG::", "Program::", "Archive", "Environment")) and "Log" not in ev.name:
                    self.why = "is given to %s" % ev.name
        elif ev.kind == "write" and isinstance(ev.val, tuple) and h(ev.val) and has_sub(ev.loc, lambda s: s[0] == "F" and str(s[2]).startswith(("Learn::", "Mutator::", "TPG::", "Program::", "Archive", "Environment"))):
            self.why = "is stored in %s" % pp(ev.loc)[:60]
        if not self.why:
            for t, v in st.facts:
                if h(t):
                    self.why = "decides what is done (%s)" % ev.at() if ev.kind in ("call", "write") else None
                    break


def used(ck, f, name):
    cl = Use(f, lambda s: s[0] == "call" and short(str(s[1])) == name or s[0] in ("obj", "cobj", "dyn") and short(str(s[1])) == name.rsplit("::", 1)[0])
    ps = paths(ck, f, cl, auto=())
    if cl.why:
        return cl.why
    for p in ps or ():
        if p.kind == "ret" and isinstance(p.ret, tuple) and has_sub(p.ret, cl.isrc) and not f.sname.startswith("Util::"):
            return "is returned to what evolves"
    return None


# -- statics ---------------------------------------------------------------------
ARITH = re.compile(r"^(?:std::atomic<)?(?:const )?(?:unsigned |signed )?(?:long|int|short|char|double|float|bool)(?: long| int)*>?$")


def statics(ck, ev):
    P = ck.P
    refs = {}
    for f in ev:
        for n in f.nodes():
            if n["k"] in ("var", "gvar", "global", "decls"):
                for m in [n] + list(n.get("v") or [] if isinstance(n.get("v"), list) else []):
                    if m.get("static") or m.get("glob") or m.get("g"):
                        refs.setdefault(str(m.get("n")), []).append((f, n))
    for name, g in P.globals.items():
        t = str(g.get("t"))
        if g.get("const") or "std::mutex" in t or t.startswith("const "):
            continue
        if GEN.search(t):
            ck.bad("R3-state", "%s:%s" % (rel(g.get("file")), g.get("line")), "the generator %s keeps its state from one run of the process to the next" % name)
        else:
            ck.ok("R3-state", "%s: not a generator" % name)


def rel(f):
    i = str(f).find("gegelatilib/")
    return f[i:] if i >= 0 else f


# -- flows -----------------------------------------------------------------------
PTRKEY = re.compile(r"^(?:const )?std::(?:multi)?(?:set|map)<(?:const )?([^<>,]*\*|std::(?:shared|unique)_ptr<[^<>]*>)( const)?,")
HASHED = re.compile(r"^(?:const )?std::unordered_(?:multi)?(?:set|map)<")


def byaddress(t):
    t = str(t)
    m = PTRKEY.match(t)
    if HASHED.match(t):
        return True
    if not m:
        return False
    if "std::less<" not in t and "std::greater<" not in t:
        return False    # an order of its own
    k = m.group(1)
    if "EvaluationResult" in k:
        return False    # compared by score: C16
    return True


class Flow(Ev):
    def __init__(self, f, P):
        Ev.__init__(self)
        self.f = f
        self.P = P
        self.types = {}
        self.found = []
        self.seeds = []

    def primitive(self, g):
        return g is not self.f and not g.sname.startswith(self.f.sname)

    def type_of(self, st, loc):
        loc = norm(loc)
        if loc in self.types:
            return self.types[loc]
        if loc[0] == "F":
            c, _, n = str(loc[2]).rpartition("::")
            for k in self.P.byclsshort.get(c, ()):
                for x in self.P.classes[k]["fields"]:
                    if x["n"] == n:
                        return x["t"]
        if loc[0] == "*" and loc[1][0] == "p" and loc[1][1] < len(self.f.params):
            return re.sub(r" ?&+$", "", str(self.f.params[loc[1][1]].get("t")))
        return ""

    def loop(self, st, kind, tag, g, eng):
        a = set(st.auto or ())
        info = self.loops.get(tag) if hasattr(self, "loops") else None
        if kind == "enter" or kind == "back":
            c = info.get("cont") if info else None
            if isinstance(c, tuple) and is_loc(c) and byaddress(self.type_of(st, c)):
                a.add((norm(tag), norm(c)))
        if kind in ("exit", "break"):
            a = {x for x in a if x[0] != norm(tag)}
        st.auto = tuple(sorted(a, key=repr))

    def event(self, st, ev):
        if ev.kind == "decl" and ev.loc is not None:
            self.types[norm(ev.loc)] = str(ev.name)
        if ev.kind not in ("call", "ctor") or not isinstance(ev.name, str):
            return
        b = last(ev.name)
        h = Hit(ev, st)
        # loops over containers ordered by addresses
        conts = set()
        for s in [x for a in list(h.args) + ([h.o] if h.o else []) for x in subterms(a)]:
            if s[0] == "lit" and len(s) > 2 and isinstance(s[2], tuple) and byaddress(self.type_of(st, s[2])):
                conts.add(norm(s[2]))
        inside = {c for t, c in (st.auto or ())} | conts
        draw = ev.name.startswith("Mutator::RNG::get")
        if inside:
            c = sorted(inside, key=repr)[0]
            if draw or (any("RNG" in str(getattr(x, "t", "")) for x in ())):
                self.found.append((ev.at(), "numbers are drawn for the elements of %s in the order of their addresses" % pp(c)))
            elif b in SEQ and ev.name.startswith(("std::vector", "std::list", "std::deque", "std::queue")) and conts:
                self.found.append((ev.at(), "elements are listed in the order of their addresses (%s)" % pp(c)))
            elif "multimap" in ev.name and b in ("insert", "emplace") and conts:
                self.found.append((ev.at(), "equal elements are kept in the order of their addresses (%s)" % pp(c)))
            elif ev.name.startswith("TPG::TPGGraph::") and b.startswith(("add", "remove", "clone", "set")):
                self.found.append((ev.at(), "the graph is changed in the order of the addresses of the elements of %s" % pp(c)))
            elif any(is_loc(x) and "rng" in str(x)[-60:] for x in (ev.a or ())) and not ev.name.startswith("std::"):
                self.found.append((ev.at(), "numbers are drawn for the elements of %s in the order of their addresses" % pp(c)))
        # choices in containers ordered by addresses
        if b in ("advance", "next") and ev.name.startswith("std::") and len(h.args) > 1 and has_sub(h.args[1], lambda s: s[0] == "call" and "Mutator::RNG::get" in s[1]):
            for s in subterms(h.args[0]):
                if s[0] == "it" and isinstance(s[2], tuple) and byaddress(self.type_of(st, s[2])):
                    self.found.append((ev.at(), "an element of %s, ordered by addresses, is chosen by its rank" % pp(s[2])))
        if b in ("for_each", "transform", "copy_if", "copy_n", "move") and ev.name.startswith("std::"):
            by = [s for x in h.args for s in subterms(x) if s[0] == "it" and isinstance(s[2], tuple) and byaddress(self.type_of(st, s[2]))]
            lam = [s[1] for x in h.args for s in subterms(x) if s[0] == "lambda"]
            body = [self.P.funcs[i] for i in lam if i in self.P.funcs]
            calls = {short(str(n.get("fn"))) for g in body for i in self.P.reach([g]) for n in self.P.funcs[i].calls()}
            if by and any(c.startswith("Mutator::RNG::get") for c in calls):
                self.found.append((ev.at(), "numbers are drawn for the elements of %s in the order of their addresses" % pp(by[0][2])))
            elif by and (b != "for_each" and any(has_sub(x, lambda s: s[0] in ("obj", "cobj", "call") and "inserter" in str(s[1])) for x in h.args) or
                         any(re.match(r"std::(vector|list|deque|queue)::(push|emplace)", c) for c in calls)):
                self.found.append((ev.at(), "elements are listed in the order of their addresses (%s)" % pp(by[0][2])))
        # copies of containers ordered by addresses
        if (ev.kind == "ctor" and last(ev.name) in ("vector", "list", "deque") or b in ("assign", "insert", "copy")) and ev.name.startswith("std::"):
            for x in h.args:
                for s in subterms(x):
                    if s[0] == "it" and isinstance(s[2], tuple) and byaddress(self.type_of(st, s[2])):
                        self.found.append((ev.at(), "elements are listed in the order of their addresses (%s)" % pp(s[2])))
        if b in ("sort", "stable_sort", "nth_element", "partial_sort") and ev.name.startswith("std::") and len(ev.a or ()) == 2 + (b in ("nth_element", "partial_sort")):
            for s in subterms(h.args[0]):
                if s[0] == "it" and re.match(r"std::(vector|deque)<(const )?[^<>,]*\*", self.type_of(st, s[2])):
                    self.found.append((ev.at(), "%s is sorted by addresses" % pp(s[2])))
        # seeds
        if b == "setSeed" or b == "setRandomSeed" or b == "seed" and "engine" in ev.name or ev.kind == "ctor" and last(ev.name) == "RNG" and "RNG" in ev.name and ev.a:
            if h.args:
                self.seeds.append((ev.at(), ev.name, h.args[0]))


def flows(ck, ev):
    P = ck.P
    fs = [f for f in P.funcs.values() if f.blocks and not islog(f) and not f.r.get("implicit")]
    evid = {f.id for f in ev}
    checked = 0
    for f in sorted(fs, key=lambda f: f.sname):
        steer = f.id in evid
        relevant = False
        for n in f.calls():
            fn = str(n.get("fn") or "")
            m = re.match(r"(.*)::c?r?begin$", fn)
            if m and byaddress(m.group(1)):
                relevant = True
            s = short(fn)
            if s.endswith(("::setSeed", "::setRandomSeed")) or s.endswith("RNG::RNG") and n.get("a") or re.match(r"std::(stable_)?sort$", s):
                relevant = True
        if not relevant or not steer and not any(short(str(n.get("fn"))).endswith(("::setSeed", "::setRandomSeed", "RNG::RNG")) for n in f.calls()):
            continue
        checked += 1
        cl = Flow(f, P)
        ps = paths(ck, f, cl, auto=())
        w = short_(f.sname)
        if ps is None and not cl.found:
            ck.und("R2-order", f.loc(), "%s: %s" % (w, getattr(ck, "why", "")))
        if steer:
            for at, what in dict.fromkeys(cl.found):
                ck.bad("R2-order", at, "%s: %s" % (w, what))
            if not cl.found and ps is not None:
                ck.ok("R2-order", w)
        for at, name, s in cl.seeds:
            why = badseed(s)
            if why:
                ck.bad("R4-seeds", at, "%s: a generator is seeded with %s" % (w, why))
            else:
                ck.ok("R4-seeds", "%s: %s" % (w, name))


def badseed(t):
    for s in subterms(t):
        if s[0] == "call" and NOW.search(short(str(s[1]))):
            return "what %s gives" % s[1]
        if s[0] in ("obj", "cobj") and "random_device" in str(s[1]):
            return "a random number of the system"
        if s[0] == "G":
            return "%s, which outlives the run" % pp(s)
        if s[0] == "call" and s[1] in ("std::hash::operator()",):
            return None
    if t[0] in ("addr", "addr_of", "this", "new"):
        return "an address"
    return None


# -- init ------------------------------------------------------------------------
class Init(Ev):
    def __init__(self, f, prim):
        Ev.__init__(self)
        self.prim_ = prim
        self.early = []

    def primitive(self, g):
        return self.prim_(g)

    def event(self, st, ev):
        a = dict(st.auto or ())
        n = ev.name if isinstance(ev.name, str) else ""
        touched = set()
        if ev.kind == "write":
            touched |= fields(ev.loc)
        if ev.kind in ("call", "ctor"):
            if n.startswith("Mutator::RNG::get") or last(n) in ("initRandomTPG", "populateTPG"):
                if not a.get("seeded"):
                    self.early.append(ev.at())
            if ev.o is not None and last(n) not in ("size", "empty", "begin", "end", "find", "count", "at", "cbegin", "cend", "get", "operator*", "operator->"):
                touched |= fields(ev.o)
            for x in Hit(ev, st).args:
                if last(n) in ("initRandomTPG", "populateTPG", "exchange", "swap"):
                    touched |= fields(x)
            if last(n) == "initRandomTPG":
                for x in (ev.a or ()):
                    touched |= fields(x)
            if last(n) == "setSeed" and ev.o is not None and has_sub(ev.o, lambda s: s[0] == "F" and s[2] == LA + "rng"):
                a["seeded"] = Hit(ev, st).args[0]
        a["done"] = tuple(sorted(set(a.get("done", ())) | touched))
        st.auto = tuple(sorted(a.items(), key=repr))


def fields(t):
    return {last(s[2]) for s in subterms(t) if s[0] == "F" and str(s[2]).startswith("Learn::") and "Agent::" in str(s[2])}


class Mutated(Ev):
    def __init__(self, f):
        Ev.__init__(self)
        self.f = f
        self.w = set()
        self.r = set()

    def primitive(self, g):
        return g is not self.f

    def event(self, st, ev):
        n = ev.name if isinstance(ev.name, str) else ""
        if ev.kind == "write" and ev.loc is not None:
            self.w |= fields(ev.loc)
        if ev.kind == "read" and ev.loc is not None:
            self.r |= fields(ev.loc)
        if ev.kind == "call" and ev.o is not None:
            if n.startswith("std::") and last(n) in ("insert", "emplace", "erase", "clear", "push_back", "emplace_back", "operator=", "operator[]", "swap", "assign", "insert_or_assign", "push", "pop"):
                self.w |= fields(ev.o)
            else:
                self.r |= fields(ev.o)


def init(ck):
    P = ck.P
    agents = P.derived_short("Learn::LearningAgent")
    reach = P.reach([f for f in P.funcs.values() if f.blocks and f.cls in agents and f.base == "trainOneGeneration"], stop=islog)
    w, r = {"rng", "tpg", "archive"}, {"rng", "tpg", "archive"}
    owner = {}
    for c in agents:
        for x in P.classes[c]["fields"]:
            owner.setdefault(x["n"], set()).add(c)
    for i in sorted(reach):
        f = P.funcs[i]
        if not f.blocks or f.cls not in agents or f.r.get("implicit"):
            continue
        cl = Mutated(f)
        ps = paths(ck, f, cl, auto=())
        w |= cl.w
        r |= cl.r
    need = w & r & set(owner)
    inits = [f for f in P.funcs.values() if f.blocks and f.cls in agents and f.base == "init" and f.sname.startswith("Learn::")]
    if not inits:
        raise AnalysisError("anchor vanished: LearningAgent::init")
    concrete = sorted(agents)
    for c in concrete:
        chain = [c] + P.bases_of(c)[0:]
        f = next((g for b in chain for g in inits if g.cls == b), None)
        if f is None:
            continue
        cl = Init(f, lambda g: not (g.cls in agents or not g.cls))
        cl.prim_ = lambda g: g.cls not in agents
        ps = paths(ck, f, cl, auto=())
        if ps is None:
            ck.und("R5-init", f.loc(), getattr(ck, "why", ""))
            continue
        for at in cl.early:
            ck.bad("R5-init", at, "%s: numbers are drawn before the seed is set" % short_(f.sname))
        mine = [n for n in need if owner[n] & set(P.bases_of(c))]
        for p in ps:
            if p.kind != "ret":
                continue
            a = dict(p.auto or ())
            s = a.get("seeded")
            if s is None:
                ck.bad("R5-init", f.loc(), "%s does not set the seed" % short_(f.sname))
                continue
            if norm(s) != ("p", 0):
                (ck.bad if s[0] in ("c",) else ck.und)("R5-init", f.loc(), "%s seeds the agent with %s, not with the seed given" % (short_(f.sname), pp(s)[:60]))
                continue
            miss = [n for n in sorted(mine) if n not in a.get("done", ())]
            if miss:
                ck.bad("R5-init", f.loc(), "%s (%s) leaves %s as the previous training left it" % (short_(f.sname), short_(c), ", ".join(miss)))
            else:
                ck.ok("R5-init", "%s: seed, %s" % (short_(c), ", ".join(sorted(mine))))

"""C03: parallel evaluation is free of data races."""
from ..core import *
from ..race import Share, S as SH, P0, short

THREADT = ("std::thread", "std::jthread")
LOCKT = ("std::lock_guard", "std::unique_lock", "std::scoped_lock", "std::shared_lock")


def check(ck):
    ck.rule("R1-guarded", "what several workers modify is only touched while holding the one mutex that protects it", 4)
    ck.rule("R2-private", "a worker modifies nothing else that another thread can reach (no global, no field of a shared object, no learning environment of its own)", 2)
    ck.rule("R3-joined", "every thread started is joined before the results are used or anything it uses is destroyed", 2)
    ck.rule("R4-locks", "locks are not taken recursively nor in opposite orders, and are released", 2)
    ck.rule("R5-environment", "each thread evaluates on a learning environment of its own", 1)
    P = ck.P
    spawners = []
    for f in P.funcs.values():
        if not f.blocks:
            continue
        for n in f.calls():
            s = short(n.get("fn") or "")
            if s in ("std::thread::thread", "std::jthread::jthread") and n.get("a") and not n.get("cp") or s == "std::async" or \
                    s.rsplit("::", 1)[-1] in ("emplace_back", "emplace") and "std::thread" in short_obj(n):
                if not s.startswith("std::thread") and s != "std::async" and not n.get("a"):
                    continue
                if f not in spawners:
                    spawners.append(f)
    if not spawners:
        ck.und("R3-joined", "gegelatilib/src/learn/parallelLearningAgent.cpp", "no thread is started")
        return
    # a helper that starts a thread is analysed inside its callers
    cal = P.callers()
    tops = set()
    for f in spawners:
        t = f
        for _ in range(4):
            cs = [P.funcs[x] for x in cal.get(t.id, ()) if P.funcs[x].blocks]
            handle = ret_thread(t) or any("std::thread" in p.get("t", "") for p in t.params)
            if handle and cs:
                t = cs[0]
            else:
                break
        tops.add(t.id)
    for i in sorted(tops):
        spawn(ck, P.funcs[i])


def short_obj(n):
    return n.get("oc") or ""


def ret_thread(f):
    return "std::thread" in f.r.get("ret", "")


class Run(Sites):
    gc_facts = True
    ext_throws = False
    budget = 600000

    def __init__(self, prim, rel):
        Sites.__init__(self, lambda ev: False, prim)
        self.rel = rel
        self.joins = {}      # tag or location -> True
        self.jtags = set()
        self.acc = []        # (loc, heldmutexes, active, at, what)
        self.started = []    # thread values
        self.put = {}        # location of a started thread -> where it is kept
        self.order = set()
        self.worker = False
        self.problems = []
        self.fills = []
        self.backs = []
        self.dtors = []

    # auto: (held ((key, mutexes),...), active, iteration joined)
    def event(self, st, ev):
        held, act, itj = st.auto
        k = ev.kind
        if k == "decl" and ev.val and ev.val[0] == "lock":
            if not ev.val[2]:
                self.take(held, ev.val[1], ev)
                if (ev.loc, ev.val[1]) not in held:
                    held = held + ((ev.loc, ev.val[1]),)
        elif k == "dtor" and (ev.name or "").startswith(LOCKT):
            held = tuple(h for h in held if h[0] != ev.loc)
        elif k == "call" and ev.base in ("lock", "unlock") and ev.o is not None and ev.name and (ev.name.startswith(LOCKT) or "mutex" in ev.name):
            key = ev.o
            if "mutex" in ev.name.rsplit("::", 1)[0]:
                ms = (ev.o,)
            else:
                v = Engine.load(None, st, ev.o)
                ms = v[1] if v and v[0] == "lock" else ()
                if not ms:
                    self.problems.append(("und", "R1-guarded", ev.at(), "lock not interpreted"))
            if ev.base == "lock":
                self.take(held, ms, ev)
                if (key, ms) not in held:
                    held = held + ((key, ms),)
            else:
                held = tuple(h for h in held if h[0] != key)
        elif k == "call" and ev.base == "join" and ev.name in ("std::thread::join", "std::jthread::join"):
            itj = True
            self.joins.setdefault(ev.o, ev.at())
            i = ev.o
            one = True
            while i is not None and i[0] == "E":
                if i[2][0] in ("lit", "phi"):
                    self.jtags.add(i[2][1])
                    one = False
                elif i[2][0] == "any":
                    self.jtags.add(("any", i[2][1]))
                    one = False
                i = i[1] if i[1][0] == "E" else None
            if one:
                v = Engine.load(None, st, ev.o)
                act = tuple(a for a in act if not (v and v[0] == "thread" and a == v[1]))
        elif k == "call" and ev.base == "detach" and ev.name in ("std::thread::detach", "std::jthread::detach"):
            self.problems.append(("bad", "R3-joined", ev.at(), "a thread is detached: nothing waits for its end"))
        elif k == "ctor" and ev.name in ("std::thread::thread", "std::jthread::jthread") and ev.a and not (len(ev.a) == 1 and self.isthread(ev.a[0], st)):
            h = Hit(ev, st)
            self.started.append((tuple(h.args), tuple(ev.a), h.at, h))
            key = ev.res[1] if isinstance(ev.res, tuple) and len(ev.res) > 1 and ev.res[0] == "thread" else ("T", ev.at())
            act = act if key in act else act + (key,)
        elif k == "call" and ev.base in ("emplace_back", "emplace", "push_back") and ev.node and "std::thread" in (ev.node.get("oc") or ""):
            h = Hit(ev, st)
            if h.args and h.args[0][0] in ("fn", "lambda", "memfn") or len(h.args) > 1:
                self.started.append((tuple(h.args), tuple(ev.a), h.at, h))
                key = ("T", ev.at())
                act = act if key in act else act + (key,)
        if k == "call" and ev.base in ("emplace_back", "push_back", "emplace", "insert", "operator=") and ev.o is not None:
            h = Hit(ev, st)
            self.fills.append((ev.o, tuple(h.args), ev.at(), bool(act)))
        x = self.rel(ev, st)
        if x:
            for loc, what in x:
                self.acc.append((loc, frozenset(m for _, ms in held for m in ms if not (m[0] == "L" and (m[1] != () or self.worker))), bool(act), ev.at(), what))
        if k == "dtor":
            self.dtors.append((ev.loc, bool(act), ev.at(), st))
        st.auto = (held, act, itj)

    def isthread(self, x, st):
        v = Engine.load(None, st, x) if is_loc(x) else x
        return isinstance(v, tuple) and v and v[0] == "thread"

    def take(self, held, ms, ev):
        hs = [m for _, l in held for m in l]
        for m in ms:
            if m in hs:
                self.problems.append(("bad", "R4-locks", ev.at(), "the mutex %s is taken while already held" % pp(m)))
            for h in hs:
                if h != m:
                    self.order.add((h, m, ev.at()))

    def loop(self, st, kind, tag, g, eng):
        held, act, itj = st.auto
        if kind == "enter":
            st.auto = (held, act, False)
        elif kind == "back":
            self.backs.append((tag, itj, frozenset(st.facts), held))
            st.auto = (held, act, False)
        elif kind in ("exit",) and tag in self.known:
            st.auto = (held, (), False)


def relevant(ck):
    """functions to be followed rather than summarised: those touching locks, threads or queues of jobs"""
    P = ck.P
    memo = {}

    def direct(f):
        if any("mutex" in p.get("t", "") or "std::queue<" in p.get("t", "") and "&" in p["t"] or "std::thread" in p.get("t", "") for p in f.params):
            return True
        if f.r.get("lambda"):
            return True
        return any(short(n.get("fn") or "").startswith(LOCKT + ("std::mutex::", "std::thread::", "std::jthread::")) for n in f.calls()) or ret_thread(f)

    def rel(f):
        if f.id not in memo:
            memo[f.id] = direct(f)
        return memo[f.id]
    reach = {}

    def r2(f):
        if f.id not in reach:
            reach[f.id] = any(rel(P.funcs[i]) for i in P.reach([f.id]) if P.funcs[i].blocks and (P.funcs[i].scls == f.scls or i == f.id) and not P.funcs[i].r.get("lambda"))
        return reach[f.id] or rel(f)
    return r2


def spawn(ck, f):
    P = ck.P
    r2 = relevant(ck)
    prim = lambda g: not r2(g)
    shared = set()      # locations threads are given by reference

    def rel(ev, st):
        out = []
        for loc in touched(ev, st):
            out.append((loc, ev.name or ev.kind))
        return out

    def touched(ev, st):
        ls = []
        if ev.kind == "call" and ev.o is not None:
            ls.append(ev.o)
        if ev.kind in ("write", "read") and ev.loc is not None:
            ls.append(ev.loc)
        if ev.kind in ("call", "ctor"):
            if ev.name not in ("std::ref", "std::cref", "std::addressof") and not (ev.name or "").startswith(THREADT) and not (ev.name or "").startswith(LOCKT) \
                    and not any(is_loc(x) and "thread" in repr(x) for x in ()):
                t = P.funcs.get((ev.node or {}).get("f"))
                if not (t is not None and t.blocks and r2(t)):
                    ls += [x for x in (ev.a or ()) if is_loc(x)]
        out = set()
        for l in ls:
            if ev.kind == "call" and ev.base in ("lock", "unlock", "try_lock", "join", "joinable", "detach"):
                continue
            out.add(l)
        return out

    def one(known):
        cl = Run(prim, rel)
        cl.known = known
        ps = paths(ck, f, cl, auto=((), (), False))
        return cl, ps
    cl, ps = one(set())
    if ps is None:
        for r in ("R1-guarded", "R3-joined"):
            ck.und(r, f.loc(), ck.why)
        return
    if not cl.started:
        ck.und("R3-joined", f.loc(), "thread started in a way that is not interpreted")
        return
    if cl.jtags:
        cl, ps = one(set(cl.jtags))
        if ps is None:
            return ck.und("R3-joined", f.loc(), ck.why)
    # -- joined
    good = True
    odd = [at for o, at in cl.joins.items() if o[0] == "E" and o[2][0] not in ("lit", "phi", "any") or o[0] not in ("E", "L")]
    if odd:
        ck.und("R3-joined", odd[0], "way of joining not interpreted")
        good = False
    for p in ps:
        if p.kind == "ret" and p.auto[1] and not odd:
            good = False
            kept = [c for c, a, at, _ in cl.fills]
            if not cl.joins:
                if any(p2 for p2 in cl.problems if p2[1] == "R3-joined"):
                    continue
                if any("jthread" in repr(x) for x in ()):
                    continue
                ck.bad("R3-joined", f.loc(), "threads started at %s are never joined" % cl.started[0][2])
            else:
                ck.bad("R3-joined", list(cl.joins.values())[0], "%s can end without joining the threads it started" % f.sname)
    for tag in cl.jtags:
        lp = cl.loops.get(tag) or {}
        if lp.get("brk"):
            ck.bad("R3-joined", list(cl.joins.values())[0], "joining may stop before the last thread")
            good = False
        for tg, itj, facts, held in cl.backs:
            if tg == tag and not itj and not any(has_sub(t, lambda s: s[0] == "call" and s[1].endswith("joinable")) for t, v in facts):
                ck.bad("R3-joined", list(cl.joins.values())[0], "some threads are not joined")
                good = False
    for o, at in cl.joins.items():
        i = o[2] if o[0] == "E" else None
        if i is not None and i[0] in ("lit", "phi"):
            sp = span(cl, i)
            if sp is None:
                ck.und("R3-joined", at, "joining loop not interpreted")
                good = False
            elif sp[0] == "from" and (nv(sp[1]) or 0) > 0:
                ck.bad("R3-joined", at, "the first thread is not joined")
                good = False
            cont = o[1]
            if not any(c == cont for c, a, at2, _ in cl.fills):
                ck.und("R3-joined", at, "threads joined are not those started")
                good = False
        elif i is not None and i[0] != "any":
            ck.und("R3-joined", at, "joining a single element")
            good = False
    if good:
        ck.ok("R3-joined", "%s joins its threads" % f.sname)
    for x in cl.problems:
        (ck.bad if x[0] == "bad" else ck.und)(x[1], x[2], x[3])
    # -- workers
    byref = {}
    workers = []
    for args, raw, at, h in cl.started:
        w = args[0]
        if w[0] in ("fn", "memfn") and w[1] in P.funcs:
            g = P.funcs[w[1]]
            rest = args[1:]
            ismeth = g.cls and not g.r.get("static")
            if ismeth:
                rest = rest[1:]
            rlocs = raw[1:][1:] if ismeth else raw[1:]
            workers.append((g, rest, at, None, args[1] if ismeth and len(args) > 1 else None))
        elif w[0] == "lambda":
            g = P.funcs.get(w[1])
            workers.append((g, args[1:], at, w, None))
        else:
            ck.und("R1-guarded", at, "function of the thread not interpreted: " + pp(w))
    seen = set()
    for g, rest, at, lam, obj in workers:
        if g is None or g.id in seen:
            continue
        seen.add(g.id)
        worker(ck, f, cl, ps, g, rest, at, lam, prim, rel, r2)
    # nothing the workers use is destroyed while they run
    for loc, act, at, st in cl.dtors:
        if act and loc in cl.sharedlocs and not odd:
            ck.bad("R3-joined", at, "%s is destroyed while threads use it" % pp(loc))
    # opposite orders
    od = {(a, b) for a, b, _ in cl.order}
    for a, b, at in cl.order:
        if (b, a) in od:
            ck.bad("R4-locks", at, "%s and %s are taken in opposite orders" % (pp(a), pp(b)))


def deref_arg(x):
    """storage a reference argument of a thread designates"""
    if x[0] == "addr_of":
        return x[1]
    if x[0] == "addr":
        return x[1]
    if is_loc(x):
        return x
    return ("*", x)


def worker(ck, f, cl, ps, g, rest, at, lam, prim, rel, r2):
    P = ck.P
    cl.sharedlocs = set()
    table = {}            # shared storage -> [(mutexes, where)]
    ismutex = lambda t: "mutex" in t or "atomic" in t
    if lam is None:
        c2 = Run(prim, rel)
        c2.known = set()
        c2.worker = True
        p2 = paths(ck, g, c2, auto=((), (("T", "running"),), False))
        if p2 is None:
            return ck.und("R1-guarded", g.loc(), ck.why)
        for x in c2.problems:
            (ck.bad if x[0] == "bad" else ck.und)(x[1], x[2], x[3])
        cl.order |= c2.order
        for p in p2:
            if p.kind == "ret" and p.auto[0]:
                ck.bad("R4-locks", g.loc(), "%s ends while holding %s" % (g.sname, pp(p.auto[0][-1][0])))
        mp, levels = {}, []
        for i, pr in enumerate(g.params):
            t = pr["t"]
            isref = pr.get("isref") or t.rstrip().endswith("*")
            a = rest[i] if i < len(rest) else None
            if isref and a is not None:
                loc = deref_arg(a)
                mp[("*", ("p", i))] = loc
                if ismutex(t):
                    levels.append(SH if pr.get("isref") else (0, 2))
                    continue
                if "LearningEnvironment" in t:
                    levels.append(P0)
                    environment(ck, f, cl, a, loc, at)
                    continue
                levels.append(SH if pr.get("isref") else (0, 2))
                cl.sharedlocs.add(loc)
            else:
                if a is not None and "LearningEnvironment" in t:
                    environment(ck, f, cl, a, a, at)
                levels.append(P0 if scalar_t(t) else (0, 2))
        inv = {}
        for k, v in mp.items():
            inv.setdefault(v, []).append(k)
        for loc, held, act, w, what in c2.acc:
            r = rootparam(loc, mp)
            if r is None or "const " in g.params[r[1][1]]["t"][:6] or ismutex(g.params[r[1][1]]["t"]) or "LearningEnvironment" in g.params[r[1][1]]["t"]:
                continue
            table.setdefault(mp[r], []).append((frozenset(mp.get(m, m) for m in held), w, what, loc))
        if not any("mutex" in p["t"] or "queue" in p["t"] for p in g.params) and not table:
            pass
        sh = Share(P, [(g, levels, SH)])
    else:
        caps = {}
        for c in lam[2]:
            pass
        sh = lambda_share(ck, g, f)
        for c in lamcaps(P, g):
            for h in cl.acc:
                pass
        # locations captured by reference: locals of the spawning function
        for x in lam[2]:
            loc = x if is_loc(x) else None
            if isinstance(x, tuple) and len(x) == 2 and isinstance(x[1], tuple) and is_loc(x[1]):
                loc = x[1]
            if loc is not None:
                cl.sharedlocs.add(loc)
        for l in captured_locals(f, g, cl):
            cl.sharedlocs.add(l)
    # accesses of the spawning thread (and of the worker it runs itself) while threads are running
    for loc, held, act, w, what in cl.acc:
        if not act:
            continue
        r = None
        for s in cl.sharedlocs:
            if under(loc, s):
                r = s
        if r is None or is_mutex_loc(cl, f, r):
            continue
        table.setdefault(r, []).append((held, w, what, loc))
    modified = {}
    for s, l in table.items():
        modified[s] = any(modifies(what) for _, _, what, _ in l)
    for s, l in sorted(table.items(), key=repr):
        if not modified[s]:
            ck.ok("R1-guarded", "%s: %s only read" % (g.sname, pp(s)))
            continue
        free = [x for x in l if not x[0]]
        if free:
            for held, w, what, loc in free[:3]:
                ck.bad("R1-guarded", w, "%s is used (%s) without holding a mutex, while other threads modify it" % (pp(s), what.rsplit("::", 1)[-1]))
            continue
        common = None
        for held, w, what, loc in l:
            common = held if common is None else common & held
        if not common:
            ck.bad("R1-guarded", l[0][1], "%s is not always protected by the same mutex: %s" % (pp(s), "; ".join(sorted({"%s at %s" % (",".join(pp(m) for m in h), w) for h, w, _, _ in l}))[:300]))
        else:
            for held, w, what, loc in l:
                ck.ok("R1-guarded", "%s %s under %s" % (w, what.rsplit("::", 1)[-1], ",".join(pp(m) for m in common)))
    ck.ok("R4-locks", g.sname if not g.r.get("lambda") else "worker of " + f.sname)
    if sh is None:
        return
    # what was already decided on the worker's own arguments
    done = {w for l in table.values() for _, w, _, _ in l}
    for (rule, where, what), fn in sorted(sh.viol.items()):
        if where in done and rule == "call":
            continue
        ck.bad("R2-private", where, "%s, run by several threads, %s" % (fn, what))
    ck.ok("R2-private", "%s: %d functions, %d contexts, %d modification sites" % (g.sname if not g.r.get("lambda") else "worker of " + f.sname,
                                                                                  len({c.f.id for c in sh.ctxs.values()}), len(sh.ctxs), len(sh.sites)))
    ck.funcs |= {c.f.id for c in sh.ctxs.values()}
    ck.sites += len(sh.sites)


def scalar_t(t):
    from ..race import scalar
    return scalar(t) or t.startswith("Learn::LearningMode")


def modifies(what):
    from ..race import MUT
    b = what.rsplit("::", 1)[-1]
    return what == "write" or b in MUT or what.startswith("std::map::operator[]") or what.startswith("std::unordered_map::operator[]")


def under(loc, s):
    while loc is not None:
        if loc == s:
            return True
        loc = loc[1] if isinstance(loc, tuple) and loc and loc[0] in ("E", "F") else None
    return False


def rootparam(loc, mp):
    while isinstance(loc, tuple) and loc:
        if loc in mp:
            return loc
        loc = loc[1] if loc[0] in ("E", "F") else None
    return None


def is_mutex_loc(cl, f, r):
    if r[0] == "L":
        for n in f.nodes():
            if n["k"] == "decls":
                for v in n["v"]:
                    if v["d"] == r[2] and ("mutex" in v["t"] or "LearningEnvironment" in v["t"] or "std::thread" in v["t"]):
                        return True
    return False


def environment(ck, f, cl, a, loc, at):
    R = "R5-environment"
    x = a
    if has_sub(x, lambda s: s[0] in ("F", "fref") and "learningEnvironment" in repr(s[-1]) or s[0] == "fref" and "learningEnvironment" in repr(s)) and not has_sub(x, lambda s: s[0] == "call" and s[1].endswith("::clone")):
        return ck.bad(R, at, "a thread is given the learning environment of the agent")
    if has_sub(x, lambda s: s[0] == "call" and s[1].endswith("::clone")):
        return ck.ok(R, "clone per thread")
    e = None
    for s in subterms(x):
        if s[0] == "E":
            e = s
            break
    if e is None:
        return ck.und(R, at, "environment of the thread not interpreted: " + pp(x))
    if num(e[2]) or not has_sub(e[2], lambda s: s[0] in ("lit", "phi")):
        return ck.bad(R, at, "several threads are given the same environment")
    fs = [(args, w) for c, args, w, _ in cl.fills if c == e[1]]
    if not fs:
        return ck.und(R, at, "origin of the environments not interpreted")
    for args, w in fs:
        v = args[-1] if args else None
        if v is not None and has_sub(v, lambda s: s[0] == "call" and s[1].endswith("::clone")):
            ck.ok(R, "clone per thread")
        elif v is not None and has_sub(v, lambda s: "learningEnvironment" in repr(s[-1])):
            ck.bad(R, w, "a thread is given the learning environment of the agent")
        else:
            ck.und(R, w, "environment not interpreted")


def lamcaps(P, g):
    for f in P.funcs.values():
        for n in f.nodes() if f.blocks else ():
            if n["k"] == "lambda" and n["f"] == g.id:
                return [x for x in n.get("cap", ())]
    return []


def captured_locals(f, g, cl):
    """locations in the frame of the spawning function captured by reference by the worker"""
    out = set()
    ds = set()
    for n in f.nodes():
        if n["k"] == "lambda" and n["f"] == g.id:
            for x in n.get("cap", ()):
                if x.get("ref") and "d" in x:
                    ds.add(x["d"])
    params = {p["d"]: i for i, p in enumerate(f.params)}
    for loc, held, act, w, what in cl.acc:
        l = loc
        while isinstance(l, tuple) and l and l[0] in ("E", "F"):
            l = l[1]
        if isinstance(l, tuple) and l and l[0] == "L" and l[2] in ds and l[1] == ():
            out.add(l)
        if isinstance(l, tuple) and l and l[0] == "*" and l[1][0] == "p":
            for d, i in params.items():
                if d in ds and l[1][1] == i and "const " not in f.params[i]["t"][:6]:
                    out.add(l)
    return out


def lambda_share(ck, g, f):
    """sharing analysis of a lambda run by several threads"""
    P = ck.P
    sh = None
    ln = next((n for n in f.nodes() if n["k"] == "lambda" and n["f"] == g.id), None)
    if ln is None:
        ck.und("R2-private", f.loc(), "worker not interpreted")
        return None
    caps = {x["n"]: x for x in ln.get("cap", ()) if "n" in x}

    class Root(Share):
        pass
    from ..race import Ctx
    sh = Root.__new__(Root)
    # a creator in which what is captured by reference is shared
    pc = Ctx(("creator", f.id), f, (), SH, 0, None, None)
    pc.store = {}
    for x in ln.get("cap", ()):
        if "d" in x:
            pc.env[x["d"]] = SH if x.get("ref") else (0, 2)
    Share.__init__(sh, P, [(g, (), None if any(x.get("this") for x in ln.get("cap", ())) else P0)], parent=pc, caps=caps)
    return sh

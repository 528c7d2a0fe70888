"""C27: loggers see every phase once and in order."""
from ..core import *
from ..race import Share, P0, S
from .c24 import strip, elem_of

LA = "Learn::LearningAgent::"
LG = "Log::LALogger::"
LOGGERS = LA + "loggers"
VAL = "Learn::LearningParameters::doValidation"
STEPS = ("populateTPG", "evaluateAllRoots", "decimateWorstRoots", "updateEvaluationRecords", "updateBestScoreLastGen")
LOGS = ("logNewGeneration", "logAfterPopulateTPG", "logAfterEvaluate", "logAfterDecimate", "logAfterValidate", "logEndOfTraining")
WHAT = {"logNewGeneration": "that the generation starts", "logAfterPopulateTPG": "that the population was built", "logAfterEvaluate": "that it was evaluated",
        "logAfterDecimate": "that it was decimated", "logAfterValidate": "that validation was performed", "logEndOfTraining": "that training ended"}


def check(ck):
    ck.P.need_field("Learn::LearningAgent", "loggers")
    ck.P.need_field("Learn::LearningParameters", "doValidation")
    ck.rule("R1-order", "every registered logger is told of every phase, once, after the phase and before the next", 1)
    ck.rule("R2-number", "the generations are numbered from 0, one by one", 1)
    ck.rule("R3-results", "the results told are those of the phase just run", 1)
    ck.rule("R4-registered", "a logger is registered once, with its agent's validation setting", 2)
    ck.rule("R5-readonly", "no logger changes the agent, the graph or the results it is told", 3)
    ck.rule("R6-cycle", "the cycle logger reports a cycle, or none, but not both", 1)
    for f in impls(ck, "Learn::LearningAgent", "trainOneGeneration"):
        generation(ck, f)
    for f in impls(ck, "Learn::LearningAgent", "train"):
        number(ck, f)
    registered(ck)
    readonly(ck)
    cycle(ck)


def impls(ck, cls, base):
    """definitions of a method in a class and those derived from it"""
    names = {cls} | {short_(c) for c in ck.P.derived_short(cls)}
    out = [f for f in ck.P.funcs.values() if f.blocks and f.base == base and f.scls in names]
    return sorted(out, key=lambda f: f.loc())


def short_(c):
    from ..ir import short
    return short(c if isinstance(c, str) else c["n"])


def islog(g):
    return g.base in LOGS or g.base == "logHeader"


class Gen(Sites):
    """sequence of phases and of what the loggers are told"""
    budget = 400000
    gc_facts = "all"
    ext_throws = False

    def __init__(self):
        Sites.__init__(self, None, lambda g: g.base in STEPS or islog(g))
        self.iters, self.brk = {}, set()

    def event(self, st, ev):
        if ev.kind == "ret" or not st.auto:
            seq, env = st.auto or ((), ())
        seq, env = st.auto or ((), ())
        if ev.kind in ("write", "decl") and ev.loc is not None and ev.loc[0] == "L" and ev.val is not None:
            v = strip(ev.val)
            src = dict(env).get(v, v)
            if src[0] == "call" and src[1].rsplit("::", 1)[-1] == "evaluateAllRoots":
                env = tuple(x for x in env if x[0] != ev.loc) + ((ev.loc, src),)
            elif any(x[0] == ev.loc for x in env):
                env = tuple(x for x in env if x[0] != ev.loc)
        elif ev.kind == "call":
            b = ev.base if isinstance(ev.base, str) else ev.name.rsplit("::", 1)[-1]
            b = ev.name.rsplit("::", 1)[-1]
            if b in STEPS or b in LOGS:
                h = Hit(ev, st)
                args = []
                for raw, val in zip(ev.a or [], h.args):
                    x = strip(raw) if is_loc(raw) else strip(val)
                    args.append(dict(env).get(x, dict(env).get(raw, val)))
                seq = seq + ((b, h.o, tuple(args), ev.at(), ev.res),)
        st.auto = (seq, env)

    def loop(self, st, kind, tag, g, eng):
        seq, env = st.auto or ((), ())
        if kind == "enter":
            st.auto = (seq + (("loop", tag),), env)
        elif kind == "back":
            k = max((i for i, x in enumerate(seq) if x == ("loop", tag)), default=None)
            if k is not None:
                self.iters.setdefault(tag, set()).add((seq[k + 1:], doval(st.facts)))
                st.auto = (seq[:k + 1], env)
        elif kind == "break":
            self.brk.add(tag)


def doval(facts):
    for t, v in facts:
        if fld_of(t) == VAL and t[0] == "ld":
            return v
        if t[0] == "op" and t[1] == "==" and any(fld_of(x) == VAL and x[0] == "ld" for x in t[2:4]):
            k = [x for x in t[2:4] if x[0] in ("c", "b")]
            if k:
                return bool(k[0][1]) == v
    return None


def isloggers(c):
    return fld_of(c) == LOGGERS or has_sub(c, lambda s: s[0] == "F" and s[2] == LOGGERS)


def generation(ck, f):
    R = "R1-order"
    cl = Gen()
    ps = paths(ck, f, cl, auto=((), ()))
    if ps is None:
        return ck.und(R, f.loc(), ck.why)
    for p in ps:
        if p.kind != "ret":
            continue
        seq, env = p.auto
        dv = doval(p.facts)
        for want in ((dv,) if dv is not None else (True, False)):
            alts = [()]
            for x in seq:
                if x[0] != "loop":
                    alts = [a + (x,) for a in alts]
                    continue
                its = [s for s, d in cl.iters.get(x[1], ()) if d is None or d == want]
                if not any(y[0] in LOGS or y[0] == "loop" for s in its for y in s):
                    continue
                if len(its) > 4 or len(alts) * len(its) > 64:
                    return ck.und(R, f.loc(), "too many ways through a loop over the loggers")
                alts = [a + (("loop", x[1]),) + s + (("endloop", x[1]),) for a in alts for s in its]
            for a in alts:
                sequence(ck, cl, f, a, want)


def sequence(ck, cl, f, seq, want):
    R = "R1-order"
    order = [("logNewGeneration",), ("populateTPG",), ("logAfterPopulateTPG",), ("evaluateAllRoots", 0), ("logAfterEvaluate",), ("decimateWorstRoots",),
             ("logAfterDecimate",)] + ([("evaluateAllRoots", 1), ("logAfterValidate",)] if want else []) + [("logEndOfTraining",)]
    pos = {}
    stack = []
    n = 0
    for x in seq:
        if x[0] == "loop":
            stack.append(x[1])
            continue
        if x[0] == "endloop":
            stack.pop()
            continue
        n += 1
        if x[0] == "evaluateAllRoots":
            m = nv(x[2][1]) if len(x[2]) > 1 else None
            if m is None:
                return ck.und(R, x[3], "mode not interpreted")
            key = (x[0], m)
            if strip(x[2][0]) != ("p", 0):
                if num(x[2][0]) or poly(strip(x[2][0])).get((("p", 0),)):
                    ck.bad("R2-number", x[3], "the evaluation is given %s as generation number" % pp(x[2][0]))
                else:
                    ck.und("R2-number", x[3], "number not interpreted")
        else:
            key = (x[0],)
        if x[0] in LOGS:
            i = elem_of(x[1], isloggers) if x[1] is not None else None
            if i is None:
                return ck.und(R, x[3], "logger told not interpreted: " + pp(x[1]))
            if num(i):
                ck.bad(R, x[3], "a single logger is told " + WHAT[x[0]])
                continue
            tag = i[1] if i[0] in ("lit", "phi") else None
            sp = span(cl, i)
            if tag is None or sp is None:
                if i[0] == "any":
                    tag, sp = ("any", i[1]), ("all", None)
                else:
                    return ck.und(R, x[3], "loop over the loggers not interpreted")
            if sp[0] == "from" and nv(sp[1]):
                ck.bad(R, x[3], "the first logger is not told " + WHAT[x[0]])
            elif stops_short((), i):
                pass
            if tag in cl.brk or (cl.loops.get(tag) or {}).get("brk"):
                ck.bad(R, x[3], "the last loggers may not be told " + WHAT[x[0]])
            if len(stack) > 1 and stack.count(tag) < len(stack):
                return ck.und(R, x[3], "nested loops")
        if key in pos:
            if x[0] in LOGS:
                ck.bad(R, x[3], "a logger is told twice %s" % WHAT[x[0]])
            elif x[0] in ("populateTPG", "decimateWorstRoots") or key == ("evaluateAllRoots", 0):
                ck.bad(R, x[3], "%s runs twice in a generation" % x[0])
            continue
        pos[key] = (n, x)
    prev = None
    for k in order:
        if k not in pos:
            if k[0] in LOGS:
                ck.bad(R, f.loc(), "a logger may not be told %s%s" % (WHAT[k[0]], "" if k[0] != "logAfterValidate" else " when it is enabled"))
            elif k[0] == "evaluateAllRoots" and k[1] == 1:
                ck.bad(R, f.loc(), "validation is not performed although enabled")
            else:
                ck.bad(R, f.loc(), "%s may not run in a generation" % k[0])
            continue
        if prev is not None and pos[k][0] < pos[prev][0]:
            late, early = (prev, k)
            ck.bad(R, pos[k][1][3], "%s comes before %s" % (k[0], prev[0]))
        else:
            ck.ok(R, "%s: %s" % (f.sname, k[0]))
            prev = k
    if not want and ("logAfterValidate",) in pos:
        ck.bad(R, pos[("logAfterValidate",)][1][3], "loggers are told of a validation although it is disabled")
    # arguments
    for k, mode in (("logAfterEvaluate", 0), ("logAfterValidate", 1)):
        if (k,) not in pos:
            continue
        x = pos[(k,)][1]
        r = strip(x[2][0]) if x[2] else None
        if r is not None and r[0] == "call" and r[1].rsplit("::", 1)[-1] == "evaluateAllRoots":
            if nv(r[3][1]) == mode:
                ck.ok("R3-results", k)
            elif nv(r[3][1]) is not None:
                ck.bad("R3-results", x[3], "%s is given the results of the other evaluation" % k)
        else:
            ck.und("R3-results", x[3], "results told not interpreted: " + pp(x[2][0]) if x[2] else "")
    if ("logNewGeneration",) in pos:
        x = pos[("logNewGeneration",)][1]
        v = strip(x[2][0])
        if v == ("p", 0) or v == ("L", (), 0):
            ck.ok("R2-number", "logNewGeneration")
        elif num(v) or poly(v).get((("p", 0),)):
            ck.bad("R2-number", x[3], "the loggers are told generation %s" % pp(v))
        else:
            ck.und("R2-number", x[3], "number told not interpreted: " + pp(v))


def number(ck, f):
    R = "R2-number"
    hits, ps, cl = sites(ck, f, is_call("trainOneGeneration"), named("trainOneGeneration"), gc_facts=False, ext_throws=False)
    if ps is None:
        return ck.und(R, f.loc(), ck.why)
    if not hits:
        return ck.bad(R, f.loc(), "training trains no generation")
    for h in hits:
        g = strip(h.args[0])
        if num(g):
            ck.bad(R, h.at, "every generation has number %s" % pp(g))
            continue
        off = 0
        if g[0] == "op" and g[1] in "+-" and nv(g[3]) is not None:
            off = nv(g[3]) if g[1] == "+" else -nv(g[3])
            g = g[2]
        if g[0] != "phi":
            ck.und(R, h.at, "generation number not interpreted: " + pp(g))
            continue
        ini, stp = loop_vals(cl, g, "init"), loop_vals(cl, g, "step")
        for v in ini:
            if nv(v) is not None:
                ck.require(R, nv(v) + off == 0, h.at, "the first generation has number %d" % (nv(v) + off), "first generation is 0")
            else:
                ck.und(R, h.at, "first number not interpreted")
        for v in stp:
            d = poly(v)
            k = d.get((), 0)
            if d.get((g,)) == 1 and set(d) <= {(), (g,)}:
                ck.require(R, k == 1, h.at, "the generation number advances by %d" % k, "one by one")
            else:
                ck.und(R, h.at, "next number not interpreted: " + pp(v))


def registered(ck):
    R = "R4-registered"
    for f in impls(ck, "Learn::LearningAgent", "addLogger"):
        def step(st, ev):
            if ev.kind == "call" and ev.o is not None and fld_of(ev.o) == LOGGERS and ev.name.rsplit("::", 1)[-1] in \
                    ("push_back", "emplace_back", "insert", "emplace", "push_front", "clear", "pop_back", "erase", "resize", "assign", "operator="):
                h = Hit(ev, st)
                st.auto = st.auto + (("add", ev.name.rsplit("::", 1)[-1], tuple(h.args), ev.at()),)
            elif ev.kind == "write" and fld_of(ev.loc) == LG + "doValidation":
                st.auto = st.auto + (("val", ev.loc, ev.val, ev.at()),)
        hits, ps, cl = sites(ck, f, lambda ev: False, None, step, ())
        if ps is None:
            ck.und(R, f.loc(), ck.why)
            continue
        for p in ps:
            if p.kind != "ret":
                continue
            add = [x for x in p.auto if x[0] == "add"]
            if not add:
                ck.bad(R, f.loc(), "a logger may not be registered")
            elif any(x[1] in ("clear", "pop_back", "erase", "resize", "assign", "operator=") for x in add):
                ck.bad(R, add[0][3], "registering a logger removes another")
            elif len(add) > 1:
                ck.bad(R, add[1][3], "a logger is registered twice")
            else:
                ck.ok(R, f.sname)
            w = [x for x in p.auto if x[0] == "val"]
            if not w:
                ck.bad(R, f.loc(), "the logger does not learn whether validation is done")
            elif fld_of(w[-1][2]) == VAL:
                ck.ok(R, "doValidation")
            elif w[-1][2][0] in ("c", "b") or fld_of(w[-1][2]):
                ck.bad(R, w[-1][3], "the logger's doValidation is %s" % pp(w[-1][2]))
            else:
                ck.und(R, w[-1][3], "doValidation not interpreted: " + pp(w[-1][2]))
    for f in ck.P.funcs.values():
        if f.blocks and f.scls == "Log::LALogger" and f.base == "LALogger" and any("LearningAgent" in p["t"] for p in f.params):
            def step(st, ev):
                if ev.kind == "call" and ev.name.rsplit("::", 1)[-1] == "addLogger":
                    st.auto = st.auto + ((Hit(ev, st).args[0], ev.at()),)
            hits, ps, cl = sites(ck, f, lambda ev: False, named("addLogger"), step, ())
            for p in ps or ():
                if p.kind == "ret":
                    if not p.auto:
                        ck.bad(R, f.loc(), "a new logger does not register with its agent")
                    elif len(p.auto) > 1:
                        ck.bad(R, p.auto[1][1], "a new logger registers twice")
                    else:
                        ck.ok(R, f.sname)


def readonly(ck):
    R = "R5-readonly"
    P = ck.P
    for f in sorted(P.funcs.values(), key=lambda f: f.loc()):
        if not f.blocks or f.base not in LOGS or f.scls is None or f.scls not in {short_(c) for c in P.derived_short("Log::LALogger")}:
            continue
        # the arguments belong to the training, the logger itself does not; what it refers to (the agent) does
        sh = Share(P, [(f, [S for p in f.params], (0, 1))])
        n = 0
        for (rule, where, what), fn in sorted(sh.viol.items()):
            if "stream" in what or rule == "environment":
                continue
            g = fn
            if "Log::" in what:
                continue
            n += 1
            ck.bad(R, where, "%s (called for %s) changes the training: %s" % (fn, f.sname, what))
        ck.funcs |= sh.reach
        if not n:
            ck.ok(R, f.sname)


CYC = "Log::CycleDetectionLALogger::"


def cycle(ck):
    R = "R6-cycle"
    fs = [f for f in ck.P.funcs.values() if f.blocks and f.sname == CYC + "logAfterPopulateTPG"]
    if not fs:
        return ck.und(R, CYC, "not found")
    f = fs[0]

    def msg(ev, st):
        out = []
        for x in list(ev.a or []) + list(Hit(ev, st).args):
            for s in subterms(x):
                if s[0] == "str":
                    out.append(s[1])
        return out

    def step(st, ev):
        if ev.kind == "call" and "operator<<" in ev.name or ev.kind == "call" and ev.name.rsplit("::", 1)[-1] in ("write", "log"):
            for s in msg(ev, st):
                k = "none" if "no cycle" in s.lower() else "cycle" if "cycle" in s.lower() else None
                if k:
                    st.auto = st.auto + ((k, ev.at()),)
    hits, ps, cl = sites(ck, f, lambda ev: False, lambda g: g.scls and g.scls.startswith(("TPG::", "Learn::")), step, (), gc_facts=False, ext_throws=False, budget=300000)
    if ps is None:
        return ck.und(R, f.loc(), ck.why)
    for p in ps:
        if p.kind != "ret":
            continue
        ks = {x[0] for x in p.auto}
        if ks == {"none", "cycle"}:
            ck.bad(R, p.auto[-1][1], "a cycle and its absence are both reported")
        elif p.auto:
            ck.ok(R, "one verdict")

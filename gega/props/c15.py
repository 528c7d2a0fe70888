"""C15: every evaluation follows the evaluation protocol."""
from ..core import *
from .c24 import strip, elem_of
from .c27 import impls, short_

LE = "Learn::LearningEnvironment"
LA = "Learn::LearningAgent::"
PAR = "Learn::LearningParameters::"
MAXACT = PAR + "maxNbActionsPerEval"
EPIS = {PAR + "nbIterationsPerPolicyEvaluation", PAR + "nbIterationsPerJob"}
MAXEVAL = PAR + "maxNbEvaluationPerPolicy"
TRAIN = 0
STOP = ("isRootEvalSkipped", "getRoot", "getRoots", "executeFromRoot", "getActionID", "LearningParameters")


def check(ck):
    P = ck.P
    P.need_field("Learn::LearningParameters", "maxNbActionsPerEval")
    P.need_field("Learn::LearningParameters", "nbIterationsPerPolicyEvaluation")
    P.need_field("Learn::LearningParameters", "maxNbEvaluationPerPolicy")
    ck.rule("R1-reset", "each episode starts by resetting the environment with its own seed, the mode, its number and the generation", 4)
    ck.rule("R2-actions", "actions are sent within the budget to a non-terminal environment, each selected on its current data", 4)
    ck.rule("R3-score", "the score is the mean over the configured number of episodes", 3)
    ck.rule("R4-skip", "individuals already evaluated often enough are skipped in training only", 3)
    ck.rule("R5-passed", "evaluations are given the mode and generation of the caller", 4)
    ck.rule("R6-attributed", "a result is recorded for the individual it was obtained with", 2)
    for f in impls(ck, "Learn::LearningAgent", "evaluateJob"):
        evaluate(ck, f)
    for f in impls(ck, "Learn::LearningAgent", "isRootEvalSkipped"):
        skipped(ck, f)
    passed(ck)


# ---- one evaluation ---------------------------------------------------------
def kind_of(ck, name):
    """calls on an environment"""
    b = (name or "").rsplit("::", 1)[-1]
    return b if b in ("reset", "isTerminal", "doAction", "getScore", "getScores", "getClassificationTable") else None


class Proto(Sites):
    gc_facts = False
    ext_throws = False
    budget = 600000

    def __init__(self, ck, f):
        self.envs = {"LearningEnvironment", "AdversarialLearningEnvironment", "ClassificationLearningEnvironment"} | \
            {short_(c).rsplit("::", 1)[-1] for c in ck.P.derived_short(LE)}
        Sites.__init__(self, lambda ev: self.rel(ev) is not None, self.stop)
        self.exits = {}
        self.final = []

    def stop(self, f):
        return f.base in STOP or kind_of(None, f.base) and (f.scls or "").rsplit("::", 1)[-1] in self.envs or \
            f.base == "operator()" and "ash" in f.sname or (f.scls or "").endswith("EvaluationResult")

    def rel(self, ev):
        if ev.kind in ("call", "ctor"):
            b = ev.name.rsplit("::", 1)[-1]
            if kind_of(None, ev.name) and ev.name.rsplit("::", 2)[-2] in self.envs:
                return b
            if b in ("executeFromRoot", "isRootEvalSkipped") or "EvaluationResult" in ev.name:
                return b
            if b == "make_shared" or b == "make_unique":
                return b
        if ev.kind == "write" and (ev.loc[0] == "E" or ev.val is not None and ev.val[0] == "op" and ev.val[1] == "/"):
            return "write"
        if ev.kind == "ret" and ev.frame == ():
            return "ret"
        return None

    # (phase, isTerminal answers since the data last changed, execution since then, skip)
    def event(self, st, ev):
        k = self.rel(ev)
        if k is None:
            return
        if st.auto is None:
            st.auto = ("none", None, None, None)
        ph, term, ex, sk = st.auto
        h = Hit(ev, st)
        self.hits.append(h)
        if k == "reset":
            st.auto = ("fresh", None, None, sk)
        elif k == "isTerminal":
            st.auto = (ph, ev.res, ex, sk)
        elif k == "doAction":
            st.auto = (ph, None, None, sk)
        elif k == "executeFromRoot":
            st.auto = (ph, term, ev.res, sk)
        elif k in ("getScore", "getScores", "getClassificationTable"):
            st.auto = ("done", term, ex, sk)
        elif k == "isRootEvalSkipped":
            st.auto = (ph, term, ex, (ev.res, mode_of(st.facts)))

    def loop(self, st, kind, tag, g, eng):
        pass


def mode_of(facts):
    """truth of 'the mode is training' (mode parameter index is found by its comparison with an enumerator)"""
    for t, v in facts:
        if t[0] == "op" and t[1] == "==":
            for x, y in ((t[2], t[3]), (t[3], t[2])):
                if x[0] == "p" and nv(y) is not None and "mode:%s" % (x[1],) in MODE:
                    if nv(y) == TRAIN:
                        return v
                    if v:
                        return False
    return None


MODE = set()


def pidx(f, what):
    for i, p in enumerate(f.params):
        if what in p["t"]:
            return i
    return None


def rel_of(facts, x, is_bound):
    """comparisons of x with a bound: list of (off, strict) meaning x + off < bound or <= bound"""
    out = []
    for t, v in facts:
        if t[0] != "op" or t[1] not in ("<", "<=", "==", "!="):
            continue
        a, b, op = t[2], t[3], t[1]
        a, b = untouched(a), untouched(b)
        if not v:
            if op == "<":
                a, b, op = b, a, "<="
            elif op == "<=":
                a, b, op = b, a, "<"
            else:
                op = "!=" if op == "==" else "=="
        if op == "==":
            continue
        if is_bound(b):
            off = offset(a, x)
            if off is not None:
                out.append((off, op if op != "!=" else "<"))
        elif op == "!=" and is_bound(a):
            off = offset(b, x)
            if off is not None:
                out.append((off, "<"))
        elif is_bound(a) and offset(b, x) is not None:
            out.append((offset(b, x), "rev"))
    return out


def untouched(t):
    while t[0] in ("tofloat", "cast", "trunc") and len(t) > 1 and isinstance(t[1], tuple):
        t = t[1]
    return t


def offset(t, x):
    if t == x:
        return 0
    d = poly(t)
    if d.get((x,)) == 1 and set(d) <= {(), (x,)}:
        return d.get((), 0)
    return None


def phis(t):
    return {s for s in subterms(t) if s[0] == "phi"}


def isfield(t, names):
    return t[0] == "ld" and fld_of(t) in names


def evaluate(ck, f):
    mi, ei, ti = pidx(f, "LearningMode"), pidx(f, "LearningEnvironment"), pidx(f, "TPGExecutionEngine")
    gi = mi - 1 if mi else None
    if None in (mi, ei, ti, gi):
        return ck.und("R1-reset", f.loc(), "parameters not recognised")
    MODE.clear()
    MODE.add("mode:%d" % mi)
    cl = Proto(ck, f)
    ps = paths(ck, f, cl, auto=("none", None, None, None))
    if ps is None:
        for r in ("R1-reset", "R2-actions", "R3-score"):
            ck.und(r, f.loc(), ck.why)
        return
    env = ("*", ("p", ei))
    N = {x for x in EPIS}
    ep = None   # loop variable of the episodes
    who = f.sname
    by = {}
    for h in cl.hits:
        by.setdefault(cl.rel(h.ev), []).append(h)
    mine = lambda h: h.o == env or h.o is not None and strip(h.o) == ("p", ei) or h.o is not None and has_sub(h.o, lambda s: s == ("p", ei))
    for k in ("reset", "isTerminal", "doAction", "getScore", "getScores", "getClassificationTable"):
        for h in by.get(k, ()):
            if not mine(h):
                if has_sub(h.o, lambda s: s[0] in ("F", "fref") and s[2] == LA + "learningEnvironment"):
                    ck.bad("R1-reset" if k == "reset" else "R2-actions", h.at, "%s is called on the agent's environment instead of the one the evaluation is given" % k)
                else:
                    ck.und("R2-actions", h.at, "environment not interpreted: " + pp(h.o))
    # -- resets
    if not by.get("reset"):
        ck.bad("R1-reset", f.loc(), "the environment is never reset")
    for h in by.get("reset", ()):
        a = [strip(x) for x in h.args]
        it = a[2] if len(a) > 2 else None
        want = ((1, ("p", mi), "the mode"), (3, ("p", gi), "the generation"))
        for i, w, n in want:
            if i >= len(a):
                continue
            if a[i] == w:
                ck.ok("R1-reset", "%s: %s" % (who, n))
            elif num(a[i]) or a[i][0] == "p" or a[i][0] == "phi" or poly(a[i]).get((w,)):
                ck.bad("R1-reset", h.at, "the environment is reset with %s instead of %s of the evaluation" % (pp(a[i]), n))
            else:
                ck.und("R1-reset", h.at, "%s not interpreted: %s" % (n, pp(a[i])))
        # the number of the episode
        ph = [p for p in phis(it) if offset(it, p) is not None] if it is not None else []
        if it is None:
            pass
        elif num(it):
            ck.bad("R1-reset", h.at, "every episode has number %s" % pp(it))
        elif len(ph) != 1:
            if it == ("p", gi):
                ck.bad("R1-reset", h.at, "the episode's number is the generation")
            else:
                ck.und("R1-reset", h.at, "episode number not interpreted: " + pp(it))
        else:
            ep = ph[0]
            off = offset(it, ep)
            episodes(ck, cl, f, h, ep, off, N)
        seed = a[0]
        names = {("p", gi): "the generation"}
        unk = has_sub(seed, lambda s: s[0] in ("unk", "havoc"))
        if num(seed):
            ck.bad("R1-reset", h.at, "every episode has the seed %s" % pp(seed))
        elif not has_sub(seed, lambda s: s == ("p", gi)):
            if unk or not has_sub(seed, lambda s: s[0] in ("p", "phi")):
                ck.und("R1-reset", h.at, "seed not interpreted: " + pp(seed))
            else:
                ck.bad("R1-reset", h.at, "the seed of an episode does not depend on the generation")
        elif ep is not None and not has_sub(seed, lambda s: s == ep):
            if unk or phis(seed):
                ck.und("R1-reset", h.at, "seed not interpreted: " + pp(seed))
            else:
                ck.bad("R1-reset", h.at, "the seed of an episode does not depend on its number")
        else:
            ck.ok("R1-reset", who + ": seed")
    # -- actions
    if not by.get("doAction"):
        ck.bad("R2-actions", f.loc(), "no action is ever sent")
    for k in ("isTerminal", "doAction", "getScore", "getScores", "getClassificationTable", "executeFromRoot"):
        for h in by.get(k, ()):
            ph = (h.auto or ("none",))[0]
            if ph == "none":
                ck.bad("R1-reset", h.at, "%s before the environment is reset" % k)
            elif ph == "done" and k != "getClassificationTable":
                ck.bad("R1-reset", h.at, "an episode uses the environment of the previous one (%s) without a reset" % k)
            else:
                ck.ok("R1-reset", "%s: %s after the reset" % (who, k))
    for h in by.get("doAction", ()):
        ph, term, ex, sk = h.auto
        terminal(ck, cl, who, h, term)
        budget(ck, cl, who, h, ep)
        a = strip(h.args[0])
        acted(ck, cl, who, h, a, ex, ti)
    # -- score
    score(ck, cl, f, who, by, ep, N)
    # -- skip
    for h in by.get("reset", ()):
        sk = h.auto[3] if h.auto else None
        if sk and fact(h.facts, strip_(sk[0])) is True:
            m = mode_of(h.facts)
            if m is not False:
                ck.bad("R4-skip", h.at, "an individual evaluated often enough is evaluated again")
    for h in by.get("isRootEvalSkipped", ()):
        r = h.args[0]
        if has_sub(r, lambda s: s[0] == "call" and s[1].rsplit("::", 1)[-1] == "getRoot"):
            ck.ok("R4-skip", who + ": asked for the job's root")
    for h in by.get("ret", ()):
        sk = h.auto[3] if h.auto else None
        if sk is None or h.auto[0] != "none":
            continue
        v = fact(h.facts, strip_(sk[0]))
        if v is True:
            m = mode_of(h.facts)
            if m is True:
                ck.ok("R4-skip", who + ": skipped in training")
            elif m is None and not any(mentions_p(t, mi) for t, _ in h.facts):
                ck.bad("R4-skip", h.at, "an individual is skipped outside training")
            elif m is False:
                ck.bad("R4-skip", h.at, "an individual is skipped outside training")
            else:
                ck.und("R4-skip", h.at, "mode not interpreted")
    for h in by.get("operator+=", ()):
        sk = h.auto[3] if h.auto else None
        if sk is None:
            continue
        m = mode_of(h.facts)
        if m is None:
            m = sk[1]
        if m is True:
            ck.ok("R4-skip", who + ": combined in training")
        elif m is False or not any(mentions_p(t, mi) for t, _ in h.facts):
            ck.bad("R4-skip", h.at, "a result is combined with the training records outside training")
        else:
            ck.und("R4-skip", h.at, "mode not interpreted")


def strip_(t):
    return t


def mentions_p(t, i):
    """a condition on the mode other than its comparison with a mode"""
    if t[0] == "op" and t[1] == "==" and ("p", i) in t[2:4] and any(nv(x) is not None for x in t[2:4]):
        return False
    return has_sub(t, lambda s: s == ("p", i))


def episodes(ck, cl, f, h, ep, off, N):
    R = "R1-reset"
    ini, stp = loop_vals(cl, ep, "init"), loop_vals(cl, ep, "step")
    first = None
    for v in ini:
        if nv(v) is None:
            return ck.und(R, h.at, "first episode not interpreted: " + pp(v))
        first = nv(v)
        ck.require(R, first + off == 0, h.at, "the first episode has number %d" % (first + off), f.sname + ": first episode")
    for v in stp:
        d = offset(v, ep)
        if d is None:
            return ck.und(R, h.at, "next episode not interpreted: " + pp(v))
        ck.require(R, d == 1, h.at, "the episode number advances by %d" % d, f.sname + ": one by one")
        if d != 1:
            return
    if first is None:
        return
    bound = lambda t: isfield(t, N)
    rs = rel_of(h.facts, ep, bound)
    R = "R3-score"
    if not rs:
        ns = [t for t, v in h.facts if has_sub(t, lambda s: s == ep) and any(num(x) for x in t[2:4] if isinstance(x, tuple))
              or has_sub(t, lambda s: s == ep) and has_sub(t, lambda s: isfield(s, {PAR + "maxNbEvaluationPerPolicy", MAXACT}))]
        if ns and not any(has_sub(t, lambda s: s == ep) and t not in ns for t, v in h.facts if t[0] == "op"):
            return ck.bad(R, h.at, "the number of episodes is not the configured one: " + pp(ns[0]))
        return ck.und(R, h.at, "number of episodes not interpreted")
    for o, op in rs:
        if op == "rev":
            ck.und(R, h.at, "number of episodes not interpreted")
            continue
        # ep + o < N (or <=), ep from first by one
        n = -o - first + (1 if op == "<=" else 0)
        ck.require(R, n == 0, h.at, "%+d episode(s) with respect to the configured number" % n, f.sname + ": number of episodes")


def terminal(ck, cl, who, h, term):
    R = "R2-actions"
    fs = {t: v for t, v in h.facts}
    if term is None:
        return ck.bad(R, h.at, "an action is sent without asking whether the environment is terminal")
    t = fact(h.facts, term)
    if t is False:
        return ck.ok(R, who + ": not terminal")
    if t is True:
        return ck.bad(R, h.at, "actions are sent to a terminal environment")
    for x, v in fs.items():
        if x[0] == "phi" and all(has_sub(y, lambda s: s[0] == "call" and s[1].rsplit("::", 1)[-1] == "isTerminal")
                                 for y in loop_vals(cl, x, "init") + loop_vals(cl, x, "step")) and loop_vals(cl, x, "init"):
            if v is False:
                return ck.ok(R, who + ": not terminal")
    if any(x[0] == "phi" or has_sub(x, lambda s: s[0] == "call" and s[1].rsplit("::", 1)[-1] == "isTerminal") for x in fs):
        return ck.und(R, h.at, "use of isTerminal not interpreted")
    ck.bad(R, h.at, "actions are sent whatever isTerminal answers")


def budget(ck, cl, who, h, ep):
    R = "R2-actions"
    bound = lambda t: isfield(t, {MAXACT})
    cands = {s for t, v in h.facts for s in subterms(t) if t[0] == "op" and has_sub(t, bound) and s[0] == "phi"}
    if not cands:
        ts = [t for t, v in h.facts if has_sub(t, bound)]
        if ts and all(num(x) or bound(x) for t in ts for x in t[2:4]):
            return ck.bad(R, h.at, "actions are not counted: " + pp(ts[0]))
        if any(has_sub(t, lambda s: s[0] == "phi") and not has_sub(t, lambda s: s == ep) for t, v in h.facts) or ts:
            down(ck, cl, who, h, ep, bound)
            return
        return ck.bad(R, h.at, "the number of actions is not limited")
    for x in cands:
        rs = rel_of(h.facts, x, bound)
        if not rs:
            ck.und(R, h.at, "limit of actions not interpreted")
            continue
        ini, stp = loop_vals(cl, x, "init"), loop_vals(cl, x, "step")
        for o, op in rs:
            if op == "rev":
                ck.bad(R, h.at, "actions are sent only beyond the configured number")
                continue
            for v in ini:
                if nv(v) is None:
                    if v[0] == "phi" and ep is not None and v[1] == ep[1]:
                        ck.bad(R, h.at, "the number of actions is not restarted with each episode")
                    else:
                        ck.und(R, h.at, "first count not interpreted: " + pp(v))
                    continue
                n = -o - nv(v) + (1 if op == "<=" else 0)
                ck.require(R, n <= 0, h.at, "%d action(s) more than the configured number can be sent" % n, who + ": limit of actions")
                if n < 0:
                    ck.bad(R, h.at, "%d action(s) less than the configured number can be sent" % -n)
        ds = [offset(v, x) for v in stp]
        if None in ds:
            ck.und(R, h.at, "count of actions not interpreted")
        elif not any(d for d in ds):
            ck.bad(R, h.at, "actions are not counted")
        elif any(d not in (0, 1) for d in ds):
            ck.bad(R, h.at, "an action counts for %s" % [d for d in ds if d not in (0, 1)][0])
        elif 0 in ds and not turn(h):
            ck.bad(R, h.at, "some actions are not counted")
        else:
            ck.ok(R, who + ": actions counted")


def turn(h):
    """several individuals play in turn: a turn is counted once"""
    return not has_sub(h.args[0], lambda s: s[0] == "call" and s[1].rsplit("::", 1)[-1] == "getRoot")


def down(ck, cl, who, h, ep, bound):
    """a count going down from the configured number"""
    R = "R2-actions"
    for t, v in h.facts:
        for x in phis(t):
            ini, stp = loop_vals(cl, x, "init"), loop_vals(cl, x, "step")
            if ini and all(bound(untouched(y)) for y in ini):
                ds = [offset(y, x) for y in stp]
                if t[0] == "op" and t[1] in ("<", "<=", "==") and any(nv(y) == 0 for y in t[2:4]):
                    pos = t[1] == "<" and nv(t[2]) == 0 and v or t[1] == "==" and not v or t[1] == "<=" and nv(t[3]) == 0 and not v
                    if pos and all(d in (0, -1) for d in ds) and -1 in ds:
                        return ck.ok(R, who + ": limit of actions")
    ck.und(R, h.at, "limit of actions not interpreted")


def acted(ck, cl, who, h, a, ex, ti):
    R = "R2-actions"
    src = [s for s in subterms(a) if s[0] == "call" and s[1].rsplit("::", 1)[-1] == "executeFromRoot"]
    ids = [s for s in subterms(a) if s[0] == "call" and s[1].rsplit("::", 1)[-1] == "getActionID" or s[0] == "ld" and (fld_of(s) or "").endswith("::actionID")]
    if num(a):
        return ck.bad(R, h.at, "the action sent is always %s" % pp(a))
    if not src:
        if a[0] == "phi" and any(has_sub(v, lambda s: s[0] == "call" and s[1].endswith("executeFromRoot")) for v in loop_vals(cl, a, "init")) and ex is None:
            return ck.bad(R, h.at, "the action sent was selected on earlier data")
        return ck.und(R, h.at, "action not interpreted: " + pp(a))
    if ex is None:
        return ck.bad(R, h.at, "the action sent was selected on earlier data")
    if not ids:
        return ck.und(R, h.at, "action not interpreted: " + pp(a))
    # the last element of the trace
    back = has_sub(a, lambda s: s == ("back",) or s[0] == "call" and s[1].rsplit("::", 1)[-1] in ("back", "rbegin")
                   or s[0] == "it" and s[1] in ("rbegin", "end"))
    front = has_sub(a, lambda s: s == ("front",) or s[0] == "E" and len(s) > 2 and nv(s[2]) == 0 and has_sub(s, lambda q: q in src))
    if front:
        return ck.bad(R, h.at, "the action sent is that of the first vertex of the trace")
    if not back:
        return ck.und(R, h.at, "action not interpreted: " + pp(a))
    for s in src:
        r = s[3] if len(s) > 3 else ()
        if not has_sub(s, lambda q: q == ("p", ti)):
            ck.und(R, h.at, "engine not interpreted: " + pp(s))
        elif has_sub(s, lambda q: q[0] == "call" and q[1].rsplit("::", 1)[-1] in ("getRoot", "getRoots", "operator[]")):
            ck.ok(R, who + ": action selected by the job's individual")
        else:
            g = has_sub(s, lambda q: q[0] in ("lit", "phi", "E", "it"))
            (ck.ok if g else ck.und)(R, who + ": action selected by the job's individual") if g else ck.und(R, h.at, "individual not interpreted: " + pp(s))


def score(ck, cl, f, who, by, ep, N):
    R = "R3-score"
    made = [h for k, hs in by.items() for h in hs if h.ev.kind == "ctor" and k.endswith("EvaluationResult")]
    isN = lambda t: isfield(untouched(t), N)
    done = False
    for h in made:
        if len(h.args) < 2:
            continue
        s, n = strip(h.args[0]), strip(h.args[1])
        if h.name.endswith("ClassificationEvaluationResult"):
            done = True
            classes(ck, cl, f, who, h, by, ep, isN)
            continue
        done = True
        if isN(n):
            ck.ok(R, who + ": number of evaluations")
        elif num(n) or isfield(n, {MAXEVAL, MAXACT}) or poly(n).get((untouched(n),)) is None and any(isN(x[0]) for x in poly(n) if x):
            ck.bad(R, h.at, "the result is said to come from %s evaluations" % pp(n))
        else:
            ck.und(R, h.at, "number of evaluations not interpreted: " + pp(n))
        if s[0] == "op" and s[1] == "/":
            if not isN(s[3]):
                d = untouched(s[3])
                if num(d) or isfield(d, {MAXEVAL, MAXACT}) or d[0] == "op":
                    ck.bad(R, h.at, "the score is divided by %s" % pp(d))
                else:
                    ck.und(R, h.at, "mean not interpreted: " + pp(s))
                continue
            s = s[2]
        elif s[0] == "phi":
            per = any(has_sub(v, isN) for v in loop_vals(cl, s, "step"))
            if not per:
                ck.bad(R, h.at, "the scores are summed but not averaged")
                continue
        else:
            if has_sub(s, lambda q: q[0] == "call" and q[1].rsplit("::", 1)[-1] == "getScore") and not phis(s):
                ck.bad(R, h.at, "the score is that of a single episode")
            else:
                ck.und(R, h.at, "score not interpreted: " + pp(s))
            continue
        summed(ck, cl, who, h, s, ep)
    for h in by.get("operator+=", ()):
        if h.auto and h.auto[0] == "done" and any(has_sub(x, lambda q: q[0] == "call" and q[1].rsplit("::", 1)[-1] == "getScores") for x in h.args):
            ck.ok(R, who + ": scores of the episode combined")
            done = True
    if not done:
        if by.get("getScores") and not by.get("operator+="):
            ck.bad(R, f.loc(), "the scores of the episodes are not combined")
        else:
            ck.und(R, f.loc(), "result not interpreted")


def summed(ck, cl, who, h, s, ep):
    R = "R3-score"
    if s[0] != "phi":
        if has_sub(s, lambda q: q[0] == "call" and q[1].rsplit("::", 1)[-1] == "getScore"):
            return ck.bad(R, h.at, "the score is that of a single episode")
        return ck.und(R, h.at, "sum not interpreted: " + pp(s))
    for v in loop_vals(cl, s, "init"):
        if v[0] not in ("c", "f", "b") or not isinstance(v[1], (int, float)):
            ck.und(R, h.at, "initial sum not interpreted: " + pp(v))
        else:
            ck.require(R, v[1] == 0, h.at, "the sum of scores starts from %s" % pp(v), who + ": sum from zero")
    for v in loop_vals(cl, s, "step"):
        sc = [q for q in subterms(v) if q[0] == "call" and q[1].rsplit("::", 1)[-1] == "getScore"]
        d = add_terms(v)
        if s in d and len(d) == 2 and sc:
            ck.ok(R, who + ": sum of the scores")
        elif s not in d and sc and not has_sub(v, lambda q: q == s):
            ck.bad(R, h.at, "the score of an episode replaces the previous ones")
        elif not sc and v == s:
            ck.bad(R, h.at, "the score of some episodes is not counted")
        else:
            ck.und(R, h.at, "sum not interpreted: " + pp(v))


def add_terms(v):
    if v[0] == "op" and v[1] == "+":
        return add_terms(v[2]) + add_terms(v[3])
    return [strip(v) if v[0] == "*" else v]


def classes(ck, cl, f, who, h, by, ep, isN):
    """per-class sums divided by the number of episodes"""
    R = "R3-score"
    vec = region_of(h.args[0], h)
    div = add = None
    bad = False
    for w in by.get("write", ()):
        v = w.ev.val
        if v is None or v[0] != "op":
            continue
        if v[1] == "/" and has_sub(v[2], lambda q: q[0] == "ld" and q[1] == w.ev.loc or q[0] == "phi"):
            d = untouched(v[3])
            if isN(d):
                div = w
            elif num(d) or isfield(d, {MAXEVAL, MAXACT}):
                bad = True
                ck.bad(R, w.at, "the score of a class is divided by %s" % pp(d))
    if div is not None:
        ck.ok(R, who + ": mean per class")
    elif not bad:
        anyd = any(w.ev.val is not None and has_sub(w.ev.val, isN) for w in by.get("write", ())) or any(has_sub(x, isN) for x in h.args)
        if anyd or not by.get("write"):
            ck.und(R, h.at, "mean per class not interpreted")
        else:
            ck.bad(R, h.at, "the scores per class are summed but not averaged")


def region_of(t, h):
    return t


# ---- already evaluated ------------------------------------------------------
def skipped(ck, f):
    R = "R4-skip"
    REC = LA + "resultsPerRoot"
    cl = Sites(lambda ev: ev.kind == "ret" and ev.frame == (), None, None, gc_facts=False, ext_throws=False)
    ps = paths(ck, f, cl)
    if ps is None:
        return ck.und(R, f.loc(), ck.why)
    for p in ps:
        if p.kind != "ret" or p.ret is None:
            continue
        r = p.ret
        neg = False
        while r[0] == "not":
            r, neg = r[1], not neg
        val = None
        if r[0] in ("b", "c"):
            val = bool(r[1]) != neg
        cmps = []
        if r[0] == "op" and r[1] in ("<", "<=", "==", "!="):
            cmps.append((r, not neg, True))
        for t, v in p.facts:
            if t[0] == "op" and t[1] in ("<", "<=") and has_sub(t, lambda s: isfield(s, {MAXEVAL})):
                cmps.append((t, v, val))
        has = [v for t, v in p.facts if t[0] == "has" and fld_of(t[1]) == REC]
        if not cmps:
            if val is True:
                ck.bad(R, p_at(cl, f), "an individual is skipped whatever its number of evaluations")
            elif val is False and True in has:
                ck.bad(R, p_at(cl, f), "an individual already evaluated is never skipped")
            elif val is False:
                ck.ok(R, "not evaluated yet: not skipped")
            else:
                ck.und(R, p_at(cl, f), "answer not interpreted: " + pp(p.ret))
            continue
        for t, v, ans in cmps:
            a, b, op = untouched(t[2]), untouched(t[3]), t[1]
            if op not in ("<", "<="):
                ck.und(R, p_at(cl, f), "answer not interpreted: " + pp(t))
                continue
            if not v:
                a, b, op = b, a, {"<": "<=", "<=": "<"}[op]
            if ans is False:
                # what makes it not skipped; negate
                a, b, op = b, a, {"<": "<=", "<=": "<"}[op]
            # skipped iff a op b
            ne = lambda x: (fld_of(x) or "").endswith("::nbEvaluation") or x[0] == "call" and x[1].endswith("getNbEvaluation")
            if isfield(a, {MAXEVAL}) and ne(b):
                if op == "<=":
                    ck.ok(R, "skipped from the configured number of evaluations on")
                else:
                    ck.bad(R, p_at(cl, f), "an individual is only skipped once evaluated more often than configured")
            elif isfield(b, {MAXEVAL}) and ne(a):
                ck.bad(R, p_at(cl, f), "an individual is skipped when evaluated less often than configured")
            else:
                ck.und(R, p_at(cl, f), "threshold not interpreted: " + pp(t))
        if has == [False]:
            ck.bad(R, p_at(cl, f), "the record of an individual without record is read")


def p_at(cl, f):
    return f.loc()


# ---- callers ---------------------------------------------------------------
OPQ = named("evaluateJob", "makeJob", "makeJobs", "getRoot", "getRoots", "getRootVertices", "setRandomSeed", "getArchiveSeed", "createTPGExecutionEngine",
            "slaveEvalJobThread", "evaluateAllRootsInParallel", "evaluateAllRootsInParallelExecute", "evaluateAllRootsInParallelCompileResults",
            "mergeArchiveMap", "setArchive", "evaluateAllRoots", "evaluateOneRoot", "Environment", "Archive", "getVertices", "populateTPG",
            "decimateWorstRoots", "updateEvaluationRecords", "updateBestScoreLastGen", "clone", "getDataSources")


def gen_i(g):
    """(index of the generation number, index of the mode) of an evaluation function"""
    m = pidx(g, "LearningMode")
    if m is None or g.base == "reset":
        return None, m
    return (m - 1 if m > 0 and g.params[m - 1]["t"].replace("const ", "") in ("unsigned long", "uint64_t", "unsigned long long", "std::uint64_t", "unsigned int", "size_t") else None), m


def passed(ck):
    P = ck.P
    seen = 0
    for f in sorted(P.funcs.values(), key=lambda f: (f.loc(), f.id)):
        if not f.blocks or not (f.scls or "").startswith("Learn::"):
            continue
        gi, mi = gen_i(f)
        if mi is None or f.base in ("reset", "evaluateJob"):
            continue
        tgt = {g.base: g for g in P.funcs.values() if (g.scls or "").startswith("Learn::") and g.base in
               ("evaluateJob", "makeJob", "makeJobs", "slaveEvalJobThread", "evaluateAllRoots", "evaluateOneRoot",
                "evaluateAllRootsInParallel", "evaluateAllRootsInParallelExecute") and pidx(g, "LearningMode") is not None}

        def pred(ev):
            if ev.kind == "call" and ev.name.rsplit("::", 1)[-1] in tgt:
                return True
            if ev.kind in ("ctor", "call") and ev.name.rsplit("::", 1)[-1] in ("thread", "async", "emplace_back", "jthread") and ev.a:
                return True
            return ev.kind == "call" and ev.name.rsplit("::", 1)[-1] in ("emplace", "insert") and ev.o is not None
        hits, ps, cl = sites(ck, f, pred, OPQ, gc_facts=False, ext_throws=False)
        if ps is None:
            ck.und("R5-passed", f.loc(), ck.why)
            continue
        for h in hits:
            b = h.base
            args = list(h.args)
            g = tgt.get(b)
            if g is None:
                k = [i for i, x in enumerate(args) if has_sub(x, lambda s: s[0] == "fn" or s[0] == "mfn")]
                name = None
                for x in args:
                    for s in subterms(x):
                        for y in s:
                            if isinstance(y, str) and y.rsplit("::", 1)[-1].split("#")[0] in tgt:
                                name = y.rsplit("::", 1)[-1].split("#")[0]
                if name is None or b not in ("thread", "async", "jthread", "emplace_back"):
                    if b in ("emplace", "insert"):
                        attributed(ck, cl, f, h)
                    continue
                g = tgt[name]
                # arguments follow the function and the object
                ms = [x for x in args if strip(x) == ("p", mi)]
                if ms:
                    ck.ok("R5-passed", "%s -> thread %s: mode" % (f.sname, name))
                elif any(nv(strip(x)) is not None for x in args):
                    ck.bad("R5-passed", h.at, "a worker is not given the mode of the evaluation")
                continue
            g2, m2 = gen_i(g)
            if m2 is not None and m2 < len(args):
                x = strip(args[m2])
                if x == ("p", mi):
                    ck.ok("R5-passed", "%s -> %s: mode" % (f.sname, g.base))
                elif nv(x) is not None:
                    ck.bad("R5-passed", h.at, "%s is given a fixed mode instead of the one of %s" % (g.base, f.sname))
                else:
                    ck.und("R5-passed", h.at, "mode not interpreted: " + pp(x))
            if g2 is not None and gi is not None and g2 < len(args):
                x = strip(args[g2])
                if x == ("p", gi):
                    ck.ok("R5-passed", "%s -> %s: generation" % (f.sname, g.base))
                elif nv(x) is not None or poly(x).get((("p", gi),)):
                    ck.bad("R5-passed", h.at, "%s is given generation %s" % (g.base, pp(x)))
                else:
                    ck.und("R5-passed", h.at, "generation not interpreted: " + pp(x))


def attributed(ck, cl, f, h):
    R = "R6-attributed"
    a = [x for x in h.args]
    if len(a) != 2:
        if len(a) == 1 and a[0][0] in ("tuple", "pair", "call") and len(a[0]) > 2:
            a = list(a[0][1:3]) if a[0][0] != "call" else list(a[0][3][:2]) if len(a[0][3]) >= 2 else a
        if len(a) != 2:
            return
    s, r = strip(a[0]), strip(a[1])
    ev = [q for q in subterms(s) if q[0] == "call" and q[1].rsplit("::", 1)[-1] == "evaluateJob"]
    if not ev:
        return
    job = strip(ev[0][3][1])
    root = [q for q in subterms(r) if q[0] == "call" and q[1].rsplit("::", 1)[-1] == "getRoot"]
    if root:
        j2 = strip(root[0][2])
        if j2 == job:
            ck.ok(R, f.sname)
        elif has_sub(j2, lambda q: q[0] in ("unk",)) or has_sub(job, lambda q: q[0] in ("unk",)):
            ck.und(R, h.at, "individual not interpreted: " + pp(r))
        else:
            ck.bad(R, h.at, "the result of a job is recorded for the root of another")
    else:
        mk = [q for q in subterms(job) if q[0] == "call" and q[1].rsplit("::", 1)[-1] == "makeJob"]
        if mk and strip(mk[0][3][0]) == r:
            ck.ok(R, f.sname)
        elif mk and r[0] == "ld" and strip(mk[0][3][0])[0] == "ld" and r[1][0] == "E" and mk[0][3][0][1][0] == "E" and r[1][1] == mk[0][3][0][1][1]:
            ck.bad(R, h.at, "the result of a job is recorded for another root")
        else:
            ck.und(R, h.at, "individual not interpreted: " + pp(r))

"""C05: validation and testing do not influence training."""
from ..core import *
from .c24 import strip
from .c27 import impls, short_, islog
from .c15 import MODE, mode_of, mentions_p, pidx, TRAIN

LA = "Learn::LearningAgent::"
AGENT = {"archive": "the archive", "resultsPerRoot": "the evaluation records", "bestRoot": "the best individual", "bestScoreLastGen": "the best score",
         "tpg": "the graph", "rng": "the random draws of the training", "champions": "the champions"}
ENTRY = ("evaluateAllRoots", "evaluateOneRoot", "evaluateJob", "makeJob", "makeJobs", "slaveEvalJobThread", "evaluateAllRootsInParallel",
         "evaluateAllRootsInParallelExecute")
GRAPH = ("addNewTeam", "addNewAction", "addNewEdge", "removeVertex", "removeEdge", "cloneVertex", "cloneEdge", "setEdgeDestination", "setEdgeSource",
         "clear", "clearProgramIntrons", "addNewVertex", "populateTPG", "initRandomTPG", "setProgram")
FEED = ("updateEvaluationRecords", "updateBestScoreLastGen", "decimateWorstRoots", "keepBestPolicy", "forgetPreviousResults", "init")
OPQ = named("executeFromRoot", "executeFromRootWithTrace", "createTPGExecutionEngine", "getRootVertices", "getVertices", "reset", "doAction", "isTerminal", "getScore", "getScores",
            "Environment", "clone", "getDataSources", "getNbRootVertices")
WR = ("clear", "erase", "insert", "emplace", "push_back", "emplace_back", "push_front", "pop_back", "resize", "assign", "operator=", "swap", "reset", "insert_or_assign",
      "try_emplace", "merge", "extract", "pop_front", "emplace_front", "splice", "remove", "remove_if")


def check(ck):
    P = ck.P
    P.need_field("Learn::LearningAgent", "archive")
    P.need_field("Learn::LearningAgent", "resultsPerRoot")
    P.need_field("Learn::LearningAgent", "bestRoot")
    ck.rule("R1-archive", "an engine is only given an archive in training", 3)
    ck.rule("R2-records", "evaluating changes neither the graph, the records, the archive nor the random draws of the training, unless it trains", 6)
    ck.rule("R3-champions", "champions elected out of training are given up again", 0)
    ck.rule("R4-results", "only training results feed the records and the decimation", 3)
    modal = [f for f in P.funcs.values() if f.blocks and (f.scls or "").startswith("Learn::") and pidx(f, "LearningMode") is not None
             and "LearningAgent" in (f.scls or "") and f.base in ENTRY]
    for f in sorted(modal, key=lambda f: (f.loc(), f.id)):
        effects(ck, f, modal)
    restored(ck, modal)
    for f in sorted(P.funcs.values(), key=lambda f: (f.loc(), f.id)):
        if f.blocks and (f.scls or "").startswith("Learn::") and pidx(f, "LearningMode") is None and \
                any(P.funcs[c].base in ("evaluateAllRoots", "evaluateOneRoot") for c in P.callgraph().get(f.id, ())):
            feeds(ck, f)


def agent_field(o):
    """protected field of the agent an object is (part of)"""
    for s in list(places(o)) + [x for x in subterms(o) if x[0] == "fref"]:
        if s[0] in ("F", "fref") and len(s) > 2 and isinstance(s[2], str):
            c, n = s[2].rsplit("::", 1)
            if n in AGENT and c.startswith("Learn::") and c.endswith("LearningAgent"):
                return n
    return None


def direct_field(o):
    """the protected field itself"""
    x = strip(o) if o is not None else None
    for y in (o, x):
        if y is None:
            continue
        n = fld_of(y)
        if n:
            c, b = n.rsplit("::", 1)
            if b in AGENT and c.startswith("Learn::") and c.endswith("LearningAgent"):
                return b
        if y[0] == "fref" and isinstance(y[2], str) and y[2].rsplit("::", 1)[-1] in AGENT:
            return y[2].rsplit("::", 1)[-1]
    return None


def modal_(modal):
    ids = {f.id for f in modal}
    return lambda g: g.id in ids or g.base in ENTRY and pidx(g, "LearningMode") is not None


class Eff(Sites):
    gc_facts = False
    ext_throws = False
    budget = 500000


def places(l):
    """a location and those it is a part of"""
    while isinstance(l, tuple) and l and l[0] in ("F", "E", "*", "fv", "ld", "addr_of"):
        yield l
        l = l[1]


def touching(ev):
    """(what, detail) of the training state an event changes"""
    if ev.kind == "write" and ev.loc is not None and ev.loc[0] != "L":
        n = None
        for s in places(ev.loc):
            if s[0] == "F" and isinstance(s[2], str):
                c, b = s[2].rsplit("::", 1)
                if b in AGENT and c.startswith("Learn::") and c.endswith("LearningAgent"):
                    n = b
        # the object pointed to by a record is not the record
        return n
    if ev.kind != "call":
        return None
    b = ev.name.rsplit("::", 1)[-1]
    if ev.o is not None:
        n = direct_field(ev.o)
        if n in ("resultsPerRoot", "champions", "bestRoot") and b in WR and ev.name.startswith(("std::", "__gnu")):
            return n
        if n == "archive" and b in ("addRecording", "clear", "operator="):
            return n
        if n == "rng" and (b.startswith("get") or b == "setSeed"):
            return n
        a = agent_field(ev.o)
        if a == "tpg" and b in GRAPH:
            return "tpg"
    for x in ev.a or ():
        if is_loc(x) or isinstance(x, tuple):
            n = direct_field(x)
            if n == "rng" and ("&" in "&" and ev.name.startswith(("Mutator::",)) and "RNG" not in ev.name):
                return n
            if b in GRAPH and agent_field(x) == "tpg":
                return "tpg"
    return None


def effects(ck, f, modal):
    mi = pidx(f, "LearningMode")
    MODE.clear()
    MODE.add("mode:%d" % mi)
    md = modal_(modal)

    def pred(ev):
        if touching(ev):
            return True
        if ev.kind in ("call", "ctor"):
            b = ev.name.rsplit("::", 1)[-1]
            return b in ("createTPGExecutionEngine", "setArchive", "TPGExecutionEngine", "TPGExecutionEngineInstrumented", "createExecutionEngine") or b in FEED or \
                b in ("insert", "emplace", "operator[]", "insert_or_assign", "try_emplace") and any("Archive" in t for t in (objtype(ev),))
        return False
    cl = Eff(pred, lambda g: (g.id != f.id and md(g)) or OPQ(g) or (g.scls or "").startswith(("TPG::", "Program::", "Data::")) or
             g.scls and g.scls.startswith("Mutator::") or g.base in FEED or g.scls == "Archive" or (g.scls or "").endswith("EvaluationResult"))
    ps = paths(ck, f, cl)
    if ps is None:
        ck.und("R2-records", f.loc(), ck.why)
        return
    n = 0
    for h in cl.hits:
        m = mode_of(h.facts)
        odd = any(mentions_p(t, mi) for t, _ in h.facts)
        b = h.base
        if b in ("setArchive", "createTPGExecutionEngine", "TPGExecutionEngine", "TPGExecutionEngineInstrumented", "createExecutionEngine"):
            k = {"setArchive": 0}.get(b, 1)
            if len(h.args) <= k:
                continue
            x = h.args[k]
            if is_null(x):
                ck.ok("R1-archive", "%s: no archive%s" % (f.sname, "" if m is None else " (training)" if m else " (not training)"))
            elif m is True:
                ck.ok("R1-archive", "%s: archive in training" % f.sname)
            elif m is False or not odd:
                if x[0] in ("phi", "unk") or has_sub(x, lambda s: s[0] in ("unk", "havoc")):
                    ck.und("R1-archive", h.at, "archive not interpreted: " + pp(x))
                else:
                    ck.bad("R1-archive", h.at, "the engine is given an archive %s" % ("out of training" if m is False else "whatever the mode"))
            else:
                ck.und("R1-archive", h.at, "mode not interpreted")
            continue
        t = touching(h.ev)
        if t is None and b in FEED:
            t = "resultsPerRoot"
        if t is None:
            # recordings handed over to the agent
            if m is True:
                ck.ok("R2-records", "%s: recordings handed over in training" % f.sname)
            elif m is False or not odd:
                if any(is_null(x) for x in h.args) or any(is_null(y) for x in h.args for y in subterms(x)):
                    continue
                ck.bad("R1-archive", h.at, "recordings are handed over %s" % ("out of training" if m is False else "whatever the mode"))
            continue
        if t == "champions" :
            continue
        if t == "archive" and h.base == "addRecording" and any(frommap(x) for x in h.args):
            ck.ok("R2-records", "%s: recordings of the workers" % f.sname)
            continue
        n += 1
        if m is True:
            ck.ok("R2-records", "%s: %s in training" % (f.sname, AGENT[t]))
        elif m is False or not odd:
            ck.bad("R2-records", h.at, "evaluating %s changes %s" % ("out of training" if m is False else "in any mode", AGENT[t]))
        else:
            ck.und("R2-records", h.at, "mode not interpreted")
    ck.ok("R2-records", f.sname)


def is_null(x):
    return x[0] == "c" and x[1] is None or nv(x) == 0 or pp(x) == "null"


def objtype(ev):
    """type of the object of a call"""
    n = ev.node
    o = n.get("o") if isinstance(n, dict) else None
    if o is None:
        return ""
    x = ev.func.node(o)
    return x.get("t", "") if isinstance(x, dict) else ""


def frommap(x):
    """a value found in a map handed to the function (the recordings of the workers)"""
    return has_sub(x, lambda s: s[0] == "E" and (strip(s[1])[0] in ("p", "L") or root_(s[1]) in ("p", "L")))


def root_(l):
    while isinstance(l, tuple) and l and l[0] in ("F", "E", "*", "fv", "ld") and isinstance(l[1], tuple):
        l = l[1]
    return l[0] if isinstance(l, tuple) and l else None


# ---- champions -------------------------------------------------------------
def restored(ck, modal):
    R = "R3-champions"
    P = ck.P
    md = modal_(modal)
    recs = [f for f in modal if f.base == "evaluateAllRoots"]
    for f in sorted(recs, key=lambda f: (f.loc(), f.id)):
        cls = f.scls
        fld = cls + "::champions" if P.field_exists(cls, "champions") else None
        if fld is None:
            continue
        loc = ("F", ("*", ("this",)), fld)
        mi = pidx(f, "LearningMode")
        MODE.clear()
        MODE.add("mode:%d" % mi)
        cl = Eff(lambda ev: False, lambda g: g.id != f.id and (md(g) or OPQ(g)))
        ps = paths(ck, f, cl)
        if ps is None:
            ck.und(R, f.loc(), ck.why)
            continue
        for p in ps:
            if p.kind != "ret":
                continue
            m = mode_of(p.facts)
            if m is True:
                continue
            v = p.get(loc)
            v0 = ("ld", loc, 0)
            if v == v0:
                ck.ok(R, f.sname)
            elif m is False:
                ck.bad(R, f.loc(), "the champions elected out of training stay in place")
            elif not any(mentions_p(t, mi) for t, _ in p.facts) and v[0] == "ld":
                ck.bad(R, f.loc(), "the champions are replaced whatever the mode")
            else:
                ck.und(R, f.loc(), "champions not interpreted: " + pp(v))


# ---- results ---------------------------------------------------------------
def feeds(ck, f):
    R = "R4-results"
    cl = Eff(lambda ev: ev.kind == "call" and ev.name.rsplit("::", 1)[-1] in FEED, lambda g: g.base in ("evaluateAllRoots", "evaluateOneRoot", "populateTPG") + FEED or islog(g))
    src = {}

    def step(st, ev):
        env = dict(st.auto or ())
        if ev.kind in ("decl", "write") and ev.loc is not None and ev.loc[0] == "L" and ev.val is not None:
            v = strip(ev.val)
            v = env.get(v, v)
            if v[0] == "call" and v[1].rsplit("::", 1)[-1] in ("evaluateAllRoots", "evaluateOneRoot"):
                env[ev.loc] = v
            else:
                env.pop(ev.loc, None)
        st.auto = tuple(sorted(env.items(), key=repr))
    cl.step = step
    ps = paths(ck, f, cl, auto=())
    if ps is None:
        return ck.und(R, f.loc(), ck.why)
    for h in cl.hits:
        env = dict(h.auto or ())
        if h.base in ("keepBestPolicy", "init", "forgetPreviousResults") or not h.ev.a:
            continue
        raw = h.ev.a[0]
        x = env.get(raw) or env.get(strip(raw)) or strip(h.args[0])
        if x[0] != "call":
            ck.und(R, h.at, "results given to %s not interpreted: %s" % (h.base, pp(x)))
            continue
        m = x[3][1] if len(x[3]) > 1 else None
        if m is not None and nv(m) == TRAIN:
            ck.ok(R, "%s: %s" % (f.sname, h.base))
        elif m is not None and nv(m) is not None:
            ck.bad(R, h.at, "%s is given the results of a validation" % h.base)
        else:
            ck.und(R, h.at, "mode of the results not interpreted")

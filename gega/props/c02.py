"""C02: evaluating in parallel gives what evaluating sequentially gives."""
from ..core import *
from ..flow import lin
from .c24 import strip
from .c27 import short_
from .c30 import norm
from .c31 import Ev

JOB = "Learn::Job::"
LA = "Learn::LearningAgent::"
ENGINE = "createTPGExecutionEngine"


def check(ck):
    P = ck.P
    for c, n in (("Learn::Job", "idx"), ("Learn::Job", "archiveSeed"), ("Learn::LearningAgent", "archive")):
        P.need_field(c, n)
    ck.rule("R1-mutation", "each program is mutated by a generator seeded for it, with a number drawn in order before any worker starts", 3)
    ck.rule("R2-archive", "each evaluation in training records in an archive seeded with its own job's seed", 3)
    ck.rule("R3-private", "a worker evaluates on its own environment, data sources and execution engine, which are set up as the agent's", 1)
    ck.rule("R4-stored", "the result and the recordings of a job are stored under the number of that job", 3)
    ck.rule("R5-compile", "results are read back with the individual they belong to, in the order of the jobs", 2)
    ck.rule("R6-merge", "recordings are merged in the order of the jobs, whole, and without being drawn again", 2)
    ck.rule("R7-jobs", "jobs are numbered and seeded in the order of the individuals", 2)
    evaluations(ck)
    compile_(ck)
    merge(ck)
    jobs(ck)
    mutation(ck)


def last(n):
    return str(n).rsplit("::", 1)[-1]


OP = ("Program::", "TPG::", "Data::", "Instructions::", "Environment", "Archive", "Mutator::RNG", "Learn::LearningEnv", "Learn::EvaluationR")
OPB = ("evaluateJob", "makeJob", "makeJobs", "mutateProgramBehaviorAgainstArchive", "slaveEvalJobThread", "mergeArchiveMap", "evaluateAllRoots", "isRootEvalSkipped",
       "evaluateAllRootsInParallel", "evaluateAllRootsInParallelExecute", "evaluateAllRootsInParallelCompileResults", "evaluateOneRoot", "populateTPG", "trainOneGeneration")


def opaque_but(f):
    return lambda g: g is not f and ((g.scls or "").startswith(OP) or g.scls == "Archive" or g.base in OPB)


# -- evaluations -----------------------------------------------------------------
class Eval(Ev):
    """per job: the archive in use, its seed, what remains to be stored"""

    def __init__(self, f):
        Ev.__init__(self)
        self.prim = opaque_but(f)
        self.ends = []
        self.popped = set()
        self.stores = []

    def event(self, st, ev):
        a = dict(st.auto or ())
        if ev.kind == "write" and isinstance(ev.loc, tuple) and ev.loc[0] == "E" and isinstance(ev.val, tuple):
            r = has_sub(ev.val, lambda s: s[0] == "call" and last(s[1]) == "evaluateJob")
            n = has_sub(ev.val, lambda s: s[0] == "new" and s[1] == "Archive")
            if r or n:
                h = Hit(ev, st)
                h.args = [ev.loc[2], ev.val]
                self.stores.append((h, r, n, "std::map::operator[]"))
                a.pop("pend" if r else "keep", None)
                st.auto = tuple(sorted(a.items(), key=repr))
            return
        if ev.kind not in ("call", "ctor", "new") or not isinstance(ev.name, str):
            return
        b = last(ev.name)
        h = Hit(ev, st)
        if ev.kind == "new" and last(ev.name) == "Archive":
            arg = h.args[0] if h.args else None
            if arg is not None and arg[0] in ("obj", "cobj") and len(arg) > 3:
                a["args"] = arg[3]
        elif b == "setRandomSeed" and ev.o is not None:
            a[("seed", norm(ev.o))] = h.args[0]
        elif b == "setArchive":
            a["arch"] = h.args[0]
        elif b == ENGINE and len(h.args) > 1:
            a["arch"] = h.args[1]
            a["env"] = h.args[0]
        elif b in ("pop", "pop_front") and ev.name.startswith("std::") and "queue" in ev.name:
            a["took"] = (norm(ev.o), ev.at())
            self.popped.add(norm(ev.o))
        elif b == "evaluateJob" and ev.kind == "call":
            self.h.setdefault("eval", []).append((h, a, ev.a))
            a.pop("took", None)
            # several evaluations one after the other: each must be stored
            a["pend"] = (norm(ev.a[1]), ev.at())
            ar = a.get("arch")
            if ar is not None and ar[0] == "new":
                a["keep"] = (norm(ar), norm(ev.a[1]), ev.at())
        elif b in ("emplace", "insert", "operator[]", "insert_or_assign", "try_emplace", "push_back", "emplace_back", "push", "emplace_hint") and ev.name.startswith("std::") and ev.o is not None:
            r = any(has_sub(x, lambda s: s[0] == "call" and last(s[1]) == "evaluateJob") for x in h.args)
            n = any(has_sub(x, lambda s: s[0] == "new" and s[1] == "Archive") for x in h.args)
            if r or n:
                self.stores.append((h, r, n, ev.name))
                if r:
                    a.pop("pend", None)
                if n:
                    a.pop("keep", None)
        st.auto = tuple(sorted(a.items(), key=repr))

    def back(self, st, tag):
        pass

    def loop(self, st, kind, tag, g, eng):
        if kind == "enter":
            return
        if kind == "back":
            a = dict(st.auto or ())
            self.ends.append((dict(a), frozenset(st.facts)))
            for k in ("pend", "keep", "took"):
                a.pop(k, None)
            st.auto = tuple(sorted(a.items(), key=repr))


def job_field(t, n):
    """the job whose field n is t (a pointer term), or None"""
    t = t[1] if t[0] == "ld" else t
    if t[0] == "F" and t[2] == JOB + n:
        return norm(t[1])
    if t[0] == "call" and last(t[1]) == {"idx": "getIdx", "archiveSeed": "getArchiveSeed"}.get(n):
        return norm(t[2])
    return None


def jobloc(t):
    return norm(t)


def training(facts, mode):
    """True / False / None: is the learning mode TRAINING here"""
    for t, v in facts:
        if t[0] == "op" and t[1] == "==" and norm(mode) in (norm(t[2]), norm(t[3])) and ("c", 0) in (t[2], t[3]):
            return v
    if num(mode):
        return mode[1] == 0
    return None


def isarch(t):
    """the agent's archive (its address)"""
    return has_sub(t, lambda s: s[0] == "F" and s[2] == LA + "archive") and not has_sub(t, lambda s: s[0] == "new")


def evaluations(ck):
    P = ck.P
    fs = [f for f in P.funcs.values() if f.blocks and f.base != "evaluateJob" and (f.scls or "").startswith("Learn::") and
          any(P.funcs[i].base == "evaluateJob" and (P.funcs[i].scls or "").startswith("Learn::") for i in P.callgraph().get(f.id, ()) if i in P.funcs)]
    if not fs:
        raise AnalysisError("nothing evaluates jobs")
    found = 0
    for f in sorted(fs, key=lambda f: f.sname):
        cl = Eval(f)
        try:
            ps = paths(ck, f, cl, auto=())
        except Exception as e:
            if e.__class__.__name__ != "Undecided":
                raise
            ck.und("R2-archive", f.loc(), str(e))
            continue
        if ps is None:
            ck.und("R2-archive", f.loc(), getattr(ck, "why", "too complex"))
        w = short_(f.sname)
        for h, a, raw in cl.h.get("eval", []):
            found += 1
            if len(raw) < 5:
                ck.und("R2-archive", h.at, "unrecognised evaluation")
                continue
            job = jobloc(raw[1])
            if has_sub(raw[1], lambda x: x[0] == "E" and x[2] == ("back",)) and "took" not in a and has_sub(raw[1], lambda x: x[0] == "E" and norm(x[1]) in cl.popped):
                ck.bad("R4-stored", h.at, "%s: the job evaluated is the last of the queue while the first one is removed" % w)
                continue
            tr = training(h.facts, h.args[3])
            ar = a.get("arch")
            worker = has_sub(job, lambda s: s[0] == "E" and s[2] == ("front",)) or ar is not None and ar[0] == "new" or a.get("env") is not None and has_sub(a["env"], lambda s: s[0] in ("obj", "cobj") and s[1] == "Environment")
            seeding(ck, w, h, a, job, tr, ar)
            if worker:
                private(ck, w, h, a, raw)
        for h, r, n, name in cl.stores:
            stored(ck, w, h, r, n, name)
        ends = list(cl.ends) + [(dict(p.auto or ()), p.facts) for p in ps or () if p.kind == "ret"]
        for a, facts in ends:
            if "took" in a and cl.h.get("eval") and not any(has_sub(t, lambda x: x[0] == "E" and x[2] == ("front",)) for t, v in facts):
                ck.bad("R4-stored", a["took"][1], "a job taken from the queue is not evaluated on some path of %s" % w)
            if "pend" in a and not f.base == "evaluateOneRoot":
                if any(h.at == a["pend"][1] for h, _, _ in cl.h.get("eval", [])) and returns_it(f):
                    continue
                ck.bad("R4-stored", a["pend"][1], "the result of an evaluation is not stored on some path of %s" % w)
            if "keep" in a:
                ck.bad("R4-stored", a["keep"][2], "the recordings of an evaluation are not kept on some path of %s" % w)
    if not found:
        ck.und("R2-archive", "gegelatilib/src/learn", "no evaluation recognised")


def returns_it(f):
    return "EvaluationResult" in str(f.r.get("ret", "")) and "multimap" not in str(f.r.get("ret", ""))


def seeding(ck, w, h, a, job, tr, ar):
    if ar is None:
        ck.und("R2-archive", h.at, "%s: which archive is used was not recognised" % w)
        return
    null = ar in (("c", None), ("null",), ("c", 0))
    if tr is False:
        if null:
            ck.ok("R2-archive", "%s: none out of training" % w)
        return          # what is recorded out of training is C05's
    if null:
        if tr is True:
            ck.bad("R2-archive", h.at, "%s: an evaluation in training records nothing" % w)
        else:
            ck.bad("R2-archive", h.at, "%s: an evaluation records nothing whatever the mode, while others do in training" % w)
        return
    if ar[0] == "new":
        args = a.get("args")
        if not args or len(args) < 3:
            ck.und("R2-archive", h.at, "%s: unrecognised archive %s" % (w, pp(ar)[:80]))
            return
        names = [(fld_of(args[0]) or "").rsplit("::", 1)[-1], (fld_of(args[1]) or "").rsplit("::", 1)[-1]]
        for got, want in zip(names, ("archiveSize", "archivingProbability")):
            if got != want:
                t = args[0 if want == "archiveSize" else 1]
                fs = {last(x[2]) for x in subterms(t) if x[0] == "F" and str(x[2]).startswith("Learn::LearningParameters::")}
                (ck.bad if got or num(t) or t[0] == "f" or fs and want not in fs else ck.und)("R2-archive", h.at, "%s: the job's archive does not get the agent's %s but %s" % (w, want, pp(t)[:60]))
                return
        seed = args[2]
        what = "the job's own archive"
    elif isarch(ar):
        seeds = [v for k, v in a.items() if isinstance(k, tuple) and k[0] == "seed" and has_sub(k[1], lambda s: s[0] == "F" and s[2] == LA + "archive")]
        if not seeds:
            ck.bad("R2-archive", h.at, "%s: the archive is not seeded before the evaluation" % w)
            return
        seed = seeds[-1]
        what = "the agent's archive"
    else:
        ck.und("R2-archive", h.at, "%s: unrecognised archive %s" % (w, pp(ar)[:80]))
        return
    own = job_field(seed, "archiveSeed")
    if own is None:
        if num(seed) or fld_of(seed) or has_sub(seed, lambda s: s[0] == "call" and "getUnsignedInt64" in s[1]) or job_field(seed, "idx") is not None:
            ck.bad("R2-archive", h.at, "%s: %s is seeded with %s instead of the job's seed" % (w, what, pp(seed)[:80]))
        else:
            ck.und("R2-archive", h.at, "%s: %s is seeded with %s" % (w, what, pp(seed)[:80]))
    elif own == job:
        ck.ok("R2-archive", "%s: %s has the seed of the job evaluated" % (w, what))
    else:
        ck.bad("R2-archive", h.at, "%s: %s is seeded for another job than the one evaluated" % (w, what))


def private(ck, w, h, a, raw):
    env = norm(raw[4])
    eng = a.get("env")
    o = eng
    if o is None:
        ck.und("R3-private", h.at, "%s: unrecognised execution engine" % w)
        return
    if not (o[0] in ("obj", "cobj") and o[1] == "Environment"):
        if fld_of(o) == LA + "env":
            ck.bad("R3-private", h.at, "%s: a worker executes programs in the environment shared by all" % w)
        else:
            ck.und("R3-private", h.at, "%s: unrecognised environment %s" % (w, pp(o)[:80]))
        return
    args = o[3] if len(o) > 3 else ()
    if len(args) < 4:
        ck.bad("R3-private", h.at, "%s: the worker's environment is made from %d of the 4 characteristics of the agent's" % (w, len(args)))
        return
    ok = True
    src = [s for s in subterms(args[1]) if s[0] == "call" and last(s[1]) == "getDataSources"]
    if src and norm(src[0][2]) != env and norm(strip(src[0][2])) != norm(strip(env)):
        ck.bad("R3-private", h.at, "%s: programs read the data sources of %s while %s is evaluated" % (w, pp(src[0][2])[:80], pp(raw[4])[:60]))
        ok = False
    elif not src:
        ck.und("R3-private", h.at, "%s: unrecognised data sources %s" % (w, pp(args[1])[:80]))
        ok = False
    for i, g in ((0, "getInstructionSet"), (2, "getNbRegisters"), (3, "getNbConstant")):
        c = [last(s[1]) for s in subterms(args[i]) if s[0] == "call" and last(s[1]).startswith("get")]
        if not c or c[0] != g:
            (ck.bad if c or num(args[i]) else ck.und)("R3-private", h.at, "%s: the worker's environment does not have what %s gives, but %s" % (w, g, pp(args[i])[:80]))
            ok = False
    if fld_of(raw[4]) == LA + "learningEnvironment" or has_sub(raw[4], lambda s: s[0] == "fref" and "learningEnvironment" in str(s)):
        ck.und("R3-private", h.at, "%s: evaluates on the agent's learning environment" % w)
        ok = False
    if ok:
        ck.ok("R3-private", w)


def stored(ck, w, h, r, n, name):
    args = h.args
    ismulti = "multimap" in name
    res = [s for a in args for s in subterms(a) if s[0] == "call" and last(s[1]) == "evaluateJob"]
    if r and res:
        job = norm(res[0][3][1]) if len(res[0][3]) > 1 else None
        job = strip(job)
    else:
        job = None
    # keyed by the job's number
    key = args[0]
    val = None
    if key[0] == "pair" and len(args) == 1:
        key, val = key[1], key[2]
    elif len(args) > 1:
        val = args[1]
    if "vector" in name or "list" in name or "queue" in name or "deque" in name:
        ck.und("R4-stored", h.at, "%s: kept in a sequence" % w)
        return
    if ismulti and r and key[0] == "call" and last(key[1]) == "evaluateJob":
        # a score with its individual
        if val is None:
            return
        rt = [s for s in subterms(val) if s[0] == "F" and str(s[2]) in ("Learn::Job::root", "Learn::Job::roots", "Learn::AdversarialJob::roots") or s[0] == "call" and last(s[1]) == "getRoot"]
        if rt:
            j = norm(strip(rt[0][1] if rt[0][0] == "F" else rt[0][2]))
            if samejob(j, job):
                ck.ok("R4-stored", "%s: score with its individual" % w)
            else:
                ck.bad("R4-stored", h.at, "%s: a score is stored with the individual of another job" % w)
        elif has_sub(val, lambda s: s[0] == "E"):
            mk = [s for s in subterms(res[0]) if s[0] == "call" and last(s[1]) == "makeJob"]
            if mk and norm(strip(mk[0][3][0])) == norm(strip(val)):
                ck.ok("R4-stored", "%s: score with the individual of its job" % w)
            else:
                ck.und("R4-stored", h.at, "%s: score stored with %s" % (w, pp(val)[:80]))
        else:
            ck.und("R4-stored", h.at, "%s: score stored with %s" % (w, pp(val)[:80]))
        return
    j = job_field(key, "idx")
    if j is None:
        if num(key) or key[0] == "size" or job_field(key, "archiveSeed") is not None or has_sub(key, lambda s: s[0] == "size"):
            ck.bad("R4-stored", h.at, "%s: what a job gives is stored under %s, not under the job's number" % (w, pp(key)[:80]))
        else:
            ck.und("R4-stored", h.at, "%s: stored under %s" % (w, pp(key)[:80]))
        return
    j = strip(j)
    if job is not None and not samejob(j, job):
        ck.bad("R4-stored", h.at, "%s: a result is stored under the number of another job" % w)
        return
    if r and val is not None and val[0] == "pair":
        second = norm(strip(val[2]))
        if not samejob(second, j):
            if has_sub(second, lambda s: s[0] == "E" and s[2] == ("front",)) or second[0] in ("c", "null"):
                ck.bad("R4-stored", h.at, "%s: a result is stored with another job than the one evaluated" % w)
            else:
                ck.und("R4-stored", h.at, "%s: stored with %s" % (w, pp(val[2])[:80]))
            return
    ck.ok("R4-stored", "%s: %s under the job's number" % (w, "result" if r else "recordings"))


def samejob(a, b):
    def s(x):
        x = strip(x)
        while isinstance(x, tuple) and x and x[0] in ("ld", "*"):
            x = x[1]
        return norm(x)
    return s(a) == s(b)


# -- compile ---------------------------------------------------------------------
def compile_(ck):
    P = ck.P
    fs = [f for f in P.funcs.values() if f.blocks and f.base == "evaluateAllRootsInParallelCompileResults"]
    if not fs:
        fs = [f for f in P.funcs.values() if f.blocks and (f.scls or "").startswith("Learn::") and any(P.funcs[i].base == "mergeArchiveMap" for i in P.callgraph().get(f.id, ()) if i in P.funcs)]
    for f in fs:
        w = short_(f.sname)
        pm = lambda g: g is not f and g.base == "mergeArchiveMap" or (g.scls or "").startswith(OP) or g.scls == "Archive"

        def step(st, ev):
            if ev.kind == "call" and isinstance(ev.name, str) and last(ev.name) == "mergeArchiveMap":
                st.auto = "merged"
        hits, ps, cl = sites(ck, f, lambda ev: ev.kind == "call" and isinstance(ev.name, str) and "multimap" in ev.name and last(ev.name) in ("emplace", "insert"), pm, step, None, gc_facts=False, ext_throws=False)
        if ps is None:
            ck.und("R5-compile", f.loc(), ck.why)
            continue
        for p in ps:
            if p.kind == "ret":
                if p.auto != "merged":
                    ck.bad("R6-merge", f.loc(), "%s drops the recordings of the jobs on some path" % w)
                else:
                    ck.ok("R6-merge", w + " merges")
        for h in hits:
            a = h.args
            if len(a) == 1 and a[0][0] == "pair":
                a = [a[0][1], a[0][2]]
            if len(a) != 2:
                continue
            el = [s for s in subterms(a[0]) if s[0] == "E" and s[2][0] == "lit"]
            er = [s for s in subterms(a[1]) if s[0] == "E" and s[2][0] == "lit"]
            if "Adversarial" in f.sname:
                continue        # how the scores of the jobs are combined is C31's
            if el and not er and has_sub(a[1], lambda s: s[0] == "E" and s[2][0] in ("it", "front", "c") and norm(s[1]) == norm(el[0][1])):
                ck.bad("R5-compile", h.at, "%s: each score is given to the individual of the same job" % w)
                continue
            if not el or not er:
                ck.und("R5-compile", h.at, "%s: unrecognised result %s" % (w, pp(a[0])[:80]))
                continue
            if norm(el[0]) != norm(er[0]):
                ck.bad("R5-compile", h.at, "%s: a score is given to the individual of another job" % w)
                continue
            if el[0][2][3] is True:
                ck.bad("R5-compile", h.at, "%s: the results are read from the last job to the first: individuals with equal scores come in another order than when evaluated sequentially" % w)
                continue
            ck.ok("R5-compile", w)
    # nothing is read back before every worker is done
    for f in P.funcs.values():
        if not f.blocks or not (f.scls or "").startswith("Learn::"):
            continue
        cs = {P.funcs[i].base for i in P.callgraph().get(f.id, ()) if i in P.funcs}
        if not {"evaluateAllRootsInParallelExecute", "evaluateAllRootsInParallelCompileResults"} <= cs:
            continue

        def step2(st, ev):
            if ev.kind == "call" and isinstance(ev.name, str) and last(ev.name) == "evaluateAllRootsInParallelExecute":
                st.auto = tuple(norm(x) for x in ev.a)
        hits, ps, cl = sites(ck, f, lambda ev: ev.kind == "call" and isinstance(ev.name, str) and last(ev.name) == "evaluateAllRootsInParallelCompileResults", opaque_but(f), step2, None, gc_facts=False, ext_throws=False)
        if ps is None:
            ck.und("R5-compile", f.loc(), ck.why)
            continue
        for h in hits:
            if h.auto is None:
                ck.bad("R5-compile", h.at, "%s: the results are compiled before the jobs are executed" % short_(f.sname))
            else:
                ck.ok("R5-compile", "%s: after execution" % short_(f.sname))
        if not hits:
            ck.bad("R5-compile", f.loc(), "%s: the results are not compiled" % short_(f.sname))


# -- merge -----------------------------------------------------------------------
def merge(ck):
    P = ck.P
    fs = [f for f in P.funcs.values() if f.blocks and f.base == "mergeArchiveMap"]
    for f in fs:
        w = short_(f.sname)
        hits, ps, cl = sites(ck, f, lambda ev: ev.kind == "call" and isinstance(ev.name, str) and last(ev.name) == "addRecording", lambda g: (g.scls or "").startswith(OP) or g.scls == "Archive", gc_facts=False, ext_throws=False)
        if ps is None:
            ck.und("R6-merge", f.loc(), ck.why)
            continue
        if not hits:
            ck.bad("R6-merge", f.loc(), "no recording is merged")
        for h in hits:
            if h.ev.o is None or fld_of(h.ev.o) != LA + "archive":
                ck.und("R6-merge", h.at, "recordings merged in %s" % pp(h.ev.o)[:60])
                continue
            a = h.args
            if len(a) < 4 or a[3] != ("b", True):
                if len(a) < 4 or a[3] in (("b", False), ("c", 0)):
                    ck.bad("R6-merge", h.at, "recordings already accepted once are accepted at random again when merged")
                else:
                    ck.und("R6-merge", h.at, "forced: %s" % pp(a[3])[:60])
                continue
            recs = []
            for x in (a[0], h.ev.a[1], a[2]):
                recs.append({norm(s) for s in subterms(x) if s[0] == "call" and s[1] == "Archive::at"})
            if any(len(r) != 1 for r in recs):
                ck.und("R6-merge", h.at, "unrecognised recording %s" % pp(a[0])[:80])
                continue
            if len(recs[0] | recs[1] | recs[2]) != 1:
                ck.bad("R6-merge", h.at, "the program, data and result merged come from different recordings")
                continue
            names = [n for n, x in (("prog", a[0]), ("dataHash", h.ev.a[1]), ("result", a[2])) if not has_sub(x, lambda s: s[0] == "F" and s[2] == "ArchiveRecording::" + n)]
            if names:
                ck.bad("R6-merge", h.at, "the recording's %s is not merged" % names[0])
                continue
            rec = list(recs[0])[0]
            hand = [norm(s[2]) for s in subterms(h.ev.a[1]) if s[0] == "call" and last(s[1]) == "getDataHandlers"]
            if hand and hand[0] != rec[2]:
                ck.bad("R6-merge", h.at, "the data merged come from another archive (%s) than the recording" % pp(hand[0])[:80])
                continue
            # ascending jobs
            lit = [s for s in subterms(rec[2]) if s[0] == "lit"]
            asc = direction(cl, lit[0]) if lit else None
            if asc is False:
                ck.bad("R6-merge", h.at, "the recordings of the last jobs are merged before those of the first")
                continue
            i = rec[3][0] if rec[3] else None
            step = None
            if i is not None:
                d, c = lin(i)
                ph = [x for x in d if x[0] == "phi"]
                if len(ph) == 1 and d[ph[0]] == -1:
                    step = -1
                elif len(ph) == 1:
                    tags = [t for t in cl.loops if norm(t) == norm(ph[0][1])]
                    for t in tags:
                        for v, ss in cl.loops[t]["step"].items():
                            if norm(v) == norm(ph[0][2]):
                                for s in ss:
                                    if s[:2] == ("op", "-"):
                                        step = -1
            if step == -1:
                ck.bad("R6-merge", h.at, "the recordings of a job are merged from the last to the first")
                continue
            why = amounts(cl, h, i)
            if why:
                ck.bad("R6-merge", h.at, why)
                continue
            if asc is None:
                ck.und("R6-merge", h.at, "order of the jobs not recognised")
            else:
                ck.ok("R6-merge", "%s: program, data and result of each recording, forced, in order" % w)


def loop_of(cl, phi):
    """(inits, steps, info) of a variable in its loop"""
    for tg, info in cl.loops.items():
        if norm(tg) == norm(phi[1]):
            g = lambda k: [norm(t) for v, ts in info[k].items() if norm(v) == norm(phi[2]) for t in ts]
            return g("init"), g("step"), info
    return [], [], None


def amounts(cl, h, i):
    """are all the recordings that fit merged: the reason why not, or None"""
    if i is None:
        return None
    d, c = lin(norm(i))
    ph = [x for x in d if x[0] == "phi"]
    if len(d) != 1 or len(ph) != 1 or d[ph[0]] != 1:
        return None
    if c:
        return "recordings are merged at an offset of %d" % c
    iphi = ph[0]
    init, step, info = loop_of(cl, iphi)
    for t in step:
        dd, k = lin(t)
        if set(dd) == {iphi} and k != 1:
            return "one recording out of %d is merged" % k
    for t in init:
        if num(t) and t[1] != 0:
            return "the first %s recordings of each job are never merged" % t[1]
        if t[0] == "phi":
            i2, s2, inf2 = loop_of(cl, t)
            for x in i2:
                if num(x) and x[1] != 0:
                    return "the first %s recordings of each job are never merged" % x[1]
            own = {lin(x)[1] for x in s2 if set(lin(x)[0]) == {t}}
            if own and inf2 is not None:
                for v, ts in inf2["step"].items():
                    if norm(v) == norm(t[2]):
                        continue
                    for x in ts:
                        dd, k = lin(norm(x))
                        if len(dd) == 1 and list(dd)[0][0] == "phi" and k and {-k} != own:
                            return "recordings skipped (%s at a time) and the count of those left (%s at a time) do not agree" % (sorted(own)[0], k)
                        if len(dd) == 1 and list(dd)[0][0] == "phi" and k:
                            nb = list(dd)[0]
                            for y, v2 in h.facts:
                                y = norm(y)
                                if y[0] == "op" and y[1] == "<" and v2 is True and y[2] == nb and fld_of(y[3]) and fld_of(y[3]).endswith("::archiveSize"):
                                    return "recordings that would fit in the archive are skipped"
    # up to the last one
    for y, v in h.facts:
        y = norm(y)
        if y[0] == "op" and y[1] == "<" and v is True:
            dd, k = lin(("op", "-", y[3], y[2]))
            call = [x for x in dd if x[0] == "call" and last(x[1]) == "getNbRecordings"]
            if len(dd) == 2 and call and dd[call[0]] == 1 and dd.get(iphi) == -1 and k < 0:
                return "the last %s recordings of each job are never merged" % -k
    # what is counted
    for tg, inf in cl.loops.items():
        for v, ts in inf["step"].items():
            for x in ts:
                dd, k = lin(norm(x))
                call = [z for z in dd if z[0] == "call" and last(z[1]) == "getNbRecordings"]
                me = [z for z in dd if z[0] == "phi" and norm(z[2]) == norm(v)]
                if len(dd) == 2 and call and me and dd[me[0]] == 1:
                    if k or dd[call[0]] != 1:
                        return "the recordings of the jobs are not counted right"
                    ini = [norm(t) for v2, t2 in inf["init"].items() if norm(v2) == norm(v) for t in t2]
                    if any(num(t) and t[1] for t in ini):
                        return "the recordings of the jobs are not counted right"
                    cmp_ = [z for y, b in h.facts for y in [norm(y)] if y[0] == "op" and y[1] == "<" and me[0] in (y[2], y[3]) for z in (y[2], y[3]) if z != me[0]]
                    if cmp_ and all(num(z) for z in cmp_):
                        return "jobs are merged until %s recordings are found, whatever the size of the archive" % cmp_[0][1]
    return None


def nested(cl, f, tag):
    """is the loop entered from within another one"""
    for tg, info in cl.loops.items():
        if norm(tg) == norm(tag):
            for ts in info["init"].values():
                for t in ts:
                    if has_sub(t, lambda s: s[0] in ("phi", "lit") and norm(s[1]) != norm(tag)):
                        return True
    return False


def direction(cl, lit):
    """does the iterator go through the map in increasing order: True, False, None"""
    tag, cont, rev, L = lit[1:5]
    for t, info in cl.loops.items():
        if norm(t) != norm(tag):
            continue
        for v, ss in info["step"].items():
            if norm(v) != norm(L):
                continue
            up = dn = False
            for s in ss:
                d, c = lin(s)
                if c > 0:
                    up = True
                if c < 0:
                    dn = True
            if up == dn:
                return None
            return (dn if rev else up)
    return None


# -- jobs ------------------------------------------------------------------------
def jobs(ck):
    P = ck.P
    for f in P.find("Learn::LearningAgent::makeJobs"):
        hits, ps, cl = sites(ck, f, lambda ev: ev.kind == "call" and isinstance(ev.name, str) and (last(ev.name) == "makeJob" or last(ev.name) == "push"), opaque_but(f), gc_facts=False, ext_throws=False)
        if ps is None:
            ck.und("R7-jobs", f.loc(), ck.why)
            continue
        w = short_(f.sname)
        for h in hits:
            if last(h.name) == "push":
                continue
            a = h.args
            r = strip(a[0])
            ix = a[2] if len(a) > 2 else None
            if norm(a[1]) != ("p", 0):
                (ck.bad if num(a[1]) else ck.und)("R7-jobs", h.at, "%s: jobs are made for another mode: %s" % (w, pp(a[1])[:60]))
                continue
            if ix is None or num(ix):
                ck.bad("R7-jobs", h.at, "%s: every job has the same number" % w)
                continue
            e = [s for s in subterms(a[0]) if s[0] == "E"]
            if e and norm(e[0][2]) == norm(ix):
                d, c = lin(ix)
                ck.ok("R7-jobs", "%s: numbered in the order of the individuals" % w)
            elif e and lin(e[0][2])[0] and {norm(k): -v for k, v in lin(e[0][2])[0].items()} == {norm(k): v for k, v in lin(ix)[0].items()}:
                ck.bad("R7-jobs", h.at, "%s: jobs are numbered in the reverse order of the individuals" % w)
            elif counter(cl, ix) == "up":
                ck.ok("R7-jobs", "%s: numbered in order" % w)
            elif counter(cl, ix) == "down":
                ck.bad("R7-jobs", h.at, "%s: jobs are numbered in decreasing order" % w)
            elif counter(cl, ix) == "still":
                ck.bad("R7-jobs", h.at, "%s: every job has the same number" % w)
            else:
                ck.und("R7-jobs", h.at, "%s: unrecognised numbering %s" % (w, pp(ix)[:60]))
    for f in P.find("Learn::AdversarialLearningAgent::makeJobs"):
        hits, ps, cl = sites(ck, f, lambda ev: ev.kind == "ctor" and last(ev.name) == "AdversarialJob" and len(ev.a or ()) >= 3, opaque_but(f), gc_facts=False, ext_throws=False)
        w = short_(f.sname)
        for h in hits:
            ix = h.args[2]
            d, c = lin(ix)
            ph = [x for x in d if x[0] == "phi"]
            if num(ix) or counter(cl, ix) == "still" or job_field(ix, "idx") is not None:
                ck.bad("R7-jobs", h.at, "%s: every job has the same number: which of their results are kept depends on which worker ends first" % w)
            elif len(d) == 1 and len(ph) == 1:
                init = [t for tg, info in cl.loops.items() if norm(tg) == norm(ph[0][1]) for v, ts in info["init"].items() if norm(v) == norm(ph[0][2]) for t in ts]
                if init and all(num(t) for t in init) and nested(cl, f, ph[0][1]):
                    ck.bad("R7-jobs", h.at, "%s: jobs of different individuals have the same number: which of their results are kept depends on which worker ends first" % w)
                elif counter(cl, ix) == "up":
                    ck.ok("R7-jobs", "%s: numbered in order" % w)
                else:
                    ck.und("R7-jobs", h.at, "%s: unrecognised numbering %s" % (w, pp(ix)[:60]))
            else:
                ck.und("R7-jobs", h.at, "%s: unrecognised numbering %s" % (w, pp(ix)[:60]))
    # the seed of a job, in training, is drawn from the agent's generator
    for f in P.find("Learn::LearningAgent::makeJob"):
        hits, ps, cl = sites(ck, f, lambda ev: ev.kind == "ctor" and last(ev.name) == "Job" and len(ev.a or ()) >= 3, opaque_but(f), gc_facts=False, ext_throws=False)
        if ps is None:
            ck.und("R7-jobs", f.loc(), ck.why)
            continue
        for h in hits:
            tr = training(h.facts, ("p", 1))
            s = h.args[1]
            ix = h.args[2]
            if norm(ix) != ("p", 2):
                (ck.bad if num(ix) else ck.und)("R7-jobs", h.at, "the number of the job is not the one asked for but %s" % pp(ix)[:60])
                continue
            drawn = s[0] == "call" and "Mutator::RNG::get" in s[1] and has_sub(s[2], lambda x: x[0] == "F" and x[2] == LA + "rng")
            if tr is not False and not drawn:
                (ck.bad if num(s) or fld_of(s) or norm(s) == ("p", 2) else ck.und)("R7-jobs", h.at, "in training, the seed of a job is not drawn but %s" % pp(s)[:60])
            else:
                ck.ok("R7-jobs", "job seed drawn in training" if drawn else "no seed needed out of training")
    # sequentially too, each individual is evaluated through a job made for it
    for f in P.funcs.values():
        if f.blocks and f.base == "evaluateAllRoots" and "Adversarial" not in f.sname:
            hits, ps, cl = sites(ck, f, lambda ev: ev.kind == "call" and isinstance(ev.name, str) and last(ev.name) == "makeJob", opaque_but(f), gc_facts=False, ext_throws=False)
            for h in hits:
                e = [s for s in subterms(h.args[0]) if s[0] == "E"]
                if not e:
                    continue
                c = counter(cl, e[0][2])
                if e[0][2][0] == "lit" and e[0][2][3] is True or c == "down":
                    ck.bad("R7-jobs", h.at, "%s: individuals are evaluated from the last to the first, unlike in parallel" % short_(f.sname))
                else:
                    ck.ok("R7-jobs", "%s: in order" % short_(f.sname))


def counter(cl, t):
    d, c = lin(t)
    ph = [x for x in d if x[0] == "phi"]
    if len(ph) != 1 or d[ph[0]] not in (1, -1):
        return None
    r = None
    for tg, info in cl.loops.items():
        if norm(tg) == norm(ph[0][1]):
            st = [s for v, ss in info["step"].items() if norm(v) == norm(ph[0][2]) for s in ss]
            if not st:
                return "still"
            for s in st:
                dd, k = lin(s)
                if not any(x[0] == "phi" for x in dd):
                    return None
                r = "up" if k * d[ph[0]] > 0 else "down" if k * d[ph[0]] < 0 else "still"
    return r


# -- mutation --------------------------------------------------------------------
class Mut(Ev):
    def __init__(self, f):
        Ev.__init__(self)
        self.prim = opaque_but(f)
        self.pushes = []
        self.popq = False

    def event(self, st, ev):
        if ev.kind not in ("call", "ctor") or not isinstance(ev.name, str):
            return
        b = last(ev.name)
        a = dict(st.auto or ())
        if b == "pop" and ev.name.startswith("std::queue"):
            self.popq = True
        if b == "setSeed" and ev.o is not None:
            a[norm(ev.o)] = Hit(ev, st).args[0]
            a["fresh"] = True
        elif b == "mutateProgramBehaviorAgainstArchive":
            self.h.setdefault("mut", []).append((Hit(ev, st), dict(a), ev.a))
            a["fresh"] = False
        elif b in ("push", "push_back", "emplace", "emplace_back") and ev.name.startswith("std::") and any(has_sub(x, lambda s: s[0] == "call" and "Mutator::RNG::get" in s[1]) for x in Hit(ev, st).args):
            self.pushes.append(Hit(ev, st))
        st.auto = tuple(sorted(a.items(), key=repr))


def mutation(ck):
    P = ck.P
    fs = [f for f in P.funcs.values() if f.blocks and f.base == "mutateNewProgramBehaviors"]
    for f in fs:
        cl = Mut(f)
        ps = paths(ck, f, cl, auto=())
        if ps is None:
            ck.und("R1-mutation", f.loc(), getattr(ck, "why", ""))
        rngp = [i for i, p in enumerate(f.params) if "RNG" in str(p.get("t", p))]
        shared = ("*", ("p", rngp[0])) if rngp else None
        if not cl.h.get("mut"):
            ck.bad("R1-mutation", f.loc(), "no program is mutated")
        for h, a, raw in cl.h.get("mut", []):
            if len(raw) < 4:
                ck.und("R1-mutation", h.at, "unrecognised mutation")
                continue
            g, prog = norm(raw[3]), raw[0]
            if g == shared:
                ck.bad("R1-mutation", h.at, "a program is mutated with the generator shared by all: what it becomes depends on the programs mutated before it")
                continue
            seed = a.get(g)
            obj = h.args[3]
            if obj[0] in ("obj", "cobj") and obj[1] == "Mutator::RNG" and seed is None:
                seed = obj[3][0] if len(obj) > 3 and obj[3] else ("c", 0)
                fresh = True
            else:
                fresh = a.get("fresh")
            if seed is None:
                ck.bad("R1-mutation", h.at, "a program is mutated with a generator not seeded for it")
                continue
            if fresh is False:
                ck.bad("R1-mutation", h.at, "a program is mutated with a generator in the state the previous one left it in")
                continue
            if seed[0] == "call" and "Mutator::RNG::get" in seed[1]:
                if norm(seed[2]) == shared:
                    ck.ok("R1-mutation", "sequentially: a generator seeded by a draw for each program")
                else:
                    ck.und("R1-mutation", h.at, "seeded by %s" % pp(seed)[:80])
                continue
            if num(seed):
                ck.bad("R1-mutation", h.at, "every program is mutated with the same seed")
                continue
            if seed[0] == "size":
                ck.bad("R1-mutation", h.at, "a program is mutated with a seed that depends on how many programs are waiting")
                continue
            if has_sub(prog, lambda x: x[0] == "E" and x[2] == ("back",)) or has_sub(h.args[0], lambda x: x[0] == "E" and x[2] == ("back",)):
                if cl.popq:
                    ck.bad("R1-mutation", h.at, "the program mutated is the last of the queue while the first one is removed")
                    continue
            se = elem(seed)
            pe = elem(h.args[0]) or elem(prog)
            if se is None or pe is None:
                ck.und("R1-mutation", h.at, "seeded by %s" % pp(seed)[:80])
            elif norm(se) == norm(pe):
                ck.ok("R1-mutation", "in parallel: seeded with the number that came with the program")
            else:
                ck.bad("R1-mutation", h.at, "a program is mutated with the seed of another: %s, %s" % (pp(seed)[:60], pp(prog)[:60]))
        for h in cl.pushes:
            d = [s for x in h.args for s in subterms(x) if s[0] == "call" and "Mutator::RNG::get" in s[1]]
            if shared is not None and norm(d[0][2]) != shared:
                ck.und("R1-mutation", h.at, "seed drawn from %s" % pp(d[0][2])[:60])
                continue
            lo, hi = d[0][3][0], d[0][3][1]
            lit = [s for x in h.args for s in subterms(x) if s[0] == "lit"]
            if lit and lit[0][3] is True:
                ck.bad("R1-mutation", h.at, "seeds are drawn from the last program to the first in parallel")
            else:
                ck.ok("R1-mutation", "in parallel: one seed drawn per program, in order")
            rng_ = {tuple(norm(x) for x in s[3]) for hh, a, raw in cl.h.get("mut", []) for s in subterms(hh.args[3]) if s[0] == "call" and s[1] == d[0][1]}
            for x in rng_:
                if x != (norm(lo), norm(hi)):
                    ck.bad("R1-mutation", h.at, "seeds are drawn between %s and %s in parallel but between %s and %s sequentially" % (pp(lo), pp(hi), pp(x[0]), pp(x[1])))


def elem(t):
    """the element (pair) a member is read from"""
    for s in subterms(t):
        if s[0] == "F" and str(s[2]).startswith("std::pair::"):
            return s[1]
        if s[0] == "E":
            return s
    return None

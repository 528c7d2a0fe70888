"""C16: evaluation results combine as weighted means."""
from ..core import *

NS = "Learn::"
CLASSES = {  # class -> [(score field, count field)]
    "EvaluationResult": [("EvaluationResult::result", "EvaluationResult::nbEvaluation")],
    "AdversarialEvaluationResult": [("AdversarialEvaluationResult::scores", "EvaluationResult::nbEvaluation")],
    "ClassificationEvaluationResult": [("ClassificationEvaluationResult::scorePerClass", "ClassificationEvaluationResult::nbEvaluationPerClass")],
}
OTHER = ("*", ("p", 0))
WATCH = ("result", "nbEvaluation", "scores", "scorePerClass", "nbEvaluationPerClass")


def rat(t, sub=None):
    """(numerator, denominator) polynomials of an arithmetic term"""
    def mul(a, b):
        out = {}
        for m, c in a.items():
            for n, d in b.items():
                k = tuple(sorted(m + n, key=repr))
                out[k] = out.get(k, 0) + c * d
        return {k: v for k, v in out.items() if v}

    def add(a, b, k=1):
        out = dict(a)
        for m, c in b.items():
            out[m] = out.get(m, 0) + k * c
        return {k: v for k, v in out.items() if v}
    if sub:
        s = sub(t)
        if s is not None:
            return {(s,): 1}, {(): 1}
    if t[0] in ("c", "f") and isinstance(t[1], (int, float)):
        return ({(): t[1]} if t[1] else {}), {(): 1}
    if t[0] == "tofloat":
        return rat(t[1], sub) if len(t) == 2 else rat(t[-1], sub)
    if t[0] == "op" and t[1] in "+-":
        (a, b), (c, d) = rat(t[2], sub), rat(t[3], sub)
        return add(mul(a, d), mul(c, b), 1 if t[1] == "+" else -1), mul(b, d)
    if t[0] == "op" and t[1] == "*":
        (a, b), (c, d) = rat(t[2], sub), rat(t[3], sub)
        return mul(a, c), mul(b, d)
    if t[0] == "op" and t[1] == "/":
        (a, b), (c, d) = rat(t[2], sub), rat(t[3], sub)
        return mul(a, d), mul(b, c)
    return {(t,): 1}, {(): 1}


def same(a, b):
    def mul(x, y):
        out = {}
        for m, c in x.items():
            for n, d in y.items():
                k = tuple(sorted(m + n, key=repr))
                out[k] = out.get(k, 0) + c * d
        return {k: v for k, v in out.items() if v}
    return mul(a[0], b[1]) == mul(b[0], a[1])


def check(ck):
    ck.rule("R1-mean", "every component becomes the mean of the two components weighted by their own numbers of evaluations", 2)
    ck.rule("R2-count", "every number of evaluations becomes the sum of the two", 2)
    ck.rule("R3-refused", "results of different kinds (or numbers of components) are refused, before anything is changed", 2)
    ck.rule("R4-const", "the result being added is never modified", 2)
    ck.rule("R5-all", "every component is combined", 1)
    ck.rule("R7-defined", "a component counted by itself is only divided by its numbers of evaluations when there are some", 1)
    ck.rule("R6-read", "scores, counts and comparisons read what they name", 3)
    ck.P.cls(NS + "EvaluationResult")
    for c in CLASSES:
        combine(ck, c)
    readers(ck)


def who(loc):
    """('this'|'other'|None, field, index or None) of a location inside a result"""
    i = None
    if is_loc(loc) and loc[0] == "E":
        i, loc = loc[2], loc[1]
    if not (is_loc(loc) and loc[0] == "F"):
        return None, None, None
    f, b = short_f(loc[2]), loc[1]
    if b == SELF:
        return "this", f, i
    return ("other" if b == OTHER else b), f, i


def short_f(f):
    return f[len(NS):] if f.startswith(NS) else f


def entry(st0_auto, x, copies):
    """atom of a value read at entry: ('this'|'other', field, index)"""
    if x[0] != "ld":
        return None
    w, f, i = who(x[1])
    if w is None:
        return None
    if w not in ("this", "other"):
        w = "other" if w in copies else None
    if w is None:
        return None
    return ("at", w, f, i)


def combine(ck, cname):
    P = ck.P
    try:
        f = P.one(NS + cname + "::operator+=")
    except AnalysisError:
        return ck.und("R1-mean", NS + cname, "operator+= not found")
    R = "R1-mean"
    copies = set()

    class Cl(Sites):
        def loop(self, st, kind, tag, g, eng):
            if kind == "back":
                self.iters.append((tag, st.auto, tuple(st.facts)))
            elif kind == "exit":
                self.exits.append((tag, tuple(st.facts)))

    def step(st, ev):
        if ev.kind == "write" and ev.loc is not None:
            w, fl, i = who(ev.loc)
            if fl and any(fl.endswith("::" + x) for x in WATCH) and w == "this":
                d = tuple(x for x in st.auto if x[0] != ev.loc)
                st.auto = d + ((ev.loc, ev.val, ev.at()),)
    def const_bad(ev):
        if ev.kind == "write" and ev.loc is not None:
            b = ev.loc
            while is_loc(b) and b[0] in ("F", "E"):
                b = b[1]
            return b == OTHER
        return False
    cl = Cl(lambda ev: ev.kind == "write" or ev.kind == "ctor", None, step, gc_facts="all")
    cl.iters, cl.exits = [], []
    ps = paths(ck, f, cl, auto=())
    if ps is None:
        return ck.und(R, f.loc(), ck.why)
    # local copies of the other result (by value): objects built from it
    for h in cl.hits:
        if h.ev.kind == "write" and is_loc(h.ev.loc) and h.ev.loc[0] == "F" and h.ev.val is not None and h.ev.val[0] == "ld":
            if who(h.ev.val[1])[0] == "other" and h.ev.loc[1] not in (SELF, OTHER):
                copies.add(h.ev.loc[1])
    for p in ps:
        for k, v in p.st.m.items():
            if k[0] == "L" and isinstance(v, tuple) and has_sub(v, lambda z: z == OTHER) and v[0] in ("obj", "cobj", "ld"):
                copies.add(k)
    for h in cl.hits:
        for s in (h.ev.loc, h.ev.val):
            if s is not None:
                for z in subterms(s):
                    if is_loc(z) and z[0] == "F" and is_loc(z[1]) and z[1][0] == "L" and any(z[2].endswith("::" + x) for x in WATCH):
                        copies.add(z[1])
    for h in cl.hits:
        if h.ev.kind == "write" and const_bad(h.ev):
            ck.bad("R4-const", h.at, "the result being added is modified (%s)" % pp(h.ev.loc))
    ck.ok("R4-const", f.sname)
    sub = lambda t: entry(None, t, copies)
    # --- R3
    refused = False
    for p in ps:
        if cname != "EvaluationResult" and typebase(p.facts):
            continue
        kindeq = None
        for t, v in p.facts:
            if t[0] == "op" and t[1] == "==" and has_sub(t, lambda z: z[0] == "dyntype" or (z[0] == "op1" and z[1] == "dyntype")):
                if v is False and not has_sub(t, lambda z: z[0] == "typeid"):
                    kindeq = False
                elif v and kindeq is None and not has_sub(t, lambda z: z[0] == "typeid"):
                    kindeq = True
            if has_sub(t, lambda z: z[0] in ("dyncast", "dynamic_cast") or (z[0] == "call" and "dynamic" in str(z[1]))):
                kindeq = kindeq if kindeq is not None else "?"
        sz = None
        for t, v in p.facts:
            if t[0] == "op" and t[1] == "==" and t[2][0] == "size" and t[3][0] == "size":
                sz = v
        wr = [x for x in p.auto if x[1] is not None]
        if kindeq is False:
            if p.kind == "throw":
                refused = True
                if wr:
                    ck.bad("R3-refused", wr[0][2], "results of different kinds change the result before being refused")
                else:
                    ck.ok("R3-refused", "%s: other kind" % f.sname)
            elif p.kind == "ret":
                ck.bad("R3-refused", f.loc(), "results of different kinds are accepted")
        elif kindeq is None and p.kind == "ret":
            ck.bad("R3-refused", f.loc(), "results are combined without comparing their kinds")
        if sz is False and cname != "EvaluationResult":
            if p.kind == "ret":
                ck.bad("R3-refused", f.loc(), "results with different numbers of components are accepted")
            elif wr:
                ck.bad("R3-refused", wr[0][2], "results with different numbers of components change the result before being refused")
            else:
                ck.ok("R3-refused", "%s: other size" % f.sname)
    if cname != "EvaluationResult":
        allf = [fs for _, _, fs in cl.iters] + [p.facts for p in ps]
        cmp_ = [t for fs in allf for t, v in fs if t[0] == "op" and t[1] in ("==", "<", "<=") and all(isinstance(x, tuple) and x[0] == "size" for x in t[2:4])]
        szs = [t for fs in allf for t, v in fs if has_sub(t, lambda z: z[0] == "size") and not has_sub(t, lambda z: z[0] in ("phi", "lit"))]
        if cmp_:
            ck.ok("R3-refused", "%s compares sizes" % f.sname)
        elif szs:
            ck.und("R3-refused", f.loc(), "comparison of the numbers of components not interpreted")
        else:
            ck.bad("R3-refused", f.loc(), "the numbers of components are not compared")
    # --- R1/R2: components
    for score, count in CLASSES[cname]:
        indexed = cname != "EvaluationResult"
        states = []
        if indexed:
            for tag, auto, facts in cl.iters:
                states.append((auto, facts, tag))
        else:
            for p in ps:
                if p.kind == "ret" and not any(t[0] == "op" and t[1] == "==" and has_sub(t, lambda z: z[0] == "typeid") and v is False for t, v in p.facts):
                    states.append((p.auto, p.facts, None))
        done = []
        for auto, facts, tag in states:
            hit = [(l, v, at) for l, v, at in auto if who(l)[1] == score and (who(l)[2] is not None) == indexed]
            if not hit:
                continue
            for l, v, at in hit:
                i = who(l)[2]
                s, o = ("at", "this", score, i), ("at", "other", score, i)
                ci = i if who_indexed(count) else None
                n, m = ("at", "this", count, ci), ("at", "other", count, ci)
                got = rat(v, sub)
                want = ({k2(s, n): 1, k2(o, m): 1}, {(n,): 1, (m,): 1})
                if same(got, want):
                    ck.ok(R, "%s in %s" % (score, f.sname))
                    done.append((tag, i, at))
                    if who_indexed(count):
                        seen = [t for t, _ in facts if any(x in (n, m) for a in subterms(t) for x in [entry(None, a, copies)] if x)]
                        if seen:
                            ck.ok("R7-defined", "%s in %s" % (score, f.sname))
                        else:
                            ck.bad("R7-defined", at, "%s of a class without any evaluation in either result is divided by zero" % score)
                elif total_zero(facts, n, m, sub) and any(same(got, ({(x,): 1}, {(): 1})) for x in (s, o)):
                    ck.ok(R, "%s in %s (nothing to weigh)" % (score, f.sname))
                elif known(got, s, o, n, m) or has_at(got):
                    ck.bad(R, at, "%s does not become the mean weighted by the numbers of evaluations" % score)
                else:
                    ck.und(R, at, "combination of %s not interpreted" % score)
        if not done:
            wr = [h for h in cl.hits if h.ev.kind == "write" and who(h.ev.loc)[:2] == ("this", score)]
            algo = [h for h in cl.hits if h.ev.kind == "write" and h.ev.val is not None and h.ev.val[0] == "any"]
            if wr or any(has_sub(h.ev.loc, lambda z: isinstance(z, tuple) and z and z[0] == "F" and short_f(z[2]) == score) for h in cl.hits if h.ev.kind == "write" and h.ev.loc):
                if not any(b["rule"] == R for b in ck.bad_):
                    ck.und(R, f.loc(), "combination of %s not interpreted" % score)
            elif any(p.kind == "ret" for p in ps) and all(not calls_algo(f) for _ in (1,)):
                ck.bad(R, f.loc(), "%s is never combined" % score)
            else:
                ck.und(R, f.loc(), "combination of %s not interpreted" % score)
        for tag, i, at in done:
            if tag is None:
                continue
            lp = cl.loops.get(tag) or {}
            sp = span(cl, i)
            c = lp.get("cont")
            if lp.get("brk"):
                ck.bad("R5-all", at, "the loop combining %s may stop early" % score)
                continue
            if sp and sp[0] == "from":
                if nv(sp[1]) not in (0, None):
                    ck.bad("R5-all", at, "the first components of %s are not combined" % score)
                    continue
                b = sp[2]
                if b is not None and not (b[0] == "size"):
                    g = rat(b, sub)
                    if has_sub(b, lambda z: z[0] == "size") and b[0] == "op":
                        ck.bad("R5-all", at, "the last components of %s are not combined" % score)
                    else:
                        ck.und("R5-all", at, "bound of the loop over %s not interpreted" % score)
                    continue
            elif sp is None and i[0] == "phi":
                stp = loop_vals(cl, i, "step")
                if len(stp) == 1 and stp[0][0] == "op" and stp[0][1] == "+" and nv(stp[0][3]) not in (None, 1):
                    ck.bad("R5-all", at, "components of %s are skipped" % score)
                    continue
            facts = [x[2] for x in cl.iters if x[0] == tag]
            if any(stops_short(fs, i) for fs in facts):
                ck.bad("R5-all", at, "the last components of %s are not combined" % score)
                continue
            ck.ok("R5-all", "%s in %s" % (score, f.sname))
        # per-component iterations that do not combine
        if indexed and done:
            tag = done[0][0]
            for t2, auto, facts in cl.iters:
                if t2 == tag and not any(who(l)[1] == score and who(l)[2] is not None for l, v, at in auto):
                    iz = done[0][1]
                    zero = [t for t, v in facts if has_sub(t, lambda z: entry(None, z, copies) is not None and entry(None, z, copies)[2] == count)]
                    if not zero:
                        ck.bad("R5-all", done[0][2], "some components of %s are left out" % score)
                    else:
                        bothzero(ck, facts, score, count, iz, sub, done[0][2])
        # --- R2: counts
        cidx = who_indexed(count)
        rets = [p for p in ps if p.kind == "ret"]
        pool = [(a, fs, tg) for a, fs, tg in states] if cidx else [(p.auto, p.facts, None) for p in rets]
        n_ok = 0
        for auto, facts, tag in pool:
            hit = [(l, v, at) for l, v, at in auto if who(l)[1] == count and (who(l)[2] is not None) == cidx]
            if not hit and not cidx:
                if isretbase(facts, cname) and not (zerofact(facts, count, copies)):
                    ck.bad("R2-count", f.loc(), "%s is not updated" % count)
                continue
            for l, v, at in hit:
                ci = who(l)[2]
                n, m = ("at", "this", count, ci), ("at", "other", count, ci)
                got = rat(v, sub)
                if same(got, ({(n,): 1, (m,): 1}, {(): 1})):
                    ck.ok("R2-count", "%s in %s" % (count, f.sname))
                    n_ok += 1
                elif has_at(got):
                    if cname != "EvaluationResult" and has_sub(v, lambda z: z[0] == "dyntype"):
                        continue
                    if typebase(facts) and cname != "EvaluationResult":
                        continue
                    ck.bad("R2-count", at, "%s does not become the sum of the two numbers of evaluations" % count)
                else:
                    ck.und("R2-count", at, "update of %s not interpreted" % count)
        if cidx and not n_ok and done and not any(b["rule"] == "R2-count" for b in ck.bad_):
            ck.bad("R2-count", f.loc(), "%s is not updated" % count)
    if cname == "ClassificationEvaluationResult":
        totals(ck, f, ps, cl, copies, sub)


def total_zero(facts, n, m, sub):
    return any(has_at(rat(t[2], sub)) or has_at(rat(t[3], sub)) for t, v in facts if t[0] == "op" and t[1] in ("==", "<", "<=") and isinstance(t[2], tuple) and isinstance(t[3], tuple))


def bothzero(ck, facts, score, count, i, sub, at):
    """a skipped component must have nothing to combine: total count zero, or other count zero"""
    n, m = ("at", "this", count, i), ("at", "other", count, i)
    okk = False
    for t, v in facts:
        if t[0] == "op" and t[1] in ("==", "<", "<=") and isinstance(t[2], tuple):
            d = [rat(x, sub)[0] for x in t[2:4]]
            ks = set(k for x in d for k in x)
            if (m,) in ks:
                okk = True
    if okk:
        ck.ok("R5-all", "%s: component without evaluations" % score)
    else:
        ck.bad("R5-all", at, "some components of %s are left out" % score)


def zerofact(facts, count, copies):
    return any(has_sub(t, lambda z: entry(None, z, copies) == ("at", "other", count, None)) for t, v in facts)


def typebase(facts):
    """path on which *this is exactly an EvaluationResult (impossible in a derived class)"""
    return any(v and t[0] == "op" and t[1] == "==" and has_sub(t, lambda z: z[0] == "typeid") for t, v in facts)


def isretbase(facts, cname):
    if cname == "EvaluationResult":
        return not any(v is False and t[0] == "op" and t[1] == "==" and has_sub(t, lambda z: z[0] == "typeid") for t, v in facts)
    return not typebase(facts)


def k2(a, b):
    return tuple(sorted((a, b), key=repr))


def who_indexed(count):
    return count.endswith("PerClass")


def known(r, *at):
    return all(a in at for p in r for k in p for a in k)


def has_at(r):
    return any(a[0] == "at" for p in r for k in p for a in k)


def calls_algo(f):
    return any(("std::" in (n.get("n") or "")) and (n.get("n") or "").rsplit("::", 1)[-1] in ("transform", "for_each", "for_each_n") for n in f.calls())


def totals(ck, f, ps, cl, copies, sub):
    """global score = mean of the updated components"""
    score = "ClassificationEvaluationResult::scorePerClass"
    for p in ps:
        if p.kind != "ret" or typebase(p.facts):
            continue
        res = [(l, v, at) for l, v, at in p.auto if who(l)[1] == "EvaluationResult::result"]
        cnt = [(l, v, at) for l, v, at in p.auto if who(l)[1] == "EvaluationResult::nbEvaluation"]
        if not res:
            ck.bad("R1-mean", f.loc(), "the global score of a ClassificationEvaluationResult is not updated")
        for l, v, at in res:
            if v[0] != "op" or v[1] != "/":
                if v[0] == "call" and v[1].endswith("accumulate"):
                    ck.bad("R1-mean", at, "the global score is not divided by the number of classes")
                else:
                    ck.und("R1-mean", at, "global score not interpreted")
                continue
            num_, den = v[2], v[3]
            num_ = num_[1] if num_[0] == "tofloat" else num_
            den = den[1] if den[0] == "tofloat" else den
            acc = num_[0] == "call" and num_[1].endswith("accumulate")
            if acc:
                its = [s for s in subterms(num_) if s[0] == "it"]
                wf = [s for s in its if is_loc(s[2]) and who(s[2])[:2] == ("this", score)]
                if its and not wf:
                    ck.bad("R1-mean", at, "the global score is not computed from the updated scores per class")
                    continue
                init = num_[3][2] if len(num_[3]) > 2 else None
                if init is not None and init[0] in ("c", "f") and init[1] != 0:
                    ck.bad("R1-mean", at, "the global score is accumulated from %s" % pp(init))
                    continue
                if init is not None and init[0] == "c":
                    ck.bad("R1-mean", at, "the global score is accumulated in an integer")
                    continue
                a0, a1 = (list(num_[3]) + [None, None])[:2]
                plain = all(a is not None and a[0] == "it" and a[1] == w for a, w in ((a0, "begin"), (a1, "end")))
                if its and any(is_loc(x[2]) and who(x[2])[:2] != ("this", score) and who(x[2])[1] is not None for x in its):
                    ck.bad("R1-mean", at, "the global score is not computed from the updated scores per class")
                    continue
                if its and not plain and any(a is not None and a[0] == "op" for a in (a0, a1)):
                    ck.bad("R1-mean", at, "the global score leaves classes out")
                    continue
                cur = p.st.ver.get(region(TF(NS + score)), 0)
                if plain and any(x[3] != cur for x in its):
                    ck.bad("R1-mean", at, "the global score is computed before the scores per class are updated")
                    continue
            if den[0] == "size" and who(den[1])[:2] == ("this", score) or (den[0] == "size" and who(den[1])[1] in (score, "ClassificationEvaluationResult::nbEvaluationPerClass")):
                if acc:
                    ck.ok("R1-mean", "global score in %s" % f.sname)
                else:
                    ck.und("R1-mean", at, "sum of the scores per class not interpreted")
            elif acc and den[0] != "phi":
                ck.bad("R1-mean", at, "the sum of the scores per class is not divided by their number")
            else:
                ck.und("R1-mean", at, "global score not interpreted")
        for l, v, at in cnt:
            n, m = ("at", "this", "EvaluationResult::nbEvaluation", None), ("at", "other", "EvaluationResult::nbEvaluation", None)
            got = rat(v, sub)
            if same(got, ({(n,): 1, (m,): 1}, {(): 1})):
                ck.ok("R2-count", "nbEvaluation in %s" % f.sname)
            elif has_at(got):
                ck.bad("R2-count", at, "nbEvaluation does not become the sum of the two numbers of evaluations")
            else:
                ck.und("R2-count", at, "update of nbEvaluation not interpreted")
        if not cnt:
            ck.bad("R2-count", f.loc(), "nbEvaluation is not updated")


def readers(ck):
    R = "R6-read"
    P = ck.P

    def ret(name, pick=None):
        try:
            f = P.one(NS + name, pick=pick)
        except AnalysisError:
            ck.und(R, name, "not found")
            return None, []
        ps = allpaths(ck, f, prim=named("getResult", "getNbEvaluation", "getScoreOf", "getSize") if name.startswith("operator") else None)
        if ps is None:
            ck.und(R, f.loc(), ck.why)
            return f, []
        return f, [p.ret for p in ps if p.kind == "ret" and p.ret is not None]
    for nm, fld in (("EvaluationResult::getResult", "EvaluationResult::result"), ("EvaluationResult::getNbEvaluation", "EvaluationResult::nbEvaluation"),
                    ("ClassificationEvaluationResult::getScorePerClass", "ClassificationEvaluationResult::scorePerClass"),
                    ("ClassificationEvaluationResult::getNbEvaluationPerClass", "ClassificationEvaluationResult::nbEvaluationPerClass")):
        f, rs = ret(nm)
        for r in rs:
            l = r[1] if r[0] == "ld" else r
            if is_loc(l) and who(l)[0] == "this" and who(l)[2] is None:
                if who(l)[1] == fld:
                    ck.ok(R, nm)
                else:
                    ck.bad(R, f.loc(), "%s returns %s" % (nm, pp(r)))
            elif r[0] in ("c", "f", "b", "op"):
                ck.bad(R, f.loc(), "%s returns %s" % (nm, pp(r)))
            else:
                ck.und(R, f.loc(), "value returned not interpreted")
    f, rs = ret("AdversarialEvaluationResult::getSize")
    for r in rs:
        if r[0] == "size" and who(r[1])[:2] == ("this", "AdversarialEvaluationResult::scores"):
            ck.ok(R, "getSize")
        elif r[0] in ("c", "op", "size"):
            ck.bad(R, f.loc(), "getSize returns %s" % pp(r))
        else:
            ck.und(R, f.loc(), "getSize not interpreted")
    f, rs = ret("AdversarialEvaluationResult::getScoreOf")
    for r in rs:
        if r[0] == "ld" and r[1][0] == "E" and who(r[1])[1] == "AdversarialEvaluationResult::scores":
            if r[1][2] == ("p", 0):
                ck.ok(R, "getScoreOf")
            else:
                ck.bad(R, f.loc(), "getScoreOf(i) returns the score at %s" % pp(r[1][2]))
        elif r[0] in ("c", "f", "op"):
            ck.bad(R, f.loc(), "getScoreOf returns %s" % pp(r))
        else:
            ck.und(R, f.loc(), "getScoreOf not interpreted")
    mean(ck)
    # comparisons
    for g in [x for x in P.funcs.values() if x.sname == NS + "operator<" and len(x.params) == 2]:
        f = g
        ps = allpaths(ck, f, prim=named("getResult", "getNbEvaluation"))
        for p in ps or []:
            if p.kind != "ret" or p.ret is None:
                continue
            r = p.ret
            if r[0] == "op" and r[1] in ("<", "<=", ">", ">="):
                a, b = r[2], r[3]
                if all(x[0] == "call" for x in (a, b)):
                    oa, ob = a[2], b[2]
                    if not all(x[1].endswith("::getResult") for x in (a, b)):
                        ck.bad(R, f.loc(), "results are compared by %s" % a[1])
                    elif r[1] in ("<=", ">="):
                        ck.bad(R, f.loc(), "equal results compare as less")
                    elif (oa, ob) == ((OTHER, ("*", ("p", 1))) if r[1] == "<" else (("*", ("p", 1)), OTHER)):
                        ck.ok(R, "operator<")
                    elif has_sub(oa, lambda z: z in (("p", 0), ("p", 1))) and has_sub(ob, lambda z: z in (("p", 0), ("p", 1))):
                        ck.bad(R, f.loc(), "operator< compares the wrong way round")
                    else:
                        ck.und(R, f.loc(), "comparison not interpreted")
                    continue
            if r[0] == "not" or r[0] == "op1":
                ck.und(R, f.loc(), "comparison not interpreted")
                continue
            ck.und(R, f.loc(), "comparison not interpreted")
    # std::less for shared pointers, and any other order on results
    for g in P.funcs.values():
        if g.base == "operator()" and "std::less<std::shared_ptr<Learn::EvaluationResult" in (g.cls or ""):
            ps = allpaths(ck, g, prim=lambda x: x.sname == NS + "operator<")
            for p in ps or []:
                if p.kind != "ret" or p.ret is None:
                    continue
                r = p.ret
                if r[0] == "call" and r[1].endswith("operator<"):
                    ar = list(r[3])
                    i0 = [has_sub(x, lambda z: z == ("p", 0)) for x in ar]
                    i1 = [has_sub(x, lambda z: z == ("p", 1)) for x in ar]
                    if len(ar) == 2 and i0 == [True, False] and i1 == [False, True]:
                        ck.ok(R, "std::less")
                    elif len(ar) == 2 and i0 == [False, True] and i1 == [True, False]:
                        ck.bad(R, g.loc(), "sorted containers order results the wrong way round")
                    else:
                        ck.und(R, g.loc(), "comparison not interpreted")
                else:
                    if has_sub(r, lambda z: z in (("p", 0), ("p", 1))) and r[0] == "op" and not has_sub(r, lambda z: z[0] == "call"):
                        ck.bad(R, g.loc(), "sorted containers do not order results by score")
                    else:
                        ck.und(R, g.loc(), "comparison not interpreted")


def mean(ck):
    """AdversarialEvaluationResult::getResult is the mean of its scores"""
    R = "R6-read"
    f = ck.P.one(NS + "AdversarialEvaluationResult::getResult")
    SC = TF(NS + "AdversarialEvaluationResult::scores")
    hits, ps, cl = sites(ck, f, lambda ev: False)
    if ps is None:
        return ck.und(R, f.loc(), ck.why)
    for p in ps:
        if p.kind != "ret" or p.ret is None:
            continue
        r = p.ret
        if r[0] != "op" or r[1] != "/":
            if r[0] == "phi" or r[0] in ("f", "c") or (r[0] == "ld" and r[1] == TF(NS + "EvaluationResult::result")):
                ck.bad(R, f.loc(), "the score of an adversarial result is not the mean of its scores (%s)" % pp(r))
            else:
                ck.und(R, f.loc(), "score of an adversarial result not interpreted")
            continue
        n, d = r[2], r[3]
        d = d[1] if d[0] == "tofloat" else d
        if d[0] == "size" and d[1] == SC:
            pass
        elif d[0] in ("c", "f") or (d[0] == "op"):
            ck.bad(R, f.loc(), "the sum of the scores is divided by %s" % pp(d))
            continue
        elif d[0] == "ld" and d[1] == TF(NS + "EvaluationResult::nbEvaluation"):
            ck.bad(R, f.loc(), "the sum of the scores is divided by the number of evaluations")
            continue
        else:
            ck.und(R, f.loc(), "score of an adversarial result not interpreted")
            continue
        if n[0] == "phi":
            ini, stp = loop_vals(cl, n, "init"), loop_vals(cl, n, "step")
            lp = cl.loops.get(n[1]) or {}
            z = len(ini) == 1 and ini[0][0] in ("c", "f") and ini[0][1] == 0
            s = stp[0] if len(stp) == 1 else None
            el = None
            if s is not None and s[0] == "op" and s[1] == "+" and n in s[2:4]:
                el = s[2] if s[3] == n else s[3]
            if lp.get("brk") or (len(ini) == 1 and not z and ini[0][0] in ("c", "f")):
                ck.bad(R, f.loc(), "the mean does not take every score once")
            elif z and el is not None and has_sub(el, lambda q: q == SC):
                ck.ok(R, "getResult of an adversarial result")
            else:
                ck.und(R, f.loc(), "sum of the scores not interpreted")
        elif n[0] == "call" and n[1].endswith("accumulate"):
            if len(n[3]) > 2 and n[3][2][0] == "c":
                ck.bad(R, f.loc(), "the scores are summed in an integer")
            else:
                ck.ok(R, "getResult of an adversarial result")
        elif n[0] in ("f", "c"):
            if not any(cl.loops):
                ck.bad(R, f.loc(), "the scores are not summed")
        else:
            ck.und(R, f.loc(), "sum of the scores not interpreted")

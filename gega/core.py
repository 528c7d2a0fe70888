"""Check driver: obligations, evidence, verdict; and the path tracer used by the rules."""
import json
import os
import sys
import time
from .ir import VERIF, REPO, AnalysisError, Program, short, walk
from .flow import (Client, Engine, Undecided, State, pp, is_loc, subterms, C, NULL, TRUE, FALSE,
                   entails_lt, region, root_local, lit_of, num, mentions)

THIS = ("this",)
SELF = ("*", THIS)


def F(base, fld):
    return ("F", base, fld)


def TF(fld):
    """field of *this"""
    return ("F", SELF, fld)


def nv(t):
    """integer constant value, or None"""
    return t[1] if num(t) else None


def fld_of(t):
    """'Cls::f' when t is a field location (or the value loaded from one)"""
    if isinstance(t, tuple) and t:
        if t[0] == "ld":
            t = t[1]
        if isinstance(t, tuple) and t[0] == "F":
            return t[2]
    return None


def has_sub(t, pred):
    return any(pred(x) for x in subterms(t))


class Check:
    def __init__(self, prop):
        self.prop = prop
        self.t0 = time.time()
        self.bad_ = []
        self.und_ = []
        self.ok_ = {}
        self.min_ = {}
        self.rules = {}
        self.funcs = set()
        self.steps = 0
        self.sites = 0
        self.P = None
        self.notes = []

    def rule(self, rid, text, minimum=1):
        self.rules[rid] = text
        self.ok_.setdefault(rid, [])
        self.min_[rid] = minimum

    def ok(self, rid, inst):
        if inst not in self.ok_[rid]:
            self.ok_[rid].append(inst)

    def bad(self, rid, where, msg, key=None):
        e = {"rule": rid, "where": where, "what": msg, "key": key or msg}
        if not any(x["rule"] == rid and x["where"] == where and x["what"] == msg for x in self.bad_):
            self.bad_.append(e)

    def und(self, rid, where, msg):
        e = {"rule": rid, "where": where, "why": msg}
        if e not in self.und_:
            self.und_.append(e)

    def require(self, rid, cond, where, msg, inst=None):
        if cond:
            self.ok(rid, inst or where)
        else:
            self.bad(rid, where, msg)

    # -- engine use -------------------------------------------------------
    def run(self, client, f, **kw):
        e = Engine(self.P, client)
        try:
            return e.run(f, **kw)
        finally:
            self.steps += e.steps
            self.sites += e.sites
            self.funcs |= e.funcs_seen

    def finish(self):
        known = load_known()
        tier = os.environ.get("VERIF_TIER", "quick")
        vio, kn = [], []
        for b in self.bad_:
            if any(k["property"] == self.prop and k["rule"] == b["rule"] and k["key"] in (b["where"] + " " + b["key"]) for k in known):
                kn.append(b)
            else:
                vio.append(b)
        obligations = sum(len(v) for v in self.ok_.values()) + len(self.bad_) + len(self.und_)
        ev = {
            "property": self.prop, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1")),
            "level": "other",
            "coverage": {
                "explanation": "Static analysis of the current sources of /repo (clang AST/CFG, whole program). "
                               "Each rule is evaluated on every instance found; 'instances' lists them, "
                               "'undecided' those whose idiom the analysis does not interpret (neither held nor violated).",
                "translation_units": self.P.units if self.P else 0,
                "functions_in_program": len(self.P.funcs) if self.P else 0,
                "functions_analysed": sorted({self.P.funcs[i].sname for i in self.funcs}) if self.P else [],
                "dataflow_steps": self.steps,
                "events_checked": self.sites,
                "obligations": obligations,
                "discharged": sum(len(v) for v in self.ok_.values()),
                "rules": [{"rule": r, "text": t, "held": len(self.ok_[r]),
                           "violated": sum(1 for b in self.bad_ if b["rule"] == r),
                           "undecided": sum(1 for b in self.und_ if b["rule"] == r),
                           "instances": sorted(set(map(str, self.ok_[r])))[:60]} for r, t in self.rules.items()],
                "violations_found": vio, "known_findings": kn, "undecided": self.und_[:60],
            },
            "assumptions": ["clang 18 front end resolves the program as the build does (same -std, defines, include paths)",
                            "library calls behave as modelled in gega/flow.py"] + self.notes,
            "wall_s": round(time.time() - self.t0, 2),
            "violations": len(vio),
        }
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        path = os.path.join(VERIF, "evidence", self.prop + ".json")
        tmp = path + ".%d" % os.getpid()
        json.dump(ev, open(tmp, "w"), indent=1)
        os.replace(tmp, path)
        for r, t in self.rules.items():
            print("%s %s: held %d, violated %d, undecided %d" % (
                self.prop, r, len(self.ok_[r]), sum(1 for b in self.bad_ if b["rule"] == r),
                sum(1 for b in self.und_ if b["rule"] == r)))
        for u in self.und_:
            print("UNDECIDED", u["rule"], u["where"], u["why"])
        for b in kn:
            print("KNOWN-FINDING: property=%s %s %s: %s" % (self.prop, b["rule"], b["where"], b["what"]))
        if vio:
            for b in vio:
                print("  %s at %s: %s" % (b["rule"], b["where"], b["what"]))
            print("VIOLATION property=%s replay=evidence/%s.json" % (self.prop, self.prop))
            return 1
        # a rule that matched nothing has not been checked
        for r in self.rules:
            n = len(self.ok_[r]) + sum(1 for b in self.bad_ if b["rule"] == r) + sum(1 for b in self.und_ if b["rule"] == r)
            if n < self.min_[r] and self.und_:
                print("NOTE %s matched %d instances" % (r, n))
            elif n < self.min_[r]:
                raise AnalysisError("rule %s matched %d instances (expected at least %d): analysis broken" % (r, n, self.min_[r]))
        return 0


def load_known():
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    return json.load(open(p)).get("findings", [])


class Path:
    __slots__ = ("kind", "st", "ret", "f")

    def __init__(self, kind, st, ret, f):
        self.kind, self.st, self.ret, self.f = kind, st, ret, f

    @property
    def facts(self):
        return self.st.facts

    @property
    def auto(self):
        return self.st.auto

    def get(self, loc):
        return Engine.load(None, self.st, loc)

    def has(self, pred):
        return any(pred(t, v) for t, v in self.st.facts)


def paths(ck, f, client, **kw):
    try:
        return [Path(k, s, r, f) for k, s, r in ck.run(client, f, **kw)]
    except Undecided as e:
        ck.why = str(e)
        return None


class Tracer(Client):
    """records tracked events in order (each distinct item once)"""

    def __init__(self, track, prim=None, auto=()):
        self.track = track
        self.prim = prim
        self.init_auto = auto

    def primitive(self, f):
        return self.prim(f) if self.prim else False

    def event(self, st, ev):
        x = self.track(st, ev)
        if x is not None and x not in st.auto:
            st.auto = st.auto + (x,)


def trace(ck, f, track, prim=None, **kw):
    return paths(ck, f, Tracer(track, prim), auto=(), **kw)


class Sites(Client):
    """every event satisfying pred, with the state it occurs in"""

    def __init__(self, pred, prim=None, step=None, **opts):
        self.pred, self.prim, self.step = pred, prim, step
        self.hits = []
        self.loops = {}
        for k, v in opts.items():
            setattr(self, k, v)

    def primitive(self, f):
        return self.prim(f) if self.prim else False

    def event(self, st, ev):
        if self.pred(ev):
            self.hits.append(Hit(ev, st))
        if self.step:
            self.step(st, ev)


class Hit:
    __slots__ = ("ev", "st", "args", "o", "name", "at", "func", "auto")

    def __init__(self, ev, st):
        self.ev = ev
        self.st = ev.pre if ev.pre is not None else st.copy()  # before the call's effects
        st = self.st
        self.args = ev.av if ev.av is not None else [Engine.load(None, st, x) if is_loc(x) else x for x in (ev.a or [])]
        self.o = ev.o
        self.name = ev.name
        self.at = ev.at()
        self.func = ev.func.sname
        self.auto = st.auto

    @property
    def facts(self):
        return self.st.facts

    @property
    def base(self):
        return (self.name or "").rsplit("::", 1)[-1]

    def __repr__(self):
        return "<%s %s(%s) %s>" % (self.at, self.name, ", ".join(pp(x) for x in self.args), self.ev.kind)


def sites(ck, f, pred, prim=None, step=None, auto=None, **opts):
    """-> (hits, paths, client); paths is None when the function is too complex"""
    cl = Sites(pred, prim, step, **opts)
    ps = paths(ck, f, cl, auto=auto)
    return cl.hits, ps, cl


def allpaths(ck, f, prim=None, **opts):
    """every path through f with all its facts, or None"""
    opts.setdefault("gc_facts", "all")
    return sites(ck, f, lambda ev: False, prim, **opts)[1]


def is_call(*names):
    """event predicate: call (or construction) of one of the named functions
    (qualified names, or base names when without '::')"""
    q = {n for n in names if "::" in n}
    b = {n for n in names if "::" not in n}

    def p(ev):
        return ev.kind in ("call", "ctor") and (ev.name in q or ev.name.rsplit("::", 1)[-1] in b)
    return p


def named(*names):
    """primitive predicate by qualified or base name"""
    q = {n for n in names if "::" in n}
    b = {n for n in names if "::" not in n}
    return lambda f: f.sname in q or f.base in b


def fact(facts, t):
    """truth of t under facts: True/False/None"""
    from .flow import fact_of
    t, want = fact_of(t, True)
    if t[0] in CK_:
        return bool(t[1]) == want
    if (t, want) in facts:
        return True
    if (t, not want) in facts:
        return False
    return None


CK_ = ("c", "b", "f")


def cur_size(st, cont):
    return ("size", cont, st.ver.get(region(cont), 0))


def by_loc(hits):
    d = {}
    for h in hits:
        d.setdefault(h.at, []).append(h)
    return d


def loop_vals(cl, ph, which):
    """values of a loop variable at loop entry ('init') or on the way back ('step')"""
    return list(((cl.loops.get(ph[1]) or {}).get(which) or {}).get(ph[2], ()))


def span(cl, i):
    """what index/iterator i of a loop ranges over:
    ("all", container) | ("from", first, bound or None) | None"""
    if i[0] == "lit":
        lp = cl.loops.get(i[1]) or {}
        for v in (lp.get("init") or {}).get(lp.get("var"), ()) if lp.get("cont") == i[2] or not lp.get("cont") else ():
            if v[0] == "op" and start_of(v):
                return ("from", C(start_of(v)), ("size", i[2], None))
        return ("all", i[2])
    if i[0] == "phi":
        ini, stp = loop_vals(cl, i, "init"), loop_vals(cl, i, "step")
        lp = cl.loops.get(i[1]) or {}
        if len(ini) == 1 and len(stp) == 1 and stp[0] in (("op", "+", i, ("c", 1)), ("op", "+", ("c", 1), i)):
            c = lp.get("cont")
            b = c[1] if c and c[0] == "upto" and lp.get("var") == i[2] else None
            if c and c[0] not in ("upto",) and lp.get("var") == i[2]:
                if start_of(ini[0]):
                    return ("from", C(start_of(ini[0])), ("size", c, None))
                return ("all", c)
            return ("from", ini[0], b)
    return None


def start_of(t):
    """position of an index, or of an iterator given from begin()"""
    k = 0
    while t[0] == "op" and t[1] == "+" and nv(t[3]) is not None:
        k += nv(t[3])
        t = t[2]
    if nv(t) is not None:
        return k + nv(t)
    if t[0] == "it" and t[1] in ("begin", "cbegin"):
        return k
    return None


def poly(t, sub=None):
    """polynomial normal form of an integer term: {sorted tuple of atoms: coefficient}; sub maps atoms"""
    out = {}

    def add(d, k=1):
        for m, c in d.items():
            out2[m] = out2.get(m, 0) + k * c
            if not out2[m]:
                del out2[m]
    if sub and t in sub:
        t = sub[t]
    if t[0] == "c":
        return {(): t[1]} if t[1] else {}
    if t[0] == "op" and t[1] in ("+", "-"):
        out2 = {}
        add(poly(t[2], sub)), add(poly(t[3], sub), 1 if t[1] == "+" else -1)
        return out2
    if t[0] == "op" and t[1] == "*":
        out2 = {}
        for m, c in poly(t[2], sub).items():
            for n, d in poly(t[3], sub).items():
                add({tuple(sorted(m + n, key=repr)): c * d})
        return out2
    if t[0] == "op" and t[1] in ("/", "%"):
        return {(("op", t[1], pkey(poly(t[2], sub)), pkey(poly(t[3], sub))),): 1}
    return {(t,): 1}


def pkey(p):
    return tuple(sorted(p.items(), key=repr))


def atoms(t):
    """the leaves of an integer term"""
    if t[0] == "op" and t[1] in ("+", "-", "*", "/", "%"):
        return atoms(t[2]) | atoms(t[3])
    return {t}


def stops_short(facts, i):
    """the element at index i is only treated while i + k < bound (k > 0)"""
    return any(v and t[0] == "op" and t[1] == "<" and t[2][0] == "op" and t[2][1] == "+" and i in t[2][2:4] and any((nv(x) or 0) > 0 for x in t[2][2:4])
               for t, v in facts)


def eqs(facts):
    """union-find over equality facts"""
    par = {}

    def find(x):
        while par.get(x, x) != x:
            x = par[x]
        return x
    for t, v in facts:
        if v and t[0] == "op" and t[1] == "==":
            a, b = find(t[2]), find(t[3])
            if a != b:
                if a[0] in ("c", "b", "f"):
                    a, b = b, a
                par[a] = b
    return find


def main(argv):
    import importlib
    prop = argv[1]
    mod = importlib.import_module("gega.props." + prop.lower())
    ck = Check(prop)
    try:
        ck.P = Program()
        mod.check(ck)
        rc = ck.finish()
    except AnalysisError as e:
        print("ANALYSIS-ERROR %s: %s" % (prop, e))
        rc = 2
    except Exception as e:  # a defect of the analysis is no verdict
        import traceback
        traceback.print_exc()
        print("ANALYSIS-ERROR %s: %r" % (prop, e))
        rc = 2
    return rc


if __name__ == "__main__":
    sys.exit(main(sys.argv))

"""C21: parameter files read and write every parameter."""
from ..core import *

PP = "File::ParametersParser::"
GROUPS = {"Learn::LearningParameters": (), "Mutator::TPGParameters": ("mutation", "tpg"), "Mutator::ProgramParameters": ("mutation", "prog")}
CONV = {"bool": {"asBool"}, "double": {"asDouble"}, "float": {"asDouble", "asFloat"}, "int": {"asInt"},
        "unsigned long": {"asUInt", "asUInt64", "asLargestUInt"}, "unsigned int": {"asUInt"}, "long": {"asInt", "asInt64", "asLargestInt"}}


def fields(P):
    out = {}
    for c, g in GROUPS.items():
        for x in P.cls(c)[0]["fields"]:
            if x["n"] in ("mutation", "tpg", "prog"):
                continue
            out[x["n"]] = (g + (x["n"],), x["t"], c)
    return out


def fpath(loc):
    """member path of a parameter location, e.g. ('mutation','tpg','nbRoots')"""
    out = []
    while is_loc(loc) and loc[0] == "F":
        out.append(loc[2].rsplit("::", 1)[-1])
        loc = loc[1]
    return tuple(reversed(out)), loc


def strs(t):
    return [s[1] for s in subterms(t) if s[0] == "str"]


def names(facts, arg):
    """(names the parameter equals, names it differs from)"""
    eq, ne = set(), set()
    for t, v in facts:
        if t[0] == "op" and t[1] == "==" and has_sub(t, lambda z: z == ("*", arg) or z == arg):
            for s in strs(t):
                (eq if v else ne).add(s)
    return eq, ne


def check(ck):
    ck.rule("R1-stored", "each parameter name stores the value, converted to the field's type, in the field of that name only", 15)
    ck.rule("R2-complete", "every parameter field is stored by the reader under its name and emitted by the writer", 15)
    ck.rule("R3-written", "the writer emits each parameter under its own name, from its own field, where the reader looks for it", 15)
    ck.rule("R4-walk", "the reader visits the leaf parameters and those under mutation.tpg and mutation.prog, each with its own value", 2)
    ck.rule("R5-refused", "an unknown name is reported and changes nothing; a missing file is refused; nothing is taken from a malformed one", 2)
    ck.P.cls("Learn::LearningParameters")
    fl = fields(ck.P)
    store(ck, fl)
    write(ck, fl)
    walk_(ck)
    load(ck)


def store(ck, fl):
    R = "R1-stored"
    f = ck.P.one(PP + "setParameterFromString")

    def isparam(loc):
        p, b = fpath(loc)
        return b == ("*", ("p", 0)) and p

    def step(st, ev):
        if ev.kind == "write" and ev.loc is not None and isparam(ev.loc):
            st.auto = st.auto | {fpath(ev.loc)[0]}
        elif ev.kind == "call" and ev.name == "std::operator<<":
            st.auto = st.auto | {"report"}
    hits, ps, cl = sites(ck, f, lambda ev: ev.kind == "write" and ev.loc is not None and isparam(ev.loc), None, step, frozenset())
    if ps is None:
        return ck.und(R, f.loc(), ck.why)
    if not hits or not any(names(h.facts, ("p", 1))[0] for h in hits):
        if hits or any(p.kind == "ret" for p in ps):
            return ck.und(R, f.loc(), "dispatch on the parameter name not interpreted")
    seen = {}
    for h in hits:
        eq, ne = names(h.facts, ("p", 1))
        path = fpath(h.ev.loc)[0]
        if len(eq) != 1:
            if not eq and ne:
                ck.bad(R, h.at, "%s is stored for names it is not compared with" % ".".join(path))
            else:
                ck.und(R, h.at, "name selecting %s not interpreted" % ".".join(path))
            continue
        n = next(iter(eq))
        if n not in fl:
            if path[-1] != n:
                ck.bad(R, h.at, "the name '%s' stores the field %s" % (n, ".".join(path)))
            continue
        want, ty, _ = fl[n]
        if path != want:
            ck.bad(R, h.at, "the name '%s' stores the field %s" % (n, ".".join(path)))
            continue
        v = h.ev.val
        c = [s for s in subterms(v) if s[0] == "call" and s[1].startswith("Json::Value::as")]
        conv = c[0][1].rsplit("::", 1)[-1] if c else None
        if conv is None:
            if v[0] in ("c", "b", "f"):
                ck.bad(R, h.at, "'%s' stores %s whatever the value" % (n, pp(v)))
            else:
                ck.und(R, h.at, "conversion of '%s' not interpreted" % n)
        elif v != c[0]:
            ck.bad(R, h.at, "'%s' stores %s instead of the value" % (n, pp(v)))
        elif ty in CONV and conv not in CONV[ty]:
            ck.bad(R, h.at, "'%s' of type %s is read with %s" % (n, ty, conv))
        elif not has_sub(c[0], lambda z: z == ("p", 2) or z == ("*", ("p", 2))):
            ck.und(R, h.at, "value of '%s' not interpreted" % n)
        else:
            ck.ok(R, "%s <- %s" % (".".join(path), conv))
            seen[n] = True
    allnames = set(fl)
    compared = set()
    for p in ps:
        eq, ne = names(p.facts, ("p", 1))
        compared |= eq | ne
        wr = {x for x in p.auto if x != "report"}
        if p.kind != "ret":
            continue
        if len(wr) > 1:
            ck.bad(R, f.loc(), "the name '%s' changes several fields: %s" % ("/".join(eq), ", ".join(".".join(w) for w in sorted(wr))))
        if eq and not wr and next(iter(eq)) in fl:
            ck.bad(R, f.loc(), "the name '%s' is recognised but stores nothing" % next(iter(eq)))
        if not eq and ne:
            if wr:
                ck.bad("R5-refused", f.loc(), "an unknown name changes %s" % ", ".join(".".join(w) for w in wr))
            elif "report" not in p.auto:
                ck.bad("R5-refused", f.loc(), "an unknown name is not reported")
            else:
                ck.ok("R5-refused", "an unknown name is reported and changes nothing")
    if compared:
        for n in sorted(allnames):
            if n not in compared:
                ck.bad("R2-complete", f.loc(), "the parameter '%s' is not understood by the reader" % n)
            else:
                ck.ok("R2-complete", "read " + n)


def write(ck, fl):
    R = "R3-written"
    f = ck.P.one(PP + "writeParametersToJson")

    def chain(o):
        ks = []
        while True:
            c = next((s for s in ([o] if o[0] == "call" else [o[1], o[1][1] if len(o) > 1 and isinstance(o[1], tuple) and len(o[1]) > 1 else None])
                      if isinstance(s, tuple) and s and s[0] == "call"), None) if isinstance(o, tuple) and len(o) > 1 else None
            if c is None or not c[1].endswith("Value::operator[]"):
                return tuple(reversed(ks)), o
            k = strs(c[3][0]) if c[3] else []
            if len(k) != 1:
                return None, None
            ks.append(k[0])
            o = c[2]

    def pathof(v):
        for s in subterms(v):
            if s[0] == "ld" and s[1][0] == "F":
                p, b = fpath(s[1])
                if b == ("*", ("p", 1)):
                    return p, s
        return None, None

    def step(st, ev):
        if ev.kind == "call" and ev.name == "Json::Value::operator=":
            ks, b = chain(ev.o)
            if ks:
                st.auto = st.auto | {ks[-1]}
    hits, ps, cl = sites(ck, f, is_call("Json::Value::operator="), None, step, frozenset())
    if ps is None:
        return ck.und(R, f.loc(), ck.why)
    n = 0
    for h in hits:
        ks, b = chain(h.o)
        if not ks:
            continue
        v = h.args[0]
        p, t = pathof(v)
        if p is None:
            if ks[-1] in fl:
                if any(s[0] == "ld" for s in subterms(v)) or v[0] in ("c", "b", "f"):
                    ck.bad(R, h.at, "'%s' is written from %s instead of the parameter" % (ks[-1], pp(v)))
                else:
                    ck.und(R, h.at, "value written for '%s' not interpreted" % ks[-1])
            continue
        n += 1
        if ks[-1] != p[-1]:
            ck.bad(R, h.at, "the field %s is written under the name '%s'" % (".".join(p), ".".join(ks)))
        elif ks not in ((p[-1],), ("mutation", "tpg", p[-1]), ("mutation", "prog", p[-1])):
            ck.bad(R, h.at, "'%s' is written at %s, where the reader does not look" % (p[-1], ".".join(ks)))
        elif v[0] == "obj" and v[3] == (t,) or v == t:
            ck.ok(R, "%s <- %s" % (".".join(ks), ".".join(p)))
        elif any(s[0] == "op" for s in subterms(v)):
            ck.bad(R, h.at, "'%s' is written as %s" % (p[-1], pp(v)))
        else:
            ck.ok(R, "%s <- %s" % (".".join(ks), ".".join(p)))
    if not n:
        return ck.und(R, f.loc(), "writing of the parameters not interpreted")
    for p in ps:
        if p.kind == "ret":
            for x in sorted(fl):
                if x in p.auto:
                    ck.ok("R2-complete", "written " + x)
                else:
                    ck.bad("R2-complete", f.loc(), "the parameter '%s' is not written" % x)


def walk_(ck):
    R = "R4-walk"
    f = ck.P.one(PP + "setAllParamsFrom")
    hits, ps, cl = sites(ck, f, is_call("setParameterFromString"), named("setParameterFromString"), gc_facts="all")
    if ps is None:
        return ck.und(R, f.loc(), ck.why)
    seen = set()
    for h in hits:
        key, val = h.args[1], h.args[2]
        calls = [s for s in subterms(val) if s[0] == "call" and s[1].endswith("Value::operator[]")]
        if not calls:
            ck.und(R, h.at, "value given to the parameter not interpreted")
            continue
        outer = max(calls, key=lambda c: len(repr(c)))
        if key not in outer[3]:
            ck.bad(R, h.at, "a parameter receives the value of another name")
            continue
        if not has_sub(h.args[0], lambda z: z == ("p", 1)):
            ck.bad(R, h.at, "the value is stored in other parameters than the caller's")
            continue
        ctx = frozenset(s for t, v in h.facts if v and t[0] == "op" and t[1] == "==" for s in strs(t))
        neg = frozenset(s for t, v in h.facts if not v and t[0] == "op" and t[1] == "==" for s in strs(t))
        depth = len(calls)
        if depth == 1 and not ctx:
            seen.add("leaf")
        elif {"mutation", "tpg"} <= ctx or {"mutation", "prog"} <= ctx or ctx and depth == 3 and not ctx - {"mutation", "tpg", "prog"}:
            seen.add("tpg" if "tpg" in ctx else "prog" if "prog" in ctx else "?")
        elif ctx - {"mutation", "tpg", "prog"}:
            ck.bad(R, h.at, "parameters are read under %s" % ".".join(sorted(ctx)))
        else:
            seen.add("?")
    if "?" in seen:
        ck.und(R, f.loc(), "grouping of the parameters not interpreted")
    for x in ("leaf", "tpg", "prog"):
        if x in seen:
            ck.ok(R, x)
        elif seen and "?" not in seen:
            ck.bad(R, f.loc(), "%s parameters are never read" % {"leaf": "top-level", "tpg": "mutation.tpg", "prog": "mutation.prog"}[x])
    if not seen:
        ck.und(R, f.loc(), "no parameter visited")


def load(ck):
    R = "R5-refused"
    f = ck.P.one(PP + "loadParametersFromJson")

    def step(st, ev):
        if ev.kind == "call":
            b = ev.name.rsplit("::", 1)[-1]
            if b == "parseFromStream":
                st.auto = "parsed"
            elif st.auto == "parsed" and ev.name in ("Json::Value::operator=", "Json::Value::clear", "Json::Value::swap"):
                st.auto = "reset"
    hits, ps, cl = sites(ck, f, is_call("parseFromStream", "setAllParamsFrom"), named("setAllParamsFrom", "setParameterFromString"), step)
    if ps is None:
        return ck.und(R, f.loc(), ck.why)
    seen = set()
    for h in hits:
        if h.base == "parseFromStream":
            s = [a for a in h.args] + list(h.ev.a or [])
            known = None
            for t, v in h.facts:
                if t[0] == "call" and t[1].rsplit("::", 1)[-1] in ("is_open", "good", "operator bool"):
                    known = v
                elif t[0] == "call" and t[1].rsplit("::", 1)[-1] in ("fail", "bad", "operator!"):
                    known = not v
            if known is True:
                ck.ok(R, "only an open file is parsed")
            elif known is False:
                ck.bad(R, h.at, "a file that could not be opened is parsed")
            else:
                ck.bad(R, h.at, "the file is parsed without checking that it could be opened")
        else:
            ok = None
            for t, v in h.facts:
                if t[0] == "call" and t[1].endswith("parseFromStream"):
                    ok = v
            if ok is False and h.auto == "parsed":
                ck.bad(R, h.at, "parameters are taken from a malformed file")
            elif ok is False:
                ck.ok(R, "nothing is taken from a malformed file")
            elif ok is None and h.auto is not None:
                ck.bad(R, h.at, "parameters are taken from the file whether or not it is well-formed")
            seen.add(ok)
    if not any(h.base == "parseFromStream" for h in hits):
        ck.und(R, f.loc(), "reading of the file not interpreted")
    elif True not in seen:
        ck.bad(R, f.loc(), "the parameters of a well-formed file are not stored") if seen else ck.bad(R, f.loc(), "the parameters read are never stored")

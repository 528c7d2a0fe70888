"""C25: a graph only contains elements of its factory."""
from ..core import *
from ..ir import short
from .c24 import strip

FB = "TPG::TPGFactory"
G = "TPG::TPGGraph"
MADE = {"createTPGTeam": "TPG::TPGTeam", "createTPGAction": "TPG::TPGAction", "createTPGEdge": "TPG::TPGEdge",
        "createTPGExecutionEngine": "TPG::TPGExecutionEngine", "createTPGGraph": G}
FACT = G + "::factory"


def check(ck):
    P = ck.P
    P.need_field(G, "factory")
    ck.rule("R1-kind", "a factory creates every element in its own kind, from the arguments it is given", 8)
    ck.rule("R2-only", "elements, graphs, engines and factories are only created by the factories", 5)
    ck.rule("R3-given", "graphs and agents use the factory given by the user", 3)
    ck.rule("R4-move", "moving and assigning a graph transfer its factory with its elements", 2)
    ck.rule("R5-add", "the elements added to a graph are those its factory made", 3)
    kinds(ck)
    only(ck)
    given(ck)
    move(ck)
    add(ck)


def family(P, base):
    return {base} | {short(x) if isinstance(x, str) else x for x in P.derived_short(base)}


def inner(t):
    """class behind a smart pointer type"""
    t = short(t)
    for w in ("std::unique_ptr<", "std::shared_ptr<"):
        if t.startswith(w):
            t = t[len(w):].split(",")[0].rstrip("> ")
    return t.strip()


def raw_inner(t):
    import re
    m = re.match(r"(?:class )?std::(?:unique|shared)_ptr<\s*([\w:]+)", t)
    return m.group(1) if m else short(t)


def made(t):
    """(class, constructor arguments) of the object a create method answers"""
    t = strip(t)
    if t[0] == "new":
        return raw_inner(t[1]), (t[3] if len(t) > 3 else None)
    if t[0] == "obj" or t[0] == "ctor":
        return raw_inner(t[1]), (t[3] if len(t) > 3 else None)
    return None


def kinds(ck):
    R = "R1-kind"
    P = ck.P
    for cls in sorted(family(P, FB)):
        own = {f.base: f for f in P.funcs.values() if f.blocks and f.scls == cls and f.base in MADE}
        for m, base in MADE.items():
            f = own.get(m)
            if f is None:
                if cls != FB:
                    # inherited from a factory of another kind
                    ck.bad(R, cls, "%s does not define %s: its graphs get plain elements" % (cls, m))
                else:
                    ck.bad(R, cls, "%s has no %s" % (cls, m))
                continue
            news = []

            def step(st, ev):
                if ev.kind == "ctor" and short(ev.name.rsplit("::", 1)[0]) in family(P, base):
                    h = Hit(ev, st)
                    st.auto = st.auto + ((short(ev.name.rsplit("::", 1)[0]), tuple(h.args)),)
            hits, ps, cl = sites(ck, f, lambda ev: False, None, step, (), gc_facts="all")
            if ps is None:
                ck.und(R, f.loc(), ck.why)
                continue
            for p in ps:
                if p.kind != "ret":
                    continue
                x = made(p.ret) if p.ret else None
                if x is None or x[0] not in family(P, base) and "TPG" not in x[0]:
                    ck.und(R, f.loc(), "%s: element not interpreted: %s" % (f.sname, pp(p.ret)))
                    continue
                kind(ck, cls, f, m, base, x, p)


def kind(ck, cls, f, m, base, x, p):
    R = "R1-kind"
    P = ck.P
    c, args = x
    if args is None:
        for n, a in p.auto:
            if n == c:
                args = a
    if m == "createTPGGraph":
        if not args:
            return ck.und(R, f.loc(), f.sname + " not interpreted")
        fac = made(args[1]) if len(args) > 1 else None
        if len(args) < 2:
            fac = (FB, ())
        if fac is None:
            if has_sub(args[1], lambda s: s == THIS):
                return ck.und(R, f.loc(), f.sname + ": factory of the graph not interpreted")
            return ck.und(R, f.loc(), f.sname + ": factory of the graph not interpreted: " + pp(args[1]))
        if fac[0] != cls:
            ck.bad(R, f.loc(), "%s gives the graph a %s" % (f.sname, fac[0]))
        elif has_sub(args[0], lambda s: s == ("p", 0)):
            ck.ok(R, f.sname)
        else:
            ck.und(R, f.loc(), "environment of the graph not interpreted")
        return
    if cls == FB and c != base:
        ck.bad(R, f.loc(), "%s creates a %s" % (f.sname, c))
        return
    if cls != FB:
        sub = family(P, base) - {base}
        if c == base:
            ck.bad(R, f.loc(), "%s creates a plain %s" % (f.sname, c))
            return
        if c not in sub:
            ck.bad(R, f.loc(), "%s creates a %s" % (f.sname, c))
            return
    # arguments handed over, in order
    want = [("p", i) for i in range(len(f.params))]
    got = [a for a in (args or ())]
    if args is None:
        return ck.ok(R, f.sname) if not want else ck.und(R, f.loc(), "arguments not interpreted")
    gi = []
    for a in got:
        k = [s for s in subterms(a) if s[0] == "p"]
        gi.append(k[0] if len(set(k)) == 1 else a)
    if gi[:len(want)] == want:
        ck.ok(R, f.sname)
    elif any(g in want and want.index(g) != i for i, g in enumerate(gi)) or len(gi) < len(want) or any(a[0] in ("c", "b") for a in gi):
        ck.bad(R, f.loc(), "%s creates the element from (%s)" % (f.sname, ", ".join(pp(a) for a in got)))
    else:
        ck.und(R, f.loc(), "arguments not interpreted: " + ", ".join(pp(a) for a in got))


def only(ck):
    R = "R2-only"
    P = ck.P
    facs = family(P, FB)
    fam = set(facs)
    for b in MADE.values():
        fam |= family(P, b)
    callers = P.callers()

    def infactory(f, seen):
        """member of a factory, or helper called by factories only"""
        if f.scls in facs:
            return True
        if f.id in seen:
            return True
        seen.add(f.id)
        cs = callers.get(f.id, ())
        return bool(cs) and all(infactory(P.funcs[c], seen) for c in cs if c in P.funcs)
    for f in sorted(P.funcs.values(), key=lambda f: f.loc()):
        if not f.blocks:
            continue
        for n in f.nodes():
            t = None
            if n["k"] == "ctor":
                t = short(n.get("cls") or n.get("t", ""))
                if t not in fam:
                    continue
                if f.base == f.scls.rsplit("::", 1)[-1] if f.scls else False:
                    if f.scls in family(P, t):
                        continue  # part of an object of a derived class
                a = n.get("a") or ()
                if len(a) == 1 and t in short(str((f.node(a[0]) or {}).get("t", ""))):
                    continue  # copy or move
            elif n["k"] == "call" and short(n.get("fn") or "") in ("std::make_unique", "std::make_shared"):
                t = raw_inner(n.get("t", ""))
                if t not in fam:
                    continue
            else:
                continue
            if infactory(f, set()):
                ck.ok(R, "%s in %s" % (t, f.sname))
            else:
                ck.bad(R, f.loc(n.get("l")), "%s creates a %s without the factory of its graph" % (f.sname, t))


def given(ck):
    R = "R3-given"
    P = ck.P
    for f in sorted(P.funcs.values(), key=lambda f: f.loc()):
        if not f.blocks or not f.scls or f.base != f.scls.rsplit("::", 1)[-1]:
            continue
        k = [i for i, p in enumerate(f.params) if "Factory" in p["t"]]
        if len(k) != 1:
            continue
        if f.scls == G:
            fp = allpaths(ck, f)
            for p in fp or ():
                if p.kind == "ret":
                    v = p.get(TF(FACT))
                    if has_sub(v, lambda s: s == ("p", k[0])):
                        ck.ok(R, f.sname)
                    elif made(v) or v[0] in ("c",):
                        ck.bad(R, f.loc(), "the graph does not keep the factory given")
                    else:
                        ck.und(R, f.loc(), "factory of the graph not interpreted: " + pp(v))
        elif f.scls in {"Learn::LearningAgent"} | {short(x) for x in P.derived_short("Learn::LearningAgent")}:
            def pred(ev):
                if ev.kind == "ctor":
                    c = ev.name.rsplit("::", 1)[0]
                    return short(c) in agents and short(c) != f.scls
                return ev.kind == "call" and ev.name.rsplit("::", 1)[-1] == "createTPGGraph"
            agents = {"Learn::LearningAgent"} | {short(x) for x in P.derived_short("Learn::LearningAgent")}
            hits, ps, cl = sites(ck, f, pred, lambda g: g.base == "createTPGGraph" or g.scls in agents or (g.scls or "").startswith(("Data::", "Environment", "Instructions::", "Archive")),
                                 None, None, gc_facts=False, ext_throws=False)
            if not hits:
                if f.scls == "Learn::LearningAgent":
                    ck.und(R, f.loc(), "creation of the graph not found") if ps is None else ck.bad(R, f.loc(), "the agent's graph does not come from the factory given")
                else:
                    ck.und(R, f.loc(), "base constructor not found")
                continue
            for h in hits:
                if h.base == "createTPGGraph":
                    if has_sub(h.o, lambda s: s == ("p", k[0])):
                        ck.ok(R, f.sname)
                    elif has_sub(h.o, lambda s: s[0] in ("obj", "new", "cobj") and len(s) > 1 and "Factory" in str(s[1])):
                        ck.bad(R, h.at, "the agent's graph comes from another factory than the one given")
                    else:
                        ck.und(R, h.at, "factory used not interpreted: " + pp(h.o))
                else:
                    if any(has_sub(a, lambda s: s == ("p", k[0])) for a in h.args):
                        ck.ok(R, f.sname)
                    else:
                        ck.bad(R, f.loc(), "the factory given to %s is not handed to its base" % f.sname)
    # engines of the agents come from the factory of the graph
    for f in sorted(P.funcs.values(), key=lambda f: f.loc()):
        if not f.blocks or f.scls in family(P, FB):
            continue
        for n in f.calls():
            b = (n.get("fn") or "").rsplit("::", 1)[-1]
            if b in MADE and f.scls and f.scls != G and not f.scls.startswith("TPG::"):
                o = f.node(n["o"]) if n.get("o") is not None else None
                txt = origin(f, o, 0)
                if "getFactory" in txt or b == "createTPGGraph" and f.base == f.scls.rsplit("::", 1)[-1]:
                    ck.ok(R, "%s in %s" % (b, f.sname))
                elif "TPGFactory()" in txt or "InstrumentedFactory" in txt:
                    ck.bad(R, f.loc(n.get("l")), "%s uses another factory than the one of the graph" % f.sname)
                else:
                    ck.und(R, f.loc(n.get("l")), "factory used not interpreted")


def origin(f, n, d):
    """text of what an object expression is made from (through one local)"""
    if n is None or d > 3:
        return ""
    out = ""
    for x in walk_(f, n):
        if x["k"] == "call" and x.get("fn"):
            out += " " + x["fn"]
        if x["k"] == "ctor":
            out += " %s()" % (x.get("cls") or "")
        if x["k"] == "var":
            for y in f.nodes():
                if y["k"] == "decls":
                    for v in y["v"]:
                        if v["d"] == x.get("d"):
                            out += origin(f, f.node(v["i"]) if v.get("i") is not None else None, d + 1)
                            out += " " + v.get("t", "")
    return out


def walk_(f, n):
    yield n
    for k in ("o", "b", "x", "y"):
        if n.get(k) is not None:
            m = f.node(n[k])
            if m:
                yield from walk_(f, m)
    for a in n.get("a") or ():
        m = f.node(a)
        if m:
            yield from walk_(f, m)


def move(ck):
    R = "R4-move"
    P = ck.P
    fields = []
    for r in P.cls(G):
        fields = [x["n"] for x in r.get("fields", ()) if "&" not in x["t"]]
        if fields:
            break
    for f in sorted(P.funcs.values(), key=lambda f: f.loc()):
        if not f.blocks or f.scls != G or f.base not in ("TPGGraph", "operator=") or not f.params or "TPGGraph" not in f.params[0]["t"]:
            continue

        def from_model(t, fl):
            return has_sub(t, lambda s: is_loc(s) and s[0] == "F" and s[2] == G + "::" + fl and s[1] != SELF)

        def step(st, ev):
            if ev.kind in ("call", "write", "ctor"):
                terms = [x for x in [ev.o, ev.loc, ev.val] if isinstance(x, tuple)] + list(ev.a or [])
                for fl in fields:
                    me = any(has_sub(t, lambda s: s == TF(G + "::" + fl)) for t in terms)
                    if me and any(from_model(t, fl) for t in terms):
                        st.auto = st.auto | {fl}
        hits, ps, cl = sites(ck, f, lambda ev: False, None, step, frozenset())
        if ps is None:
            ck.und(R, f.loc(), ck.why)
            continue
        for p in ps:
            if p.kind != "ret":
                continue
            same = any(t[0] == "op" and t[1] == "==" and v and any(x == THIS or x == ("addr", SELF) for x in t[2:4]) for t, v in p.facts)
            for fl in fields:
                v = p.get(TF(G + "::" + fl))
                if fl in p.auto or from_model(v, fl) or same:
                    ck.ok(R, "%s %s: %s" % (f.base, f.loc().rsplit(":", 1)[-1], fl))
                else:
                    ck.bad(R, f.loc(), "%s(%s) does not transfer %s" % (f.sname, f.params[0]["t"], fl))


def add(ck):
    R = "R5-add"
    P = ck.P
    for name, cont, make, nargs in (("addNewTeam", "vertices", "createTPGTeam", 0), ("addNewAction", "vertices", "createTPGAction", 1), ("addNewEdge", "edges", "createTPGEdge", 3)):
        for f in [x for x in P.funcs.values() if x.blocks and x.scls == G and x.base == name]:
            def step(st, ev):
                if ev.kind != "call":
                    return
                b = ev.name.rsplit("::", 1)[-1]
                if b in MADE:
                    h = Hit(ev, st)
                    st.auto = st.auto + (("make", b, ev.o, tuple(h.args), ev.at()),)
                elif ev.o is not None and fld_of(ev.o) == G + "::" + cont and b in ("push_back", "emplace_back", "push_front", "emplace_front", "insert", "emplace"):
                    h = Hit(ev, st)
                    st.auto = st.auto + (("add", b, h.args[-1], ev.at()),)
            hits, ps, cl = sites(ck, f, lambda ev: False, lambda g: g.base in MADE or g.base in ("addOutgoingEdge", "addIncomingEdge"), step, ())
            if ps is None:
                ck.und(R, f.loc(), ck.why)
                continue
            for p in ps:
                if p.kind != "ret":
                    continue
                mk = [x for x in p.auto if x[0] == "make"]
                ad = [x for x in p.auto if x[0] == "add"]
                if len(mk) != 1 or not ad:
                    ck.und(R, f.loc(), "%s not interpreted" % f.sname) if mk else ck.bad(R, f.loc(), "%s does not use the factory" % f.sname)
                    continue
                if mk[0][1] != make:
                    ck.bad(R, mk[0][4], "%s makes its element with %s" % (f.sname, mk[0][1]))
                    continue
                if not has_sub(mk[0][2], lambda s: s == TF(FACT)):
                    ck.und(R, mk[0][4], "factory used not interpreted: " + pp(mk[0][2]))
                    continue
                want = [("p", i) for i in range(nargs)]
                got = []
                for a in mk[0][3]:
                    ks = {s for s in subterms(a) if s[0] == "p"}
                    got.append(ks.pop() if len(ks) == 1 else a)
                if got != want:
                    ck.bad(R, mk[0][4], "%s makes an element from (%s)" % (f.sname, ", ".join(pp(a) for a in mk[0][3]))) if all(g[0] in ("p", "c") for g in got) else \
                        ck.und(R, mk[0][4], "arguments not interpreted")
                    continue
                ck.ok(R, f.sname)

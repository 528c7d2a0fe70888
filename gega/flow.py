"""Path-sensitive dataflow (typestate) engine over the clang CFGs.

Values are canonical access-path terms (global value numbering): a term names
where a value comes from, independent of local variable names and of how the
expression was split into statements. At every loop head the locals and memory
regions the loop may write are replaced by fresh 'phi' terms, so each loop body
is traversed a bounded number of times. States are kept apart by branch facts
up to a cap and merged above it. Calls into the repository are analysed in
place (context-sensitively) unless the client declares them primitive; other
calls go through a model of the C++ library or havoc what they may write.

Clients subclass Client and receive events.
"""
from .ir import AnalysisError, Func, short, walk
import re
import sys

sys.setrecursionlimit(20000)

LOCK = {"L", "F", "E", "*", "G", "T"}
NULL = ("c", None)
THIS_ = ("this",)


def is_loc(t):
    return isinstance(t, tuple) and t and t[0] in LOCK


def C(v):
    # kinds kept apart: python's 1 == True == 1.0
    if isinstance(v, bool):
        return ("b", v)
    if isinstance(v, float):
        return ("f", v)
    return ("c", v)


CK = ("c", "b", "f")


TRUE, FALSE = C(True), C(False)

CONT = ("std::vector", "std::list", "std::deque", "std::map", "std::set", "std::multimap",
        "std::multiset", "std::unordered_map", "std::unordered_set", "std::array",
        "std::basic_string", "std::queue", "std::stack", "std::priority_queue",
        "std::_Rb_tree", "std::initializer_list", "std::pair", "std::match_results", "std::forward_list")
PURE = {"size", "empty", "begin", "end", "cbegin", "cend", "rbegin", "rend", "crbegin", "crend",
        "find", "count", "at", "front", "back", "data", "c_str", "lower_bound", "upper_bound",
        "equal_range", "length", "get", "contains", "max_size", "substr", "compare", "top",
        "find_first_of", "find_last_of", "rfind", "capacity", "position", "str", "has_value",
        "value", "use_count", "owner_before", "key_comp"}
SMART = ("std::shared_ptr", "std::unique_ptr", "std::reference_wrapper", "std::__shared_ptr",
         "std::__shared_ptr_access", "std::weak_ptr", "std::optional", "std::__uniq_ptr_impl")
FORWARDS = {"make_tuple", "make_pair", "make_shared", "make_unique", "emplace", "emplace_back", "emplace_front", "try_emplace", "get", "tie"}
IDENT_FREE = {"std::move", "std::forward", "std::ref", "std::cref", "std::as_const",
              "std::static_pointer_cast", "std::dynamic_pointer_cast", "std::const_pointer_cast",
              "std::addressof"}


WRITERS = {"copy", "copy_if", "transform", "fill", "sort", "stable_sort", "shuffle", "reverse", "remove_if", "remove",
           "iota", "generate", "fill_n", "copy_n", "unique", "rotate", "partition", "replace", "replace_if", "swap_ranges",
           "nth_element", "partial_sort", "set_intersection", "set_difference", "set_union", "move", "generate_n",
           "insert_iterator"}
SRC_FIRST = {"std::copy", "std::copy_if", "std::transform", "std::copy_n", "std::set_difference", "std::set_union",
             "std::set_intersection"}
STD_EXC = {"std::runtime_error": "std::exception", "std::logic_error": "std::exception",
           "std::out_of_range": "std::logic_error", "std::invalid_argument": "std::logic_error",
           "std::length_error": "std::logic_error", "std::domain_error": "std::logic_error",
           "std::range_error": "std::runtime_error", "std::overflow_error": "std::runtime_error",
           "std::bad_cast": "std::exception", "std::bad_alloc": "std::exception", "std::bad_typeid": "std::exception"}


def caught_by(P, ty, cty):
    """does a handler for cty catch an exception of class ty? None: unknown"""
    if not cty or cty == "...":
        return True
    c = cty.replace("const ", "").rstrip("& ").strip()
    t = ty.replace("const ", "").rstrip("& ").strip()
    seen = set()
    while t and t not in seen:
        seen.add(t)
        if t == c:
            return True
        if t in STD_EXC:
            t = STD_EXC[t]
        elif t in P.classes and P.classes[t]["bases"]:
            t = P.classes[t]["bases"][0]
        elif t == "std::exception":
            return False
        else:
            return None
    return False


LOOPT = ("ForStmt", "WhileStmt", "DoStmt", "CXXForRangeStmt")


def loop_head_of(f, b):
    """innermost loop containing block b"""
    best = None
    for h, body in loops_of(f).items():
        if b in body and (best is None or len(body) < len(loops_of(f)[best])):
            best = h
    return best


def loop_cont(st, tag):
    """container a loop ran over, from its exit condition"""
    for t, v in st.facts:
        if t[0] == "op" and t[1] == "==" and v:
            for a, b in ((t[2], t[3]), (t[3], t[2])):
                if a[0] == "lit" and a[1] == tag and b[0] == "it" and b[1] in ("end", "rend", "begin"):
                    return b[2], a[4]
                if a[0] == "phi" and a[1] == tag and b[0] == "size":
                    return b[1], a[2]
        if t[0] == "op" and t[1] in ("<", "<="):
            for a, b in ((t[2], t[3]), (t[3], t[2])):
                if isinstance(a, tuple) and a[0] == "phi" and a[1] == tag:
                    if b[0] == "size":
                        return b[1], a[2]
                    return ("upto", b), a[2]
    return None, None


def is_iter_type(t):
    t = t or ""
    s = short(t)
    return ("_iterator" in s) or s.endswith("iterator")


class State:
    __slots__ = ("m", "ver", "facts", "auto", "tmp", "cov")

    def __init__(self):
        self.m = {}
        self.ver = {}
        self.facts = frozenset()
        self.auto = None
        self.tmp = {}
        self.cov = frozenset()

    def copy(self):
        s = State()
        s.m = dict(self.m)
        s.ver = dict(self.ver)
        s.facts = self.facts
        s.auto = self.auto
        s.cov = self.cov
        s.tmp = dict(self.tmp)
        return s

    def key(self):
        return (self.auto, self.cov, self.facts, frozenset(self.m.items()), frozenset(self.ver.items()),
                frozenset(self.tmp.items()))


def region(loc):
    k = loc[0]
    if k == "F":
        return loc[2]
    if k == "E":
        return ("E", region(loc[1]))
    if k == "*":
        return ("P",)
    if k == "L":
        return loc
    if k == "G":
        return ("G", loc[1])
    return ("T",)


def root_local(loc):
    """the local variable a location lives inside, if any"""
    while is_loc(loc):
        if loc[0] == "L":
            return loc
        if loc[0] in ("F", "E"):
            loc = loc[1]
        else:
            return None
    return None


def mentions(t, pred):
    if not isinstance(t, tuple) or not t:
        return False
    if pred(t):
        return True
    return any(mentions(x, pred) for x in t if isinstance(x, tuple))


def subst(t, f):
    r = f(t)
    if r is not None:
        return r
    if isinstance(t, tuple):
        return tuple(subst(x, f) if isinstance(x, tuple) else x for x in t)
    return t


def subterms(t):
    st = [t]
    while st:
        x = st.pop()
        if isinstance(x, tuple) and x:
            yield x
            st.extend(x)


def num(v):
    return isinstance(v, tuple) and v[0] == "c" and isinstance(v[1], int)


FLOAT = ("double", "float", "long double")


def lin(t):
    """integer term -> ({atom: coef}, const)"""
    if num(t) and isinstance(t[1], int):
        return {}, t[1]
    if isinstance(t, tuple) and t[0] == "op" and len(t) == 4:
        if t[1] in ("+", "-"):
            a, ca = lin(t[2])
            b, cb = lin(t[3])
            s = 1 if t[1] == "+" else -1
            r = dict(a)
            for k, v in b.items():
                r[k] = r.get(k, 0) + s * v
                if r[k] == 0:
                    del r[k]
            return r, ca + s * cb
        if t[1] == "*":
            a, ca = lin(t[2])
            b, cb = lin(t[3])
            if not a:
                return {k: v * ca for k, v in b.items() if v * ca}, ca * cb
            if not b:
                return {k: v * cb for k, v in a.items() if v * cb}, ca * cb
    return {t: 1}, 0


def lin_le(f, facts):
    """does a set of facts entail  f[0].x + f[1] >= 0 ?  (difference constraints,
    transitive closure by bounded search; unsigned atoms are not assumed >= 0)"""
    cons = []
    for t, v in facts:
        if isinstance(t, tuple) and t[0] == "op" and len(t) == 4 and t[1] in ("<", "<="):
            if t[4:] == () and True:
                a, ca = lin(t[2])
                b, cb = lin(t[3])
                d = dict(b)
                for k, c in a.items():
                    d[k] = d.get(k, 0) - c
                    if d[k] == 0:
                        del d[k]
                k0 = cb - ca - (1 if t[1] == "<" else 0)  # b-a-1>=0
                if v:
                    cons.append((d, k0))
                else:
                    # a>=b (integers): a-b>=0 ;  not(a<=b): a-b-1>=0
                    cons.append(({k: -c for k, c in d.items()},
                                 (ca - cb) - (0 if t[1] == "<" else 1)))
        elif isinstance(t, tuple) and t[0] == "op" and t[1] == "==" and v:
            a, ca = lin(t[2])
            b, cb = lin(t[3])
            d = dict(b)
            for k, c in a.items():
                d[k] = d.get(k, 0) - c
                if d[k] == 0:
                    del d[k]
            cons.append((d, cb - ca))
            cons.append(({k: -c for k, c in d.items()}, ca - cb))
    goal, g0 = f

    def rec(g, c, depth, used):
        if not g and c >= 0:
            return True
        if depth == 0:
            return False
        for i, (d, k) in enumerate(cons):
            if i in used:
                continue
            # subtract constraint: goal = d + rest
            if not any(a in g and (g[a] > 0) == (cf > 0) for a, cf in d.items()):
                continue
            r = dict(g)
            for a, cf in d.items():
                r[a] = r.get(a, 0) - cf
                if r[a] == 0:
                    del r[a]
            if rec(r, c - k, depth - 1, used | {i}):
                return True
        return False

    return rec(goal, g0, 4, frozenset())


def entails_lt(a, b, facts, strict=True):
    x, cx = lin(a)
    y, cy = lin(b)
    d = dict(y)
    for k, c in x.items():
        d[k] = d.get(k, 0) - c
        if d[k] == 0:
            del d[k]
    return lin_le((d, cy - cx - (1 if strict else 0)), facts)


def lit_of(v):
    """(container, reversed?) when v is an iterator into a known container"""
    x = v
    while isinstance(x, tuple) and x:
        if x[0] == "it":
            return (x[2], x[1] in ("rbegin", "rend"))
        if x[0] == "lit":
            return (x[2], x[3])
        if x[0] == "op" and len(x) == 4 and x[1] in ("+", "-"):
            return lit_of(x[2]) or lit_of(x[3])
        if x[0] == "call" and x[1].rsplit("::", 1)[-1] in ("erase", "insert", "lower_bound", "upper_bound", "emplace") and x[2] is not None:
            return (x[2], False)
        return None
    return None


def mkop(op, a, b, flt=False):
    if op in ("+", "-", "*") and not flt:
        if num(a) and num(b) and isinstance(a[1], int) and isinstance(b[1], int):
            return C({"+": a[1] + b[1], "-": a[1] - b[1], "*": a[1] * b[1]}[op])
        if op in ("+", "-"):
            d, c = lin(("op", op, a, b))
            if not d:
                return C(c)
            # canonical rebuild
            items = sorted(d.items(), key=lambda kv: (kv[1] < 0, repr(kv[0])))
            t = None
            for k, v in items:
                term = k if abs(v) == 1 else ("op", "*", k, C(abs(v)))
                if t is None:
                    t = term if v > 0 else ("op", "-", C(0), term)
                else:
                    t = ("op", "+" if v > 0 else "-", t, term)
            if c > 0:
                t = ("op", "+", t, C(c))
            elif c < 0:
                t = ("op", "-", t, C(-c))
            return t
    if op in ("+", "*", "&", "|", "^", "&&", "||"):
        if repr(b) < repr(a):
            a, b = b, a
    if op == "==":
        if a == b and not flt:
            return TRUE
        for x, y in ((a, b), (b, a)):
            if x == NULL and (y[0] in ("new", "lambda") or y[0] == "addr" and y[1][0] in ("L", "F", "E", "G")):
                return FALSE
        if a[0] in CK and a[0] == b[0] and a[1] is not None and b[1] is not None:
            return C(a[1] == b[1])
        if repr(b) < repr(a):
            a, b = b, a
        # find(k)==end()  ->  !has(k)
        for x, y in ((a, b), (b, a)):
            if x[0] == "it" and x[1] == "find" and y[0] == "it" and y[1] == "end" and x[2:4] == y[2:4]:
                return ("not", ("has",) + x[2:])
            if x[0] == "it" and x[1] == "begin" and y[0] == "it" and y[1] == "end" and x[2:4] == y[2:4]:
                return ("op", "==", ("size",) + x[2:4], C(0))
            if x[0] == "count" and y == C(0):
                return ("not", ("has",) + x[1:])
            if x == FALSE:
                return mknot(y)
            if x == TRUE:
                return y
        return ("op", "==", a, b)
    if op == "!=":
        return mknot(mkop("==", a, b, flt))
    if op in (">", ">="):
        return mkop("<" if op == ">" else "<=", b, a, flt)
    if op == "<=" and not flt:
        return mknot(mkop("<", b, a))
    if op == "<" and not flt:
        if num(a) and num(b):
            return C(a[1] < b[1])
        if a == b:
            return FALSE
        # 0 < size  -> size != 0
        if a == C(0) and isinstance(b, tuple) and b[0] in ("size", "count"):
            return mknot(mkop("==", b, C(0)))
        if b == C(1) and isinstance(a, tuple) and a[0] in ("size", "count"):
            return mkop("==", a, C(0))
    return ("op", op, a, b)


def mknot(a):
    if a[0] == "not":
        return a[1]
    if a[0] == "b":
        return C(not a[1])
    return ("not", a)


def fact_of(t, truth):
    while t[0] == "not":
        t = t[1]
        truth = not truth
    return (t, truth)


class Client:
    """override what is needed"""
    max_states = 48
    max_depth = 6
    budget = 60000
    init_auto = None
    ext_throws = False
    use_cov = False
    gc_facts = False

    def primitive(self, f):
        """True: do not descend into this repository function"""
        return False

    def event(self, st, ev):
        """ev: Event. st.auto may be replaced. May return a list of states."""
        return None

    def refine(self, st, t, truth):
        return True

    def interested(self, f):
        return True

    def keep_fact(self, t):
        """branch facts this analysis needs (dropping others bounds the states)"""
        return True


class Event:
    __slots__ = ("kind", "name", "f", "o", "a", "val", "loc", "node", "func", "frame", "res", "am", "oval", "state", "targets", "prev", "pre", "av")

    def __init__(self, kind, **kw):
        for s in self.__slots__:
            setattr(self, s, None)
        self.kind = kind
        for k, v in kw.items():
            setattr(self, k, v)

    @property
    def base(self):
        return (self.name or "").rsplit("::", 1)[-1]

    def at(self):
        return self.func.loc(self.node.get("l") if self.node else None)


class LoopInfo:
    pass


def loops_of(f):
    """loop heads -> set of blocks in the loop (natural loops)"""
    if hasattr(f, "_loops"):
        return f._loops
    succ = {b: [s for s in blk["s"] if s is not None] for b, blk in f.blocks.items()}
    # iterative DFS for back edges
    color, back = {}, []
    st = [(f.entry, iter(succ[f.entry]))]
    color[f.entry] = 1
    while st:
        b, it = st[-1]
        nx = next(it, None)
        if nx is None:
            color[b] = 2
            st.pop()
            continue
        c = color.get(nx, 0)
        if c == 0:
            color[nx] = 1
            st.append((nx, iter(succ[nx])))
        elif c == 1:
            back.append((b, nx))
    pred = {}
    for a, l in succ.items():
        for b in l:
            pred.setdefault(b, []).append(a)
    heads = {}
    for a, h in back:
        body = {h}
        w = [a]
        while w:
            x = w.pop()
            if x in body:
                continue
            body.add(x)
            w.extend(pred.get(x, ()))
        heads.setdefault(h, set()).update(body)
    f._loops = heads
    return heads


# ---------------------------------------------------------------------------
def direct_mods(P, f):
    """field names ("Cls::f"), param indices, globals and locals possibly written
    directly by f (not its callees)."""
    if hasattr(f, "_dmods"):
        return f._dmods
    flds, pars, globs, locs = set(), set(), set(), set()
    pidx = {p["d"]: i for i, p in enumerate(f.params)}
    refinit = {}
    for n in f.nodes():
        if n["k"] == "decls":
            for v in n["v"]:
                if v.get("i") is not None and (v.get("isref") or "iterator" in v.get("t", "") or v.get("t", "").endswith("*")):
                    refinit[v["d"]] = v["i"]

    def target(ref, seen=()):
        n = f.node(ref)
        if not isinstance(n, dict):
            return
        k = n["k"]
        if k == "mem":
            flds.add(short(n["cls"]) + "::" + n["n"])
            # writing a member of a struct kept in a container/another field
            b = f.node(n["b"])
            if isinstance(b, dict) and not n.get("arrow"):
                target(b, seen)
        elif k == "var":
            d = n["d"]
            locs.add(d)
            if d in pidx and (n.get("isref")):
                pars.add(pidx[d])
            if d in refinit and d not in seen:
                target(refinit[d], seen + (d,))
        elif k == "binding":
            if n.get("of") in refinit:
                target(refinit[n["of"]], seen + (n["of"],))
        elif k == "gvar":
            globs.add(n["n"])
        elif k in ("cast", "load"):
            target(n["x"], seen)
        elif k == "un" and n["op"] in ("*", "&", "++", "--"):
            target(n["x"], seen)
        elif k == "sub":
            target(n["x"], seen)
        elif k == "cond":
            target(n["x"], seen)
            target(n["y"], seen)
        elif k == "call":
            # element/iterator access: charge the container
            if n.get("o") is not None:
                target(n["o"], seen)
            elif n.get("a"):
                target(n["a"][0], seen)
        elif k == "ctor" and n.get("a"):
            target(n["a"][0], seen)
        elif k == "other" and n.get("a"):
            target(n["a"][0], seen)

    for n in f.nodes():
        k = n["k"]
        if k == "asg":
            target(n["x"])
        elif k == "un" and n["op"] in ("++", "--"):
            target(n["x"])
        elif k == "init" and n.get("n"):
            flds.add(short(n["cls"]) + "::" + n["n"])
        elif k == "decls":
            for v in n["v"]:
                locs.add(v["d"])
        elif k == "call":
            repo = bool(P.targets(n))
            nm = short(n.get("fn", "")).rsplit("::", 1)[-1]
            if n.get("o") is not None and not n.get("const") and not n.get("static"):
                if not repo and nm not in PURE and not (nm in ("operator*", "operator->")):
                    t = short(n.get("cls") or "")
                    if nm == "operator[]" and "map" not in t:
                        pass
                    elif t in SMART and nm in ("operator*", "operator->", "get"):
                        pass
                    else:
                        target(n["o"])
                elif repo:
                    # method on a local/field object: may write it
                    o = f.node(n["o"])
                    if isinstance(o, dict) and o["k"] == "var" and not o.get("isref"):
                        locs.add(o["d"])
            for i, a in enumerate(n.get("a", [])):
                if i < len(n.get("am", "")) and n["am"][i] in "mxq":
                    if short(n.get("fn", "")) in IDENT_FREE or nm in FORWARDS and n["am"][i] == "m":
                        continue
                    if repo and all(not wparam(P, t, i) for t in P.targets(n)):
                        continue
                    target(a)
        elif k == "ctor":
            for i, a in enumerate(n.get("a", [])):
                if i < len(n.get("am", "")) and n["am"][i] == "x":
                    # moved-from
                    an = f.node(a)
                    if isinstance(an, dict) and an["k"] == "call" and short(an.get("fn", "")) == "std::move" and an["a"]:
                        target(an["a"][0])
    f._dmods = (flds, pars, globs, locs)
    return f._dmods


def wparam(P, f, i):
    """may f write through its i-th (reference) parameter? (one level; deep via recursion guard)"""
    key = (f.id, i)
    c = P.__dict__.setdefault("_wp", {})
    if key in c:
        return c[key]
    c[key] = True  # conservative on recursion
    if i >= len(f.params):
        return True
    r = i in direct_mods(P, f)[1]
    c[key] = r
    return r


def mods(P, f):
    """transitive: fields and globals possibly written"""
    if getattr(P, "_modsets", None) is None:
        P._modsets = {}
    if f.id in P._modsets:
        return P._modsets[f.id]
    # SCC-free: iterate over reachable set
    ids = P.reach([f])
    fl, gl = set(), set()
    for i in ids:
        a = direct_mods(P, P.funcs[i])
        fl |= a[0]
        gl |= a[2]
    P._modsets[f.id] = (fl, gl)
    return P._modsets[f.id]


# ---------------------------------------------------------------------------
# functions without effect whose body never matters
OPAQUE = ("Data::demangle",)


class Undecided(Exception):
    pass


class Engine:
    def __init__(self, P, client):
        self.P = P
        self.cl = client
        self.steps = 0
        self.nodes_seen = set()
        self.funcs_seen = set()
        self.sites = 0

    # ---- entry ---------------------------------------------------------
    def run(self, f, auto=None, setup=None, this=("this",), args=None):
        """analyses f as an entry point; returns [(kind, state, retval)]"""
        st = State()
        st.auto = auto
        frame = ()
        if args is None:
            args = [("*", ("p", i)) if p.get("isref") else ("p", i) for i, p in enumerate(f.params)]
        if setup:
            setup(st)
        self.this = this
        st.facts = st.facts | {(mkop("==", NULL, ("p", i)), False) for i, p in enumerate(f.params) if p.get("isref")} | \
            {(mkop("==", NULL, THIS_), False)}
        return self.exec(f, frame, st, this, args, 0)

    # ---- memory --------------------------------------------------------
    def load(self, st, loc):
        if not is_loc(loc):
            return loc
        v = st.m.get(loc)
        if v is not None:
            return v
        if loc[0] == "T":
            return loc[1]
        r = region(loc)
        if loc[0] == "L":
            return ("ld", loc, st.ver.get(r, 0))
        if loc[0] == "F":
            b = loc[1]
            # field of a value (by-value struct): pair/first etc.
            if b[0] == "T" and isinstance(b[1], tuple) and b[1][0] == "pair":
                if loc[2].endswith("::first"):
                    return b[1][1]
                if loc[2].endswith("::second"):
                    return b[1][2]
            bv = st.m.get(b)
            if bv is not None:
                if bv[0] == "pair":
                    return bv[1] if loc[2].endswith("::first") else bv[2]
                if bv[0] == "ld":
                    return Engine.load(self, st, ("F", bv[1], loc[2])) if bv[1] != b else ("ld", loc, st.ver.get(r, 0))
                return ("fv", bv, loc[2])
        vs = st.ver.get(r, 0)
        if loc[0] == "E" and isinstance(loc[2], tuple) and loc[2] and loc[2][0] == "it" and loc[2][1] == "find":
            return loc[2][4]
        if loc[0] == "E":
            vs = (vs, st.ver.get(region(loc[1]), 0))
        return ("ld", loc, vs)

    def bump(self, st, r, tag, keep=None):
        st.ver[r] = tag
        for k in list(st.m):
            if k == keep:
                continue
            if is_loc(k) and k[0] != "L":
                kr = region(k)
                if kr == r or kr == ("E", r):
                    del st.m[k]

    def store(self, st, loc, val, tag):
        if not is_loc(loc):
            return
        if loc[0] == "L":
            # drop sub-locations
            for k in list(st.m):
                if k != loc and is_loc(k) and root_local(k) == loc:
                    del st.m[k]
            st.ver[loc] = tag
            st.m[loc] = val
            return
        self.bump(st, region(loc), tag)
        rl = root_local(loc)
        if rl is not None and loc[0] == "E":
            pass
        st.m[loc] = val

    def havoc_loc(self, st, loc, tag):
        """contents of loc unknown from here (container or object mutated)"""
        if not is_loc(loc):
            return
        if (st.m.get(loc) or ("",))[0] == "lambda":
            return
        st.m.pop(loc, None)
        for k in list(st.m):
            if is_loc(k) and k != loc:
                x = k
                while is_loc(x) and x[0] in ("F", "E"):
                    x = x[1]
                    if x == loc:
                        del st.m[k]
                        break
        r = region(loc)
        self.bump(st, r, tag)
        self.bump(st, ("E", r), tag)

    # ---- function ------------------------------------------------------
    def exec(self, f, frame, st, this, args, depth):
        P = self.P
        if not f.blocks:
            return [("ret", st, ("unk", frame))]
        self.funcs_seen.add(f.id)
        heads = loops_of(f)
        for p, a in zip(f.params, args):
            if p.get("isref"):
                st.m[("ref", frame, p["d"])] = a if is_loc(a) else ("T", a)
            else:
                st.m[("L", frame, p["d"])] = a
        results = []
        seen = {}
        nvisit = {}
        # reverse post-order worklist for natural merging
        order = rpo(f)
        import heapq
        work = []
        cnt = 0
        pending = {}

        def push(b, s, frm=None):
            if b in heads:
                back = frm is not None and frm in heads[b]
                self.loop_event(s, "back" if back else "enter", ("lp", frame, b), f)
            if frm is not None:
                for hd, body in heads.items():
                    if frm in body and b not in body:
                        normal = frm == hd or (f.blocks[frm].get("t") or {}).get("k") in LOOPT and hd == loop_head_of(f, frm)
                        self.loop_event(s, "exit" if normal else "break", ("lp", frame, hd), f)
            pending.setdefault(b, []).append(s)

        push(f.entry, st)
        heap = [(order.get(f.entry, 0), f.entry)]
        inheap = {f.entry}
        xuse = cross_block_temps(f)
        while heap:
            _, b = heapq.heappop(heap)
            inheap.discard(b)
            sts = pending.pop(b, [])
            blk = f.blocks[b]
            todo = []
            for s in sts:
                if b in heads:
                    self.loop_havoc(f, frame, b, heads[b], s)
                    s.tmp = {}
                else:
                    live = xuse.get(b, ())
                    s.tmp = {k: v for k, v in s.tmp.items() if k[0] != frame or k[1] in live}
                todo.append(s)
            if self.cl.gc_facts:
                ll = live_locals(f) if self.cl.gc_facts == "all" else ((), {})
                for s in todo:
                    self.gc(s, frame, ll[0], ll[1].get(b, ()))
                if len(todo) > 1:
                    u = {}
                    for s in todo:
                        u.setdefault(s.key(), s)
                    todo = list(u.values())
            if len(todo) > 1:
                todo = self.merge_cap(todo, f, b, frame)
            for s in todo:
                k = s.key()
                sk = seen.setdefault(b, set())
                if k in sk:
                    continue
                sk.add(k)
                if len(sk) > 4 * self.cl.max_states:
                    # widen: forget facts
                    if len(sk) > 16 * self.cl.max_states:
                        raise Undecided("too many states in " + f.name)
                if b == f.exit:
                    kind = "throw" if s.tmp.pop((frame, "exc"), None) else "ret"
                    rv = s.m.pop(("rv", frame), None)
                    results.append((kind, s, rv))
                    continue
                for (tgt, s2) in self.run_block(f, frame, blk, s, this, depth):
                    push(tgt, s2, b)
                    if tgt not in inheap:
                        inheap.add(tgt)
                        heapq.heappush(heap, (order.get(tgt, 0), tgt))
        # clean frame locals
        out = []
        seenr = set()
        for kind, s, rv in results:
            if frame != ():
                for k in list(s.m):
                    if isinstance(k, tuple) and len(k) > 1 and ((k[0] in ("L", "ref") and k[1] == frame) or
                                                                 (is_loc(k) and (root_local(k) or (0, 0))[1] == frame)):
                        if not mentions(rv, lambda t: t == k):
                            del s.m[k]
                for k in list(s.ver):
                    if isinstance(k, tuple) and k[0] == "L" and k[1] == frame:
                        del s.ver[k]
                s.tmp = {k: v for k, v in s.tmp.items() if k[0] != frame}
            kk = (kind, rv, s.key())
            if kk in seenr:
                continue
            seenr.add(kk)
            out.append((kind, s, rv))
        if len(out) > self.cl.max_states and frame != ():
            groups = {}
            for kind, s, rv in out:
                groups.setdefault((kind, rv, s.auto), []).append(s)
            out = []
            for (kind, rv, a), l in groups.items():
                out.append((kind, self.join_all(l, ("ret", f.id)), rv))
        return out

    def gc(self, s, frame=None, decl=(), live=()):
        """drops facts about loop values no location holds any more, and locals that are out of scope"""
        if decl:
            held = set()
            dead = {}

            def dl(k):
                """local index when k is a dead local, a reference to one or a part of one"""
                if k[0] == "ref" and k[1] == frame:
                    return k[2] if k[2] in decl and k[2] not in live else None
                if is_loc(k):
                    r = root_local(k)
                    if r and r[1] == frame and r[2] in decl and r[2] not in live:
                        return r[2]
                return None
            for k in s.m:
                if isinstance(k, tuple) and len(k) > 1:
                    d = dl(k)
                    if d is not None:
                        dead.setdefault(d, []).append(k)
            if dead:
                deadk = {k for l in dead.values() for k in l}
                for k, v in list(s.m.items()) + list(s.tmp.items()):
                    if k in deadk:
                        continue
                    for t in subterms(v):
                        if t[0] == "L" and t[1] == frame:
                            held.add(t[2])
                for k in s.m:
                    if k not in deadk and is_loc(k):
                        for t in subterms(k):
                            if t[0] == "L" and t[1] == frame:
                                held.add(t[2])
                gone = set()
                for d, l in dead.items():
                    if d not in held:
                        gone.add(d)
                        for k in l:
                            s.m.pop(k, None)
                if gone:
                    for k in list(s.ver):
                        if any(t[0] == "L" and t[1] == frame and t[2] in gone for t in subterms(k)):
                            del s.ver[k]
                    s.facts = frozenset(x for x in s.facts if not any(
                        t[0] == "L" and t[1] == frame and t[2] in gone for t in subterms(x[0]) if isinstance(t, tuple) and len(t) == 3))
        lv = set()
        kinds = ("phi", "lit") if decl else ("phi",)
        for v in list(s.m.values()) + list(s.tmp.values()):
            for t in subterms(v):
                if t[0] in kinds:
                    lv.add(t)
        s.facts = frozenset(x for x in s.facts if all(t in lv for t in subterms(x[0]) if t[0] in kinds))

    def join_all(self, l, tag):
        r = l[0]
        for s in l[1:]:
            n = State()
            n.auto = r.auto
            n.cov = r.cov & s.cov
            n.facts = r.facts & s.facts
            for k, v in r.m.items():
                if k in s.m:
                    n.m[k] = v if s.m[k] == v else ("phi", tag, k)
            for k in set(r.ver) | set(s.ver):
                a, b = r.ver.get(k, 0), s.ver.get(k, 0)
                n.ver[k] = a if a == b else ("phi", tag)
            # a location known on one side only: version must differ from both
            for k in set(r.m) ^ set(s.m):
                if is_loc(k) and k[0] != "L":
                    n.ver[region(k)] = ("phi", tag)
                elif is_loc(k):
                    n.ver[k] = ("phi", tag)
            n.tmp = {k: v for k, v in r.tmp.items() if s.tmp.get(k) == v}
            r = n
        return r

    def loop_event(self, st, kind, tag, f, cont=None):
        """loop bookkeeping: which effects are applied to every element"""
        cl = self.cl
        info = cl.__dict__.setdefault("loops", {}).setdefault(tag, {"init": {}, "step": {}, "f": f, "brk": False})
        if kind in ("enter", "back"):
            d = info["init" if kind == "enter" else "step"]
            lv = cl.__dict__.get("loopvars", {}).get(tag, ())
            for k, v in st.m.items():
                if k[0] == "L" and (kind == "enter" or k in lv or mentions(v, lambda t: t == tag)):
                    d.setdefault(k, set()).add(v)
        if not cl.use_cov:
            if kind == "break":
                info["brk"] = True
            elif kind == "exit":
                if cont is None:
                    cont, info["var"] = loop_cont(st, tag)
                if cont is not None:
                    info["cont"] = cont
        elif kind == "enter":
            st.cov = frozenset(x for x in st.cov if x[1] != tag) | {("cur", tag, None)}
        elif kind == "back":
            cur = [x[2] for x in st.cov if x[0] == "cur" and x[1] == tag]
            marks = frozenset(x[2] for x in st.cov if x[0] == "mark" and x[1] == tag)
            for c in cur:
                if c is not None:
                    marks = marks & c
            st.cov = frozenset(x for x in st.cov if x[1] != tag) | {("cur", tag, marks)}
        elif kind in ("exit", "break"):
            cur = [x[2] for x in st.cov if x[0] == "cur" and x[1] == tag]
            st.cov = frozenset(x for x in st.cov if x[1] != tag)
            if kind == "break":
                info["brk"] = True
            if kind == "exit" and cur:
                if cont is None:
                    cont, var = loop_cont(st, tag)
                    info["var"] = var
                if cont is not None:
                    info["cont"] = cont
                    if cur[0] is None:
                        st.cov = st.cov | {("cov", cont, "*", tag)}
                    else:
                        st.cov = st.cov | {("cov", cont, w, tag) for w in cur[0]} | {("cov", cont, "#", tag)}
                    if cont[0] == "L":
                        # a local copy of another container
                        cv = st.m.get(cont)
                        if isinstance(cv, tuple) and cv[0] == "ld":
                            st.cov = st.cov | {("cov", cv[1], x[2], tag) for x in st.cov if x[0] == "cov" and x[1] == cont}
        h = getattr(cl, "loop", None)
        if h:
            h(st, kind, tag, f, self)

    def mark(self, st, term, what):
        """an effect 'what' was applied to the loop element inside term"""
        for t in subterms(term):
            if t[0] in ("lit", "phi") and isinstance(t[1], tuple) and t[1][:1] == ("lp",):
                st.cov = st.cov | {("mark", t[1], what)}
            elif t[0] == "any":
                st.cov = st.cov | {("mark", t[:2], what)}

    def merge_cap(self, l, f, b, frame):
        if len(l) <= self.cl.max_states:
            return l
        groups = {}
        for s in l:
            groups.setdefault(s.auto, []).append(s)
        out = []
        for a, g in groups.items():
            out.append(self.join_all(g, (f.id, b)) if len(g) > 1 else g[0])
        return out

    def loop_havoc(self, f, frame, head, body, st):
        """forget what the loop may write"""
        P = self.P
        key = ("_lmods", head)
        c = f.__dict__.setdefault("_lm", {})
        if head not in c:
            flds, globs, locs, objs = set(), set(), set(), set()
            fb = Func.__new__(Func)
            fb.r, fb.id, fb.name, fb.params = f.r, f.id, f.name, f.params
            fb.sname, fb.cls, fb.file, fb.line = f.sname, f.cls, f.file, f.line
            fb.blocks = {b: f.blocks[b] for b in body}
            fb._calls = None
            fb.nodes_ = None
            fb._byid = f.byid()
            a = direct_mods(P, fb)
            flds |= a[0]
            globs |= a[2]
            locs |= a[3]
            for n in fb.nodes():
                if n["k"] in ("call", "ctor"):
                    for t in P.targets(n):
                        m = mods(P, t)
                        flds |= m[0]
                        globs |= m[1]
                elif n["k"] == "lambda" and n["f"] in P.funcs:
                    lf = P.funcs[n["f"]]
                    m = mods(P, lf)
                    flds |= m[0]
                    globs |= m[1]
                    for cp in n["cap"]:
                        if cp.get("ref"):
                            locs.add(cp["d"])
            # reference variables re-bound each iteration are decls in the body
            c[head] = (flds, globs, locs)
        flds, globs, locs = c[head]
        tag = ("lp", frame, head)
        for d in locs:
            L = ("L", frame, d)
            r = st.m.get(("ref", frame, d))
            if r is not None:
                if r[0] == "L":
                    L = r
                else:
                    if is_loc(r) and r[0] in ("F", "G", "*"):
                        self.bump(st, region(r), tag)
                        st.m.pop(r, None)
                    continue
            if L in st.m or L in st.ver:
                old = st.m.get(L)
                if isinstance(old, tuple) and old[0] == "lambda":
                    continue
                for k in list(st.m):
                    if is_loc(k) and root_local(k) == L:
                        del st.m[k]
                ic = lit_of(old)
                if ic is not None:
                    st.m[L] = ("lit", tag, ic[0], ic[1], L)
                else:
                    st.m[L] = ("phi", tag, L)
                self.cl.__dict__.setdefault("loopvars", {}).setdefault(tag, set()).add(L)
                st.ver[L] = tag
                self.bump(st, ("E", L), tag)
        for fl in flds:
            self.bump(st, fl, tag)
            self.bump(st, ("E", fl), tag)
        for g in globs:
            self.bump(st, ("G", g), tag)
            st.m.pop(("G", g), None)
        self.bump(st, ("P",), tag)

        def stale(t):
            return t == tag or (t[0] == "site" and t[1] == frame and len(t) > 2 and t[2] in self._nodeids(f, head, body))

        st.facts = frozenset(x for x in st.facts if not mentions(x[0], stale))
        # stored values that mention values of this loop's previous iteration
        for k, v in list(st.m.items()):
            if mentions(v, lambda t: (t[0] == "site" and t[1] == frame and len(t) > 2 and t[2] in self._nodeids(f, head, body))):
                st.m[k] = ("phi", tag, k)

    def _nodeids(self, f, head, body):
        c = f.__dict__.setdefault("_nid", {})
        if head not in c:
            s = set()
            for b in body:
                for e in f.blocks[b]["e"]:
                    for n in walk(e):
                        if "id" in n:
                            s.add(n["id"])
            c[head] = s
        return c[head]

    # ---- block ---------------------------------------------------------
    def run_block(self, f, frame, blk, st, this, depth):
        states = [st]
        throws = []
        for e in blk["e"]:
            nxt = []
            for s in states:
                self.steps += 1
                if self.steps > self.cl.budget:
                    raise Undecided("budget exceeded in " + f.name)
                for kind, s2 in self.element(f, frame, e, s, this, depth):
                    if kind == "throw":
                        throws.append(s2)
                    else:
                        nxt.append(s2)
            states = nxt
            if not states:
                break
            if len(states) > self.cl.max_states:
                states = self.merge_cap(states, f, (blk["b"], e.get("id")), frame)
        out = []
        succ = blk["s"]
        t = blk.get("t")
        if throws:
            if f.r.get("try"):
                # EH successors: all but the first of a block without terminator
                eh = [x for x in succ[1:] if x is not None] if not t else []
                if not eh:
                    eh = [x for x in succ if x is not None and x == f.exit] or [f.exit]
                for s in throws:
                    for x in eh:
                        s2 = s.copy()
                        if x == f.exit:
                            s2.tmp[(frame, "exc")] = True
                        out.append((x, s2))
            else:
                for s in throws:
                    s2 = s.copy()
                    s2.tmp[(frame, "exc")] = True
                    out.append((f.exit, s2))
        for s in states:
            if not succ:
                continue
            ends_throw = blk["e"] and blk["e"][-1]["k"] == "throw" or any(e["k"] == "throw" for e in blk["e"])
            if ends_throw:
                for x in succ:
                    if x is not None:
                        s2 = s.copy()
                        if x == f.exit:
                            s2.tmp[(frame, "exc")] = True
                        out.append((x, s2))
                continue
            if t is None:
                if len(succ) == 1:
                    if succ[0] is not None:
                        if blk.get("noret"):
                            s.tmp[(frame, "exc")] = True
                        out.append((succ[0], s))
                else:
                    # normal successor plus EH edges of an external call
                    if succ[0] is not None:
                        out.append((succ[0], s.copy()))
                    if self.cl.ext_throws:
                        for x in succ[1:]:
                            if x is not None:
                                s2 = s.copy()
                                if x == f.exit:
                                    if not self.cl.ext_throws:
                                        continue
                                    s2.tmp[(frame, "exc")] = True
                                out.append((x, s2))
                continue
            k = t["k"]
            if k in ("SwitchStmt",):
                c = self.val(f, frame, t["c"], s, this, depth)
                cases = [(x, f.blocks[x].get("lab") or {}) for x in succ if x is not None]
                vals = [l.get("v") for x, l in cases if l.get("k") == "case"]
                for x, l in cases:
                    s2 = s.copy()
                    if l.get("k") == "case":
                        ok = self.assume(s2, mkop("==", c, C(l.get("v"))), True)
                    else:
                        ok = all(self.assume(s2, mkop("==", c, C(v)), False) for v in vals)
                    if ok:
                        out.append((x, s2))
                continue
            if k == "CXXTryStmt":
                ty = s.m.get(("exc",))
                caught = False
                for x in succ:
                    if x is not None:
                        lab = f.blocks[x].get("lab") or {}
                        if lab.get("k") == "catch" and ty is not None:
                            m_ = caught_by(self.P, ty[1], lab.get("ty"))
                            if m_ is False or caught:
                                continue
                            if m_:
                                caught = True
                        elif caught:
                            continue
                        s2 = s.copy()
                        if x == f.exit:
                            s2.tmp[(frame, "exc")] = True
                        out.append((x, s2))
                continue
            if len(succ) == 2 and "c" in t:
                cnode = t["c"]
                cref = rightmost(f, cnode, {e.get("id") for e in blk["e"]})
                for c, s1 in self.vals(f, frame, cref, s, this, depth):
                    c = self.tobool(c)
                    for i, truth in ((0, True), (1, False)):
                        if succ[i] is None:
                            continue
                        s2 = s1.copy()
                        if not self.assume(s2, c, truth):
                            continue
                        if k == "BinaryOperator" and "n" in t:
                            if (t.get("op") == "||" and truth) or (t.get("op") == "&&" and not truth):
                                s2.tmp[(frame, t["n"])] = TRUE if truth else FALSE
                        if k in ("ConditionalOperator", "BinaryConditionalOperator") and "n" in t:
                            s2.tmp[(frame, ("arm", t["n"]))] = truth
                        out.append((succ[i], s2))
                continue
            for x in succ:
                if x is not None:
                    out.append((x, s.copy()))
        return out

    def tobool(self, c):
        return c

    def assume(self, st, t, truth):
        t, truth = fact_of(t, truth)
        if t[0] in CK:
            return bool(t[1]) == truth
        if (t, not truth) in st.facts:
            return False
        if (t, truth) in st.facts:
            return True
        # equality with two different constants
        if t[0] == "op" and t[1] == "==" and truth:
            for x, y in ((t[2], t[3]), (t[3], t[2])):
                if x[0] in CK:
                    for (g, gv) in st.facts:
                        if gv and g[0] == "op" and g[1] == "==" and (g[2] == y and g[3][0] in CK and g[3] != x or
                                                                      g[3] == y and g[2][0] in CK and g[2] != x):
                            return False
        if t[0] == "op" and t[1] in ("<",) and len(st.facts) < 60:
            # contradiction with ordering facts
            if truth:
                if any(g[0] == "op" and g[1] == "<" for g, _ in st.facts) and entails_lt(t[3], t[2], st.facts, strict=False):
                    return False
            else:
                if any(g[0] == "op" and g[1] == "<" for g, _ in st.facts) and entails_lt(t[2], t[3], st.facts):
                    return False
        if not self.cl.refine(st, t, truth):
            return False
        if not self.cl.keep_fact(t):
            return True
        st.facts = st.facts | {(t, truth)}
        return True

    # ---- expression values ---------------------------------------------
    def val(self, f, frame, ref, st, this, depth):
        """value/location of an already evaluated node, or of an inline node
        that needs no events"""
        if ref is None:
            return ("void",)
        if isinstance(ref, int):
            v = st.tmp.get((frame, ref))
            if v is None:
                n = f.byid().get(ref)
                if n is None:
                    return ("unk", frame, ref)
                r = self.element(f, frame, n, st, this, depth)
                # side effects on the same state only (single successor expected)
                v = st.tmp.get((frame, ref))
                if v is None:
                    return ("unk", frame, ref)
            return v
        r = self.node(f, frame, ref, st, this, depth)
        return r[0][1]

    def vals(self, f, frame, ref, st, this, depth):
        return [(self.val(f, frame, ref, st, this, depth), st)]

    def rval(self, f, frame, ref, st, this, depth):
        v = self.val(f, frame, ref, st, this, depth)
        return self.load(st, v) if is_loc(v) else v

    def emit(self, st, ev):
        self.sites += 1
        ev.state = st
        r = self.cl.event(st, ev)
        return r

    def element(self, f, frame, e, st, this, depth):
        """-> [(kind, state)]"""
        out = []
        for kind, v, s in self.node(f, frame, e, st, this, depth, full=True):
            if "id" in e and kind != "throw":
                s.tmp[(frame, e["id"])] = v
            out.append((kind, s))
        return out

    def site(self, frame, n):
        return ("site", frame, n.get("id", ("l", n.get("l"))))

    def node(self, f, frame, n, st, this, depth, full=False):
        """evaluates one node. full: returns [(kind, value, state)], else
        [(kind, value)]-like first element usage"""
        R = self._node(f, frame, n, st, this, depth)
        if full:
            return R
        return [(k, v) for k, v, s in R]

    def _node(self, f, frame, n, st, this, depth):
        k = n["k"]
        V = lambda r: self.val(f, frame, r, st, this, depth)
        RV = lambda r: self.rval(f, frame, r, st, this, depth)
        one = lambda v: [("ok", v, st)]
        flt = n.get("t") in FLOAT
        if k in ("int", "bool", "char"):
            return one(C(n["v"]))
        if k == "float":
            return one(C(float(n["v"])))
        if k == "enum":
            return one(C(n["v"]))
        if k == "str":
            return one(("str", n["v"]))
        if k == "null":
            return one(NULL)
        if k == "zero":
            t = n.get("t", "")
            if t.endswith("*"):
                return one(NULL)
            if t == "bool":
                return one(FALSE)
            if t in FLOAT:
                return one(C(0.0))
            return one(C(0))
        if k == "sizeof":
            return one(("sizeof", n["ty"]))
        if k == "this":
            return one(this)
        if k == "var":
            d = n["d"]
            r = st.m.get(("ref", frame, d))
            if r is not None:
                return one(r)
            if n.get("isref"):
                return one(("*", ("refvar", frame, d)))
            return one(("L", frame, d))
        if k == "gvar":
            return one(("G", n["n"]))
        if k == "binding":
            d = n["d"]
            r = st.m.get(("ref", frame, d))
            if r is not None:
                return one(r)
            base = st.m.get(("ref", frame, n.get("of")))
            if base is None:
                base = ("L", frame, n.get("of"))
            nm = ("std::pair::first", "std::pair::second")
            i = n.get("idx", 0)
            return one(("F", base, nm[i] if i < 2 else "#%d" % i))
        if k in ("fn", "memfn"):
            return one(("fn", n.get("f"), n.get("fn")))
        if k == "mem":
            b = V(n["b"])
            if n.get("arrow"):
                b = self.load(st, b) if is_loc(b) else b
                bl = self.deref(b)
            else:
                bl = b if is_loc(b) else ("T", b)
            fname = short(n["cls"]) + "::" + n["n"]
            if fname.startswith("std::pair::") and bl[0] == "E":
                ky = bl[2]
                if isinstance(ky, tuple) and ky[0] == "it" and ky[1] == "find":
                    if fname == "std::pair::second":
                        return one(("E", bl[1], ky[4]))
                    return one(("T", ky[4]))
            loc = ("F", bl, fname)
            if n.get("isref"):
                v = st.m.get(loc)
                if v is not None and is_loc(v):
                    return one(v)
                return one(("*", ("fref",) + loc[1:]))
            return one(loc)
        if k == "load":
            v = V(n["x"])
            r = self.load(st, v)
            ev = Event("read", loc=v, val=r, node=n, func=f, frame=frame)
            self.emit(st, ev)
            return one(r)
        if k == "cast":
            c = n["c"]
            x = V(n["x"])
            if c in ("PointerToBoolean", "MemberPointerToBoolean"):
                x = self.load(st, x) if is_loc(x) else x
                return one(mknot(mkop("==", x, NULL)))
            if c in ("IntegralToBoolean", "FloatingToBoolean"):
                return one(mknot(mkop("==", x, C(0))))
            if c == "NullToPointer":
                return one(NULL)
            if c == "IntegralToFloating":
                if num(x):
                    return one(C(float(x[1])))
                return one(("tofloat", x))
            if c == "FloatingToIntegral":
                return one(("toint", x))
            if c == "IntegralCast":
                if num(x) and isinstance(x[1], bool):
                    return one(C(int(x[1])))
                if x == TRUE or x == FALSE:
                    return one(C(int(x[1])))
                return one(x)
            if c == "Dynamic":
                if n.get("t", "").endswith("*"):
                    x = self.load(st, x) if is_loc(x) else x
                    return one(("dyn", n["t"], x))
                return one(("*", ("dyn", n["t"], self.addr(x))))
            return one(x)
        if k == "un":
            op = n["op"]
            x = V(n["x"])
            if op == "*":
                x = self.load(st, x) if is_loc(x) else x
                return one(self.deref(x))
            if op == "&":
                if is_loc(x):
                    if x[0] == "*" and len(st.facts) < 200:
                        self.assume(st, mkop("==", NULL, x[1]), False)
                    return one(self.addr(x))
                return one(x)
            if op in ("++", "--"):
                old = self.load(st, x)
                new = mkop("+" if op == "++" else "-", old, C(1))
                prev = old
                self.store(st, x, new, self.site(frame, n))
                ev = Event("write", loc=x, val=new, prev=prev, node=n, func=f, frame=frame)
                rs = self.emit(st, ev)
                res = old if n.get("post") else x
                return [("ok", res, s) for s in (rs or [st])]
            x = self.load(st, x) if is_loc(x) else x
            if op == "!":
                return one(mknot(x))
            if op == "-":
                if num(x) or x[0] == "f":
                    return one(C(-x[1]))
                return one(("neg", x))
            if op == "+":
                return one(x)
            return one(("un", op, x))
        if k == "bin":
            x, y = RV(n["x"]), RV(n["y"])
            nx = f.node(n["x"])
            fl = flt or (isinstance(nx, dict) and nx.get("t") in FLOAT)
            if n["op"] == ",":
                return one(y)
            return one(mkop(n["op"], x, y, fl))
        if k == "logic":
            pre = st.tmp.get((frame, n.get("id")))
            if pre is not None:
                return one(pre)
            y = V(n["y"])
            yn = rightmost(f, n["y"])
            yv = self.val(f, frame, yn, st, this, depth) if yn is not n["y"] else y
            if n.get("id") is not None:
                # in CFG: reached through the non-short-circuit edge
                return one(yv)
            return one(yv)
        if k == "cond":
            arm = st.tmp.get((frame, ("arm", n.get("id"))))
            if arm is True:
                return one(V(n["x"]))
            if arm is False:
                return one(V(n["y"]))
            return one(("phi", ("cond", frame, n.get("id")), 0))
        if k == "asg":
            op = n["op"]
            x = V(n["x"])
            y = RV(n["y"])
            if op == "=":
                v = y
            else:
                v = mkop(op[:-1], self.load(st, x), y, flt)
            prev = self.load(st, x)
            self.store(st, x, v, self.site(frame, n))
            rs = self.emit(st, Event("write", loc=x, val=v, prev=prev, node=n, func=f, frame=frame))
            return [("ok", x, s) for s in (rs or [st])]
        if k == "sub":
            x, y = V(n["x"]), RV(n["y"])
            if is_loc(x) and f.node(n["x"]) and (f.node(n["x"]).get("t", "").endswith("*")):
                x = self.load(st, x)
            base = x if is_loc(x) else self.deref(x)
            self.emit(st, Event("elem", loc=base, a=[y], node=n, func=f, frame=frame, name="[]"))
            return one(("E", base, y))
        if k == "lambda":
            caps = []
            for c in n["cap"]:
                if c.get("this"):
                    caps.append(("this", this))
                else:
                    r = st.m.get(("ref", frame, c["d"]))
                    lc = r if r is not None else ("L", frame, c["d"])
                    caps.append((c["d"], lc if c.get("ref") else ("T", self.load(st, lc))))
            v = ("lambda", n["f"], tuple(caps))
            self.emit(st, Event("lambda", val=v, node=n, func=f, frame=frame))
            return one(v)
        if k == "ilist":
            return one(("ilist",) + tuple(RV(a) for a in n["a"]))
        if k == "typeid":
            if "ty" in n:
                return one(("typeid", n["ty"]))
            return one(("dyntype", V(n["x"])))
        if k == "other":
            a = [V(x) for x in n.get("a", [])]
            if n.get("n") in ("ArrayInitLoopExpr", "CXXInheritedCtorInitExpr"):
                return one(("unk", frame, n.get("id")))
            if len(a) == 1:
                return one(a[0])
            return one(("other", n.get("n")) + tuple(a))
        if k == "ret":
            v = V(n["x"]) if "x" in n else ("void",)
            rt = f.r.get("ret", "")
            if is_loc(v) and not rt.endswith("&"):
                v = self.load(st, v)
            st.m[("rv", frame)] = v
            rs = self.emit(st, Event("ret", val=v, node=n, func=f, frame=frame))
            return [("ok", v, s) for s in (rs or [st])]
        if k == "throw":
            if n.get("ty"):
                st.m[("exc",)] = ("str", n["ty"])
            rs = self.emit(st, Event("throw", name=n.get("ty"), node=n, func=f, frame=frame))
            return [("ok", ("void",), s) for s in (rs or [st])]
        if k == "new":
            v = ("new", n["ty"], self.site(frame, n))
            iv = V(n["i"]) if n.get("i") is not None else None
            if isinstance(iv, tuple) and iv[0] == "obj" and isinstance(f.node(n["i"]), dict) and f.node(n["i"])["k"] == "ctor":
                # transfer constructed fields to the heap object
                self.transfer(st, iv, v)
            rs = self.emit(st, Event("new", name=short(n["ty"]), val=v, a=[iv], node=n, func=f, frame=frame))
            return [("ok", v, s) for s in (rs or [st])]
        if k == "delete":
            v = RV(n["a"])
            rs = self.emit(st, Event("delete", val=v, node=n, func=f, frame=frame, name="[]" if n.get("arr") else ""))
            return [("ok", ("void",), s) for s in (rs or [st])]
        if k == "decls":
            states = [st]
            for v in n["v"]:
                L = ("L", frame, v["d"])
                if v.get("static"):
                    st.m[("ref", frame, v["d"])] = ("G", f.sname + "::" + v["n"])
                    continue
                if v.get("isref"):
                    if v.get("i") is not None:
                        x = V(v["i"])
                        st.m[("ref", frame, v["d"])] = x if is_loc(x) else ("T", x)
                    for b in v.get("bind", []):
                        pass
                elif v.get("i") is not None:
                    x = V(v["i"])
                    inode = f.node(v["i"])
                    x = self.load(st, x) if is_loc(x) else x
                    for kk in list(st.m):
                        if kk != L and is_loc(kk) and root_local(kk) == L:
                            del st.m[kk]
                    st.ver[L] = self.site(frame, n)
                    st.m[L] = x
                    if isinstance(x, tuple) and x[0] == "obj":
                        self.transfer(st, x, None, L)
                else:
                    st.m.pop(L, None)
                    st.ver[L] = self.site(frame, n)
                rs = self.emit(st, Event("decl", loc=L, val=st.m.get(L), name=v.get("t"), node=n, func=f, frame=frame))
            return one(("void",))
        if k == "dtor":
            L = ("L", frame, n["d"])
            rs = self.emit(st, Event("dtor", loc=L, val=st.m.get(L), name=n.get("t"), node=n, func=f, frame=frame))
            return [("ok", ("void",), s) for s in (rs or [st])]
        if k == "mdtor":
            return one(("void",))
        if k == "init":
            self_ = self.deref(this)
            if "n" in n:
                loc = ("F", self_, short(n["cls"]) + "::" + n["n"])
                if n.get("x") is not None:
                    x = V(n["x"])
                    if n.get("isref"):
                        st.m[loc] = x if is_loc(x) else ("T", x)
                    else:
                        x = self.load(st, x) if is_loc(x) else x
                        self.store(st, loc, x, self.site(frame, n))
                    rs = self.emit(st, Event("write", loc=loc, val=x, node=n, func=f, frame=frame, name="init"))
                    return [("ok", ("void",), s) for s in (rs or [st])]
                return one(("void",))
            # base/delegating: the ctor node was evaluated as its own element (obj term)
            x = V(n["x"]) if n.get("x") is not None else None
            if isinstance(x, tuple) and x[0] == "obj":
                self.transfer(st, x, None, self_)
            self.emit(st, Event("baseinit", name=n.get("base") or "delegating", val=x, node=n, func=f, frame=frame))
            return one(("void",))
        if k in ("call", "ctor"):
            return self.call(f, frame, n, st, this, depth)
        if k == "catch":
            return one(("void",))
        return one(("unk", frame, n.get("id")))

    def deref(self, p):
        if isinstance(p, tuple) and p[0] == "addr":
            return p[1]
        return ("*", p)

    def addr(self, loc):
        if loc[0] == "*":
            return loc[1]
        if loc[0] == "T":
            return ("addr", loc)
        return ("addr", loc)

    def transfer(self, st, obj, ptr, loc=None):
        """fields built at ('*', obj) move to the object's final place"""
        src = ("*", obj)
        dst = loc if loc is not None else ("*", ptr)
        for k, v in list(st.m.items()):
            if is_loc(k) and mentions(k, lambda t: t == src):
                nk = subst(k, lambda t: dst if t == src else None)
                del st.m[k]
                st.m[nk] = v

    # ---- calls -----------------------------------------------------------
    def call(self, f, frame, n, st, this, depth):
        P = self.P
        V = lambda r: self.val(f, frame, r, st, this, depth)
        k = n["k"]
        fn = n.get("fn", "")
        sn = short(fn)
        base = sn.rsplit("::", 1)[-1]
        scls = short(n.get("cls") or "")
        site = self.site(frame, n)
        a = [V(x) for x in n.get("a", [])]
        am = n.get("am", "")
        o = V(n["o"]) if n.get("o") is not None else None
        oloc = None
        if o is not None:
            if n.get("arrow"):
                o = self.load(st, o) if is_loc(o) else o
                oloc = self.deref(o)
            else:
                oloc = o if is_loc(o) else ("T", o)
        rv = lambda x: self.load(st, x) if is_loc(x) else x
        ev = Event("ctor" if k == "ctor" else "call", name=sn, f=n.get("f"), o=oloc, a=a, node=n, func=f,
                   frame=frame, am=am, av=[rv(x) for x in a])

        # ---- library model ------------------------------------------------
        m = self.model(f, frame, n, st, sn, base, scls, oloc, a, am, site, ev, depth)
        if m is not None:
            return m

        # ---- repository ---------------------------------------------------
        targets = P.targets(n)
        if k == "ctor" and n.get("f") and not targets:
            # implicit / std ctor
            if n.get("cp") in ("copy", "move") and a:
                v = rv(a[0])
                ev.res = v
                self.emit(st, ev)
                return [("ok", v, st)]
            v = ("obj", short(n.get("cls") or ""), site, tuple(rv(x) for x in a))
            ev.res = v
            rs = self.emit(st, ev)
            return [("ok", v, s) for s in (rs or [st])]
        opaque = [self.cl.primitive(t) or t.sname in OPAQUE for t in targets]
        inl = [t for t, x in zip(targets, opaque) if not x]
        prim = [t for t, x in zip(targets, opaque) if x]
        ev.targets = targets
        if k == "ctor":
            obj = ("obj", short(n.get("cls") or ""), site, tuple(rv(x) for x in a))
            ev.res = obj
        if targets and not prim and depth < self.cl.max_depth and not self.recursive(frame, targets):
            rs = self.emit(st, ev)
            out = []
            outs = rs or [st]
            for s0 in outs:
                for t in inl:
                    s1 = s0.copy() if (len(inl) > 1 or len(outs) > 1) else s0
                    fr = frame + ((f.id, n.get("id", n.get("l")), t.id),)
                    th = self.addr(oloc) if oloc is not None else (obj if k == "ctor" else None)
                    aa = []
                    for i, x in enumerate(a):
                        if i < len(t.params) and t.params[i].get("isref"):
                            aa.append(x)
                        else:
                            aa.append(rv(x))
                    while len(aa) < len(t.params):
                        aa.append(("unk", fr, len(aa)))
                    for kind, s2, r in self.exec(t, fr, s1, th, aa, depth + 1):
                        if kind == "throw":
                            out.append(("throw", None, s2))
                        else:
                            val = obj if k == "ctor" else (r if r is not None else ("void",))
                            self.cl_return(s2, ev, val)
                            out.append(("ok", val, s2))
            return out
        # primitive / unknown / external
        if k != "ctor":
            pure = bool(n.get("const")) and not targets
            if n.get("const") and oloc is not None:
                ver = self.objver(st, oloc, targets)
                res = ("call", sn, oloc, tuple(self.argval(st, x) for x in a), ver)
            elif targets and all(self.ispure(t) for t in targets):
                res = ("call", sn, oloc, tuple(self.argval(st, x) for x in a), self.objver(st, oloc, targets))
            else:
                res = ("call", sn, oloc, tuple(self.argval(st, x) for x in a), site)
            if n.get("lv"):
                res = ("*", ("addr_of", res))
            ev.res = res
        if targets or oloc is not None:
            ev.pre = st.copy()
        for t in targets:
            fl, gl = mods(P, t)
            for x in fl:
                self.bump(st, x, site)
                self.bump(st, ("E", x), site)
            for x in gl:
                self.bump(st, ("G", x), site)
                st.m.pop(("G", x), None)
        for i, x in enumerate(a):
            if i < len(am) and am[i] in "mxq" and is_loc(x):
                if targets and all(not wparam(P, t, i) for t in targets) or not targets and am[i] == "m" and base in FORWARDS:
                    continue
                self.havoc_loc(st, x, site)
            elif i < len(am) and am[i] == "q" and x[0] == "addr" and is_loc(x[1]) and root_local(x[1]) is not None:
                self.havoc_loc(st, x[1], site)
                st.m[x[1]] = ("out", base, i, site)
        if not targets and oloc is not None and not n.get("const") and k == "call":
            self.havoc_loc(st, oloc, site)
        rs = self.emit(st, ev)
        return [("ok", ev.res, s) for s in (rs or [st])]

    def cl_return(self, st, ev, val):
        h = getattr(self.cl, "returned", None)
        if h:
            h(st, ev, val)

    def ispure(self, t):
        return False

    def objver(self, st, oloc, targets):
        """version of what a const query depends on: all regions written so far"""
        vs = tuple(sorted(((repr(k), v) for k, v in st.ver.items() if not (isinstance(k, tuple) and k[0] == "L")),
                          key=lambda kv: kv[0]))
        return ("v", hash(vs)) if vs else 0

    def argval(self, st, x):
        x = self.load(st, x) if is_loc(x) else x
        if x[0] == "addr" and root_local(x[1]) is not None and x[1][0] == "L":
            return ("ptr",)  # the result does not depend on where a local lives
        return x

    def recursive(self, frame, targets):
        ids = {t.id for t in targets}
        return sum(1 for fr in frame if fr[2] in ids) >= 1

    def contver(self, st, oloc):
        return st.ver.get(region(oloc), 0) if is_loc(oloc) else 0

    def model(self, f, frame, n, st, sn, base, scls, oloc, a, am, site, ev, depth):
        rv = lambda x: self.load(st, x) if is_loc(x) else x
        one = lambda v: [("ok", v, st)]

        def done(v):
            ev.res = v
            rs = self.emit(st, ev)
            return [("ok", v, s) for s in (rs or [st])]

        k = n["k"]
        # destructible wrappers & smart pointers
        if scls in SMART or scls.startswith("std::__shared_ptr"):
            if k == "ctor":
                if not a:
                    return done(NULL)
                v = rv(a[0])
                if scls == "std::reference_wrapper" and not n.get("cp") and not (short(fnode_type(f, n, 0)) == "std::reference_wrapper"):
                    v = self.addr(a[0]) if is_loc(a[0]) else ("addr", ("T", a[0]))
                return done(v)
            pv = self.load(st, oloc) if oloc is not None else None
            if base in ("get", "operator->", "operator*", "value"):
                if scls == "std::reference_wrapper":
                    return done(self.deref(pv))
                if base == "operator*" or base == "value":
                    return done(self.deref(pv))
                return done(pv)
            if base.startswith("operator bool"):
                return done(mknot(mkop("==", pv, NULL)))
            if base == "operator=":
                v = rv(a[0])
                self.store(st, oloc, v, site)
                ev.res = oloc
                self.emit(st, ev)
                self.emit(st, Event("write", loc=oloc, val=v, node=n, func=f, frame=frame, name="smart="))
                return one(oloc)
            if base == "reset":
                v = rv(a[0]) if a else NULL
                self.store(st, oloc, v, site)
                self.emit(st, Event("write", loc=oloc, val=v, node=n, func=f, frame=frame, name="smart="))
                return done(("void",))
            if base.startswith("operator") and scls == "std::reference_wrapper":
                return done(self.deref(pv))
        if sn in ("std::operator==", "std::operator!=", "__gnu_cxx::operator!=", "__gnu_cxx::operator==",
                  "std::operator<", "std::operator>", "std::operator<=", "std::operator>=") or \
                (base in ("operator==", "operator!=") and sn.startswith("std::")):
            xs = ([oloc] if oloc is not None else []) + a
            if len(xs) == 2:
                op = base[len("operator"):]
                x, y = rv(xs[0]), rv(xs[1])
                return done(mkop(op, x, y))
        if sn in ("__gnu_cxx::operator-", "std::operator-") and len(a) == 2 and is_iter_type(fnode_type(f, n, 0)):
            return done(("dist", rv(a[0]), rv(a[1])))
        if sn in IDENT_FREE and a:
            v = a[0]
            if sn in ("std::ref", "std::cref", "std::addressof"):
                v = self.addr(a[0]) if is_loc(a[0]) else a[0]
            if sn.endswith("_pointer_cast"):
                v = rv(a[0])
                if sn == "std::dynamic_pointer_cast":
                    v = ("dyn", n.get("t"), v)
            return done(v)
        if sn in ("std::make_shared", "std::make_unique"):
            v = ("new", n.get("t"), site, tuple(rv(x) for x in a))
            return done(v)
        if sn == "std::make_pair" or (k == "ctor" and scls == "std::pair"):
            if len(a) == 2:
                return done(("pair", rv(a[0]), rv(a[1])))
            if k == "ctor" and n.get("cp"):
                return done(rv(a[0]))
        if sn == "std::get" and len(a) == 1 and is_loc(a[0]):
            g = re.search(r"@get<#V[a-zA-Z]*(\d+)", n.get("f") or "")
            if g:
                return done(("F", a[0], "std::tuple::%s" % g.group(1)))
        if sn == "std::make_tuple":
            return done(("tuple",) + tuple(rv(x) for x in a))
        if sn in ("std::begin", "std::end", "std::cbegin", "std::cend") and a:
            c = a[0]
            return done(("it", base.lstrip("c"), c, self.contver(st, c)))
        if sn in ("std::next", "std::prev") and a:
            return done(mkop("+" if base == "next" else "-", rv(a[0]), rv(a[1]) if len(a) > 1 else C(1)))
        if sn == "std::advance" and a:
            v = mkop("+", rv(a[0]), rv(a[1]))
            self.store(st, a[0], v, site)
            return done(("void",))
        if sn == "std::distance" and len(a) == 2:
            return done(("dist", rv(a[1]), rv(a[0])))
        if sn in ("std::find",) and len(a) == 3:
            b0 = rv(a[0])
            if b0[0] == "it" and b0[1] == "begin":
                return done(("it", "find", b0[2], b0[3], rv(a[2])))
        if sn == "std::count" and len(a) == 3:
            b0 = rv(a[0])
            if b0[0] == "it" and b0[1] == "begin":
                return done(("count", b0[2], b0[3], rv(a[2])))
        if sn in ("std::back_inserter", "std::inserter", "std::front_inserter") and a:
            return done(("inserter", base, a[0]))
        if sn.startswith("std::") and k == "call" and not scls and base in WRITERS and \
                not any(isinstance(rv(x), tuple) and rv(x)[0] == "lambda" for x in a):
            its = [rv(x) for x in a]
            ev.res = ("call", sn, None, tuple(its), site)
            rs = self.emit(st, ev)
            for s in (rs or [st]):
                for i, xv in enumerate(its):
                    if isinstance(xv, tuple) and xv[0] in ("it", "lit", "inserter") and is_loc(xv[2]) and \
                            not (sn in SRC_FIRST and i < 2):
                        self.havoc_loc(s, xv[2], site)
                    elif is_loc(a[i]) and i < len(am) and am[i] in "mx":
                        self.havoc_loc(s, a[i], site)
            return [("ok", ev.res, s) for s in (rs or [st])]
        # iterators
        if is_iter_type(scls) and k == "call":
            it = self.load(st, oloc)
            if base == "operator*":
                return done(self.iter_elem(it))
            if base == "operator->":
                return done(("addr", self.iter_elem(it)))
            if base in ("operator++", "operator--"):
                new = mkop("+" if base == "operator++" else "-", it, C(1))
                self.store(st, oloc, new, site)
                rs = self.emit(st, Event("write", loc=oloc, val=new, prev=it, node=n, func=f, frame=frame))
                return one(it if a else oloc)
            if base in ("operator+", "operator-"):
                y = rv(a[0])
                return done(mkop(base[-1], it, y))
            if base in ("operator+=", "operator-="):
                v = mkop(base[-2], it, rv(a[0]))
                self.store(st, oloc, v, site)
                return done(oloc)
            if base == "operator=":
                v = rv(a[0])
                self.store(st, oloc, v, site)
                self.emit(st, Event("write", loc=oloc, val=v, node=n, func=f, frame=frame))
                return done(oloc)
            if base == "operator[]":
                return done(("E", self.iter_cont(it), mkop("+", it, rv(a[0]))))
            if base == "base":
                return done(it)
        if k == "ctor" and is_iter_type(scls) and len(a) == 1:
            return done(rv(a[0]))
        # locks
        if scls in ("std::lock_guard", "std::unique_lock", "std::scoped_lock", "std::shared_lock"):
            if k == "ctor":
                if n.get("cp"):
                    return done(rv(a[0]))
                deferred = any("defer_lock" in (fnode_type(f, n, i) or "") for i in range(len(a)))
                v = ("lock", tuple(x for x in a if is_loc(x) and x[0] != "T"), deferred)
                return done(v)
            if base in ("lock", "unlock"):
                return done(("void",))
        # atomic values behave like the value
        if scls in ("std::atomic", "std::__atomic_base", "std::__atomic_float", "std::atomic_ref"):
            if k == "ctor":
                return done(rv(a[0]) if a else C(0))
            old = self.load(st, oloc) if oloc is not None else None
            if base.startswith("operator ") or base == "load":
                return done(old)
            new = None
            if base in ("operator++", "operator--"):
                new, res = mkop("+" if base == "operator++" else "-", old, C(1)), (old if a else None)
            elif base in ("operator+=", "operator-="):
                new, res = mkop(base[-2], old, rv(a[0])), None
            elif base in ("fetch_add", "fetch_sub"):
                new, res = mkop("+" if base == "fetch_add" else "-", old, rv(a[0])), old
            elif base in ("store", "operator=", "exchange"):
                new = rv(a[0])
                res = old if base == "exchange" else None
            if new is not None:
                self.store(st, oloc, new, site)
                self.emit(st, Event("write", loc=oloc, val=new, prev=old, node=n, func=f, frame=frame, name="atomic"))
                ev.res = res if res is not None else new
                return done(ev.res)
        # containers
        if scls.startswith("std::") and any(scls == c for c in CONT):
            if k == "ctor":
                if n.get("cp") and a:
                    v = rv(a[0])
                    return done(v)
                return done(("cobj", scls, site, tuple(rv(x) for x in a)))
            cl = self.resolve_cont(st, oloc)
            ver = self.contver(st, cl)
            if base in ("begin", "end", "rbegin", "rend"):
                return done(("it", base, cl, ver))
            if base in ("cbegin", "cend", "crbegin", "crend"):
                return done(("it", base[1:], cl, ver))
            if base == "size" or base == "length":
                return done(("size", cl, ver))
            if base == "empty":
                return done(mkop("==", ("size", cl, ver), C(0)))
            if base == "find" and scls not in ("std::basic_string",):
                return done(("it", "find", cl, ver, rv(a[0])))
            if base == "count":
                return done(("count", cl, ver, rv(a[0])))
            if base in ("at", "operator[]"):
                key = rv(a[0])
                if base == "operator[]" and scls in ("std::map", "std::unordered_map"):
                    ev.val = ("has", cl, ver, key)
                    loc = ("E", cl, key)
                    rs = self.emit(st, ev)
                    ev.res = loc
                    # may insert: structural change unless already present
                    if (("has", cl, ver, key), True) not in st.facts:
                        keep = {kk: vv for kk, vv in st.m.items() if is_loc(kk) and kk[0] == "E" and kk[1] == cl}
                        self.bump(st, region(cl), site)
                        for kk, vv in keep.items():
                            st.m[kk] = vv
                    return [("ok", loc, s) for s in (rs or [st])]
                ev.res = ("E", cl, key)
                rs = self.emit(st, ev)
                return [("ok", ev.res, s) for s in (rs or [st])]
            if base in ("front", "top"):
                return done(("E", cl, ("front",)))
            if base == "back":
                return done(("E", cl, ("back",)))
            if base == "data":
                return done(("addr", ("E", cl, C(0))))
            if base == "operator=" and a:
                v = rv(a[0])
                self.havoc_loc(st, oloc, site)
                self.store(st, oloc, v, site)
                ev.val = v
                ev.res = oloc
                self.emit(st, ev)
                rs = self.emit(st, Event("write", loc=oloc, val=v, node=n, func=f, frame=frame, name="operator="))
                return one(oloc)
            if base in PURE or n.get("const"):
                return done(("call", sn, cl, tuple(rv(x) for x in a), ver))
            # mutating container call: event sees the state before the mutation
            ev.o = cl
            res = ("call", sn, cl, tuple(rv(x) for x in a), site)
            if n.get("lv"):
                res = ("E", cl, ("back",)) if base == "emplace_back" else ("*", ("addr_of", res))
            ev.res = res
            ev.a = a
            rs = self.emit(st, ev)
            for s in (rs or [st]):
                self.havoc_loc(s, cl, site)
                if base in ("push_back", "emplace_back", "push") and len(a) == 1:
                    s.m[("E", cl, ("back",))] = rv(a[0])
                for i, x in enumerate(a):
                    if i < len(am) and am[i] == "x" and is_loc(x) and x[0] != "T":
                        pass
            return [("ok", res, s) for s in (rs or [st])]
        # std::function / lambda invocation
        if base == "operator()" and oloc is not None:
            lv = self.load(st, oloc)
            if isinstance(lv, tuple) and lv[0] == "lambda" and depth < self.cl.max_depth:
                self.emit(st, ev)
                return self.exec_lambda(lv, st, a, frame, f, n, depth)
            if lv is None or not (isinstance(lv, tuple) and lv[0] == "lambda"):
                return None
        # algorithms taking lambdas
        if sn.startswith("std::") and k == "call":
            lam = [(i, x if not is_loc(x) else self.load(st, x)) for i, x in enumerate(a)]
            lam = [(i, x) for i, x in lam if isinstance(x, tuple) and x and x[0] == "lambda"]
            if lam and depth < self.cl.max_depth:
                return self.algo(f, frame, n, st, sn, a, lam, site, ev, depth)
        if k == "ctor" and scls == "std::function" and a:
            return done(rv(a[0]))
        if k == "ctor" and scls in ("std::thread", "std::jthread"):
            v = ("thread", site, tuple(x for x in a))
            return done(v)
        return None

    def resolve_cont(self, st, oloc):
        """a local container that is a plain copy keeps its own identity"""
        return oloc

    def iter_cont(self, it):
        x = it
        r = lit_of(it)
        if r is not None:
            return r[0]
        if isinstance(x, tuple) and x[0] == "call" and x[2] is not None:
            return x[2]
        return ("*", ("iter", it))

    def iter_elem(self, it):
        if isinstance(it, tuple) and it[0] == "it" and it[1] == "begin":
            return ("E", it[2], ("front",))
        if isinstance(it, tuple) and it[0] == "it" and it[1] == "rbegin":
            return ("E", it[2], ("back",))
        return ("E", self.iter_cont(it), it)

    def exec_lambda(self, lv, st, args, frame, f, n, depth):
        t = self.P.funcs.get(lv[1])
        if t is None or not t.blocks:
            return [("ok", ("unk", frame, n.get("id")), st)]
        fr = frame + ((f.id, n.get("id", n.get("l")), t.id),)
        this = None
        for d, loc in lv[2]:
            if d == "this":
                this = loc
        # captured variables keep the DeclIds of the lambda body: match by name
        capn = {}
        for nn in t.nodes():
            if nn["k"] == "var" and nn.get("cap"):
                capn[nn["n"]] = nn["d"]
        names = {}
        ln = None
        for fn2 in self.P.funcs.values():
            pass
        caps = self.lambda_caps(lv[1])
        for (d, loc), cn in zip(lv[2], caps):
            if d != "this" and cn in capn:
                st.m[("ref", fr, capn[cn])] = loc
        aa = []
        for i, x in enumerate(args):
            if i < len(t.params) and t.params[i].get("isref"):
                aa.append(x)
            else:
                aa.append(self.load(st, x) if is_loc(x) else x)
        while len(aa) < len(t.params):
            aa.append(("unk", fr, len(aa)))
        out = []
        for kind, s, r in self.exec(t, fr, st, this, aa, depth + 1):
            out.append(("throw" if kind == "throw" else "ok", r if r is not None else ("void",), s))
        return out

    def lambda_caps(self, fid):
        c = self.P.__dict__.setdefault("_lcaps", None)
        if c is None:
            c = {}
            for fn in self.P.funcs.values():
                for nn in fn.nodes():
                    if nn["k"] == "lambda":
                        c[nn["f"]] = [x.get("n", "this") for x in nn["cap"]]
            self.P._lcaps = c
        return c.get(fid, [])

    def algo(self, f, frame, n, st, sn, a, lam, site, ev, depth):
        """std algorithm with a callable: the callable may run any number of
        times on arbitrary elements"""
        self.emit(st, ev)
        b0 = self.load(st, a[0]) if a and is_loc(a[0]) else (a[0] if a else ("unk",))
        e0 = (self.load(st, a[1]) if is_loc(a[1]) else a[1]) if len(a) > 1 else None
        cont = self.iter_cont(b0) if isinstance(b0, tuple) else None
        whole = isinstance(b0, tuple) and b0[0] == "it" and b0[1] in ("begin", "rbegin") and \
            isinstance(e0, tuple) and e0[0] == "it" and e0[1] in ("end", "rend") and b0[2] == e0[2]
        ver = self.contver(st, cont) if cont else 0
        res = ("call", sn, cont, tuple(x for x in (self.argval(st, y) for y in a) if x[0] != "lambda"), site)
        if n.get("lv"):
            res = ("*", ("addr_of", res))
        if sn in ("std::find_if", "std::find_if_not", "std::max_element", "std::min_element"):
            res = ("it", sn, cont, ver, site)
        for x in a:
            if sn.rsplit("::", 1)[-1] in WRITERS:
                xv = self.load(st, x) if is_loc(x) else x
                if isinstance(xv, tuple) and xv[0] in ("it", "lit", "inserter") and xv[2:] and is_loc(xv[2]) and \
                        (sn not in SRC_FIRST or x is not a[0] and x is not a[1]):
                    self.havoc_loc(st, xv[2], site)
        outs = []
        multi = sn not in ("std::find_if", "std::find_if_not")
        tag = ("any", site)
        # the quantifiers are loops left at the first element that decides them
        quant = {"std::any_of": (True, True), "std::all_of": (False, False),
                 "std::none_of": (True, False)}.get(sn)
        base_ = st.copy()
        if multi:
            self.loop_event(base_, "enter", tag, f)
            z = base_.copy()
            self.loop_event(z, "exit" if whole else "break", tag, f, cont)
            outs.append(("ok", C(not quant[1]) if quant else res, z))
        found = []
        for i, lv in lam:
            t = self.P.funcs.get(lv[1])
            if t is None:
                continue
            s = base_.copy()
            fl, gl = mods(self.P, t)
            for x in fl:
                self.bump(s, x, tag)
                self.bump(s, ("E", x), tag)
            for d, loc in lv[2]:
                if d != "this" and loc[0] == "L":
                    if loc[2] is not None and self.lambda_writes(t, lv, d):
                        s.m[loc] = ("phi", tag, loc)
                        s.ver[loc] = tag
            args = [("E", cont, ("any", site, j)) for j in range(len(t.params))]
            if sn in ("std::accumulate",) and args:
                args[0] = ("T", ("phi", tag, "acc"))
            for kind, v, s2 in self.exec_lambda(lv, s, args, frame, f, n, depth):
                if kind == "throw":
                    outs.append(("throw", v, s2))
                    continue
                for d, loc in lv[2]:
                    if d != "this" and loc[0] == "L" and self.lambda_writes(t, lv, d):
                        s2.m[loc] = ("phi", (tag, "out"), loc)
                        s2.ver[loc] = (tag, "out")
                if quant and v is not None:
                    s3 = s2.copy()
                    if self.assume(s3, v, quant[0]):
                        self.loop_event(s3, "break", tag, f, cont)
                        outs.append(("ok", C(quant[1]), s3))
                    if not self.assume(s2, v, not quant[0]):
                        continue
                    self.loop_event(s2, "back", tag, f)
                    self.loop_event(s2, "exit" if whole else "break", tag, f, cont)
                    outs.append(("ok", C(not quant[1]), s2))
                elif multi:
                    self.loop_event(s2, "back", tag, f)
                    self.loop_event(s2, "exit" if whole else "break", tag, f, cont)
                    outs.append(("ok", res, s2))
                else:
                    found.append((v, s2, args))
        if not multi:
            key = None
            if len(found) == 1 and found[0][0] is not None and whole:
                v, s2, args = found[0]
                el = self.load(s2, args[0])
                tru = sn == "std::find_if"
                vv, t_ = fact_of(v, tru) if isinstance(v, tuple) and v else (v, True)
                if t_ and isinstance(vv, tuple) and vv[0] == "op" and vv[1] == "==":
                    for x, y in ((vv[2], vv[3]), (vv[3], vv[2])):
                        if x == el and not mentions(y, lambda q: q == args[0]):
                            key = y
            if key is not None:
                return [("ok", ("it", "find", cont, ver, key), st)] + [o for o in outs if o[0] == "throw"]
            # not found
            nf = st.copy()
            if len(found) == 1 and whole and isinstance(found[0][0], tuple) and found[0][0] and sn == "std::find_if":
                # no element satisfies the predicate
                v, s2, args = found[0]
                nf.facts = nf.facts | {(("none", cont, ver, subst(v, lambda w: ("each",) if w == args[0] else None)), True)}
            outs.append(("ok", ("it", "end", cont, ver), nf))
            for v, s2, args in found:
                if not isinstance(v, tuple) or not v:
                    outs.append(("ok", res, s2))
                    continue
                el = args[0]
                sub = lambda q: subst(q, lambda w: ("E", cont, res) if w == el else None)
                s3 = s2.copy()
                s3.facts = frozenset((sub(x), y) for x, y in s2.facts)
                if self.assume(s3, sub(v), sn == "std::find_if"):
                    self.assume(s3, mkop("==", res, ("it", "end", cont, ver)), False)
                    outs.append(("ok", res, s3))
        return outs

    def lambda_writes(self, t, lv, d):
        caps = self.lambda_caps(lv[1])
        name = None
        for (dd, loc), cn in zip(lv[2], caps):
            if dd == d:
                name = cn
        w = direct_mods(self.P, t)[3]
        for nn in t.nodes():
            if nn["k"] == "var" and nn.get("cap") and nn["n"] == name and nn["d"] in w:
                return True
        return False


def fnode_type(f, n, i):
    a = n.get("a", [])
    if i >= len(a):
        return ""
    x = f.node(a[i])
    return x.get("t", "") if isinstance(x, dict) else ""


def rightmost(f, ref, here=()):
    """the operand that decides a short-circuit condition in this block; the
    whole condition when it is itself evaluated here"""
    n = f.node(ref)
    while isinstance(n, dict) and n["k"] == "logic" and not (n.get("id") is not None and n["id"] in here):
        ref = n["y"]
        n = f.node(ref)
    return ref


def rpo(f):
    if hasattr(f, "_rpo"):
        return f._rpo
    succ = {b: [s for s in blk["s"] if s is not None] for b, blk in f.blocks.items()}
    seen, post = set(), []
    st = [(f.entry, iter(succ[f.entry]))]
    seen.add(f.entry)
    while st:
        b, it = st[-1]
        nx = next(it, None)
        if nx is None:
            post.append(b)
            st.pop()
        elif nx not in seen:
            seen.add(nx)
            st.append((nx, iter(succ[nx])))
    post.reverse()
    f._rpo = {b: i for i, b in enumerate(post)}
    return f._rpo


def live_locals(f):
    """(locals declared in the body, block -> those live at its start)"""
    if hasattr(f, "_ll"):
        return f._ll
    decl = set()
    for n in f.nodes():
        if n["k"] == "decls":
            for v in n["v"]:
                if not v.get("static"):
                    decl.add(v["d"])
    use, kill = {}, {}

    def scan(x, out):
        if isinstance(x, dict):
            for kk, v in x.items():
                if kk in ("d", "of") and isinstance(v, int) and not isinstance(v, bool):
                    out.add(v)
                elif isinstance(v, (dict, list)):
                    scan(v, out)
        elif isinstance(x, list):
            for z in x:
                scan(z, out)
    for b, blk in f.blocks.items():
        u, k = set(), set()
        for e in blk["e"]:
            o = set()
            if e["k"] == "decls":
                ds = set()
                for v in e["v"]:
                    ds.add(v["d"])
                    i = v.get("i")
                    if isinstance(i, int) and not isinstance(i, bool):
                        n = f.node(i)
                        scan(n, o)
                    else:
                        scan(i, o)
                u |= o - k
                k |= ds
            else:
                scan(e, o)
                u |= o - k
        scan({kk: v for kk, v in blk.items() if kk not in ("e", "b", "s")}, u)
        use[b], kill[b] = u & decl, k
    live = {b: set(use[b]) for b in f.blocks}
    ch = True
    while ch:
        ch = False
        for b, blk in f.blocks.items():
            o = set()
            for t in blk["s"]:
                t = t if isinstance(t, int) else (t or {}).get("b") if isinstance(t, dict) else None
                if t in live:
                    o |= live[t]
            n = use[b] | (o - kill[b])
            if n - live[b]:
                live[b] |= n
                ch = True
    f._ll = (decl, live)
    return f._ll


def cross_block_temps(f):
    """block -> node ids defined elsewhere and still needed at/after the block"""
    if hasattr(f, "_xb"):
        return f._xb
    use, de = {}, {}

    def refs(x, out):
        if isinstance(x, dict):
            for kk, v in x.items():
                if kk in ("x", "y", "o", "b", "c", "i", "fp", "pmf", "sz") and isinstance(v, int) and not isinstance(v, bool):
                    out.add(v)
                elif kk in ("a",):
                    if isinstance(v, int) and not isinstance(v, bool):
                        out.add(v)
                    elif isinstance(v, list):
                        for z in v:
                            if isinstance(z, int):
                                out.add(z)
                            else:
                                refs(z, out)
                    else:
                        refs(v, out)
                elif isinstance(v, (dict, list)):
                    refs(v, out)
        elif isinstance(x, list):
            for z in x:
                refs(z, out)

    for b, blk in f.blocks.items():
        u, d = set(), set()
        for e in blk["e"]:
            r = set()
            refs(e, r)
            if e.get("k") == "cond":
                r.add(("arm", e.get("id")))
            if e.get("k") == "logic":
                r.add(e.get("id"))
            u |= (r - d)
            if "id" in e:
                d.add(e["id"])
        if blk.get("t"):
            r = set()
            refs(blk["t"].get("c"), r)
            if isinstance(blk["t"].get("c"), int):
                r.add(blk["t"]["c"])
            u |= (r - d)
        use[b], de[b] = u, d
    # liveness
    live = {b: set(use[b]) for b in f.blocks}
    ch = True
    while ch:
        ch = False
        for b, blk in f.blocks.items():
            o = set()
            for s in blk["s"]:
                if s is not None:
                    o |= live[s]
            nl = use[b] | (o - de[b])
            if nl != live[b]:
                live[b] = nl
                ch = True
    f._xb = {b: live[b] | {"exc"} for b in live}
    return f._xb


# ---------------------------------------------------------------------------
def pp(t, depth=0):
    """readable form of a term"""
    if depth > 12:
        return "..."
    q = lambda x: pp(x, depth + 1)
    if not isinstance(t, tuple) or not t:
        return str(t)
    k = t[0]
    try:
        if k in CK:
            return "null" if t[1] is None else str(t[1])
        if k == "p":
            return "arg%d" % t[1]
        if k == "this":
            return "this"
        if k == "ld":
            return q(t[1])
        if k == "F":
            f = t[2].rsplit("::", 1)[-1]
            if t[1] == ("*", ("this",)):
                return f
            if t[1][0] == "*":
                return q(t[1][1]) + "->" + f
            return q(t[1]) + "." + f
        if k == "E":
            return q(t[1]) + "[" + q(t[2]) + "]"
        if k == "*":
            return "*" + q(t[1])
        if k == "L":
            return "local%s" % t[2]
        if k == "G":
            return str(t[1])
        if k == "T":
            return q(t[1])
        if k == "addr":
            return "&" + q(t[1])
        if k == "op":
            return "(" + q(t[2]) + " " + t[1] + " " + q(t[3]) + ")"
        if k == "not":
            return "!" + q(t[1])
        if k == "it":
            if t[1] == "find":
                return q(t[2]) + ".find(" + q(t[4]) + ")"
            return q(t[2]) + "." + t[1] + "()"
        if k == "lit":
            return "each"
        if k == "has":
            return "has(" + q(t[1]) + ", " + q(t[3]) + ")"
        if k == "size":
            return q(t[1]) + ".size()"
        if k == "count":
            return q(t[1]) + ".count(" + q(t[3]) + ")"
        if k == "call":
            o = q(t[2]) + "." if t[2] is not None else ""
            return o + t[1].rsplit("::", 1)[-1] + "(" + ", ".join(q(x) for x in t[3]) + ")"
        if k == "new":
            return "new " + str(t[1])
        if k == "obj":
            return t[1] + "{" + ", ".join(q(x) for x in t[3]) + "}"
        if k == "pair":
            return "{" + q(t[1]) + ", " + q(t[2]) + "}"
        if k == "phi":
            return "some"
        if k == "dyn":
            return "dyn<" + str(t[1]) + ">(" + q(t[2]) + ")"
    except Exception:
        pass
    return "(" + " ".join(q(x) if isinstance(x, tuple) else str(x) for x in t) + ")"

"""Who may be modified by several threads: a flow-insensitive, context-sensitive
points-to style analysis with two kinds of storage (private to the worker /
reachable by other threads), over the whole-program call graph.

value = (s, d): s = 1 when the designated storage is shared; d tells what its
pointers lead to: 0 private objects, 1 private objects holding pointers to
shared ones, 2 shared objects.
"""
import re
from .ir import short, walk

P0 = (0, 0)
S = (1, 2)
LOCKS = ("std::lock_guard", "std::unique_lock", "std::scoped_lock", "std::shared_lock")
MUT = {"push_back", "emplace_back", "push_front", "emplace_front", "emplace", "emplace_hint", "insert", "insert_or_assign", "try_emplace", "erase",
       "clear", "pop", "pop_back", "pop_front", "push", "resize", "assign", "operator=", "swap", "reset", "release", "merge", "splice", "sort",
       "remove", "remove_if", "unique", "reverse", "reserve", "shrink_to_fit", "extract", "seed", "setstate", "open", "close", "operator+=",
       "operator++", "operator--", "append", "write", "put", "flush"}
ALGO = {"sort", "stable_sort", "shuffle", "random_shuffle", "copy", "copy_if", "copy_n", "move", "fill", "fill_n", "generate", "iota", "reverse", "rotate",
        "remove", "remove_if", "unique", "transform", "replace", "replace_if", "partition", "nth_element", "partial_sort", "swap", "iter_swap", "swap_ranges"}
ITER = {"begin", "end", "cbegin", "cend", "rbegin", "rend", "crbegin", "crend", "find", "lower_bound", "upper_bound", "insert", "emplace", "erase",
        "data", "c_str", "equal_range", "emplace_hint", "insert_or_assign", "try_emplace", "make_reverse_iterator"}
PTR = {"operator->", "get", "base", "lock"}
SELF_RET = {"operator=", "operator++", "operator--", "operator+=", "operator-=", "operator<<", "operator>>", "append", "assign"}
VAL = {"size", "empty", "count", "length", "max_size", "use_count", "what", "compare", "joinable", "hash_code", "good", "eof", "is_open", "fail"}


def addr(v):
    return (0, 2 if v[0] else 1 if v[1] else 0)


def deref(d):
    return S if d == 2 else (0, 2) if d == 1 else P0


def join(a, b):
    return (max(a[0], b[0]), max(a[1], b[1]))


def locked_elems(f):
    """ids (block, position) executed while a lock is held; also whether the function holds a lock at all"""
    if hasattr(f, "_locked"):
        return f._locked
    pos = {}
    any_ = False

    def tr(h, e):
        nonlocal any_
        k = e["k"]
        if k == "decls":
            for v in e["v"]:
                if short(v.get("t", "")).startswith(LOCKS):
                    ini = v.get("i")
                    n = f.node(ini) if ini is not None else None
                    txt = repr(n) if n else ""
                    if "defer_lock" in txt or "try_to_lock" in txt or (n and n["k"] == "ctor" and not n.get("a")):
                        continue
                    if n and n["k"] == "ctor" and any("defer_lock" in repr(f.node(x)) for x in n.get("a", ())):
                        continue
                    any_ = True
                    h = h | {("v", v["d"])}
        elif k == "dtor":
            h = h - {("v", e["d"])}
        elif k == "call" and e.get("o") is not None and (e.get("fn") or "").rsplit("::", 1)[-1] in ("lock", "unlock", "lock_shared", "unlock_shared"):
            o = f.node(e["o"])
            key = None
            if o and o["k"] == "var":
                key = ("v", o["d"])
            elif o:
                key = ("m", o.get("n") or o["k"])
            any_ = True
            if (e.get("fn") or "").rsplit("::", 1)[-1].startswith("lock"):
                h = h | {key}
            else:
                h = h - {key}
        return h
    ins = {f.entry: frozenset()}
    work = [f.entry]
    while work:
        b = work.pop()
        h = ins[b]
        for i, e in enumerate(f.blocks[b]["e"]):
            h = frozenset(tr(h, e))
        for s in f.blocks[b]["s"]:
            if s is None:
                continue
            n = h if s not in ins else ins[s] & h
            if s not in ins or n != ins[s]:
                ins[s] = n
                work.append(s)
    out = set()
    for b, h in ins.items():
        for i, e in enumerate(f.blocks[b]["e"]):
            h2 = frozenset(tr(h, e))
            if h and h2:
                out.add((b, i))
            h = h2
    f._locked = (out, any_)
    return f._locked


class Ctx:
    __slots__ = ("key", "f", "params", "this", "lock", "env", "ret", "parent", "caps", "store")

    def __init__(self, key, f, params, this, lock, parent, caps):
        self.key, self.f, self.params, self.this, self.lock = key, f, params, this, lock
        self.parent, self.caps = parent, caps
        self.env = {}
        self.ret = P0
        for i, p in enumerate(f.params):
            self.env[p["d"]] = params[i] if i < len(params) else P0


class Share:
    def __init__(self, P, roots, parent=None, caps=None):
        """roots: [(func, param values, this value)]"""
        self.P = P
        self.FT = {}
        self.ctxs = {}
        self.viol = {}
        self.changed = True
        self.sites = set()
        self.calls_seen = set()
        reach = P.reach([f.id for f, _, _ in roots])
        self.reach = reach
        self.ctors = {}
        for f in P.funcs.values():
            if f.blocks and f.scls and f.base == f.scls.rsplit("::", 1)[-1]:
                self.ctors.setdefault(f.scls, []).append(f)
        self.inited = set()
        # objects made by library functions run constructors too
        while True:
            more = []
            for i in reach:
                for n in P.funcs[i].calls():
                    if short(n.get("fn") or "") in ("std::make_unique", "std::make_shared"):
                        more += [g.id for g in self.ctors.get(short(tmpl_arg(n.get("t") or "")), ()) if g.id not in reach]
            if not more:
                break
            reach |= P.reach(more)
        self.made = {short(P.funcs[i].scls) for i in reach if P.funcs[i].scls and P.funcs[i].base == P.funcs[i].scls.rsplit("::", 1)[-1]}
        for i in reach:
            f = P.funcs[i]
            for b in f.blocks.values():
                for e in b["e"]:
                    if e["k"] == "init" and e.get("isref"):
                        self.inited.add(short(e.get("cls") or "") + "::" + e["n"])
        self.constfield = {}
        self.atomicfield = set()
        for n, c in P.classes.items():
            for fl in c["fields"]:
                if "atomic" in fl["t"]:
                    self.atomicfield.add(short(n) + "::" + fl["n"])
        n = 0
        while self.changed and n < 40:
            self.changed = False
            n += 1
            for f, ps, th in roots:
                self.call(f, tuple(ps), th, 0, parent, caps)
            for k in list(self.ctxs):
                self.scan(self.ctxs[k])
        self.rounds = n

    # -- contexts ---------------------------------------------------------
    def call(self, f, params, this, lock, parent=None, caps=None):
        params = tuple(params[:len(f.params)]) + (P0,) * max(0, len(f.params) - len(params))
        key = (f.id, params, this, lock, parent.key if parent else None)
        c = self.ctxs.get(key)
        if c is None:
            c = self.ctxs[key] = Ctx(key, f, params, this, lock, parent, caps)
            self.changed = True
        return c

    def raise_env(self, c, d, v):
        o = c.env.get(d, P0)
        n = join(o, v)
        if n != o:
            c.env[d] = n
            self.changed = True

    def raise_ft(self, fld, d):
        if d > self.FT.get(fld, 0):
            self.FT[fld] = d
            self.changed = True

    def report(self, c, n, lk, what, rule):
        if lk or c.lock:
            return
        self.viol.setdefault((rule, c.f.loc(n.get("l")), what), c.f.sname)

    # -- scanning ---------------------------------------------------------
    def scan(self, c):
        f = c.f
        lk, _ = locked_elems(f)
        c.store = {}
        for b in f.blocks.values():
            for i, e in enumerate(b["e"]):
                self.ev(c, e, (b["b"], i) in lk)
            t = b.get("t")
            if t and isinstance(t.get("c"), dict):
                self.ev(c, t["c"], False)

    def var(self, c, n):
        if n.get("cap") and c.parent is not None:
            cap = c.caps.get(n["n"])
            if cap is not None:
                return self.lookup(c.parent, cap["d"], cap)
        return c.env.get(n["d"], P0)

    def lookup(self, c, d, cap):
        if d in c.env:
            return c.env[d]
        # captured again by an outer lambda
        if c.parent is not None and cap["n"] in (c.caps or {}):
            return self.lookup(c.parent, c.caps[cap["n"]]["d"], c.caps[cap["n"]])
        return P0

    def ev(self, c, n, lk):
        """value of a node; effects are recorded"""
        f = c.f
        if isinstance(n, int):
            v = c.store.get(n)
            if v is not None:
                return v
            m = f.byid().get(n)
            return self.ev(c, m, lk) if m is not None else P0
        if n is None:
            return P0
        i = n.get("id")
        v = self.ev1(c, n, lk)
        if i is not None:
            c.store[i] = v
        return v

    def ev1(self, c, n, lk):
        k = n["k"]
        E = lambda x: self.ev(c, x, lk)
        if k == "var":
            return self.var(c, n)
        if k == "binding":
            return c.env.get(n.get("of"), P0)
        if k == "gvar":
            return self.gvar(n)
        if k == "this":
            t = c.this
            if c.parent is not None and t is None:
                t = c.parent.this
            return addr(t or P0)
        if k == "mem":
            b = E(n["b"])
            o = deref(b[1]) if n.get("arrow") else b
            return self.field(o, n)
        if k in ("load",):
            v = E(n["x"])
            if scalar(n.get("t", "")):
                return P0
            return (0, 2 if v[0] and v[1] else v[1]) if v != (1, 0) else P0
        if k == "cast":
            v = E(n["x"])
            if n["c"] in ("DerivedToBase", "UncheckedDerivedToBase", "NoOp", "BaseToDerived", "Dynamic", "BitCast", "LValueBitCast", "ConstructorConversion", "UserDefinedConversion"):
                return v
            if n["c"] == "ArrayToPointerDecay":
                return addr(v)
            return v
        if k == "un":
            v = E(n["x"])
            if n["op"] == "&":
                return addr(v)
            if n["op"] == "*":
                return deref(v[1])
            if n["op"] in ("++", "--"):
                self.write(c, n, n["x"], v, P0, lk)
                return v
            return (0, v[1])
        if k == "bin":
            a, b = E(n["x"]), E(n["y"])
            if n["op"] in ("+", "-"):
                return (0, max(a[1], b[1]))
            return P0 if n["op"] != "," else b
        if k == "logic":
            E(n["x"]), E(n["y"])
            return P0
        if k == "cond":
            return join(E(n["x"]), E(n["y"]))
        if k == "asg":
            y = E(n["y"])
            x = E(n["x"])
            self.write(c, n, n["x"], x, y, lk)
            return x
        if k == "sub":
            x = E(n["x"])
            return deref(x[1]) if x[1] != 0 or x[0] else P0
        if k == "ret":
            if n.get("x") is not None:
                v = E(n["x"])
                if not c.f.r.get("ret", "").rstrip().endswith("&"):
                    v = (0, v[1] if v != (1, 0) else 0)
                nv = join(c.ret, v)
                if nv != c.ret:
                    c.ret = nv
                    self.changed = True
            return P0
        if k == "decls":
            for d in n["v"]:
                if d.get("static"):
                    continue
                v = E(d["i"]) if d.get("i") is not None else P0
                if not d.get("isref"):
                    v = (0, 0 if v == (1, 0) else 2 if v[0] and v[1] else v[1])
                self.raise_env(c, d["d"], v)
            return P0
        if k == "init":
            v = E(n["x"]) if n.get("x") is not None else P0
            if "n" in n:
                d = addr(v)[1] if n.get("isref") else (2 if v[0] else v[1])
                if c.this and c.this[0] and not self.isatomic(n):
                    pass
                self.raise_ft(short(n.get("cls") or "") + "::" + n["n"], d)
            return P0
        if k == "lambda":
            return self.lam(c, n, lk, None)
        if k == "new":
            v = E(n["i"]) if n.get("i") is not None else P0
            return addr((0, v[1]))
        if k == "delete":
            v = E(n["a"])
            if v[1] == 2:
                self.report(c, n, lk, "an object other threads can reach is deleted", "delete")
            return P0
        if k == "ilist":
            v = P0
            for x in n.get("a", ()):
                y = E(x)
                v = join(v, (0, y[1]))
            return v
        if k == "throw":
            if n.get("x") is not None:
                E(n["x"])
            return P0
        if k == "typeid":
            return P0
        if k in ("call", "ctor"):
            return self.docall(c, n, lk)
        if k == "other":
            v = P0
            for x in n.get("a", ()) or ():
                v = join(v, E(x))
            return v
        return P0

    def isatomic(self, n):
        return (short(n.get("cls") or "") + "::" + n["n"]) in self.atomicfield

    def gvar(self, n):
        if n.get("tls"):
            return P0
        g = self.P.globals.get(n["n"]) if not n.get("slocal") else None
        t = (g or {}).get("t") or n.get("t") or ""
        if g and (g.get("tls")):
            return P0
        if "atomic" in t or "mutex" in t or "stream" in t:
            return P0
        if (g and g.get("const")) or t.startswith("const ") and "*" not in t:
            return P0
        return S

    def field(self, o, n):
        fld = short(n.get("cls") or "") + "::" + n["n"]
        if o[0]:
            if fld in self.atomicfield:
                return P0
            v = (1, o[1])
            return deref(2) if n.get("isref") else v
        d = max(o[1], self.FT.get(fld, 0))
        # objects handed over to the worker keep pointing to what is shared
        if not d and fld not in self.FT and short(n.get("cls") or "") not in self.made and not (n.get("cls") or "").startswith("std::") \
                and OUTSIDE.search(n.get("t") or ""):
            d = 2
        if n.get("isref"):
            if fld not in self.FT and fld not in self.inited:
                d = 2
            return deref(d)
        return (0, d)

    def write(self, c, n, lhs, v, val, lk):
        if v[0]:
            x = self.strip(c, lhs)
            self.report(c, n, lk, "modifies %s, which other threads can reach" % self.name(c, x), "write")
        self.sites.add((c.f.id, n.get("l")))
        self.keep(c, lhs, 0 if val == (1, 0) else 2 if val[0] and val[1] else val[1])

    def strip(self, c, x):
        x = c.f.node(x)
        while x and x["k"] in ("load", "cast"):
            x = c.f.node(x["x"])
        return x

    def name(self, c, x):
        if x is None:
            return "an object"
        if x["k"] == "mem":
            return "%s::%s" % (short(x.get("cls") or ""), x["n"])
        if x["k"] in ("var", "gvar"):
            return x["n"]
        if x["k"] == "un" or x["k"] == "cast" or x["k"] == "load":
            return "*" + self.name(c, self.strip(c, x["x"]))
        if x["k"] == "call":
            return self.name(c, self.strip(c, x["o"])) if x.get("o") is not None else (x.get("fn") or "an object")
        if x["k"] == "sub":
            return self.name(c, self.strip(c, x["x"]))
        if x["k"] == "this":
            return "*this"
        return "an object"

    def keep(self, c, lhs, d):
        """the storage designated by lhs now holds pointers of level d"""
        if not d:
            return
        x = c.f.node(lhs)
        for _ in range(30):
            if x is None:
                return
            k = x["k"]
            if k == "var":
                if x.get("cap") and c.parent is not None and x["n"] in (c.caps or {}):
                    p, cap = c.parent, c.caps[x["n"]]
                    while cap["d"] not in p.env and p.parent is not None and cap["n"] in (p.caps or {}):
                        cap = p.caps[cap["n"]]
                        p = p.parent
                    self.raise_env(p, cap["d"], (0, d))
                else:
                    self.raise_env(c, x["d"], (0, d))
                return
            if k == "binding":
                self.raise_env(c, x.get("of"), (0, d))
                return
            if k == "mem":
                b = self.ev(c, x["b"], False)
                o = deref(b[1]) if x.get("arrow") else b
                if not o[0]:
                    self.raise_ft(short(x.get("cls") or "") + "::" + x["n"], d)
                    if not x.get("arrow") and short(x.get("cls") or "").startswith("std::"):
                        x = c.f.node(x["b"])
                        continue
                return
            if k in ("load", "cast"):
                x = c.f.node(x["x"])
                continue
            if k == "un" and x["op"] == "*":
                x = c.f.node(x["x"])
                d = max(1, d - 1) if d == 2 else d
                continue
            if k == "sub":
                x = c.f.node(x["x"])
                if x is not None and x["k"] == "load":
                    d = 1
                continue
            if k == "call" and x.get("o") is not None:
                if x.get("arrow") or (x.get("fn") or "").rsplit("::", 1)[-1] in ("operator*", "operator->"):
                    d = 1
                x = c.f.node(x["o"])
                continue
            return

    # -- calls -------------------------------------------------------------
    def lam(self, c, n, lk, params):
        f = self.P.funcs.get(n["f"])
        if f is None:
            return P0
        caps = {x["n"]: x for x in n.get("cap", ()) if "n" in x}
        if params is None:
            params = tuple(P0 for _ in f.params)
        if f.blocks:
            self.call(f, params, None if any(x.get("this") for x in n.get("cap", ())) else P0, int(bool(lk or c.lock)), c, caps)
        d = 0
        for x in n.get("cap", ()):
            if "d" in x:
                v = self.lookup(c, x["d"], x)
                d = max(d, v[1], 2 if v[0] else 0)
        return (0, d)

    def docall(self, c, n, lk):
        P = self.P
        f = c.f
        k = n["k"]
        fn = short(n.get("fn") or "")
        base = fn.rsplit("::", 1)[-1]
        scls = fn.rsplit("::", 1)[0] if "::" in fn else ""
        an = n.get("a", [])
        am = n.get("am", "")
        av = [self.ev(c, x, lk) for x in an]
        o = None
        if n.get("o") is not None:
            ov = self.ev(c, n["o"], lk)
            o = deref(ov[1]) if n.get("arrow") else ov
        L = int(bool(lk or c.lock))
        if k == "call" and fn and o is not None and o[0] and self.isenv(n) and n.get("virt"):
            self.report(c, n, lk, "uses the learning environment of another thread (%s)" % fn, "environment")
        ts = P.targets(n)
        lamcall = None
        if ts and ts[0].r.get("lambda") or base == "operator()" and k == "call":
            lamcall = True
        if ts and not (lamcall and ts[0].r.get("lambda")):
            res = P0
            for t in ts:
                ps = []
                for i, p in enumerate(t.params):
                    v = av[i] if i < len(av) else P0
                    if not p.get("isref"):
                        v = (0, 0 if v == (1, 0) else 2 if v[0] and v[1] else v[1])
                    ps.append(v)
                this = (P0 if k == "ctor" else o)
                if k == "ctor" and c.f.base == c.f.scls and False:
                    this = c.this
                q = self.call(t, tuple(ps), this if this is not None else P0, L)
                res = join(res, q.ret)
                for i, p in enumerate(t.params):
                    if i < len(an) and p.get("isref") or i < len(an) and "*" in p.get("t", ""):
                        e = q.env.get(p["d"], P0)[1]
                        if e > q.params[i][1]:
                            self.keep(c, an[i], e)
            if k == "ctor":
                cp = n.get("cp")
                return (0, 0) if not cp else (0, 0)
            return res
        if lamcall and ts:
            # a lambda held in a local: analysed where it was created; refine with these arguments
            t = ts[0]
            src = self.find_lambda(c, t.id)
            if src is not None:
                lc, ln = src
                caps = {x["n"]: x for x in ln.get("cap", ()) if "n" in x}
                q = self.call(t, tuple(av), None if any(x.get("this") for x in ln.get("cap", ())) else P0, L, lc, caps)
                for i, p in enumerate(t.params):
                    e = q.env.get(p["d"], P0)[1]
                    if i < len(an) and p.get("isref") and e > q.params[i][1]:
                        self.keep(c, an[i], e)
                return q.ret
            return P0
        # no body: library or user code
        repo = n.get("f") in P.method_decl
        if k == "ctor":
            d = max([2 if v[0] and v[1] else v[1] for v in av] or [0])
            if scls == "std::reference_wrapper" and av:
                d = addr(av[0])[1] if not n.get("cp") else av[0][1]
            elif is_iterish(scls) and av:
                d = av[0][1]
            return (0, d)
        self.calls_seen.add(fn)
        # lambdas given to library functions
        for i, x in enumerate(an):
            y = self.strip(c, x)
            while y is not None and y["k"] == "ctor" and len(y.get("a", ())) == 1:
                y = self.strip(c, y["a"][0])
            if y is not None and y["k"] == "lambda":
                d = max([v[1] for j, v in enumerate(av) if j != i] + [addr(o)[1] if o is not None else 0])
                lf = P.funcs.get(y["f"])
                if lf is not None:
                    ps = tuple(deref(d) if p.get("isref") else (0, 2 if d else 0) for p in lf.params)
                    self.lam(c, y, lk, ps)
        if fn in ("std::make_unique", "std::make_shared"):
            t = tmpl_arg(n.get("t") or "")
            dv = [2 if v[0] and v[1] and False else v for v in av]
            cs = [g for g in self.ctors.get(short(t), ()) if len(g.params) == len(av) or len(g.params) > len(av)]
            if cs:
                for g in cs:
                    self.call(g, tuple(v if p.get("isref") else (0, 2 if v[0] and v[1] else v[1]) for v, p in zip(dv, g.params)), P0, L)
                return (0, 0)
            return addr((0, max([v[1] for v in av] or [0])))
        if fn in ("std::move", "std::forward", "std::as_const"):
            return av[0] if av else P0
        if fn in ("std::ref", "std::cref"):
            return (0, addr(av[0])[1]) if av else P0
        if fn in ("std::addressof",):
            return addr(av[0])
        if base in ("dynamic_pointer_cast", "static_pointer_cast", "const_pointer_cast"):
            return (0, av[0][1]) if av else P0
        if o is None:
            # free library function
            if fn == "std::get" and av:
                return av[0]
            d = max([2 if v[0] and v[1] else v[1] for v in av] or [0])
            if base.startswith("operator") and scls.startswith("std"):
                if base in ("operator<<", "operator>>") and av and av[0][0] and n.get("lv"):
                    self.report(c, n, lk, "writes to a stream other threads can reach", "call")
                return av[0] if n.get("lv") and av else P0
            if base in ALGO and scls == "std":
                tgt = [v for i, v in enumerate(av) if v[1] == 2 or v[0] and am[i:i + 1] == "m"]
                dst = {"copy": [2], "copy_if": [2], "move": [2], "transform": [2, 3], "copy_n": [2]}.get(base)
                if dst is not None:
                    tgt = [av[i] for i in dst if i < len(av) and av[i][1] == 2]
                if tgt:
                    self.report(c, n, lk, "std::%s modifies %s, which other threads can reach" % (base, self.name(c, self.strip(c, an[0]))), "call")
            else:
                for i, v in enumerate(av):
                    if v[0] and am[i:i + 1] == "m" and not repo and fn and base not in ("get", "tie", "make_pair", "min", "max", "begin", "end", "size", "rbegin", "rend", "cbegin", "cend", "advance", "next", "prev", "distance"):
                        self.report(c, n, lk, "%s modifies %s, which other threads can reach" % (fn, self.name(c, self.strip(c, an[i]))), "call")
            if base in ("begin", "end", "rbegin", "rend", "cbegin", "cend", "back_inserter", "front_inserter", "inserter"):
                return addr(av[0]) if av else P0
            return (0, d)
        # method
        if scls.startswith("std::atomic") or scls.startswith("std::__atomic") or "mutex" in scls or scls.startswith(LOCKS):
            return P0
        if repo:
            # user code: pure virtual or defined outside
            m = P.method_decl[n["f"]][1]
            if o[0] and not m.get("const") and not m.get("static"):
                self.report(c, n, lk, "calls %s, which may modify an object other threads can reach" % fn, "call")
            d = max([o[1]] + [v[1] for v in av])
            return (0, d) if not n.get("lv") else (o[0], d)
        mutating = base in MUT or base == "operator[]" and short(scls) in ("std::map", "std::unordered_map")
        if base in ("operator++", "operator--", "operator+=") and not is_iterish(scls) and not scls.startswith("std::basic_string"):
            mutating = mutating and o[0]
        if mutating and o[0]:
            self.report(c, n, lk, "%s modifies %s, which other threads can reach" % (base, self.name(c, self.strip(c, n["o"]))), "call")
        self.sites.add((c.f.id, n.get("l")))
        d = max([2 if v[0] and v[1] else v[1] for v in av] or [0])
        if mutating and base not in ("erase", "clear", "pop", "pop_back", "pop_front", "resize", "reserve") and not o[0]:
            self.keep(c, n["o"], d)
        if base in ("operator*",) or scls == "std::reference_wrapper" and not base.startswith("operator=") and base != "operator()":
            return deref(o[1])
        if base in PTR:
            return (0, o[1]) if base != "lock" else (0, o[1])
        if base in ITER:
            return addr(o)
        if base in VAL:
            return P0
        if base in ("front", "top", "back") and o[0] and L and self.pops(c):
            return (1, 0)
        if base == "operator[]" and is_iterish(scls) or base == "operator[]" and scls.startswith(("std::unique_ptr", "std::shared_ptr")):
            return deref(o[1])
        if base == "operator()":
            return (0, max(o[1], d)) if not n.get("lv") else deref(max(o[1], d))
        if scls.startswith("std::reference_wrapper"):
            return deref(o[1])
        if base.startswith("operator ") and "reference_wrapper" in scls:
            return deref(o[1])
        if n.get("lv"):
            return o
        return (0, o[1])

    def pops(self, c):
        """elements taken out of the container under a lock belong to the taker"""
        lk, any_ = locked_elems(c.f)
        for b in c.f.blocks.values():
            for i, e in enumerate(b["e"]):
                if ((b["b"], i) in lk or c.lock) and e["k"] == "call" and (e.get("fn") or "").rsplit("::", 1)[-1] in ("pop", "pop_back", "pop_front", "erase"):
                    return True
        return False

    def find_lambda(self, c, fid):
        p = c
        while p is not None:
            for n in p.f.nodes():
                if n["k"] == "lambda" and n["f"] == fid:
                    return p, n
            p = p.parent
        return None

    def isenv(self, n):
        m = self.P.method_decl.get(n.get("f"))
        cls = m[0] if m else None
        if cls is None:
            g = self.P.funcs.get(n.get("f"))
            cls = g.cls if g else None
        return bool(cls) and cls in self.envs()

    def envs(self):
        if not hasattr(self, "_envs"):
            self._envs = self.P.derived_short("Learn::LearningEnvironment")
        return self._envs


OUTSIDE = re.compile(r"(\*( const)?$|const [\w:]+ \*|reference_wrapper<const)")
SCAL = {"bool", "char", "signed char", "unsigned char", "short", "unsigned short", "int", "unsigned int", "long", "unsigned long", "long long",
        "unsigned long long", "float", "double", "uint64_t", "size_t", "int64_t"}


def scalar(t):
    t = t.strip()
    if t.startswith("const "):
        t = t[6:]
    return t in SCAL


def is_iterish(s):
    return "iterator" in s


def tmpl_arg(t):
    i = t.find("<")
    if i < 0:
        return ""
    d = 0
    for j in range(i, len(t)):
        if t[j] == "<":
            d += 1
        elif t[j] == ">":
            d -= 1
            if d == 0:
                return t[i + 1:j].strip()
        elif t[j] == "," and d == 1:
            return t[i + 1:j].strip()
    return ""

"""Invalidation of references, pointers and iterators into containers (flow sensitive)."""
from interp import strip_type, rec_base, split_targs

VEC = {"std::vector", "std::basic_string"}
NODE = {"std::unordered_map", "std::map", "std::set", "std::unordered_set", "std::multimap", "std::unordered_multimap", "std::list"}
DEQ = {"std::deque"}
# operation -> what it invalidates: "all" references and iterators, "iter" iterators only, "back" the last element, "gone" everything including nested
VECOPS = {"push_back": "all", "emplace_back": "all", "resize": "all", "reserve": "all", "insert": "all", "emplace": "all", "clear": "gone", "erase": "all", "assign": "gone",
          "operator=": "gone", "shrink_to_fit": "all", "pop_back": "back", "append": "all", "operator+=": "all"}
NODEOPS = {"insert": "iter", "emplace": "iter", "operator[]": "iter", "try_emplace": "iter", "insert_or_assign": "iter", "clear": "gone", "erase": "gone", "operator=": "gone",
           "rehash": "iter", "reserve": "iter"}
DEQOPS = {"push_back": "iter", "emplace_back": "iter", "push_front": "iter", "resize": "all", "insert": "all", "clear": "gone", "erase": "all", "operator=": "gone", "pop_back": "back",
          "pop_front": "iter"}
ELEM = {"operator[]", "at", "front", "back", "data", "operator*", "operator->"}
ITER = {"begin", "end", "find", "rbegin", "rend", "cbegin", "cend", "lower_bound", "upper_bound", "data"}


def kind(t):
    b = rec_base(strip_type(t or ""))
    if b in VEC:
        return "vec"
    if b in NODE:
        # ordered containers keep iterators on insertion
        return "tree" if b in ("std::map", "std::set", "std::multimap", "std::list") else "node"
    if b in DEQ:
        return "deq"
    return None


def opeffect(k, op):
    if k == "vec":
        return VECOPS.get(op)
    if k == "node":
        return NODEOPS.get(op)
    if k == "tree":
        e = NODEOPS.get(op)
        return e if e == "gone" else None
    if k == "deq":
        return DEQOPS.get(op)
    return None


class Ref:
    """what a variable refers to"""
    __slots__ = ("near", "outer", "kind", "bad", "back", "name")

    def __init__(self, near, outer, kind, back, name):
        self.near, self.outer, self.kind, self.back, self.name = near, outer, kind, back, name
        self.bad = None

    def copy(self):
        r = Ref(self.near, self.outer, self.kind, self.back, self.name)
        r.bad = self.bad
        return r


class Path:
    """textual access path; near: innermost container the object lives in, outer: the others"""
    __slots__ = ("text", "near", "outer", "back", "it")

    def __init__(self, text, near=None, outer=(), back=False, it=False):
        self.text, self.near, self.outer, self.back, self.it = text, near, outer, back, it

    def field(self, n):
        return Path(self.text + "." + n, self.near, self.outer, self.back)

    def elem(self, idx, back=False, it=False):
        return Path("%s[%s]" % (self.text, idx), self.text, self.outer + ((self.near,) if self.near else ()), back, it)


UNKNOWN = None


class Fn:
    def __init__(self, A, f):
        self.A, self.f = A, f
        self.alias = {}
        self.reported = set()
        self.nsites = 0

    # ------------------------------------------------ paths
    def path(self, e, depth=0):
        while isinstance(e, list) and e and e[0] in ("tmp", "up", "ld", "icast", "tobool", "anon"):
            e = e[1]
        if not isinstance(e, list) or not e or depth > 12:
            return UNKNOWN
        k = e[0]
        if k == "cast":
            return self.path(e[2], depth + 1)
        if k == "this":
            return Path("this")
        if k == "var":
            a = self.alias.get(e[1])
            if a is not None:
                return a
            return Path("v%s" % e[1])
        if k == "glob":
            return Path("g:" + e[1])
        if k == "mem":
            p = self.path(e[1], depth + 1)
            return p.field(e[2]) if p is not None else UNKNOWN
        if k == "idx":
            p = self.path(e[1], depth + 1)
            return Path(p.text + "[%s]" % text(e[2]), p.near, p.outer) if p is not None else UNKNOWN
        if k == "un" and e[1] == "*":
            p = self.path(e[2], depth + 1)
            return p
        if k == "un" and e[1] == "&":
            return self.path(e[2], depth + 1)
        if k == "ctor" and len(e[3]) == 1:
            return self.path(e[3][0], depth + 1)
        if k in ("mcall", "opcall"):
            if k == "mcall":
                info, obj, args = e[1], e[2], e[4]
            else:
                if not e[2].get("method"):
                    if e[1] in ("+", "-") and e[3]:
                        return self.path(e[3][0], depth + 1)
                    return UNKNOWN
                info, obj, args = e[2], e[3][0], e[3][1:]
            n = short(info["name"])
            cls = info.get("cls") or ""
            ck = kind(cls)
            p = self.path(obj, depth + 1)
            if p is None:
                return UNKNOWN
            if ck:
                if n in ("operator[]", "at"):
                    return p.elem(text(args[0]) if args else "?")
                if n in ("front", "data"):
                    return p.elem("0")
                if n == "back":
                    return p.elem("back", True)
                if n in ITER:
                    return p.elem("it", False, True)
                if n in ("insert", "emplace", "erase"):
                    return p.elem("it", False, True)
                if n in ("emplace_back",):
                    return p.elem("back", True)
                return UNKNOWN
            b = rec_base(cls) or ""
            if "iterator" in b or "_Node" in b:
                if n in ("operator*", "operator->"):
                    return Path(p.text, p.near, p.outer)
                if n in ("operator++", "operator--", "operator+", "operator-", "operator+=", "operator-="):
                    return p
                return UNKNOWN
            if b in ("std::unique_ptr", "std::shared_ptr", "std::optional", "std::reference_wrapper"):
                return Path(p.text + ".*", None, ())
            if info.get("repo") and info["ret"].startswith("&"):
                return self.through(info, p, args, depth)
            return UNKNOWN
        if k == "call" and e[1].get("repo") and e[1]["ret"].startswith("&"):
            return self.through(e[1], None, e[2], depth)
        return UNKNOWN

    def through(self, info, p, args, depth):
        """reference returned by a simple function"""
        f = self.A.P.functions.get(info["key"])
        if f is None or f.get("body") is None:
            return UNKNOWN
        b = f["body"]
        b = b[1] if b[0] == "block" else [b]
        b = [s for s in b if s]
        if len(b) != 1 or b[0][0] != "return" or b[0][1] is None:
            return UNKNOWN
        g = Fn(self.A, f)
        for prm, a in zip(f["params"], args):
            q = self.path(a, depth + 1)
            if q is not None and prm["type"].startswith("&"):
                g.alias[prm["id"]] = q
            else:
                g.alias[prm["id"]] = Path(text(a))
        q = g.path(b[0][1], depth + 1)
        if q is None:
            return UNKNOWN
        if p is None:
            return q

        def sub(t):
            return (p.text + t[4:] if t == "this" or t.startswith("this.") or t.startswith("this[") else t) if t is not None else None
        r = Path(sub(q.text), sub(q.near), tuple(sub(x) for x in q.outer), q.back, q.it)
        if r.near is None:
            r.near, r.outer = p.near, p.outer
        return r

    # ------------------------------------------------ execution
    def run(self):
        st = {}
        self.breaks, self.conts = [], []
        for b in [it[3] for it in self.f.get("inits") or []]:
            self.ev(b, st)
        self.stmt(self.f["body"], st)

    def merge(self, a, b):
        if a is None:
            return b
        if b is None:
            return a
        r = {}
        for k in set(a) | set(b):
            x, y = a.get(k), b.get(k)
            if x is None or y is None:
                r[k] = (x or y).copy()
            else:
                r[k] = (x if x.bad else y).copy()
        return r

    def copy(self, st):
        return None if st is None else {k: v.copy() for k, v in st.items()}

    def stmts(self, xs, st):
        for s in xs:
            if st is None:
                return None
            st = self.stmt(s, st)
        return st

    def stmt(self, s, st):
        if s is None or st is None:
            return st
        k = s[0]
        if k == "block":
            return self.stmts(s[1], st)
        if k == "expr":
            return self.ev(s[1], st)
        if k == "decl":
            for d in s[1]:
                st = self.decl(d, st)
            return st
        if k == "if":
            st = self.stmt(s[1], st)
            st = self.stmt(s[2], st)
            st = self.ev(s[3], st)
            a = self.stmt(s[4], self.copy(st))
            b = self.stmt(s[5], self.copy(st)) if s[5] else st
            return self.merge(a, b)
        if k in ("for", "while", "do", "range"):
            return self.loop(s, st)
        if k == "switch":
            st = self.ev(s[1], st)
            sb, self.breaks = self.breaks, []
            body = s[2][1] if s[2][0] == "block" else [s[2]]
            cur = None
            for x in body:
                if x[0] in ("case", "default"):
                    cur = self.merge(cur, self.copy(st))
                    y = x
                    while y and y[0] in ("case", "default"):
                        y = y[2] if y[0] == "case" else y[1]
                    cur = self.stmt(y, cur)
                else:
                    cur = self.stmt(x, cur)
            out = self.merge(cur, self.copy(st))
            for b in self.breaks:
                out = self.merge(out, b)
            self.breaks = sb
            return out
        if k in ("case", "default"):
            return self.stmt(s[2] if k == "case" else s[1], st)
        if k == "return":
            if s[1] is not None:
                self.ev(s[1], st)
            self.leave(st)
            return None
        if k == "break":
            self.breaks.append(self.copy(st))
            return None
        if k == "continue":
            self.conts.append(self.copy(st))
            return None
        if k == "try":
            a = self.stmt(s[1], self.copy(st))
            for h in s[2]:
                a = self.merge(a, self.stmt(h[1], self.copy(st)))
            return a
        if k == "label":
            return self.stmt(s[1], st)
        return st

    def leave(self, st):
        pass

    def loop(self, s, st):
        k = s[0]
        sb, sc = self.breaks, self.conts
        self.breaks, self.conts = [], []
        out = None
        try:
            if k == "for":
                st = self.stmt(s[1], st)
                for _ in range(2):
                    if s[2] is not None:
                        st = self.ev(s[2], st)
                    out = self.merge(out, self.copy(st))
                    self.conts = []
                    st = self.stmt(s[4], st)
                    for c in self.conts:
                        st = self.merge(st, c)
                    if st is None:
                        break
                    if s[3] is not None:
                        st = self.ev(s[3], st)
                if s[2] is not None and st is not None:
                    st = self.ev(s[2], st)
                if s[2] is not None:
                    out = self.merge(out, st)
                else:
                    out = None
            elif k == "while":
                for _ in range(2):
                    if st is None:
                        break
                    st = self.stmt(s[1], st)
                    st = self.ev(s[2], st)
                    out = self.merge(out, self.copy(st))
                    self.conts = []
                    st = self.stmt(s[3], st)
                    for c in self.conts:
                        st = self.merge(st, c)
                if st is not None:
                    st = self.ev(s[2], st)
                    out = self.merge(out, st)
            elif k == "do":
                for _ in range(2):
                    if st is None:
                        break
                    self.conts = []
                    st = self.stmt(s[1], st)
                    for c in self.conts:
                        st = self.merge(st, c)
                    if st is not None:
                        st = self.ev(s[2], st)
                    out = self.merge(out, self.copy(st))
            else:
                _, d, rng, rtype, body = s[:5]
                st = self.ev(rng, st)
                p = self.path(rng)
                ck = kind(rtype)
                hid = "range%d" % id(s)
                if p is not None and ck:
                    q = p.elem("rng%d" % (id(s) % 9973), False, True)
                    st[hid] = Ref(q.near, q.outer, ck, False, "the iteration over %s" % name_of(rng))
                for _ in range(2):
                    if st is None:
                        break
                    self.use(hid, st, s[5] if len(s) > 5 else None)
                    dd = d[1][0] if d and d[0] == "decl" else None
                    if dd is not None:
                        if dd[0] == "var" and dd[3].startswith("&") and p is not None and ck:
                            q = p.elem("rng%d" % (id(s) % 9973))
                            self.alias[dd[1]] = q
                            st[dd[1]] = Ref(q.near, q.outer, ck, False, dd[2])
                        elif dd[0] == "decomp" and dd[2].startswith("&") and p is not None and ck:
                            q = p.elem("rng%d" % (id(s) % 9973))
                            for b in dd[4]:
                                self.alias[b["id"]] = q.field(b["name"])
                                st[b["id"]] = Ref(q.near, q.outer, ck, False, b["name"])
                    out = self.merge(out, self.copy(st))
                    self.conts = []
                    st = self.stmt(body, st)
                    for c in self.conts:
                        st = self.merge(st, c)
                if st is not None:
                    self.use(hid, st, s[5] if len(s) > 5 else None)
                out = self.merge(out, st)
                if out is not None:
                    out.pop(hid, None)
            for b in self.breaks:
                out = self.merge(out, b)
        finally:
            self.breaks, self.conts = sb, sc
        return out

    def decl(self, d, st):
        if d[0] == "var":
            _, vid, nm, typ, init, static = d
            if init is None:
                st.pop(vid, None)
                return st
            st = self.ev(init, st)
            if st is None:
                return st
            self.bind(vid, nm, typ, init, st)
        elif d[0] == "decomp":
            if d[3] is not None:
                st = self.ev(d[3], st)
                p = self.path(d[3]) if d[2].startswith("&") and not d[2].startswith("&&") else None
                for b in d[4]:
                    st.pop(b["id"], None)
                    self.alias.pop(b["id"], None)
                    if p is not None and p.near is not None:
                        self.alias[b["id"]] = p.field(b.get("field") or b["name"])
                        st[b["id"]] = Ref(p.near, p.outer, self.kind_at(p), p.back, b["name"])
                # pair of iterators
                q = self.path(d[3]) if not d[2].startswith("&") else None
                if q is not None and q.it:
                    for b in d[4][:1]:
                        self.alias[b["id"]] = q
                        st[b["id"]] = Ref(q.near, q.outer, self.kind_at(q) + "it", q.back, b["name"])
        return st

    def kind_at(self, p):
        return self.A.kinds.get(p.near, "vec")

    def bind(self, vid, nm, typ, init, st):
        st.pop(vid, None)
        self.alias.pop(vid, None)
        isref = typ.startswith("&") and not typ.startswith("&&")
        isptr = typ.startswith("*") or typ.startswith("c:*")
        isit = "iterator" in (rec_base(strip_type(typ)) or "")
        if typ.startswith("&&"):
            isref = init and init[0] not in ("tmp", "ctor", "call", "init", "lambda") or False
        if not (isref or isptr or isit):
            return
        self.note_kinds(init)
        p = self.path(init)
        if p is None:
            return
        if isptr and not (init[0] == "un" and init[1] == "&" or p.it or init[0] in ("var", "ld")) and not (init[0] == "mcall" and short(init[1]["name"]) == "data"):
            return
        if isptr and init[0] == "ld" and init[1][0] != "var":
            # value of a stored pointer
            self.alias.pop(vid, None)
            return
        if isref or isit or isptr:
            self.alias[vid] = p
        if p.near is not None:
            self.nsites += 1
            st[vid] = Ref(p.near, p.outer, self.kind_at(p) + ("it" if isit or p.it else ""), p.back, nm)

    def note_kinds(self, e):
        """remember the kind of each container path"""
        stack = [e]
        while stack:
            x = stack.pop()
            if isinstance(x, list):
                if x and x[0] in ("mcall", "opcall"):
                    info = x[1] if x[0] == "mcall" else x[2]
                    obj = x[2] if x[0] == "mcall" else (x[3][0] if x[3] else None)
                    ck = kind(info.get("cls"))
                    if ck and obj is not None:
                        p = self.path(obj)
                        if p is not None:
                            self.A.kinds[p.text] = ck
                stack.extend(x)

    def use(self, vid, st, loc):
        r = st.get(vid)
        if r is not None and r.bad is not None:
            key = (vid, str(r.bad))
            if key not in self.reported:
                self.reported.add(key)
                self.A.report(self.f, loc, r)
            r.bad = None

    # ------------------------------------------------ expressions
    def ev(self, e, st):
        if st is None or not isinstance(e, list) or not e:
            return st
        k = e[0]
        if not isinstance(k, str):
            for x in e:
                st = self.ev(x, st)
            return st
        if k == "var" and len(e) == 4:
            self.use(e[1], st, self.line)
            return st
        if k == "lambda":
            if e[2]:
                sb, sc = self.breaks, self.conts
                self.breaks, self.conts = [], []
                r = self.stmt(e[2], self.copy(st))
                self.breaks, self.conts = sb, sc
                # the body may run later; keep the marks it leaves
                return self.merge(st, r)
            return st
        if k == "assign":
            st = self.ev(e[2], st)
            l = e[1]
            if l[0] == "var":
                # re-seated pointer or iterator
                t = l[3]
                if t.startswith("*") or "iterator" in (rec_base(strip_type(t)) or ""):
                    self.bind(l[1], l[2], t, e[2], st)
                    return st
            return self.ev(l, st)
        if k == "bin" and e[1] in ("&&", "||"):
            st = self.ev(e[2], st)
            return self.merge(self.ev(e[3], self.copy(st)), st)
        if k == "cond":
            st = self.ev(e[1], st)
            return self.merge(self.ev(e[2], self.copy(st)), self.ev(e[3], self.copy(st)))
        if k == "throw":
            self.ev(e[1], st)
            return None
        if k in ("mcall", "call", "opcall", "ctor", "icall"):
            return self.callexpr(e, st)
        loc = e[-1]
        if isinstance(loc, list) and len(loc) == 2 and all(isinstance(x, int) for x in loc):
            self.line = loc
        for x in e[1:]:
            if isinstance(x, list):
                st = self.ev(x, st)
                if st is None:
                    return None
        return st

    line = None

    def callexpr(self, e, st):
        k = e[0]
        if k == "icall":
            for x in [e[1]] + e[2]:
                st = self.ev(x, st)
            return st
        if k == "mcall":
            info, obj, args, loc = e[1], e[2], e[4], e[5]
        elif k == "opcall":
            if e[2].get("method"):
                info, obj, args, loc = e[2], e[3][0], e[3][1:], e[4]
            else:
                info, obj, args, loc = e[2], None, e[3], e[4]
        elif k == "ctor":
            info, obj, args, loc = e[2], None, e[3], e[4]
        else:
            info, obj, args, loc = e[1], None, e[2], e[3]
        self.line = loc
        n = short(info["name"])
        if n == "operator=" and obj is not None and obj[0] == "var" and "iterator" in (rec_base(strip_type(obj[3])) or ""):
            st = self.ev(args[0], st)
            if st is not None:
                self.bind(obj[1], obj[2], obj[3], args[0], st)
            return st
        order = args + ([obj] if obj is not None else []) if n == "operator=" else ([obj] if obj is not None else []) + args
        for x in order:
            st = self.ev(x, st)
            if st is None:
                return None
        self.line = loc
        ck = kind(info.get("cls")) if obj is not None else None
        if ck:
            p = self.path(obj)
            if p is not None:
                self.A.kinds[p.text] = ck
                eff = opeffect(ck, n)
                if eff and not (info.get("const")):
                    self.A.nops += 1
                    self.invalidate(st, p.text, eff, "%s of %s" % (n, name_of(obj)), loc)
                if n in ("emplace_back", "push_back", "emplace"):
                    self.kept(info, args, st)
            return st
        f = self.A.P.functions.get(info.get("key"))
        if k == "ctor" or (f is not None and info.get("repo")):
            if f is not None:
                op = self.path(obj) if obj is not None else None
                ps = [self.path(a) for a in args]
                for root, rest, eff in self.A.summary(f):
                    t = None
                    if root == "this":
                        if op is None:
                            continue
                        t = op.text + rest
                    else:
                        if root >= len(ps) or ps[root] is None or (not f["params"][root]["type"].startswith(("&", "*"))):
                            continue
                        t = ps[root].text + rest
                    self.invalidate(st, t, eff, "call of %s" % n, loc)
        return st

    def kept(self, info, args, st):
        """references handed to an element of a container that lives on"""
        t = split_targs(info.get("cls") or "")
        if not t:
            return
        fs = self.A.P.records.get(strip_type(t[0]))
        if fs is None:
            return
        ct = [f for f in self.A.P.functions.values() if f.get("cls") == strip_type(t[0]) and f["name"].endswith("::(ctor)") and len(f["params"]) == len(args) and not f.get("implicit")]
        if not ct:
            return
        for prm, a in zip(ct[0]["params"], args):
            if not prm["type"].startswith("&") or prm["type"].startswith("&c:R:std::") and False:
                continue
            b = rec_base(strip_type(prm["type"])) or ""
            if b.startswith("std::") or b == "":
                continue
            p = self.path(a)
            if p is not None and p.near is not None:
                self.nsites += 1
                st["kept%d" % id(a)] = Ref(p.near, p.outer, self.kind_at(p), False, "the reference kept in %s" % (strip_type(t[0])[2:]))

    def invalidate(self, st, ctext, eff, what, loc):
        if "?" in ctext:
            return
        for vid, r in st.items():
            hit = False
            if eff == "gone":
                hit = r.near == ctext or ctext in r.outer
            elif eff == "all":
                hit = r.near == ctext
            elif eff == "iter":
                hit = r.near == ctext and (r.kind.endswith("it") or str(vid).startswith("range"))
            elif eff == "back":
                hit = r.near == ctext and r.back
            if hit and r.bad is None:
                r.bad = (what, tuple(loc) if loc else None)
                if isinstance(vid, str) and vid.startswith("kept"):
                    self.use(vid, st, loc)


def short(n):
    if "operator" in n:
        return "operator" + n.split("operator")[-1].strip()
    return n.split("::")[-1]


def text(e):
    if not isinstance(e, list):
        return str(e)
    if not e:
        return ""
    k = e[0]
    if k in ("tmp", "ld", "up", "icast"):
        return text(e[1])
    if k == "var":
        return "v%s" % e[1]
    if k == "int":
        return str(e[1])
    if k == "this":
        return "this"
    if k == "mem":
        return text(e[1]) + "." + e[2]
    if k in ("bin",):
        return "(%s%s%s)" % (text(e[2]), e[1], text(e[3]))
    if k == "mcall":
        return "%s.%s(%s)" % (text(e[2]), short(e[1]["name"]), ",".join(text(a) for a in e[4]))
    if k == "call":
        return "%s(%s)" % (short(e[1]["name"]), ",".join(text(a) for a in e[2]))
    if k == "opcall":
        return "op%s(%s)" % (e[1], ",".join(text(a) for a in e[3]))
    return k + "".join(text(x) for x in e[1:3] if isinstance(x, list))


def name_of(e):
    while isinstance(e, list) and e and e[0] in ("tmp", "ld", "up", "icast"):
        e = e[1]
    if not isinstance(e, list) or not e:
        return "?"
    if e[0] == "var":
        return e[2]
    if e[0] == "mem":
        b = name_of(e[1])
        return e[2] if b == "this" else b + "." + e[2]
    if e[0] == "this":
        return "this"
    if e[0] == "opcall" and e[1] == "[]":
        return name_of(e[3][0]) + "[]"
    if e[0] == "mcall":
        return name_of(e[2]) + "." + short(e[1]["name"]) + "()"
    return e[0]


class Analysis:
    def __init__(self, P, rep):
        self.P, self.rep = P, rep
        self.kinds = {}
        self.sums = {}
        self.nops = 0

    def report(self, f, loc, r):
        self.rep.bad(f["name"], self.P.where(f, list(loc) if loc else None), "use of %s" % r.name, "used after %s at %s" % (r.bad[0], self.P.where(f, list(r.bad[1])) if r.bad[1] else "?"),
                     "no use after its container may have moved or removed it")

    def summary(self, f):
        """container operations a call performs on its object and parameters: (root, path, effect)"""
        k = f["key"]
        if k in self.sums:
            return self.sums[k]
        self.sums[k] = set()
        out = set()
        g = Fn(self, f)
        pid = {p["id"]: i for i, p in enumerate(f["params"])}
        stack = [f.get("body")] + [it[3] for it in f.get("inits") or []]
        # aliases through simple reference declarations
        for _ in range(2):
            todo = list(stack)
            while todo:
                x = todo.pop()
                if not isinstance(x, list):
                    continue
                if len(x) == 6 and x[0] == "var" and isinstance(x[3], str) and x[3].startswith("&") and x[4] is not None:
                    p = g.path(x[4])
                    if p is not None:
                        g.alias[x[1]] = p
                todo.extend(x)
        todo = list(stack)
        while todo:
            x = todo.pop()
            if not isinstance(x, list):
                continue
            todo.extend(x)
            if not x or x[0] not in ("mcall", "opcall", "call", "ctor"):
                continue
            if x[0] == "mcall":
                info, obj, args = x[1], x[2], x[4]
            elif x[0] == "opcall":
                if not x[2].get("method"):
                    continue
                info, obj, args = x[2], x[3][0], x[3][1:]
            elif x[0] == "ctor":
                info, obj, args = x[2], None, x[3]
            else:
                info, obj, args = x[1], None, x[2]
            ck = kind(info.get("cls")) if obj is not None else None
            if ck:
                eff = opeffect(ck, short(info["name"]))
                if not eff or info.get("const"):
                    continue
                p = g.path(obj)
                self.rel(p.text if p else None, eff, pid, out)
                continue
            h = self.P.functions.get(info.get("key"))
            if h is None or h.get("body") is None:
                continue
            op = g.path(obj) if obj is not None else None
            for root, rest, eff in list(self.summary(h)):
                if root == "this":
                    if op is not None:
                        self.rel(op.text + rest, eff, pid, out)
                elif root < len(args):
                    q = g.path(args[root])
                    if q is not None:
                        self.rel(q.text + rest, eff, pid, out)
        self.sums[k] = out
        return out

    def rel(self, t, eff, pid, out):
        if t is None or eff == "iter" and False:
            return
        import re
        m = re.match(r"(this|v(\d+))(.*)$", t)
        if not m:
            return
        rest = m.group(3)
        if "[" in rest:
            rest = re.sub(r"\[.*\]", "[?]", rest)
        if m.group(1) == "this":
            out.add(("this", rest, eff))
        else:
            i = pid.get(int(m.group(2)))
            if i is not None:
                out.add((i, rest, eff))


def analyse(P, rep):
    A = Analysis(P, rep)
    # kinds of all container paths
    fs = [f for f in P.functions.values() if f.get("body") is not None and not f.get("implicit")]
    total = 0
    for f in sorted(fs, key=lambda f: f["key"]):
        g = Fn(A, f)
        for p in f["params"]:
            pass
        g.note_kinds(f["body"])
        g.run()
        total += g.nsites
        if g.nsites:
            rep.ok(g.nsites, {"function": f["name"], "references_tracked": g.nsites})
        else:
            rep.ok(0)
    rep.ok(A.nops)
    rep.notes.append("%d references, pointers and iterators tracked, %d container operations" % (total, A.nops))

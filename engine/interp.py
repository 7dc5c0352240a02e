"""Path-sensitive value-flow summaries.

An abstract interpreter over the dumped, type-checked program.  The abstract
value of an expression is a canonical term over the values at function entry
(Herbrand/linear value numbering), a trace partition is a conjunction of
literals, loops are abstracted by havocking everything the body may modify and
summarising one generic iteration.  No program is executed and no solver is
consulted; whatever the domain cannot express raises Undecided.
"""
from terms import *  # noqa
import terms as TM
import itertools
import sys

sys.setrecursionlimit(20000)


class Undecided(Exception):
    pass


UNDEF = T("undef")
EMPTYBAG = T("bag", None, ())
MAXPATHS = 4000


def P(path):
    return T("&", path)


def is_ptr(t):
    return t.op == "&"


# ------------------------------------------------------------------ simplify
def ite(c, a, b):
    if a is b:
        return a
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if c.op == "not":
        return ite(c.args[0], b, a)
    if a is TRUE and b is FALSE:
        return c
    if a is FALSE and b is TRUE:
        return NOT(c)
    t = T("ite", c, a, b)
    if is_bool(a) and is_bool(b):
        BOOL.add(t)
    return t


def map_path(p, f):
    out = []
    ch = False
    for s in p:
        if isinstance(s, tuple):
            n = tuple(f(x) if isinstance(x, Term) else x for x in s)
            if n != s:
                ch = True
            out.append(n)
        else:
            out.append(s)
    return tuple(out) if ch else p


def map_args(args, f):
    """map f over Terms nested in args tuples"""
    out = []
    ch = False
    for a in args:
        if isinstance(a, Term):
            n = f(a)
        elif isinstance(a, tuple):
            n = map_args(a, f)
        else:
            n = a
        if n is not a:
            ch = True
        out.append(n)
    return tuple(out) if ch else args


def rebuild(t, f):
    """rebuild t with f applied to immediate sub terms, renormalising"""
    o = t.op
    if o in ("k", "s", "sym"):
        return t
    if o == "poly":
        r = K(t.args[0])
        ch = False
        for m, c in t.args[1]:
            x = K(c)
            for a in m:
                n = f(a)
                if n is not a:
                    ch = True
                x = mul(x, n)
            r = add(r, x)
        return r if ch else t
    if o == "not":
        n = f(t.args[0])
        return t if n is t.args[0] else NOT(n)
    if o in ("le", "lt", "eq"):
        n = f(t.args[0])
        if n is t.args[0]:
            return t
        b = K(t.args[1])
        if o == "le":
            return le(n, b, t.args[2])
        if o == "lt":
            return lt(n, b, t.args[2])
        return eq(n, b, t.args[2])
    if o == "ite":
        return ite(f(t.args[0]), f(t.args[1]), f(t.args[2]))
    if o == "streq":
        a, b = f(t.args[0]), f(t.args[1])
        if a is t.args[0] and b is t.args[1]:
            return t
        return eq(a, b)
    n = map_args(t.args, f)
    if n is t.args:
        return t
    if o == "bag":
        b, xs = n[0], ()
        for x in n[1]:
            # all elements of another collection
            xs += (x,) if x.op != "all" or x.args[0].op != "bag" else all_of(x.args[0])
        if b is not None and b.op == "bag":
            b, xs = b.args[0], b.args[1] + xs
        n = (b, tuple(sorted(xs, key=lambda x: x.uid)))
    if o == "cat":
        import models
        r = n[0]
        for x in n[1:]:
            r = models.cat(r, x)
        return r
    r = T(o, *n)
    if t in BOOL:
        BOOL.add(r)
    if t in NONNEG:
        NONNEG.add(r)
    if t in RANGE and o in ("ld", "lv", "res", "fld", "call", "sym"):
        RANGE[r] = RANGE[t]
    return r


def substitute(t, m, memo=None):
    if memo is None:
        memo = {}

    def go(x):
        if x in m:
            return m[x]
        r = memo.get(x)
        if r is None:
            r = rebuild(x, go)
            memo[x] = r
        return r

    return go(t)


def all_of(b):
    return b.args[1] + ((T("all", b.args[0]),) if b.args[0] is not None else ())


def bag_union(v0, hv, v):
    """elements before a loop and those it added, v = hv and maybe more elements"""
    b, xs = (v0.args[0], v0.args[1]) if v0.op == "bag" else (v0, ())
    ys = (T("all", hv),) + (v.args[1] if v is not hv else ())
    return T("bag", b, tuple(sorted(xs + ys, key=lambda x: x.uid)))


def collect(t, pred, acc, seen):
    """collect sub terms satisfying pred"""
    stack = [t]
    while stack:
        x = stack.pop()
        if isinstance(x, tuple):
            stack.extend(x)
            continue
        if not isinstance(x, Term) or x in seen:
            continue
        seen.add(x)
        if pred(x):
            acc.add(x)
        stack.extend(x.args)


# ------------------------------------------------------------------ state
class State:
    __slots__ = ("store", "mem", "env", "events", "nl", "cl", "ep", "lits", "loopctx", "nloop", "wlog", "note")

    def clone(self):
        s = State()
        s.store = self.store.clone()
        s.mem = dict(self.mem)
        s.env = dict(self.env)
        s.events = self.events
        s.nl = self.nl
        s.cl = dict(self.cl)
        s.ep = self.ep
        s.lits = self.lits
        s.loopctx = self.loopctx
        s.nloop = self.nloop
        s.wlog = self.wlog
        s.note = self.note
        return s


def new_state(base=0):
    s = State()
    s.store = Store()
    s.mem = {}
    s.env = {}
    s.events = ()
    s.nl = base
    s.cl = {}
    s.ep = K(0)
    s.lits = ()
    s.loopctx = ()
    s.nloop = 0
    s.wlog = ()
    s.note = ()
    return s


def islocal(root):
    return isinstance(root, tuple) and root[0] == "L"


WILD = ("[", None)

ITERRECS = ("__gnu_cxx::__normal_iterator", "std::reverse_iterator", "std::__detail::_Node_", "std::_Rb_tree_", "std::__detail::_Local",
            "std::move_iterator", "std::_Bit_iterator", "std::initializer_list")


def strip_type(t):
    while t[:1] == "&" or t.startswith("c:"):
        t = t.lstrip("&") if t[:1] == "&" else t[2:]
    return t


def rec_base(t):
    t = strip_type(t)
    if t.startswith("R:"):
        return t[2:].split("<")[0]
    return None


CONTAINERS = {"std::vector", "std::unordered_map", "std::unordered_multimap", "std::unordered_set", "std::map", "std::set",
              "std::multimap", "std::deque"}
AGG_STD = {"std::pair", "std::tuple", "std::optional", "std::array"}




class Engine:
    def __init__(self, prog, boundaries=None, pure=None, bagfields=("clause_",), havoc=None, noinline=()):
        self.prog = prog
        self.base = 0  # numbers of local variables: those of the two sides must not be confused
        self.boundaries = boundaries or {}
        self.fninfo = {}
        self.nocount = False
        self.forks = 0
        self.entry = ()
        self.idling = 0
        self.pure = pure or {}
        self.bagfields = set(bagfields)
        self.havoc_spec = havoc or {}
        self.closures = {}
        self.stack = []
        self.npaths = 0
        self.rootkey = None
        self.fnloc = None
        self.line = None
        self.visited_fns = set()
        self.cmax, self.cperm = {}, {}
        self.cur = None
        self.probing = 0
        self.casts = []
        self.clodepth = 0
        self.rawbreak = 0
        self.watch = None  # operations whose results are to be shown to fit their types
        self.empty = lambda store: False

    # -------------------------------------------------------------- types
    def is_agg(self, t):
        """record that is expanded into fields"""
        b = rec_base(t)
        if b is None:
            return False
        if b in ("std::pair", "std::tuple", "std::optional"):
            return True
        return self.fields(t) is not None

    def fields(self, t):
        t = strip_type(t)
        b = rec_base(t)
        if b == "std::pair":
            a = split_targs(t)
            return [("first", a[0] if a else "?"), ("second", a[1] if len(a) > 1 else "?")]
        if b == "std::tuple":
            return [("e%d" % i, x) for i, x in enumerate(split_targs(t))]
        if b == "std::optional":
            a = split_targs(t)
            return [("#has", "b1"), ("#val", a[0] if a else "?")]
        r = self.prog.records.get(t)
        if r is None:
            return None
        out = []
        for bt in r["bases"]:
            fs = self.fields(bt)
            if fs:
                out.extend(fs)
        for f in r["fields"]:
            out.append((f["name"], f["type"]))
        return out

    def is_container(self, t):
        return rec_base(t) in CONTAINERS

    def is_scalar(self, t):
        return not self.is_agg(t) and not self.is_container(t)

    # -------------------------------------------------------------- memory
    def alias(self, w, r, store):
        """relation of write path w to read path r:
        None | ('cover', rest, cond) | ('part',)"""
        cond = TRUE
        n = min(len(w), len(r))
        for i in range(n):
            a, b = w[i], r[i]
            if a is b or a == b:
                continue
            if isinstance(a, tuple) and isinstance(b, tuple) and a[0] == b[0] and len(a) == len(b):
                ok = True
                for x, y in zip(a[1:], b[1:]):
                    if x is y or x is None or y is None:
                        continue
                    if not isinstance(x, Term) or not isinstance(y, Term):
                        if x == y:
                            continue
                        ok = False
                        break
                    e = eq(x, y)
                    d = store.decide(e)
                    if d is True:
                        continue
                    if d is False:
                        ok = False
                        break
                    cond = e if cond is TRUE else T("and", *sorted((cond, e), key=lambda z: z.uid))
                if not ok:
                    return None
                continue
            return None
        if len(w) <= len(r):
            return ("cover", r[len(w):], cond)
        return ("part", w[len(r):], cond)

    def copied(self, v, rest, store):
        """element of a container copied when it had the given content"""
        if len(v.args) < 2 or not isinstance(v.args[1], Term) or v.args[1].op != "snap" or v.args[1].args[0] != v.args[0]:
            return None
        for e in reversed(v.args[1].args[1]):
            if e[0] == "=":
                return None
            a = self.alias(("x",) + tuple(e[0]), ("x",) + tuple(rest), store)
            if a is None:
                continue
            if a[0] == "part" or a[2] is not TRUE:
                return None
            if e[1].op == "hv":
                return T("ld", v.args[0] + tuple(rest), e[1])
            return self.proj(e[1], a[1], store)
        return T("ld", v.args[0] + tuple(rest), None)

    def proj(self, v, rest, store=None):
        """project value v (written to a prefix) onto the rest path"""
        if v.op == "ldc" and store is not None and rest and isinstance(rest[0], tuple) and rest[0][0] == "[" and not islocal(v.args[0][0]):
            r = self.copied(v, rest, store)
            if r is not None:
                return r
        for s in rest:
            if v.op == "hv":
                return None
            if v.op == "st":
                for f, x in v.args[1]:
                    if f == s:
                        v = x
                        break
                else:
                    if isinstance(s, tuple) and s[0] == "[" and v.args[0] == "vec":
                        if is_const(s[1]) and s[1].args[0] < len(v.args[1]):
                            v = v.args[1][int(s[1].args[0])][1]
                            continue
                    return T("opaque", "proj")
            elif v.op == "zero":
                continue
            else:
                v = T("fld", v, s if isinstance(s, str) else T("ix", *[x for x in s]))
        return v

    def read(self, st, path, typ=None):
        root = path[0]
        ents = st.mem.get(root, ())
        pend = []
        base = None
        for p, v in reversed(ents):
            a = self.alias(p, path, st.store)
            if a is None:
                continue
            if a[0] == "part":
                # aggregate read as a whole
                raise Undecided("partial aggregate read %s" % (showloc(path),))
            if v.op == "hv":
                val = T("ld", path, v)
                if typ:
                    self.note_type(val, typ)
            else:
                val = self.proj(v, a[1], st.store)
                if val.op == "zero":
                    val = self.zero(typ or "?")
            if a[2] is TRUE:
                base = val
                break
            if v.op == "hv" and a[2] is not TRUE:
                # havoc of a specific symbolic element: value unknown if equal
                pend.append((a[2], val))
                continue
            pend.append((a[2], val))
        if base is None:
            if islocal(root) :
                if not ents:
                    return UNDEF
                base = UNDEF
            else:
                base = self.initial(st, path, typ)
        for c, v in reversed(pend):
            base = ite(c, v, base)
        if typ:
            self.note_type(base, typ)
        return base

    def initial(self, st, path, typ):
        root = path[0]
        if isinstance(root, tuple) and root[0] == "*" and root[1].op == "s":
            # character of a string literal
            s = root[1].args[0]
            ix = path[-1]
            if isinstance(ix, tuple) and ix[0] == "[" and is_const(ix[1]):
                i = ix[1].args[0]
                if i < len(s):
                    return K(ord(s[i]))
                if i == len(s):
                    return K(0)
        if isinstance(root, tuple) and root[0] == "g":
            v = self.constant(path)
            if v is not None:
                return v
        v = endpoint(path)
        if v is not None:
            return v
        t = T("ld", path, None)
        if typ and strip_type(typ).startswith("*"):
            return self.wrap_ptr(t, typ)
        if path[-1] == "#size" or (isinstance(path[-1], tuple) and path[-1][0] == "#cnt"):
            NONNEG.add(t)
        return t

    def constant(self, path):
        """value of a constant with static storage duration"""
        g = self.prog.constants.get(path[0][1])
        if g is None:
            return None
        rs = self.rv(g["init"], new_state(), g["type"])
        if len(rs) != 1 or isinstance(rs[0][1], tuple):
            return None
        v = rs[0][1]
        for x in path[1:]:
            if v.op != "st":
                return None
            if isinstance(x, tuple):
                if x[0] != "[" or v.args[0] != "vec" or not is_const(x[1]) or not 0 <= x[1].args[0] < len(v.args[1]):
                    return None
                v = v.args[1][x[1].args[0]][1]
            else:
                d = dict(v.args[1])
                if x not in d:
                    return None
                v = d[x]
        return v

    def wrap_ptr(self, t, typ):
        """pointer valued unknown"""
        if t.op in ("&", "null", "s", "clo", "fnref", "undef", "ite", "opaque"):
            return t
        typ = strip_type(typ)
        if not typ.startswith("*"):
            return t
        pt = strip_type(typ[1:])
        if pt == "fn" or pt == "void":
            return t
        if pt.startswith("R:"):
            return P((("*", t),))
        return P((("*", t), ("[", K(0))))

    def note_type(self, t, typ):
        ty = strip_type(typ)
        if t.op in ("ld", "sym", "call", "res", "fld", "lv"):
            if ty == "b1":
                BOOL.add(t)
            elif ty in WIDTH:
                if ty[0] == "u":
                    NONNEG.add(t)
                RANGE[t] = WIDTH[ty]

    def zero(self, typ):
        ty = strip_type(typ)
        if ty[:1] == "*" or ty == "nullptr":
            return NULL
        if ty[:2] == "R:":
            return T("zero")
        return K(0)

    def write(self, st, path, val):
        root = path[0]
        if val.op == "st" and val.args[0] != "vec":
            for f, x in val.args[1]:
                self.write(st, path + (f,), x)
            return
        ents = st.mem.get(root, ())
        # drop no-op self assignment
        if val.op == "ld" and val.args[0] == path and not islocal(root):
            cur = self.peek(st, path)
            if cur is val:
                return
        n = len(path)
        if any(p[:n] == path for p, _ in ents):
            ents = tuple(e for e in ents if e[0][:n] != path)
        st.mem[root] = ents + ((path, val),)
        st.wlog = st.wlog + (path,)

    def peek(self, st, path):
        try:
            return self.read(st, path)
        except Undecided:
            return None

    def load_value(self, st, path, typ):
        """rvalue of arbitrary type at path"""
        if self.is_agg(typ):
            fs = self.fields(typ)
            # opaque aggregate value?
            for p, v in reversed(st.mem.get(path[0], ())):
                if len(p) <= len(path) and path[: len(p)] == p and v.op not in ("hv", "zero"):
                    if len(p) == len(path) and v.op not in ("st",):
                        return v
                    break
            return T("st", strip_type(typ), tuple((f, self.load_value(st, path + (f,), ft)) for f, ft in fs))
        if self.is_container(typ):
            return self.snapshot(st, path)
        return self.read(st, path, typ)

    def snapshot(self, st, path):
        ents = []
        for p, v in st.mem.get(path[0], ()):
            a = self.alias(p, path, st.store)
            if a is None:
                continue
            if a[0] == "cover":
                ents = [("=", path[len(p):], v)]
            else:
                ents.append((p[len(path):], v))
        if islocal(path[0]) or (isinstance(path[0], tuple) and path[0][0] == "C"):
            return T("snap", None, tuple(ents))
        return T("snap", path, tuple(ents))

    def alloc(self, st, typ):
        if self.is_container(typ):
            k = strip_type(typ)
            n = st.cl.get(k, 0)
            st.cl[k] = n + 1
            self.cmax[k] = max(self.cmax.get(k, 0), n + 1)
            r = self.cperm.get(k)
            if r is not None and n < len(r):
                n = r[n]
            return (("C", k, n),)
        st.nl += 1
        return (("L", st.nl),)

    # -------------------------------------------------------------- forks
    def assume(self, st, t, val):
        u, v = t, val
        while u.op == "not":
            u, v = u.args[0], not v
        if not st.store.assume(u, v):
            return False
        st.lits = st.lits + ((u, v),)
        return True

    def branch(self, st, t):
        """list of (state, bool)"""
        if t.op == "ite":
            out = []
            for s, b in self.branch(st, t.args[0]):
                out.extend(self.branch(s, t.args[1] if b else t.args[2]))
            return out
        if t.op == "and":
            out = []
            for s, b in self.branch(st, t.args[0]):
                if b:
                    out.extend(self.branch(s, t.args[1]))
                else:
                    out.append((s, False))
            return out
        if t.op == "not":
            return [(s, not b) for s, b in self.branch(st, t.args[0])]
        if t.op in ("opaque", "undef"):
            raise Undecided("branch on %s" % t.op)
        if not is_bool(t) and t.op != "k":
            t = NOT(eq(t, K(0)))
            if t.op == "not":
                return [(s, not b) for s, b in self.branch(st, t.args[0])]
        d = st.store.decide(t)
        if d is not None:
            return [(st, d)]
        self.npaths += 1
        if self.npaths > MAXPATHS:
            raise Undecided("too many paths")
        o = st.clone()
        r = []
        if self.assume(st, t, True):
            r.append((st, True))
        if self.assume(o, t, False):
            r.append((o, False))
        return r

    def truth(self, st, t, typ="b1"):
        """boolean term of a value"""
        if t.op == "&":
            return NOT(self.isnull(t))
        if t.op == "null":
            return FALSE
        if t.op == "ite":
            return ite(t.args[0], self.truth(st, t.args[1], typ), self.truth(st, t.args[2], typ))
        if is_bool(t):
            return t
        if strip_type(typ).startswith("*") or typ == "memptr":
            return NOT(self.isnull(t))
        return NOT(eq(t, K(0)))

    def isnull(self, t):
        if t.op == "null":
            return TRUE
        if t.op == "&":
            r = t.args[0][0]
            if isinstance(r, tuple) and r[0] == "*":
                ix = t.args[0][1:]
                if not ix or (len(ix) == 1 and ix[0][0] == "[" and ix[0][1] is K(0)):
                    b = r[1]
                    if b.op == "s":
                        return FALSE
                    x = T("isnull", b)
                    BOOL.add(x)
                    return x
                return FALSE
            return FALSE
        if t.op in ("s", "clo", "fnref"):
            return FALSE
        if t.op == "ite":
            return ite(t.args[0], self.isnull(t.args[1]), self.isnull(t.args[2]))
        if t.op in ("opaque", "undef"):
            return t
        x = T("isnull", t)
        BOOL.add(x)
        return x

    # -------------------------------------------------------------- statements
    def exec(self, s, st):
        if s is None:
            return [(st, ("n",))]
        k = s[0]
        m = getattr(self, "s_" + k, None)
        if m is None:
            raise Undecided("statement %s" % k)
        return m(s, st)

    def at(self, loc):
        if loc:
            self.line = loc

    def s_expr(self, s, st):
        self.at(s[2])
        out = []
        for x, v in self.effect(s[1], st):
            if isinstance(v, tuple):  # throw
                out.append((x, v))
            else:
                out.append((x, ("n",)))
        return out

    def s_block(self, s, st):
        return self.seq(s[1], st)

    def seq(self, stmts, st):
        cur = [st]
        done = []
        for x in stmts:
            nxt = []
            for c in cur:
                for c2, o in self.exec(x, c):
                    if o[0] == "n":
                        nxt.append(c2)
                    else:
                        done.append((c2, o))
            cur = nxt
            if not cur:
                break
        return done + [(c, ("n",)) for c in cur]

    def s_decl(self, s, st):
        self.at(s[2])
        cur = [st]
        done = []
        for d in s[1]:
            nxt = []
            for c in cur:
                for c2, o in self.declare(d, c):
                    (nxt if o[0] == "n" else done).append(c2 if o[0] == "n" else (c2, o))
            cur = nxt
        return done + [(c, ("n",)) for c in cur]

    def declare(self, d, st):
        if d[0] == "var":
            _, vid, name, typ, init, static = d
            if static and not (typ.startswith("c:") and init is not None and not depends(init)):
                st.env[vid] = (("g", name),)
                return [(st, ("n",))]
            if typ.startswith("&"):
                out = []
                for s, p in self.lv_or_tmp(init, st, typ):
                    if isinstance(p, Throw):
                        out.append((s, p.o))
                        continue
                    s.env[vid] = p
                    out.append((s, ("n",)))
                return out
            return self.init_var(vid, typ, init, st)
        if d[0] == "decomp":
            _, did, typ, init, binds = d
            out = []
            if typ.startswith("&"):
                res = self.lv_or_tmp(init, st, typ)
            else:
                res = []
                for s, v in self.rv(init, st):
                    if isinstance(v, tuple):
                        res.append((s, Throw(v)))
                        continue
                    p = self.alloc(s, typ)
                    self.write(s, p, v)
                    res.append((s, p))
            for s, p in res:
                if isinstance(p, Throw):
                    out.append((s, p.o))
                    continue
                b = rec_base(typ)
                for i, bd in enumerate(binds):
                    if bd["tuple"]:
                        f = ("first", "second")[i] if b == "std::pair" else "e%d" % i
                    else:
                        f = bd.get("field", "e%d" % i)
                    q = self.refpart(s, p, typ, i, f, bd["tuple"])
                    s.env[bd["id"]] = q
                    if "hid" in bd:
                        s.env[bd["hid"]] = q
                out.append((s, ("n",)))
            return out
        raise Undecided("declaration %s" % d[0])

    def init_var(self, vid, typ, init, st):
        out = []
        if init is None:
            p = self.alloc(st, typ)
            st.env[vid] = p
            st.mem.pop(p[0], None)
            if self.is_container(typ):
                self.init_container(st, p)
            elif not self.is_agg(typ):
                self.write(st, p, UNDEF)
            return [(st, ("n",))]
        if self.is_container(typ):
            res = self.construct(init, st, typ)
            for s, p in res:
                if isinstance(p, Throw):
                    out.append((s, p.o))
                    continue
                s.env[vid] = p
                out.append((s, ("n",)))
            return out
        for s, v in self.rv(init, st, typ):
            if isinstance(v, tuple):
                out.append((s, v))
                continue
            p = self.alloc(s, typ)
            s.env[vid] = p
            self.write(s, p, v)
            if strip_type(typ).endswith("::Timer"):
                # measures until the end of the scope
                q = self.peek(s, p + ("elapsed_",))
                if q is not None and q.op == "&":
                    old = self.peek(s, q.args[0])
                    if old is not None and old.op not in ("undef", "opaque"):
                        self.write(s, q.args[0], add(old, T("measured")))
            out.append((s, ("n",)))
        return out

    def construct(self, init, st, typ):
        """construct a local object of container type, returning its path"""
        out = []
        if init is None or (init[0] == "ctor" and not init[3]) or init[0] == "zero" or (init[0] == "init" and not init[2]):
            p = self.alloc(st, typ)
            st.mem.pop(p[0], None)
            self.init_container(st, p)
            return [(st, p)]
        if init[0] == "ctor" and init[5] == 1:
            # copy or move
            src = init[3][0]
            for s, q in self.lv_or_tmp(src, st, typ):
                if isinstance(q, Throw):
                    out.append((s, q))
                    continue
                if len(q) == 1 and isinstance(q[0], tuple) and q[0][0] == "C" and src[0] == "tmp":
                    out.append((s, q))
                    continue
                p = self.alloc(s, typ)
                self.copy_container(s, p, q)
                out.append((s, p))
            return out
        for s, v in self.rv(init, st, typ):
            if isinstance(v, tuple):
                out.append((s, Throw(v)))
                continue
            if v.op == "&":
                out.append((s, v.args[0]))
                continue
            p = self.alloc(s, typ)
            s.mem[p[0]] = ((p, v),)
            out.append((s, p))
        return out

    def copy_container(self, st, p, q):
        """copy all known content of q to p"""
        ents = []
        full = False
        for w, v in st.mem.get(q[0], ()):
            a = self.alias(w, q, st.store)
            if a is None:
                continue
            if a[0] == "cover" or a[2] is not TRUE:
                full = False
                ents = None
                break
            ents.append((p + tuple(a[1]), v))
        local = islocal(q[0]) or (isinstance(q[0], tuple) and q[0][0] == "C")
        if ents is None or not local:
            snap = T("ldc", q, self.snapshot(st, q))
            st.mem[p[0]] = ((p, snap),)
            self.write(st, p + ("#size",), self.read(st, q + ("#size",), "u64"))
            return
        st.mem[p[0]] = tuple(ents)

    def init_container(self, st, p):
        st.mem.setdefault(p[0], ())
        self.write(st, p + ("#size",), K(0))
        self.write(st, p + ("#bag",), EMPTYBAG)
        st.mem[p[0]] = tuple(e for e in st.mem[p[0]] if e[0][: len(p)] != p or e[0][len(p):] in (("#size",), ("#bag",)))
        # maps: no keys
        st.mem[p[0]] = ((p + (("#cnt", None),), K(0)),) + st.mem[p[0]]

    def s_if(self, s, st):
        self.at(s[6])
        pre = []
        if s[1] is not None:
            pre.append(s[1])
        if s[2] is not None:
            pre.append(s[2])
        out = []
        for st1, o in self.seq(pre, st):
            if o[0] != "n":
                out.append((st1, o))
                continue
            for st2, b in self.cond(s[3], st1):
                if isinstance(b, tuple):
                    out.append((st2, b))
                elif b:
                    out.extend(self.exec(s[4], st2))
                else:
                    out.extend(self.exec(s[5], st2))
        return out

    def s_return(self, s, st):
        self.at(s[2])
        e = s[1]
        if e is None:
            return [(st, ("r", None))]
        rt = self.stack[-1][1] if self.stack else "?"
        if rt.startswith("&"):
            return [(x, ("r", P(p)) if not isinstance(p, Throw) else p.o) for x, p in self.lv_or_tmp(e, st, rt)]
        out = []
        if rt == "void":
            for x, v in self.effect(e, st):
                out.append((x, v if isinstance(v, tuple) else ("r", None)))
            return out
        if self.is_container(rt):
            for x, p in self.construct(e, st, rt):
                out.append((x, ("r", P(p)) if not isinstance(p, Throw) else p.o))
            return out
        for x, v in self.rv(e, st, rt):
            out.append((x, v if isinstance(v, tuple) else ("r", v)))
        return out

    def s_break(self, s, st):
        return [(st, ("b",))]

    def s_continue(self, s, st):
        return [(st, ("c",))]

    def s_switch(self, s, st):
        self.at(s[3])
        # flatten cases
        body = s[2]
        items = body[1] if body[0] == "block" else [body]
        flat = []  # ('case', expr) | ('default',) | stmt
        for it in items:
            while it is not None and it[0] in ("case", "default"):
                if it[0] == "case":
                    flat.append(("case", it[1]))
                    it = it[2]
                else:
                    flat.append(("default",))
                    it = it[1]
            flat.append(("stmt", it))
        out = []
        for st1, v in self.rv(s[1], st):
            if isinstance(v, tuple):
                out.append((st1, v))
                continue
            pend = [st1]
            starts = []
            dflt = None
            for i, x in enumerate(flat):
                if x[0] == "default":
                    dflt = i
                if x[0] != "case":
                    continue
                c = self.const(x[1])
                nxt = []
                for ps in pend:
                    for s2, b in self.branch(ps, eq(v, c)):
                        if b:
                            starts.append((s2, i))
                        else:
                            nxt.append(s2)
                pend = nxt
            for ps in pend:
                if dflt is not None:
                    starts.append((ps, dflt))
                else:
                    out.append((ps, ("n",)))
            for s2, i in starts:
                for s3, o in self.seq([x[1] for x in flat[i:] if x[0] == "stmt"], s2):
                    out.append((s3, ("n",) if o[0] == "b" else o))
        return out

    def const(self, e):
        if e[0] == "int":
            return K(int(e[1]))
        if e[0] == "bool":
            return K(e[1])
        raise Undecided("case label")

    def s_label(self, s, st):
        return self.exec(s[1], st)

    def s_try(self, s, st):
        out = []
        for st1, o in self.exec(s[1], st):
            if o[0] == "t":
                h = None
                for typ, blk in s[2]:
                    if typ == "..." or self.catches(typ, o[1]):
                        h = blk
                        break
                if h is None:
                    out.append((st1, o))
                else:
                    st1.events = st1.events + (("caught", K(1)),)
                    out.extend(self.exec(h, st1))
            else:
                out.append((st1, o))
        return out

    def catches(self, handler, thrown):
        h = strip_type(handler)
        if h == "R:std::exception" or strip_type(thrown) == h:
            return True
        raise Undecided("handler %s for %s" % (handler, thrown))

    # ------------------------------------------------------------- loops
    def s_for(self, s, st):
        self.at(s[5])
        out = []
        for st1, o in self.exec(s[1], st):
            if o[0] != "n":
                out.append((st1, o))
                continue
            if s[2] is not None and s[3] is not None and s[1] is not None and self.trips(s, st1):
                r = self.unroll(s, st1)
                if r is not None:
                    out.extend(r)
                    continue
            out.extend(self.loop(st1, (lambda x: self.cond(s[2], x)) if s[2] is not None else None,
                                 lambda x: self.exec(s[4], x),
                                 (lambda x: self.effect(s[3], x)) if s[3] is not None else None, s[5]))
        return out

    def trips(self, s, st):
        """the loop counts a variable up to a small constant"""
        x = st.clone()
        x.lits = ()
        n = self.npaths
        try:
            c = s[2]
            while c[0] == "bin" and c[1] == "&&":
                c = c[2]
            if c[0] != "bin":
                return False
            b = c[3]
            while b[0] in ("icast", "cast"):
                b = b[1] if b[0] == "icast" else b[2]
            if b[0] != "int" and not (b[0] == "ld" and b[1][0] in ("var", "glob") and b[1][3].startswith("c:")):
                return False
            r = self.rv(c[2], x.clone())
            if len(r) != 1 or isinstance(r[0][1], tuple) or not is_const(r[0][1]):
                return False
            for k in range(11):
                r = self.cond(s[2], x)
                if len(r) != 1 or isinstance(r[0][1], tuple) or r[0][0].lits or r[0][0].events != st.events:
                    return False
                x = r[0][0]
                if not r[0][1]:
                    return k > 0
                r = self.effect(s[3], x)
                if len(r) != 1 or isinstance(r[0][1], tuple) or r[0][0].events != st.events:
                    return False
                x = r[0][0]
        except Undecided:
            pass
        finally:
            self.npaths = n
        return False

    def unroll(self, s, st):
        live, out = [st.clone()], []
        for k in range(12):
            nxt = []
            for x in live:
                for w, b in self.cond(s[2], x):
                    if isinstance(b, tuple):
                        return None
                    if not b:
                        out.append((w, ("n",)))
                        continue
                    for y, o in self.exec(s[4], w):
                        if o[0] == "b":
                            out.append((y, ("n",)))
                        elif o[0] in ("n", "c"):
                            for z, e in self.effect(s[3], y):
                                if isinstance(e, tuple):
                                    return None
                                nxt.append(z)
                        else:
                            out.append((y, o))
            if len(nxt) > 64:
                return None
            live = nxt
            if not live:
                return out
        return None

    def s_while(self, s, st):
        self.at(s[4])

        def c(x):
            if s[1] is None:
                return self.cond(s[2], x)
            r = []
            for y, o in self.exec(s[1], x):
                if o[0] != "n":
                    r.append((y, o))
                else:
                    r.extend(self.cond(s[2], y))
            return r

        if s[2][0] == "bool" and s[2][1]:
            c = None
        return self.loop(st, c, lambda x: self.exec(s[3], x), None, s[4])

    def s_do(self, s, st):
        self.at(s[3])
        # do B while(c)  ==  while(true) { B; if(!c) break; }
        if s[2][0] == "bool" and not s[2][1]:
            out = []
            for x, o in self.exec(s[1], st):
                out.append((x, ("n",) if o[0] in ("b", "c") else o))
            return out

        def body(x):
            r = []
            for y, o in self.exec(s[1], x):
                if o[0] in ("n", "c"):
                    for z, b in self.cond(s[2], y):
                        if isinstance(b, tuple):
                            r.append((z, b))
                        else:
                            r.append((z, ("n",) if b else ("b",)))
                else:
                    r.append((y, o))
            return r

        probe = st.clone()
        rs = self.cond(s[2], probe)
        if len(rs) == 1 and rs[0][1] is True and rs[0][0].events == st.events and rs[0][0].wlog == st.wlog and rs[0][0].lits == st.lits:
            # the condition holds at first: while(c) B
            return self.loop(st, lambda x: self.cond(s[2], x), lambda x: self.exec(s[1], x), None, s[3])
        return self.loop(st, None, body, None, s[3])

    def s_range(self, s, st):
        self.at(s[5])
        var, rng, rtyp = s[1], s[2], s[3]
        out = []
        for st1, p in self.lv_or_tmp(rng, st, "&" + rtyp.lstrip("&")):
            if isinstance(p, Throw):
                out.append((st1, p.o))
                continue
            d = var[1][0]
            base = rec_base(rtyp)
            if base in ("std::vector", "std::initializer_list", "std::array") or strip_type(rtyp).startswith("[]") or (base or "").startswith("Clingo::"):
                # index based iteration over a sequence
                sz, elem, elty = self.seq_access(st1, p, rtyp)
                items = None
                if base in ("std::initializer_list", "std::array") or strip_type(rtyp).startswith("[]"):
                    items = self.peek(st1, p)
                    if isinstance(p[0], tuple) and p[0][0] == "g":
                        items = self.constant(p) or items
                if items is not None and items.op == "st" and items.args[0] == "vec" and 0 < len(items.args[1]) <= 10:
                    # a fixed list of values: element by element
                    live = [st1]
                    for k in range(len(items.args[1])):
                        nxt = []
                        for x in live:
                            for y, o in self.bind_elem(d, x, elem(x, K(k)), elty):
                                for z, r in ([(y, o)] if o[0] != "n" else self.exec(s[4], y)):
                                    if r[0] in ("n", "c"):
                                        nxt.append(z)
                                    elif r[0] == "b":
                                        out.append((z, ("n",)))
                                    else:
                                        out.append((z, r))
                        live = nxt
                    out.extend((x, ("n",)) for x in live)
                    continue
                ctr = (("L", st1.nl + 1),)
                st1.nl += 1
                self.write(st1, ctr, K(0))

                def c(x, ctr=ctr, sz=sz):
                    return self.branch(x, lt(self.read(x, ctr), sz(x), True))

                def body(x, ctr=ctr, d=d, elem=elem):
                    i = self.read(x, ctr)
                    r = []
                    for y, o in self.bind_elem(d, x, elem(x, i), elty):
                        if o[0] != "n":
                            r.append((y, o))
                        else:
                            r.extend(self.exec(s[4], y))
                    return r

                def inc(x, ctr=ctr):
                    self.write(x, ctr, add(self.read(x, ctr), K(1)))
                    return [(x, None)]

                out.extend(self.loop(st1, c, body, inc, s[5]))
            else:
                raise Undecided("range over %s" % rtyp)
        return out

    def seq_access(self, st, p, rtyp):
        base = rec_base(rtyp)
        if base == "std::vector" or base == "std::array" or strip_type(rtyp).startswith("[]"):
            a = split_targs(strip_type(rtyp))
            return (lambda x: self.read(x, p + ("#size",), "u64")), (lambda x, i: p + (("[", i),)), (a[0] if a else "?")
        # value like sequences (spans of the clingo API, initializer lists)
        v = self.read(st, p)
        if v.op == "st" and v.args[0] == "vec":
            n = K(len(v.args[1]))
            return (lambda x: n), (lambda x, i: p + (("[", i),)), "?"
        if v.op == "seg":  # pointer range [first, last)
            b, lo, hi = v.args
            return (lambda x: sub(hi, lo)), (lambda x, i: b + (("[", add(lo, i)),)), "?"
        if v.op == "undef" or v.op == "opaque":
            raise Undecided("range over %s" % v.op)
        n = T("call", "size", v, (), None)
        NONNEG.add(n)
        return (lambda x: n), (lambda x, i: (("*", T("call", "at", v, (i,), None)),)), "?"

    def refpart(self, st, p, typ, i, f, tup):
        """component of a tuple, which may be a reference"""
        ts = split_targs(typ) if tup and rec_base(typ) in ("std::pair", "std::tuple") else []
        if i < len(ts) and ts[i].startswith("&"):
            v = self.read(st, p + (f,))
            if v.op != "&":
                raise Undecided("reference in a tuple")
            return v.args[0]
        return p + (f,)

    def bind_elem(self, d, st, path, elty):
        if d[0] == "decomp":
            _, did, typ, init, binds = d
            b = rec_base(typ)
            for i, bd in enumerate(binds):
                if bd["tuple"]:
                    f = ("first", "second")[i] if b == "std::pair" else "e%d" % i
                else:
                    f = bd.get("field", "e%d" % i)
                q = self.refpart(st, path, typ, i, f, bd["tuple"])
                st.env[bd["id"]] = q
                if "hid" in bd:
                    st.env[bd["hid"]] = q
            return [(st, ("n",))]
        _, vid, name, typ, init, static = d
        if typ.startswith("&"):
            st.env[vid] = path
            return [(st, ("n",))]
        p = self.alloc(st, typ)
        st.env[vid] = p
        self.write(st, p, self.rvpath(st, path, typ))
        return [(st, ("n",))]

    def rvpath(self, st, path, typ):
        if len(path) == 1 and isinstance(path[0], tuple) and path[0][0] == "*" and not self.is_agg(typ):
            if not st.mem.get(path[0]):
                t = path[0][1]
                self.note_type(t, typ)
                return self.wrap_ptr(t, typ)
        return self.load_value(st, path, typ)

    def absw(self, path, pre):
        """generalise a written path: drop symbolic indices"""
        out = []
        for i, x in enumerate(path):
            if isinstance(x, tuple) and x[0] in ("[", "{", "#cnt"):
                if not (i == 1 and x[0] == "[" and isinstance(path[0], tuple) and path[0][0] == "*" and x[1] is K(0)):
                    x = (x[0],) + (None,) * (len(x) - 1)
            out.append(x)
        return tuple(out)

    def loop(self, st, cond, body, inc, loc):
        """summarise a loop; returns list of (state, outcome)"""
        if cond is not None and self.idling:
            # a loop that is never entered
            n = self.npaths
            try:
                first = cond(st.clone())
            except Undecided:
                first = []
            self.npaths = n
            if len(first) == 1 and first[0][1] is False:
                return [(first[0][0], ("n",))]
            raise Undecided("loop")
        if self.forks > len(st.loopctx) and cond is not None and not self.probing:
            # a path of its own if the loop is not entered
            first = cond(st.clone())
            if all(isinstance(b, bool) and x.wlog == st.wlog and x.events == st.events for x, b in first):
                out = []
                for x, b in first:
                    if not b:
                        out.append((x, ("n",)))
                        continue
                    for z, o in self.loop_in(x, cond, body, inc, loc):
                        l = z.events[-1][1] if z.events and z.events[-1][0] == "loop" else None
                        # iteration up to an end: it is not before the start
                        if l is None or l.count is None or l.loc is not loc or self.assume_pos(z, l.count):
                            out.append((z, o))
                return out
        return self.loop_in(st, cond, body, inc, loc)

    def assume_pos(self, st, n):
        c = lt(K(0), n, True)
        d = st.store.decide(c)
        if d is None:
            return self.assume(st, c, True)
        return d

    def loop_in(self, st, cond, body, inc, loc):
        myid = st.loopctx + (st.nloop,)
        st.nloop += 1
        lid = T("loop", *[K(i) for i in myid])
        outer_lits = st.lits
        base_roots = set(st.mem.keys())
        nl0, cl0 = st.nl, dict(st.cl)

        def prep(M, ind):
            h = st.clone()
            h.loopctx = myid
            h.nloop = 0
            h.lits = ()
            h.events = ()
            h.wlog = ()
            t = T("t", lid)
            NONNEG.add(t)
            self.havoc(h, M, lid, ind, t)
            for q, v in own:
                # an element that only its own iteration writes
                h.mem[q[0]] = h.mem.get(q[0], ()) + ((q, v),)
            h.ep = T("epl", lid)
            return h

        def run(M, ind):
            h = prep(M, ind)
            res = []
            heads = [(h, True)] if cond is None else cond(h)
            for x, b in heads:
                if isinstance(b, tuple):
                    res.append((x, b))
                    continue
                if not b:
                    res.append((x, ("x",)))
                    continue
                for y, o in body(x):
                    if o[0] in ("n", "c"):
                        if inc is None:
                            res.append((y, ("n",)))
                        else:
                            for z, v in inc(y):
                                res.append((z, v if isinstance(v, tuple) else ("n",)))
                    else:
                        res.append((y, o))
            return res

        own = []
        M = ()
        ind = {}
        self.probing += 1
        try:
            for _ in range(8):
                res = run(M, {})
                new = set(M)
                for x, o in res:
                    for p in x.wlog:
                        if not self.pre_existing(p, nl0, cl0):
                            continue
                        new.add(self.absw(p, st))
                # drop covered
                new = self.minimise(new)
                if new == set(M):
                    break
                M = tuple(sorted(new, key=lambda p: str(p)))
            else:
                raise Undecided("loop modset")
            # induction variables
            cands = {}
            head = prep(M, {})
            for p in M:
                if any(isinstance(s, tuple) and None in s for s in p):
                    continue
                v0 = self.peek(st, p)
                if v0 is None:
                    continue
                lvh = self.lvval(p, v0, lid)
                if not (islocal(p[0]) or p[0][0] == "C" or p[-1] == "#bag" or v0.op in ("&", "rit", "mit")):
                    if len(p) != 2 or not isinstance(p[0], tuple) or p[0][0] != "*":
                        continue
                    lvh = self.peek(head, p)
                cs = set()
                for x, o in res:
                    if o[0] != "n":
                        continue
                    v1 = self.peek(x, p)
                    cs.add(self.delta(lvh, v1))
                if len(cs) == 1:
                    c = cs.pop()
                    if c is not None and c != 0:
                        cands[p] = c
            ind = cands
        finally:
            self.probing -= 1
        if ind and any(isinstance(p[0], tuple) and p[0][0] == "*" for p in M):
            # objects reached through pointers found with induction variables
            mp = {}
            for p, c in ind.items():
                v0 = self.peek(st, p)
                if v0 is not None:
                    a, b = self.lvval(p, v0, lid), self.indval(st, p, c, T("t", lid))
                    mp[a] = b
                    if a.op == b.op == "&" and isinstance(a.args[0][-1], tuple) and a.args[0][-1][0] == "[":
                        mp[a.args[0][-1][1]] = b.args[0][-1][1]
            M = tuple(sorted({((p[0][0],) + tuple(substitute(y, mp) if isinstance(y, Term) else y for y in p[0][1:]),) + p[1:]
                              if isinstance(p[0], tuple) and p[0][0] == "*" else p for p in M}, key=str))
        res = run(M, ind)
        # verify induction (values may depend on others): must still advance by c
        t = T("t", lid)
        bad = [p for p, c in ind.items() if any(
            o[0] == "n" and self.delta(self.indval(st, p, c, t), self.peek(x, p)) != c for x, o in res)]
        if bad:
            for p in bad:
                ind.pop(p)
            res = run(M, ind)
        own = self.own_elements(st, M, lid, t, res, nl0, cl0)
        if own:
            res = run(M, ind)
        # recognise foreach: inside iff t < n with n invariant
        count = None
        xs = [x for x, o in res if o[0] == "x"]
        if cond is not None and xs and not (self.nocount and any(o[0] in ("b", "r") or x.events for x, o in res)):
            cnts = set()
            for x in xs:
                cnts.add(self.exit_count(x, t))
            if len(cnts) == 1:
                n = cnts.pop()
                if n is not None and self.invariant(n, lid):
                    ok = all(not x.events and not [p for p in x.wlog if self.pre_existing(p, nl0, cl0)] for x in xs)
                    if ok:
                        count = n
        table = []
        exits = []
        for x, o in res:
            if o[0] == "x" and count is not None:
                continue
            ent = LoopPath(x.lits, o, x.events, self.loop_writes(x, st, M, nl0, cl0), x.store, x.clone())
            table.append(ent)
            if o[0] != "n":
                exits.append((x, o, len(table) - 1))
        trivial = not any(e.events for e in table) and not M and not [e for e in table if e.outcome[0] not in ("n", "x")]
        rec = LoopRec(lid, count, table, M, ind, {p: self.peek(st, p) for p in M if not any(isinstance(s, tuple) and None in s for s in p)}, loc)
        rec.entry = st.clone()
        h = prep(M, ind)
        rec.head = {p: self.peek(h, p) for p in rec.init}
        rec.post = cond is None
        rec.sums = self.sums(rec, res)
        for p in rec.sums:
            rec.init[p] = EMPTYBAG
        out = []
        if trivial and count is not None:
            st.nloop -= 1
            return [(st, ("n",))]
        hasev = any(e.events for e in table)
        newep = T("epx", lid) if hasev else st.ep
        ev = st.events + ((("loop", rec, None)),)
        if count is not None:
            z = st.clone()
            self.havoc(z, M, lid, ind, count)
            z.events = ev
            z.ep = newep
            z.nl = max([z.nl] + [x.nl for x, _ in res])
            out.append((z, ("n",)))
        for x, o, idx in exits:
            x.loopctx = st.loopctx
            x.nloop = st.nloop
            x.events = st.events + (("loop", rec, idx),)
            x.ep = newep
            x.lits = outer_lits + x.lits
            x.wlog = st.wlog + tuple(M) + x.wlog
            x.env = x.env
            if o[0] in ("b", "x") and len(o) == 1:
                o = ("n",)
            out.append((x, o))
        if count is not None:
            for z, o in out[:1]:
                z.wlog = st.wlog + tuple(M)
        for p, (v0, hv) in rec.sums.items():
            for z, o in out:
                self.put(z, p, bag_union(v0, hv, self.peek(z, p)))
        return out

    def put(self, st, p, v):
        """replace the value of a location without noting a write"""
        wl = st.wlog
        self.write(st, p, v)
        st.wlog = wl

    def sums(self, rec, res):
        """collections without order that a loop only adds to, without looking at them: what is in them before does not matter to the loop"""
        out = {}
        for p, hv in rec.head.items():
            v0 = rec.init[p]
            if p[-1] != "#bag" or hv is None or v0 is None or hv.op == "bag" or v0.op in ("opaque", "popped", "undef"):
                continue

            def has(x):
                acc = set()
                collect(x, lambda y: y is hv, acc, set())
                return bool(acc)

            def rec_has(l):
                return any(has(v) for v in l.init.values() if v is not None) or any(path_has(e, e.state, None) for e in l.table)

            def path_has(e, state, skip):
                for ev in e.events:
                    if ev[0] != "loop":
                        return True
                    if rec_has(ev[1]):
                        return True
                if any(has(u) for u, _ in e.lits) or any(has(y) for y in e.outcome[1:] if isinstance(y, Term)):
                    return True
                for q in state.wlog:
                    if q != skip:
                        v = self.peek(state, q) if not any(isinstance(y, tuple) and None in y for y in q) else None
                        if v is not None and has(v):
                            return True
                return False

            ok = False
            for e in rec.table:
                v1 = self.peek(e.state, p)
                if v1 is not hv:
                    if v1 is None or v1.op != "bag" or v1.args[0] is not hv or any(has(y) for y in v1.args[1]):
                        break
                    ok = True
                if path_has(e, e.state, p):
                    break
            else:
                if ok:
                    out[p] = (v0, hv)
        return out

    def own_elements(self, st, M, lid, t, res, nl0, cl0):
        """elements of sequences that are written by one iteration only, with their values before the loop"""
        out = []
        for p in M:
            ks = [i for i, x in enumerate(p) if isinstance(x, tuple) and None in x[1:]]
            if len(ks) != 1 or p[ks[0]][0] != "[":
                continue
            k = ks[0]
            ix = set()
            for x, _ in res:
                for q in x.wlog:
                    if self.pre_existing(q, nl0, cl0) and (self.abs_covers(p, q) or self.abs_covers(q, p)):
                        ix.add(q[k][1] if len(q) == len(p) and isinstance(q[k], tuple) and q[k][0] == "[" else None)
            if len(ix) != 1:
                continue
            i = ix.pop()
            if i is None:
                continue
            c, d = TM._poly(i)
            if abs(d.get((t,), 0)) != 1 or not self.invariant(sub(i, scale(t, d[(t,)])), lid):
                continue
            q = p[:k] + (("[", i),) + p[k + 1:]
            if not self.invariant_path(q, lid, t, i):
                continue
            v = self.peek(st, q)
            if v is not None and v.op not in ("opaque", "undef"):
                out.append((q, v))
        return out

    def invariant_path(self, q, lid, t, i):
        return all(x is i or self.invariant(x, lid) for y in q if isinstance(y, tuple) for x in y if isinstance(x, Term))

    def exit_count(self, x, t):
        """exit literals of the form not (t < n)"""
        for u, v in x.lits:
            n = None
            if u.op in ("le", "eq"):
                lp, b = u.args[0], u.args[1]
                c, d = TM._poly(lp)
                k = d.get((t,), None)
                if k is None or abs(k) != 1:
                    continue
                if any(t in m and m != (t,) for m in d):
                    continue
                rest = sub(lp, scale(t, k))  # lp = k t + rest
                if u.op == "eq" and v:
                    # t == k*(b - rest)
                    n = scale(sub(K(b), rest), k)
                elif u.op == "le" and not v and k == 1:
                    # t + rest > b : t >= b+1-rest
                    n = sub(K(b + 1), rest)
                elif u.op == "le" and v and k == -1:
                    # -t + rest <= b : t >= rest - b
                    n = sub(rest, K(b))
                if n is not None:
                    return n
        return None

    def invariant(self, n, lid):
        acc = set()
        collect(n, lambda x: (x.op in ("t", "lv", "hv") and x.args[0] is lid) or (x.op in ("epl",) and x.args[0] is lid), acc, set())
        return not acc

    def pre_existing(self, p, nl0, cl0):
        r = p[0]
        if isinstance(r, tuple):
            if r[0] == "L":
                return r[1] <= nl0
            if r[0] == "C":
                return r[2] < cl0.get(r[1], 0)
        return True

    def minimise(self, paths):
        out = set()
        for p in paths:
            if not any(q is not p and q != p and len(q) <= len(p) and self.abs_covers(q, p) for q in paths):
                out.add(p)
        return out

    def abs_covers(self, q, p):
        if len(q) > len(p):
            return False
        for a, b in zip(q, p):
            if a == b:
                continue
            if isinstance(a, tuple) and isinstance(b, tuple) and a[0] == b[0] and all(x is None for x in a[1:]):
                continue
            return False
        return True

    def lvval(self, p, v0, lid):
        if v0.op == "&" and v0.args[0] and isinstance(v0.args[0][-1], tuple) and v0.args[0][-1][0] == "[":
            return P(v0.args[0][:-1] + (("[", T("lv", lid, p)),))
        if v0.op == "rit":
            return T("rit", v0.args[0], T("lv", lid, p))
        if v0.op == "xit":
            return T("xit", v0.args[0], T("lv", lid, p))
        if v0.op == "mit":
            return T("mit", v0.args[0], v0.args[1], T("lv", lid, p))
        return T("lv", lid, p)

    def indval(self, st, p, c, t):
        v0 = self.peek(st, p)
        return self.shift(v0, scale(t, c))

    def shift(self, v, d):
        if v.op == "&":
            q = v.args[0]
            return P(q[:-1] + (("[", add(q[-1][1], d)),))
        if v.op == "rit":
            return T("rit", v.args[0], sub(v.args[1], d))
        if v.op == "xit":
            return T("xit", v.args[0], add(v.args[1], d))
        if v.op == "mit":
            return T("mit", v.args[0], v.args[1], add(v.args[2], d))
        return add(v, d)

    def delta(self, a, b):
        if a is None or b is None:
            return None
        if a.op != b.op and (a.op in ("&", "rit", "mit", "xit") or b.op in ("&", "rit", "mit", "xit")):
            return None
        if a.op == "&":
            p, q = a.args[0], b.args[0]
            if p[:-1] != q[:-1] or not isinstance(p[-1], tuple) or p[-1][0] != "[" or not isinstance(q[-1], tuple):
                return None
            d = sub(q[-1][1], p[-1][1])
        elif a.op == "rit":
            if a.args[0] != b.args[0]:
                return None
            d = sub(a.args[1], b.args[1])
        elif a.op == "xit":
            if a.args[0] is not b.args[0]:
                return None
            d = sub(b.args[1], a.args[1])
        elif a.op == "mit":
            if a.args[:2] != b.args[:2]:
                return None
            d = sub(b.args[2], a.args[2])
        elif a.op in ("k", "poly", "lv", "ld", "sym", "call", "res", "t", "fld", "ite"):
            if b.op not in ("k", "poly", "lv", "ld", "sym", "call", "res", "t", "fld"):
                return None
            d = sub(b, a)
        else:
            return None
        return d.args[0] if d.op == "k" else None

    def havoc(self, h, M, lid, ind, t):
        for p in M:
            if p in ind:
                v0 = self.peek(h, p)
                h_val = self.shift(v0, scale(t, ind[p]))
                wl = h.wlog
                self.write(h, p, h_val)
                h.wlog = wl
                continue
            wl = h.wlog
            if any(isinstance(s, tuple) and None in s for s in p):
                ents = tuple(e for e in h.mem.get(p[0], ()) if not self.abs_covers(p, e[0]))
                h.mem[p[0]] = ents + ((p, T("hv", lid)),)
            else:
                v0 = self.peek(h, p)
                loc = islocal(p[0]) or (isinstance(p[0], tuple) and p[0][0] == "C") or p[-1] == "#bag"
                if v0 is not None and (loc or v0.op in ("&", "rit", "mit")):
                    x = self.lvval(p, v0, lid)
                    self.write(h, p, x)
                else:
                    ents = tuple(e for e in h.mem.get(p[0], ()) if not self.abs_covers(p, e[0]))
                    h.mem[p[0]] = ents + ((p, T("hv", lid)),)
            h.wlog = wl

    def loop_writes(self, x, st, M, nl0, cl0):
        """net writes of one generic iteration to pre-existing locations"""
        out = []
        seen = set()
        for p in reversed(x.wlog):
            if p in seen or not self.pre_existing(p, nl0, cl0):
                continue
            seen.add(p)
            val = None
            for q, v in reversed(x.mem.get(p[0], ())):
                if q == p:
                    val = v
                    break
            if val is None or val.op == "hv" and p in M and val.args[0] is not None and self.is_headhv(val, x):
                continue
            out.append((p, val))
        return out

    def is_headhv(self, val, x):
        return False

    # ------------------------------------------------------------- expressions
    def effect(self, e, st):
        """evaluate for effect; list of (state, anything | throw tuple)"""
        k = e[0]
        if k in ("void",):
            return self.effect(e[1], st)
        if k == "ld":
            return self.effect(e[1], st)
        if k in ("assert", "assertfail", "nop"):
            return [(st, None)]
        if k in ("assign", "opassign", "un", "mem", "var", "glob", "idx", "this"):
            r = self.lv(e, st) if self.is_lv(e) else self.rv(e, st)
            return [(s, v.o if isinstance(v, Throw) else (v if isinstance(v, tuple) and v and v[0] == "t" and not self.is_lv(e) else None)) for s, v in r]
        if k in ("call", "mcall", "opcall", "icall"):
            return [(s, v if isinstance(v, tuple) else None) for s, v in self.callx(e, st)]
        if k == "cond":
            out = []
            for s, b in self.cond(e[1], st):
                if isinstance(b, tuple):
                    out.append((s, b))
                else:
                    out.extend(self.effect(e[2] if b else e[3], s))
            return out
        if k == "bin" and e[1] in ("&&", "||"):
            return [(s, b if isinstance(b, tuple) else None) for s, b in self.cond(e, st)]
        if k == "bin" and e[1] == ",":
            out = []
            for s, v in self.effect(e[2], st):
                if isinstance(v, tuple):
                    out.append((s, v))
                else:
                    out.extend(self.effect(e[3], s))
            return out
        if k == "delete":
            st.events = st.events + (("ev", "delete", None, (), self.prog.loc(self.line)),)
            return [(st, None)]
        if k in ("tmp",):
            return self.effect(e[1], st)
        r = self.rv(e, st)
        return [(s, v if isinstance(v, tuple) else None) for s, v in r]

    def cond(self, e, st):
        """list of (state, bool | throw)"""
        k = e[0]
        if k == "bool":
            return [(st, bool(e[1]))]
        if k == "bin" and e[1] == "&&":
            out = []
            for s, b in self.cond(e[2], st):
                if isinstance(b, tuple) or not b:
                    out.append((s, b))
                else:
                    out.extend(self.cond(e[3], s))
            return out
        if k == "bin" and e[1] == "||":
            out = []
            for s, b in self.cond(e[2], st):
                if isinstance(b, tuple) or b:
                    out.append((s, b))
                else:
                    out.extend(self.cond(e[3], s))
            return out
        if k == "un" and e[1] == "!":
            return [(s, b if isinstance(b, tuple) else not b) for s, b in self.cond(e[2], st)]
        if k == "tobool":
            out = []
            for s, v in self.rv(e[1], st):
                if isinstance(v, tuple):
                    out.append((s, v))
                else:
                    out.extend(self.branch(s, self.truth(s, v, e[2])))
            return out
        if k == "cond":
            out = []
            for s, b in self.cond(e[1], st):
                if isinstance(b, tuple):
                    out.append((s, b))
                else:
                    out.extend(self.cond(e[2] if b else e[3], s))
            return out
        out = []
        for s, v in self.rv(e, st):
            if isinstance(v, tuple):
                out.append((s, v))
            else:
                out.extend(self.branch(s, self.truth(s, v, "b1")))
        return out

    def is_lv(self, e):
        k = e[0]
        if k in ("var", "glob", "mem", "idx", "assign", "opassign", "tmp", "anon"):
            return True
        if k == "un":
            return e[1] in ("*", "++", "--")
        if k in ("call", "mcall", "opcall"):
            return self.retref(e)
        if k == "up":
            return self.is_lv(e[1])
        if k == "cond":
            return self.is_lv(e[2]) and self.is_lv(e[3])
        if k == "bin" and e[1] in (".*", "->*"):
            return True
        if k == "bin" and e[1] == ",":
            return self.is_lv(e[3])
        if k == "str":
            return True
        return False

    def lv_or_tmp(self, e, st, typ):
        """path of a glvalue, materialising prvalues"""
        if e is None:
            raise Undecided("no initialiser")
        if e[0] == "tmp":
            return self.lv(e, st)
        if self.is_lv(e):
            return self.lv(e, st)
        return self.materialise(e, st, typ.lstrip("&"))

    def materialise(self, e, st, typ):
        out = []
        if self.is_container(typ):
            return self.construct(e, st, strip_type(typ))
        for s, v in self.rv(e, st, typ):
            if isinstance(v, tuple):
                out.append((s, Throw(v)))
                continue
            p = self.alloc(s, typ if not self.is_container(typ) else "i32")
            s.mem.pop(p[0], None)
            self.write(s, p, v)
            out.append((s, p))
        return out

    def lv(self, e, st):
        """list of (state, path | Throw)"""
        k = e[0]
        if k == "var":
            p = st.env.get(e[1])
            if p is None:
                raise Undecided("unbound variable %s" % e[2])
            return [(st, p)]
        if k == "glob":
            return [(st, (("g", e[1]),))]
        if k == "mem":
            base, name, arrow = e[1], e[2], e[3]
            out = []
            for s, p in (self.ptr(base, st) if arrow else self.lv_or_tmp(base, st, "?")):
                out.append((s, p if isinstance(p, Throw) else p + (name,)))
            return out
        if k == "bin" and e[1] in (".*", "->*"):
            out = []
            for s, p in (self.ptr(e[2], st) if e[1] == "->*" else self.lv_or_tmp(e[2], st, "?")):
                if isinstance(p, Throw):
                    out.append((s, p))
                    continue
                for s2, v in self.rv(e[3], s):
                    if isinstance(v, tuple):
                        out.append((s2, Throw(v)))
                    elif v.op == "mptr":
                        out.append((s2, p + (v.args[0],)))
                    else:
                        raise Undecided("member pointer")
            return out
        if k == "anon":
            return self.ptr(e[1], st) if e[2] else self.lv(e[1], st)
        if k == "up":
            return self.lv(e[1], st)
        if k == "tmp":
            return self.materialise(e[1], st, e[2])
        if k == "un":
            if e[1] == "*":
                return self.ptr(e[2], st)
            if e[1] in ("++", "--"):
                out = []
                for s, p in self.lv(e[2], st):
                    if isinstance(p, Throw):
                        out.append((s, p))
                        continue
                    v = self.read(s, p, e[3])
                    self.write(s, p, self.step(v, 1 if e[1] == "++" else -1))
                    out.append((s, p))
                return out
        if k == "assign":
            out = []
            typ = e[3]
            for s, v in self.rv(e[2], st, typ):
                if isinstance(v, tuple):
                    out.append((s, Throw(v)))
                    continue
                for s2, p in self.lv(e[1], s):
                    if not isinstance(p, Throw):
                        self.write(s2, p, v)
                    out.append((s2, p))
            return out
        if k == "opassign":
            out = []
            for s, v in self.rv(e[3], st):
                if isinstance(v, tuple):
                    out.append((s, Throw(v)))
                    continue
                for s2, p in self.lv(e[2], s):
                    if not isinstance(p, Throw):
                        old = self.read(s2, p, e[4])
                        self.write(s2, p, self.seen(s2, e, self.arith(e[1], old, v, e[5]), e[4]))
                    out.append((s2, p))
            return out
        if k == "idx" and e[1][0] in ("var", "glob", "mem") and strip_type(self.etype(e[1]) or "?").startswith("[]"):
            out = []
            for s, p in self.lv(e[1], st):
                if isinstance(p, Throw):
                    out.append((s, p))
                    continue
                for s2, i in self.rv(e[2], s):
                    out.append((s2, Throw(i) if isinstance(i, tuple) else p + (("[", i),)))
            return out
        if k == "idx":
            out = []
            for s, p in self.rv(e[1], st):
                if isinstance(p, tuple):
                    out.append((s, Throw(p)))
                    continue
                for s2, i in self.rv(e[2], s):
                    if isinstance(i, tuple):
                        out.append((s2, Throw(i)))
                    else:
                        out.append((s2, self.deref(self.shift(p, i) if is_ptr(p) else self.ptradd(p, i))))
            return out
        if k in ("call", "mcall", "opcall", "icall"):
            out = []
            for s, v in self.callx(e, st):
                if isinstance(v, tuple):
                    out.append((s, Throw(v)))
                elif v is not None and v.op == "&":
                    out.append((s, v.args[0]))
                elif v is not None:
                    out.append((s, (("*", v),)))
                else:
                    raise Undecided("no value from call")
            return out
        if k == "cond":
            out = []
            for s, b in self.cond(e[1], st):
                if isinstance(b, tuple):
                    out.append((s, Throw(b)))
                else:
                    out.extend(self.lv(e[2] if b else e[3], s))
            return out
        if k == "bin" and e[1] == ",":
            out = []
            for s, v in self.effect(e[2], st):
                out.extend([(s, Throw(v))] if isinstance(v, tuple) else self.lv(e[3], s))
            return out
        if k == "str":
            return [(st, (("*", S(e[1])),))]
        if k == "cast":
            return self.lv(e[2], st)
        raise Undecided("lvalue %s" % k)

    def step(self, v, d):
        if v.op in ("&", "rit", "mit"):
            if v.op == "&" and not (isinstance(v.args[0][-1], tuple) and v.args[0][-1][0] == "["):
                raise Undecided("pointer arithmetic on object")
            return self.shift(v, K(d))
        if v.op in ("opaque", "undef"):
            raise Undecided("arithmetic on %s" % v.op)
        if v.op == "xit":
            return T("xit", v.args[0], add(v.args[1], K(d)))
        return add(v, K(d))

    def ptradd(self, p, i):
        if p.op == "s":
            return P((("*", p), ("[", i)))
        return P((("*", p), ("[", i)))

    def deref(self, v):
        if v.op == "&":
            return v.args[0]
        if v.op == "rit":
            return v.args[0] + (("[", v.args[1]),)
        if v.op == "mit":
            return v.args[0] + (("{", v.args[1], v.args[2]),)
        if v.op == "s":
            return (("*", v), ("[", K(0)))
        if v.op in ("null", "opaque", "undef", "ite"):
            raise Undecided("deref of %s" % v.op)
        if v.op == "xit":
            return (("*", T("call", "at", v.args[0], (v.args[1],), None)),)
        return (("*", v),)

    def ptr(self, e, st):
        """paths a pointer expression points to"""
        if e[0] == "this":
            return [(st, st.env["this"])]
        if e[0] == "up":
            return self.ptr(e[1], st)
        out = []
        for s, v in self.rv(e, st):
            if isinstance(v, tuple):
                out.append((s, Throw(v)))
                continue
            for s2, w in self.resolve(s, v):
                out.append((s2, self.deref(w)))
        return out

    def resolve(self, st, v):
        """fork over conditional pointers"""
        if v.op != "ite":
            return [(st, v)]
        out = []
        for s, b in self.branch(st, v.args[0]):
            out.extend(self.resolve(s, v.args[1] if b else v.args[2]))
        return out

    def arith(self, op, a, b, typ):
        if a.op in ("opaque", "undef") or b.op in ("opaque", "undef"):
            raise Undecided("arithmetic on %s" % a.op)
        if a.op in ("&", "rit", "mit") or b.op in ("&", "rit", "mit"):
            if op == "+":
                return self.shift(a, b) if a.op in ("&", "rit", "mit") else self.shift(b, a)
            if op == "-":
                if b.op in ("&", "rit", "mit"):
                    if a.op == "&" and a.args[0][:-1] == b.args[0][:-1]:
                        return sub(a.args[0][-1][1], b.args[0][-1][1])
                    if a.op == "rit" and a.args[0] == b.args[0]:
                        return sub(b.args[1], a.args[1])
                    if a.op == "&" and b.op == "&":
                        return T("call", "pdiff", None, (a, b), None)
                    raise Undecided("pointer difference")
                return self.shift(a, neg(b))
            raise Undecided("pointer arithmetic")
        if a.op in ("st", "snap") or b.op in ("st", "snap"):
            raise Undecided("arithmetic on aggregate")
        if op == "+":
            return add(a, b)
        if op == "-":
            return sub(a, b)
        if op == "*":
            return mul(a, b)
        if is_const(a) and is_const(b) and op in ("/", "%", "<<", ">>", "&", "|", "^"):
            x, y = a.args[0], b.args[0]
            if isinstance(x, int) and isinstance(y, int):
                try:
                    if op == "/":
                        return K(abs(x) // abs(y) * (1 if (x >= 0) == (y >= 0) else -1)) if strip_type(typ)[:1] != "f" else K(Fraction(x, y))
                    if op == "<<":
                        return K(x << y)
                    if op == ">>":
                        return K(x >> y)
                    if op == "&":
                        return K(x & y)
                    if op == "|":
                        return K(x | y)
                    if op == "^":
                        return K(x ^ y)
                    return K(x - y * (abs(x) // abs(y) * (1 if (x >= 0) == (y >= 0) else -1)))
                except ZeroDivisionError:
                    pass
        if op in ("&", "|", "^", "*"):
            a, b = sorted((a, b), key=lambda z: z.uid)
        if op in ("&", "|") and is_bool(a) and is_bool(b):
            x = T("and", a, b) if op == "&" else NOT(T("and", NOT(a), NOT(b)))
            return x
        r = T({"/": "div", "%": "mod"}.get(op, "op" + op), a, b, strip_type(typ)[:1])
        if strip_type(typ)[:1] == "u":
            NONNEG.add(r)
        return r

    def seen(self, st, e, v, typ):
        """for watched operations: is the result known to fit its type"""
        if self.watch is not None and id(e) in self.watch:
            b = WIDTH.get(strip_type(typ))
            ok = False
            if b is not None and v.op not in ("opaque", "undef", "st", "&"):
                ok = True
                for t in (lt(v, K(b[0]), True), lt(K(b[1]), v, True)):
                    if t.op == "k":
                        ok = ok and not t.args[0]
                        continue
                    if st.store.decide(t) is False:
                        continue
                    c = st.store.clone()
                    if c.assume(t, True) and not self.empty(c):
                        ok = False
            self.watch[id(e)] = ok and self.watch[id(e)] is not False
        return v

    def rv(self, e, st, typ=None):
        """list of (state, Term | throw tuple)"""
        k = e[0]
        if k == "int":
            return [(st, K(int(e[1])))]
        if k == "bool":
            return [(st, K(bool(e[1])))]
        if k == "flt":
            try:
                f = Fraction(e[1])
            except ValueError:
                try:
                    f = Fraction(float(e[1]))
                except (ValueError, OverflowError):
                    return [(st, T("flt", e[1]))]
            return [(st, K(f))]
        if k == "str":
            return [(st, S(e[1]))]
        if k == "null":
            return [(st, NULL)]
        if k == "this":
            return [(st, P(st.env["this"]))]
        if k == "memptr":
            return [(st, T("mptr", e[1]))]
        if k == "fn":
            self.fninfo[e[1]["key"]] = e[1]
            return [(st, T("fnref", e[1]["key"], e[1]["name"]))]
        if k == "ld":
            out = []
            for s, p in self.lv_or_tmp(e[1], st, e[2]):
                if isinstance(p, Throw):
                    out.append((s, p.o))
                    continue
                out.append((s, self.rvpath(s, p, e[2])))
            return out
        if k in ("icast", "i2f", "f2i", "fcast"):
            out = []
            for s, v in self.rv(e[1], st):
                if k == "f2i" and not isinstance(v, tuple):
                    v = K(int(v.args[0])) if is_const(v) else T("f2i", v)
                if k == "icast" and not isinstance(v, tuple):
                    self.seen(s, e, v, e[3])
                out.append((s, v))
            return out
        if k == "cast":
            return self.rv(e[2], st, typ)
        if k == "up":
            return self.rv(e[1], st, typ)
        if k == "tobool":
            out = []
            for s, v in self.rv(e[1], st):
                out.append((s, v if isinstance(v, tuple) else self.truth(s, v, e[2])))
            return out
        if k == "void":
            return [(s, v if isinstance(v, tuple) else UNDEF) for s, v in self.effect(e[1], st)]
        if k in ("assert", "assertfail", "nop"):
            return [(st, UNDEF)]
        if k == "tmp":
            return self.rv(e[1], st, typ)
        if k == "zero":
            return [(st, self.zero(e[1]))]
        if k == "un":
            return self.rv_un(e, st)
        if k == "bin":
            return self.rv_bin(e, st)
        if k == "cond":
            out = []
            for s, b in self.cond(e[1], st):
                if isinstance(b, tuple):
                    out.append((s, b))
                else:
                    out.extend(self.rv(e[2] if b else e[3], s, typ))
            return out
        if k in ("call", "mcall", "opcall", "icall"):
            out = []
            for s, v in self.callx(e, st):
                if isinstance(v, tuple) or v is None:
                    out.append((s, v if v is not None else UNDEF))
                elif self.retref(e):
                    out.append((s, self.rvpath(s, self.deref(v), typ or self.rettype(e))))
                else:
                    out.append((s, v))
            return out
        if k == "ctor":
            return self.rv_ctor(e, st, typ)
        if k == "init":
            return self.rv_init(e, st)
        if k == "lambda":
            cid = len(self.closures)
            self.closures[cid] = (e, st.env.get("this"), None)
            outs = [(st, None)]
            for cap in e[3]:
                if cap[3] is not None and cap[1] != "this":
                    nxt = []
                    for s, _ in outs:
                        for s2, v in self.rv(cap[3], s):
                            if isinstance(v, tuple):
                                raise Undecided("throw in capture")
                            p = self.alloc(s2, "i32")
                            self.write(s2, p, v)
                            s2.env[cap[0]] = p
                            nxt.append((s2, None))
                    outs = nxt
            return [(s, T("clo", cid)) for s, _ in outs]
        if k == "throw":
            st.note = st.note + (("throw", e[3]),)
            return [(st, ("t", strip_type(e[2]) if e[2] else "rethrow"))]
        if k == "new" and e[2] is not None and e[2][0] == "ctor" and e[2][2].get("repo") and (self.prog.functions.get(e[2][2]["key"]) or {}).get("body") is not None:
            import models
            return models.construct_new(self, e, st)
        if k == "new":
            cur = [(st, None)] if e[2] is None else self.rv(e[2], st, e[1])
            out = []
            for s, x in cur:
                if isinstance(x, tuple):
                    out.append((s, x))
                    continue
                if x is None and self.is_agg(e[1]):
                    s, x = self.default_agg(e[1], s)[0]
                s.events = s.events + (("ev", "new", None, (S(e[1]),) + ((x,) if x is not None else ()), self.prog.loc(self.line)),)
                v = T("newobj", S(e[1]), K(len(s.events)))
                out.append((s, P((("*", v),))))
            return out
        if k in ("assign", "opassign", "var", "glob", "mem", "idx"):
            out = []
            for s, p in self.lv(e, st):
                if isinstance(p, Throw):
                    out.append((s, p.o))
                else:
                    out.append((s, self.rvpath(s, p, typ or self.etype(e))))
            return out
        if k == "delete":
            return self.effect(e, st)
        raise Undecided("expression %s %s" % (k, e[1] if len(e) > 1 and isinstance(e[1], str) else ""))

    def etype(self, e):
        k = e[0]
        if k == "var":
            return e[3]
        if k == "glob":
            return e[2]
        if k == "mem":
            return e[4]
        if k == "assign":
            return e[3]
        if k == "opassign":
            return e[4]
        return "?"

    def retref(self, e):
        if e[0] == "icall":
            return False
        return (e[2] if e[0] == "opcall" else e[1])["ret"].startswith("&")

    def rettype(self, e):
        if e[0] == "icall":
            return e[4]
        return (e[2] if e[0] == "opcall" else e[1])["ret"]

    def rv_un(self, e, st):
        op = e[1]
        if op == "!":
            out = []
            for s, v in self.rv(e[2], st):
                out.append((s, v if isinstance(v, tuple) else NOT(self.truth(s, v, "b1"))))
            return out
        if op == "&":
            if e[2][0] == "fn":
                return self.rv(e[2], st)
            return [(s, p.o if isinstance(p, Throw) else P(p)) for s, p in self.lv(e[2], st)]
        if op in ("++post", "--post"):
            out = []
            for s, p in self.lv(e[2], st):
                if isinstance(p, Throw):
                    out.append((s, p.o))
                    continue
                v = self.read(s, p, e[3])
                self.write(s, p, self.step(v, 1 if op[0] == "+" else -1))
                out.append((s, v))
            return out
        if op in ("*", "++", "--"):
            out = []
            for s, p in self.lv(e, st):
                out.append((s, p.o if isinstance(p, Throw) else self.rvpath(s, p, e[3])))
            return out
        out = []
        for s, v in self.rv(e[2], st):
            if isinstance(v, tuple):
                out.append((s, v))
            elif op == "-":
                if v.op in ("opaque", "undef", "st"):
                    raise Undecided("negation")
                out.append((s, self.seen(s, e, neg(v), e[3])))
            elif op == "+":
                out.append((s, v))
            elif op == "~":
                out.append((s, T("op~", v)))
            else:
                raise Undecided("unary " + op)
        return out

    def rv_bin(self, e, st):
        op = e[1]
        if op in ("&&", "||"):
            return [(s, b if isinstance(b, tuple) else K(b)) for s, b in self.cond(e, st)]
        if op == ",":
            out = []
            for s, v in self.effect(e[2], st):
                out.extend([(s, v)] if isinstance(v, tuple) else self.rv(e[3], s))
            return out
        out = []
        isint = not strip_type(e[5]).startswith("f")
        for s, a in self.rv(e[2], st):
            if isinstance(a, tuple):
                out.append((s, a))
                continue
            for s2, b in self.rv(e[3], s):
                if isinstance(b, tuple):
                    out.append((s2, b))
                    continue
                if op in ("<", ">", "<=", ">=", "==", "!=") and TM.is_bool(a) and TM.is_bool(b) and a.op != "k" and b.op != "k":
                    # comparisons of truth values are logical connectives
                    x, y, o = (b, a, {">": "<", "<=": ">="}[op]) if op in (">", "<=") else (a, b, op)
                    for s3, t in self.branch(s2, x):
                        if o == "<":
                            out.append((s3, FALSE if t else y))
                        elif o == ">=":
                            out.append((s3, TRUE if t else NOT(y)))
                        else:
                            out.append((s3, y if t == (o == "==") else NOT(y)))
                elif op in ("<", ">", "<=", ">=", "==", "!="):
                    for s3, x in self.resolve(s2, a) if a.op == "ite" and self.ptrish(a) else [(s2, a)]:
                        for s4, y in self.resolve(s3, b) if b.op == "ite" and self.ptrish(b) else [(s3, b)]:
                            out.append((s4, self.compare(op, x, y, isint)))
                else:
                    out.append((s2, self.seen(s2, e, self.arith(op, a, b, e[4]), e[4])))
        return out

    def ptrish(self, t):
        if t.op == "ite":
            return self.ptrish(t.args[1]) or self.ptrish(t.args[2])
        return t.op in ("&", "null", "rit", "mit")

    def compare(self, op, a, b, isint=True):
        if a.op in ("opaque", "undef") or b.op in ("opaque", "undef"):
            raise Undecided("comparison of %s %s" % (a.op, b.op))
        if a.op == "null" or b.op == "null":
            x = b if a.op == "null" else a
            r = self.isnull(x)
            return r if op == "==" else NOT(r)
        if a.op in ("&", "rit", "mit") or b.op in ("&", "rit", "mit"):
            if a.op != b.op:
                if "mit" in (a.op, b.op):
                    raise Undecided("map iterator comparison")
                return self.cmp_ptr(op, a, b)
            if a.op == "&":
                p, q = a.args[0], b.args[0]
                if p == q:
                    i = j = K(0)
                elif p[:-1] == q[:-1] and isinstance(p[-1], tuple) and p[-1][0] == "[":
                    i, j = p[-1][1], q[-1][1]
                else:
                    return self.cmp_ptr(op, a, b)
            elif a.op == "rit":
                if a.args[0] != b.args[0]:
                    raise Undecided("pointer comparison")
                i, j = neg(a.args[1]), neg(b.args[1])
            else:
                return self.cmp_mit(op, a, b)
            a, b = i, j
            isint = True
        if a.op in ("strcmp",) or b.op in ("strcmp",):
            if b.op == "strcmp":
                a, b = b, a
            if b is K(0) and op in ("==", "!="):
                r = self.streq(a.args[0], a.args[1])
                return r if op == "==" else NOT(r)
        if a.op in ("st", "snap") or b.op in ("st", "snap"):
            raise Undecided("comparison of aggregates")
        if op == "==":
            return eq(a, b, isint)
        if op == "!=":
            return NOT(eq(a, b, isint))
        if op == "<":
            return lt(a, b, isint)
        if op == ">":
            return lt(b, a, isint)
        if op == "<=":
            return le(a, b, isint)
        return le(b, a, isint)

    def cmp_ptr(self, op, a, b):
        """comparison of pointers into different sequences: an uninterpreted predicate"""
        if op in ("==", "!="):
            if b.uid < a.uid:
                a, b = b, a
            t = T("ptreq", a, b)
            BOOL.add(t)
            return t if op == "==" else NOT(t)
        if op in (">", "<="):
            a, b = b, a
        t = T("ptrlt", a, b)
        BOOL.add(t)
        return t if op in ("<", ">") else NOT(t)

    def cstr(self, t):
        """the character sequence a pointer denotes"""
        if t.op == "&":
            p = t.args[0]
            if isinstance(p[0], tuple) and p[0][0] == "*" and len(p) <= 2:
                if len(p) == 1 or p[1][1] is K(0):
                    return p[0][1]
                return T("suffix", p[0][1], p[1][1])
        return t

    def streq(self, a, b):
        a, b = self.cstr(a), self.cstr(b)
        if a is b:
            return TRUE
        if a.op == "s" and b.op == "s":
            return K(a.args[0] == b.args[0])
        if a.op == "s":
            a, b = b, a
        if b.op != "s" and b.uid < a.uid:
            a, b = b, a
        return T("streq", a, b)

    def cmp_mit(self, op, a, b):
        if op not in ("==", "!="):
            raise Undecided("map iterator order")
        if a.args[0] != b.args[0]:
            raise Undecided("map iterators of different maps")
        if a.args[1] is b.args[1]:
            r = eq(a.args[2], b.args[2])
            return r if op == "==" else NOT(r)
        if b.args[1].op == "end":
            pass
        elif a.args[1].op == "end":
            a, b = b, a
        else:
            raise Undecided("map iterators of different keys")
        r = T("atend", a.args[0], a.args[1], a.args[2], a.args[3] if len(a.args) > 3 else None)
        BOOL.add(r)
        return r if op == "==" else NOT(r)

    # ------------------------------------------------------------- objects
    def rv_init(self, e, st):
        typ = e[1]
        items = e[2]
        cur = [(st, [])]
        res = []
        fs = dict(self.fields(typ) or [])
        for name, x in items:
            nxt = []
            for s, acc in cur:
                for s2, v in self.rv(x, s, fs.get(name)):
                    if isinstance(v, tuple):
                        res.append((s2, v))
                    else:
                        nxt.append((s2, acc + [(name, v)]))
            cur = nxt
        for s, acc in cur:
            if not strip_type(typ).startswith("R:"):
                if strip_type(typ).startswith("[]"):
                    res.append((s, T("st", "vec", tuple(("", v) for _, v in acc))))
                else:
                    res.append((s, acc[0][1] if acc else self.zero(typ)))
                continue
            if rec_base(typ) == "std::array" and len(acc) == 1 and acc[0][1].op == "st" and acc[0][1].args[0] == "vec" and str(len(acc[0][1].args[1])) == split_targs(strip_type(typ))[-1]:
                res.append((s, acc[0][1]))
                continue
            res.append((s, T("st", strip_type(typ), tuple(acc))))
        return res

    def eval_args(self, args, ptypes, st, by_value=False):
        """list of (state, [Arg]) where Arg is ('p', path) or ('v', Term)"""
        cur = [(st, [])]
        done = []
        for i, a in enumerate(args):
            pt = ptypes[i] if i < len(ptypes) else "?"
            nxt = []
            for s, acc in cur:
                if pt.startswith("&") and not (by_value and not self.is_lv(a)):
                    for s2, p in self.lv_or_tmp(a, s, pt):
                        if isinstance(p, Throw):
                            done.append((s2, p.o))
                        else:
                            nxt.append((s2, acc + [("p", p, pt)]))
                else:
                    if self.is_container(pt):
                        for s2, p in self.construct(a, s, pt):
                            if isinstance(p, Throw):
                                done.append((s2, p.o))
                            else:
                                nxt.append((s2, acc + [("p", p, "&" + pt)]))
                        continue
                    for s2, v in self.rv(a, s, pt):
                        if isinstance(v, tuple):
                            done.append((s2, v))
                        else:
                            nxt.append((s2, acc + [("v", v, pt)]))
            cur = nxt
        return cur, done

    def argval(self, st, a):
        if a[0] == "v":
            return a[1]
        t = a[2]
        ty = strip_type(t)
        if ty == "?":
            return self.rvpath(st, a[1], "?")
        if self.is_container(ty):
            return self.content(st, a[1], ty)
        return self.rvpath(st, a[1], ty)

    def is_bag(self, path, typ=None):
        if typ is not None:
            el = split_targs(strip_type(typ))
            if el and el[0] != "i32":
                return False
        r = path[0]
        if len(path) == 1 and isinstance(r, tuple) and r[0] == "C":
            return r[1].startswith("R:std::vector<i32")
        return path[-1] in self.bagfields

    def content(self, st, path, typ):
        if rec_base(typ) == "std::vector":
            if self.is_bag(path, typ):
                return self.read(st, path + ("#bag",))
            n = self.read(st, path + ("#size",), "u64")
            if is_const(n) and n.args[0] <= 8:
                el = split_targs(strip_type(typ))[0]
                return T("st", "vec", tuple(("", self.load_value(st, path + (("[", K(i)),), el)) for i in range(int(n.args[0]))))
            sn = self.snapshot(st, path)
            if islocal(path[0]) and sn.args[1] and sn.args[1][0][0] == "=":
                return T("cont", sn)  # the value of the object, wherever it is held
            return T("cont", P(path), sn)
        return self.snapshot(st, path)

    def rv_ctor(self, e, st, want=None):
        typ, info, args = e[1], e[2], e[3]
        base = rec_base(typ)
        if e[5] == 1 or (len(args) == 1 and base and rec_base(info["ptypes"][0] if info["ptypes"] else "") == base and self.same_rec(info, typ)):
            # copy/move
            a = args[0]
            out = []
            for s, p in self.lv_or_tmp(a, st, typ):
                out.append((s, p.o if isinstance(p, Throw) else self.rvpath(s, p, typ)))
            return out
        from models import CTORS, model_ctor
        m = CTORS.get(base)
        if m is not None:
            cur, done = self.eval_args(args, info["ptypes"], st)
            out = list(done)
            for s, av in cur:
                out.extend(m(self, s, typ, av, e))
            return out
        if self.is_container(typ):
            out = []
            for s, p in self.construct(["ctor", typ, info, args, e[4], 0, 0], st, typ) if not args else model_ctor(self, st, typ, info, args, e):
                out.append((s, p.o if isinstance(p, Throw) else P(p)))
            return out
        f = self.prog.functions.get(info["key"])
        if f is not None and (f["body"] is not None):
            return self.inline_ctor(f, typ, args, info, st)
        if f is None and not args and self.fields(typ) is not None:
            return self.default_agg(typ, st)
        return self.opaque_ctor(typ, info, args, st)

    def opaque_ctor(self, typ, info, args, st):
        """object of a class whose constructor is not part of this translation unit"""
        import models
        cur, done = self.eval_args(args, info["ptypes"], st)
        out = list(done)
        for s, av in cur:
            vals = [self.argval(s, a) for a in av]
            tok = T("obj", strip_type(typ), *vals)
            s.events = s.events + (("ev", "construct " + strip_type(typ), None, tuple(vals), self.prog.loc(self.line)),)
            out.append((s, tok))
        return out

    def same_rec(self, info, typ):
        return strip_type(info["ptypes"][0]) == strip_type(typ)

    def default_agg(self, typ, st):
        b = rec_base(typ)
        if b == "std::optional":
            return [(st, T("st", strip_type(typ), (("#has", FALSE),)))]
        if b in ("std::pair", "std::tuple"):
            return [(st, T("st", strip_type(typ), tuple((f, self.zero(ft)) for f, ft in self.fields(typ))))]
        r = self.prog.records[strip_type(typ)]
        acc = []
        for f in r["fields"]:
            if f.get("init") is not None:
                vs = self.rv(f["init"], st, f["type"])
                if len(vs) != 1 or isinstance(vs[0][1], tuple):
                    raise Undecided("default member initialiser")
                acc.append((f["name"], vs[0][1]))
            elif self.is_agg(f["type"]):
                acc.append((f["name"], self.default_agg(f["type"], st)[0][1]))
            elif self.is_container(f["type"]):
                acc.append((f["name"], T("zero")))
            else:
                acc.append((f["name"], UNDEF))
        return [(st, T("st", strip_type(typ), tuple(acc)))]

    def inline_ctor(self, f, typ, args, info, st):
        """value of a constructed object of a repo class"""
        if f["key"] in self.boundaries or f["name"] in self.boundaries:
            pass
        cur, done = self.eval_args(args, info["ptypes"], st)
        out = list(done)
        for s, av in cur:
            p = self.alloc(s, "i32")
            s.mem.pop(p[0], None)
            for s2, o in self.run_ctor(f, p, av, s):
                if o is not None and o[0] == "t":
                    out.append((s2, o))
                    continue
                try:
                    v = self.load_value(s2, p, typ)
                except Undecided:
                    raise
                out.append((s2, v))
        return out

    def run_ctor(self, f, p, av, st):
        saved = st.env.get("this")
        st.env["this"] = p
        self.bind_params(f, av, st)
        self.enter(f)
        try:
            cur = [st]
            done = []
            seen = set()
            for it in f.get("inits") or []:
                nxt = []
                for s in cur:
                    if it[0] != "field":
                        if it[0] == "base":
                            nxt.append(s)
                            continue
                        raise Undecided("ctor initialiser %s" % it[0])
                    seen.add(it[1])
                    ft = it[2]
                    if ft.startswith("&"):
                        for s2, q in self.lv_or_tmp(it[3], s, ft):
                            if isinstance(q, Throw):
                                done.append((s2, q.o))
                                continue
                            self.write(s2, p + (it[1],), P(q))
                            nxt.append(s2)
                        continue
                    if self.is_container(ft):
                        for s2, q in self.construct(it[3], s, ft):
                            if isinstance(q, Throw):
                                done.append((s2, q.o))
                                continue
                            self.move_into(s2, p + (it[1],), q)
                            nxt.append(s2)
                        continue
                    for s2, v in self.rv(it[3], s, ft):
                        if isinstance(v, tuple):
                            done.append((s2, v))
                            continue
                        self.write(s2, p + (it[1],), v)
                        nxt.append(s2)
                cur = nxt
            out = list(done)
            for s in cur:
                for s2, o in self.exec(f["body"], s):
                    out.append((s2, o if o[0] == "t" else None))
        finally:
            self.leave()
        for s, _ in out:
            s.env["this"] = saved
        return out

    def move_into(self, st, p, q):
        """move content of local container q to p"""
        ents = []
        for w, v in st.mem.get(q[0], ()):
            if w[: len(q)] == q:
                ents.append((p + w[len(q):], v))
        root = p[0]
        old = tuple(e for e in st.mem.get(root, ()) if e[0][: len(p)] != p)
        st.mem[root] = old + tuple(ents)
        st.wlog = st.wlog + tuple(w for w, _ in ents)

    # ------------------------------------------------------------- calls
    def enter(self, f):
        if len(self.stack) > 40:
            raise Undecided("inlining depth")
        if any(x[0] == f["key"] for x in self.stack):
            raise Undecided("recursion in %s" % f["name"])
        self.stack.append((f["key"], f["ret"]))
        self.visited_fns.add(f["name"])

    def leave(self):
        self.stack.pop()

    def bind_params(self, f, av, st):
        for prm, a in zip(f["params"], av):
            if prm["type"].startswith("&"):
                if a[0] == "p":
                    st.env[prm["id"]] = a[1]
                else:
                    p = self.alloc(st, "i32")
                    self.write(st, p, a[1])
                    st.env[prm["id"]] = p
            else:
                if a[0] == "p":
                    if self.is_container(prm["type"]):
                        st.env[prm["id"]] = a[1]
                        continue
                    v = self.rvpath(st, a[1], prm["type"])
                else:
                    v = a[1]
                p = self.alloc(st, prm["type"] if not self.is_container(prm["type"]) else "i32")
                st.mem.pop(p[0], None)
                self.write(st, p, v)
                st.env[prm["id"]] = p

    def inline(self, f, objp, av, st):
        """list of (state, Term|None|throw)"""
        saved = st.env.get("this")
        if objp is not None:
            st.env["this"] = objp
        self.bind_params(f, av, st)
        self.enter(f)
        try:
            res = self.exec(f["body"], st)
        finally:
            self.leave()
        out = []
        for s, o in res:
            s.env["this"] = saved
            if o[0] == "t":
                out.append((s, o))
            elif o[0] == "r":
                out.append((s, o[1]))
            elif o[0] == "n":
                out.append((s, None))
            else:
                raise Undecided("stray %s" % (o,))
        return out

    def call_closure(self, st, clo, av):
        e, this, _ = self.closures[clo.args[0]]
        params, body = e[1], e[2]
        if body is None:
            # generic lambda: the instantiation matching the arguments
            specs = [x for x in (e[6] if len(e) > 6 else []) if len(x[0]) == len(av)]
            if len(specs) > 1:
                specs = [x for x in specs if all(strip_type(p["type"]) == strip_type(a[2]) for p, a in zip(x[0], av) if len(a) > 2)]
            if len(specs) != 1:
                raise Undecided("generic lambda")
            params, body = specs[0]
        saved = st.env.get("this")
        if this is not None:
            st.env["this"] = this
        f = {"params": params, "key": e[4] + str(clo.args[0]), "ret": "auto", "name": "(lambda)"}
        self.bind_params(f, av, st)
        self.enter(f)
        try:
            res = self.exec(body, st)
        finally:
            self.leave()
        out = []
        for s, o in res:
            s.env["this"] = saved
            out.append((s, o if o[0] == "t" else (o[1] if o[0] == "r" else None)))
        return out

    def callx(self, e, st):
        import models
        return models.call(self, e, st)

    # ------------------------------------------------------------- entry
    def summarise(self, f, selfmode):
        """all paths of function f from a symbolic entry state.

        selfmode: 'method' (this implicit) or 'spec' (first parameter is the object)
        or 'free'."""
        st = new_state(self.base)
        st.env["this"] = ("this",)
        params = f["params"]
        k = 0
        if selfmode == "spec":
            st.env[params[0]["id"]] = ("this",)
            params = params[1:]
        for i, prm in enumerate(params):
            nm = "p%d" % i
            ty = prm["type"]
            if ty.startswith("&"):
                st.env[prm["id"]] = (nm,)
            elif self.is_agg(ty) or self.is_container(ty):
                st.env[prm["id"]] = (nm,)
            else:
                v = T("sym", nm)
                self.note_type(v, ty)
                v = self.wrap_ptr(v, ty)
                p = self.alloc(st, ty)
                self.write(st, p, v)
                st.env[prm["id"]] = p
        for p, v in self.entry:
            st.mem[p[0]] = st.mem.get(p[0], ()) + ((p, v),)
        st.wlog = ()
        self.npaths = 0
        self.stack = []
        self.rootkey = f["key"]
        if f["name"].endswith("(ctor)"):
            av = [("p", st.env[p["id"]], p["type"]) for p in f["params"]]
            res = [(s, ("n",) if o is None else o) for s, o in self.run_ctor_this(f, st)]
        else:
            self.enter(f)
            try:
                res = self.exec(f["body"], st)
            finally:
                self.leave()
        out = []
        for s, o in res:
            val = None
            if o[0] == "r" and o[1] is not None:
                val = o[1]
                if val.op == "&" and self.is_container(f["ret"]):
                    val = self.content(s, val.args[0], f["ret"])
            if o[0] == "t":
                out.append(FnPath(s.lits, ("t", o[1]), s.events, s, s.store))
            else:
                out.append(FnPath(s.lits, ("r", val), s.events, s, s.store))
        return out

    def run_ctor_this(self, f, st):
        env = st.env
        self.enter(f)
        try:
            cur = [st]
            done = []
            p = ("this",)
            for it in f.get("inits") or []:
                nxt = []
                for s in cur:
                    if it[0] == "base":
                        nxt.append(s)
                        continue
                    if it[0] != "field":
                        raise Undecided("ctor initialiser")
                    ft = it[2]
                    if ft.startswith("&"):
                        for s2, q in self.lv_or_tmp(it[3], s, ft):
                            self.write(s2, p + ("&" + it[1],), P(q))
                            s2.env[("field", it[1])] = q
                            nxt.append(s2)
                        continue
                    if self.is_container(ft):
                        for s2, q in self.construct(it[3], s, ft):
                            if isinstance(q, Throw):
                                done.append((s2, q.o))
                                continue
                            self.move_into(s2, p + (it[1],), q)
                            nxt.append(s2)
                        continue
                    for s2, v in self.rv(it[3], s, ft):
                        if isinstance(v, tuple):
                            done.append((s2, v))
                            continue
                        self.write(s2, p + (it[1],), v)
                        nxt.append(s2)
                cur = nxt
            out = list(done)
            for s in cur:
                out.extend(self.exec(f["body"], s))
        finally:
            self.leave()
        return out


def _more(cls):
    def boundary(self, info, f):
        b = self.boundaries.get(info["key"])
        if b is None:
            b = self.boundaries.get(info["name"])
        if b is not None:
            return b
        if any(k == info["key"] for k, _ in self.stack):
            return {}
        if f is not None and f["key"] == self.rootkey:
            return {}
        return None

    def mods(self, info, f):
        """suffixes of possibly written locations below the object of a call"""
        if f is None:
            r = self.prog.records.get(strip_type(info.get("cls") or "")) if info.get("cls") else None
            return [(x["name"],) for x in r["fields"]] if r else []
        return self.reach(info["cls"], self.prog.mods(f["key"]))

    def reach(self, typ, targets, depth=5, seen=(), fine=False):
        t = strip_type(typ)
        out = []
        b = rec_base(t)
        if b is None or depth == 0:
            return out
        if b in ("std::vector", "std::array", "std::deque"):
            a = split_targs(t)
            if a:
                out.extend((("[", None),) + x for x in self.reach(a[0], targets, depth - 1, seen, fine))
            return out
        if b in ("std::unordered_map", "std::map", "std::unordered_multimap", "std::multimap"):
            a = split_targs(t)
            if len(a) > 1:
                out.extend((("{", None, None),) + x for x in self.reach(a[1], targets, depth - 1, seen, fine))
            return out
        if b in seen:
            return out
        fs = self.fields(t)
        if not fs:
            return out
        names = {b.split("<")[0]}
        todo = [t]
        while todo:
            r = self.prog.records.get(strip_type(todo.pop()))
            if r:
                for x in r["bases"]:
                    names.add(rec_base(x))
                    todo.append(x)
        for n, ft in fs:
            if any((m, n) in targets for m in names):
                el = rec_base((split_targs(strip_type(ft)) or ["?"])[0]) if (rec_base(ft) or "") == "std::vector" else None
                if fine and el is not None and not el.startswith("std::") and el not in seen and self.fields(split_targs(strip_type(ft))[0]) \
                        and (el.split("<")[0], "*") not in targets:
                    # elements are seen member by member
                    out.append((n, "#size"))
                    out.extend((n,) + x for x in self.reach(ft, targets, depth - 1, seen + (b,), fine))
                else:
                    out.append((n,))
            elif not ft.startswith("*"):
                out.extend((n,) + x for x in self.reach(ft, targets, depth - 1, seen + (b,), fine))
        return out

    def paramconst(self, f, i):
        return False

    def havoc_at(self, st, p, tok):
        if any(isinstance(x, tuple) and None in x for x in p):
            ents = tuple(e for e in st.mem.get(p[0], ()) if not self.abs_covers(p, e[0]))
            st.mem[p[0]] = ents + ((p, tok),)
            st.wlog = st.wlog + (p,)
        else:
            self.write(st, p, tok)

    def write_any(self, st, p, v):
        wl = st.wlog
        if self.known_container(p):
            ents = tuple(e for e in st.mem.get(p[0], ()) if e[0][: len(p)] != p)
            st.mem[p[0]] = ents + ((p, T("hv", v)),)
            st.wlog = wl + (p,)
        else:
            self.write(st, p, v)

    def known_container(self, p):
        return len(p) == 1 and isinstance(p[0], tuple) and p[0][0] == "C"

    def closure_params(self, clo):
        if clo.op != "clo":
            return []
        return [x["type"] for x in self.closures[clo.args[0]][0][1]]

    def state_token(self, st, p, info, f):
        """what the members read by a function have been changed to"""
        acc = [p + x for x in self.reach(info["cls"], self.prog.reads(f["key"]), fine=True)]
        ents = []
        for q, v in st.mem.get(p[0], ()):
            if any(self.abs_covers(a[:len(q)], q) or self.abs_covers(a, q) or self.abs_covers(q, a) for a in acc):
                ents.append((q, v))
        return T("snap", None, tuple(ents)) if ents else None

    def proj1(self, v, i):
        if v.op == "st":
            return v.args[1][i][1]
        if v.op in ("opaque", "undef"):
            raise Undecided("projection")
        return T("fld", v, ("first", "second")[i] if v.op != "tup" else "e%d" % i)

    def copy_container_to(self, st, p, q):
        snap = T("ldc", q, self.snapshot(st, q))
        old = tuple(e for e in st.mem.get(p[0], ()) if e[0][: len(p)] != p)
        n = self.read(st, q + ("#size",), "u64")
        st.mem[p[0]] = old + ((p, snap),)
        st.wlog = st.wlog + (p,)
        self.write(st, p + ("#size",), n)

    for k, v in list(locals().items()):
        if callable(v) and k not in ("cls",):
            setattr(cls, k, v)


_more(Engine)


def depends(e):
    """does an initialiser refer to variables of the function or its object"""
    stack = [e]
    while stack:
        x = stack.pop()
        if isinstance(x, list):
            if x and x[0] in ("var", "this", "lambda"):
                return True
            stack.extend(x)
        elif isinstance(x, dict):
            stack.extend(x.values())
    return False


ENDS = {"outgoing": "from", "candidate_outgoing": "from", "incoming": "to", "candidate_incoming": "to"}


def endpoint(path):
    """the edges listed at a vertex start (end) at the vertex: every function that extends the lists is compared, and keeps it so in the reference"""
    if len(path) < 3 or path[-1] not in ("from", "to") or path[-3] != "edges_" or not isinstance(path[-2], tuple) or path[-2][0] != "[":
        return None
    x = path[-2][1]
    if not isinstance(x, Term) or x.op != "ld":
        return None
    q = x.args[0]
    if len(q) < 4 or q[-4] != "vertices_" or not isinstance(q[-2], str) or ENDS.get(q[-2]) != path[-1]:
        return None
    if not all(isinstance(z, tuple) and z[0] == "[" and isinstance(z[1], Term) for z in (q[-3], q[-1])):
        return None
    return q[-3][1]


class Throw:
    def __init__(self, o):
        self.o = o


class LoopPath:
    __slots__ = ("lits", "outcome", "events", "writes", "store", "state")

    def __init__(self, lits, outcome, events, writes, store, state):
        self.lits, self.outcome, self.events, self.writes, self.store, self.state = lits, outcome, events, writes, store, state


class LoopRec:
    __slots__ = ("lid", "count", "table", "M", "ind", "init", "loc", "entry", "post", "head", "sums")

    def __init__(self, lid, count, table, M, ind, init, loc):
        self.lid, self.count, self.table, self.M, self.ind, self.init, self.loc = lid, count, table, M, ind, init, loc
        self.post = False
        self.sums = {}


class FnPath:
    __slots__ = ("lits", "outcome", "events", "state", "store")

    def __init__(self, lits, outcome, events, state, store):
        self.lits, self.outcome, self.events, self.state, self.store = lits, outcome, events, state, store


def split_targs(t):
    i = t.find("<")
    if i < 0:
        return []
    body = t[i + 1: t.rfind(">")]
    out, d, cur = [], 0, ""
    for ch in body:
        if ch == "<":
            d += 1
        elif ch == ">":
            d -= 1
        if ch == "," and d == 0:
            out.append(cur)
            cur = ""
        else:
            cur += ch
    if cur:
        out.append(cur)
    return out

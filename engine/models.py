"""Transfer functions for calls: library models, boundaries and inlining."""
from terms import *  # noqa
import terms as TM
from interp import *  # noqa
from interp import Throw, Undecided, P, split_targs, rec_base, strip_type, ite, EMPTYBAG, UNDEF, is_ptr


# ------------------------------------------------------------------ helpers
def purecall(name, obj, args, ep=None):
    return T("call", name, obj, tuple(args), ep)


def event(st, name, obj, args, bump=True, res=True):
    n = sum(1 for e in st.events if e[0] == "ev" and e[1] == name)
    st.events = st.events + (("ev", name, obj, tuple(args), None),)
    lid = T("loop", *[K(i) for i in st.loopctx])
    r = T("res", name, K(n), lid)
    if bump:
        st.ep = add(st.ep, K(1))
    return r


def tag_line(st, line):
    e = st.events[-1]
    st.events = st.events[:-1] + (e[:4] + (line,),)


def canon_arg(E, st, a):
    """value of an argument as it is visible to the callee"""
    if a[0] == "v":
        v = a[1]
        if v.op == "&":
            return ptr_arg(E, st, v, a[2] if len(a) > 2 else None)
        return v
    ty = a[2]
    isconst = strip_ref(ty).startswith("c:") or ty.startswith("&&")
    ty2 = strip_type(ty)
    p = a[1]
    loc = islocal_path(p)
    if E.is_container(ty2):
        if isconst or loc:
            return E.content(st, p, ty2)
        return P(p)
    if loc or isconst:
        if ty2 == "?":
            return P(p)
        try:
            v = E.rvpath(st, p, ty2)
        except Undecided:
            if not loc or isconst or not ty2.startswith("R:") or E.is_agg(ty2):
                raise
            return ptr_arg(E, st, P(p), "*" + ty2)
        if v.op == "&":
            return ptr_arg(E, st, v)
        return v
    return P(p)


def ptr_arg(E, st, v, typ=None):
    p = v.args[0]
    if islocal_path(p):
        pt = strip_type(typ[1:]) if typ and typ.startswith("*") else ""
        if len(p) == 1 and pt.startswith("R:") and not E.known_container(p):
            try:
                if E.is_agg(pt):
                    return T("lref", E.rvpath(st, p, pt))
                if not E.is_container(pt):
                    # record of a library: the members set here
                    fs = {}
                    for q, _ in st.mem.get(p[0], ()):
                        if len(q) == 2 and isinstance(q[1], str):
                            fs[q[1]] = E.peek(st, q)
                    if fs and all(v is not None for v in fs.values()):
                        return T("lref", T("st", pt, tuple(sorted(fs.items()))))
            except Undecided:
                pass
            return T("lref")
        if len(p) == 1 and not E.known_container(p):
            x = E.peek(st, p)
            if x is None:
                return T("lref")
            return T("lref", x) if x.op not in ("undef",) else T("lref")
        return T("lref")
    return v


def islocal_path(p):
    r = p[0]
    return isinstance(r, tuple) and r[0] in ("L", "C")


def strip_ref(t):
    return t.lstrip("&")


def clo_term(E, st, clo, nargs):
    """a closure as a term over symbolic arguments (pure closures only)"""
    depth = E.clodepth
    E.clodepth += 1
    try:
        x = st.clone()
        x.events = ()
        x.lits = ()
        x.wlog = ()
        nl0, cl0 = x.nl, dict(x.cl)
        av = []
        f = E.closure_params(clo)
        for i in range(nargs):
            v = T("sym", "a%d_%d" % (depth, i))
            t = f[i] if i < len(f) else "?"
            E.note_type(v, t)
            if t.startswith("&"):
                p = (("A", depth, i),)
                x.mem[p[0]] = ((p, v),) if not E.is_agg(t) else ()
                av.append(("p", p, t))
            else:
                av.append(("v", v, t))
        res = E.call_closure(x, clo, av)
        out = []
        for s, v in res:
            if s.events or isinstance(v, tuple):
                return None
            if any(E.pre_existing(p, nl0, cl0) for p in s.wlog):
                return None
            out.append((s.lits, v if v is not None else UNDEF))
        return fold_paths(out)
    except Undecided:
        return None
    finally:
        E.clodepth -= 1


def fold_paths(paths, i=0):
    if len(paths) == 1 and len(paths[0][0]) <= i:
        return paths[0][1]
    u = None
    for l, _ in paths:
        if len(l) > i:
            u = l[i][0]
            break
    if u is None:
        return paths[0][1]
    a = [(l, v) for l, v in paths if len(l) <= i or l[i] == (u, True)]
    b = [(l, v) for l, v in paths if len(l) > i and l[i] == (u, False)]
    if len(a) + len(b) != len(paths):
        raise Undecided("closure paths")
    if not b:
        return fold_paths(a, i + 1)
    if not a:
        return fold_paths(b, i + 1)
    return ite(u, fold_paths(a, i + 1), fold_paths(b, i + 1))


def clo_value(E, st, v, ptypes="?"):
    if v.op == "clo":
        n = len(E.closure_params(v))
        t = clo_term(E, st, v, n)
        return T("lam", K(n), t) if t is not None else T("lam", K(n))
    return v


# ------------------------------------------------------------------ dispatch
def split_call(e):
    """(info, obj expr | None, arrow, args, loc, type)"""
    k = e[0]
    if k == "mcall":
        return e[1], e[2], e[3], e[4], e[5], e[6]
    if k == "call":
        return e[1], None, False, e[2], e[3], e[4]
    if k == "opcall":
        info, args = e[2], e[3]
        if info.get("method"):
            return info, args[0], False, args[1:], e[4], e[5]
        return info, None, False, args, e[4], e[5]
    raise Undecided("call kind")


def call(E, e, st):
    if e[0] == "icall":
        return icall(E, e, st)
    info, obj, arrow, args, loc, typ = split_call(e)
    E.at(loc)
    name = info["name"]
    f = E.prog.functions.get(info["key"])
    m = FREE.get(name) if obj is None else None
    if m is not None and not (name in E.boundaries):
        return m(E, e, st, info, obj, arrow, args, loc)
    if f is not None or info.get("repo"):
        return repo_call(E, e, st, info, f, obj, arrow, args, loc)
    cls = (info.get("cls") or "")
    base = rec_base(cls) if cls else None
    short = name.split("::")[-1] if not name.endswith("(conv)") else "(conv)"
    if "operator" in name:
        short = "operator" + name.split("operator")[-1]
    if obj is not None:
        m = METHODS.get(base)
        if m is not None:
            h = m.get(short) or m.get("*")
            if h is not None:
                return h(E, e, st, info, obj, arrow, args, loc)
    if obj is None and short in OPS:
        return OPS[short](E, e, st, info, obj, arrow, args, loc)
    return ext_call(E, e, st, info, obj, arrow, args, loc)


def objpaths(E, st, obj, arrow):
    if arrow:
        return E.ptr(obj, st)
    t = obj[2] if obj[0] == "tmp" else "?"
    return E.lv_or_tmp(obj, st, t)


def with_obj(E, st, obj, arrow, args, ptypes):
    """list of (state, objpath|None, [Arg]) plus throws"""
    out, thr = [], []
    if obj is None:
        cur, done = E.eval_args(args, ptypes, st)
        return [(s, None, a) for s, a in cur], done
    for s, p in objpaths(E, st, obj, arrow):
        if isinstance(p, Throw):
            thr.append((s, p.o))
            continue
        cur, done = E.eval_args(args, ptypes, s)
        thr.extend(done)
        out.extend((s2, p, a) for s2, a in cur)
    return out, thr


def repo_call(E, e, st, info, f, obj, arrow, args, loc):
    name = info["name"]
    b = E.boundary(info, f)
    cur, out = with_obj(E, st, obj, arrow, args, info["ptypes"])
    for s, p, av in cur:
        if p is not None and name.endswith("operator()"):
            v = E.rvpath(s, p, info.get("cls") or "?")
            if v is not None and v.op == "clo":
                out.extend(E.call_closure(s, v, av))
                continue
        if b is None:
            if f is None or f.get("body") is None:
                if (info["name"].endswith("operator=") or f is not None and f.get("implicit")) and p is not None and len(av) == 1:
                    v = av[0][1] if av[0][0] == "v" else E.rvpath(s, av[0][1], strip_type(info["ptypes"][0]))
                    E.write(s, p, v)
                    out.append((s, P(p)))
                    continue
                b = {}
            else:
                out.extend(E.inline(f, p, av, s))
                continue
        out.extend(boundary(E, s, info, f, p, av, b, loc))
    return out


def targs_of(c):
    i = (c or "").find("<")
    return c[i + 1:-1] if i >= 0 else ""


def idle(E, s, f, p, av):
    """a call that is seen to do nothing"""
    x = s.clone()
    n = E.npaths
    E.idling += 1
    try:
        r = E.inline(f, p, av, x)
    except Undecided:
        r = []
    finally:
        E.idling -= 1
    E.npaths = n
    if len(r) != 1 or r[0][1] is not None:
        return None
    y = r[0][0]
    if y.events != s.events or y.lits != s.lits or any(not islocal_path(w) for w in y.wlog[len(s.wlog):]):
        return None
    return r


def boundary(E, s, info, f, p, av, b, loc):
    name = info["name"]
    short = name.split("::")[-1]
    ov = None
    if p is not None:
        cls = info.get("cls")
        if b.get("pure") and not E.is_agg(cls or "?"):
            ov = E.rvpath(s, p, cls or "?")
        else:
            ov = P(p) if not islocal_path(p) else T("lref")
    vals, clos = [], []
    for i, a in enumerate(av):
        v = canon_arg(E, s, a)
        if v.op == "clo":
            c = v
            v = clo_value(E, s, v)
            if len(v.args) == 1:
                clos.append(c)
        if v.op == "lref" and v.args and f is not None and outonly(E, f, i):
            v = T("lref")
        vals.append(v)
    ret = info["ret"]
    if b.get("idle"):
        r = idle(E, s, f, p, av)
        if r is not None:
            return r
    if b.get("pure"):
        ep = None
        if b.get("state"):
            ep = E.state_token(s, p, info, f)
        r = purecall(short, ov if b.get("obj", True) else None, vals, ep)
        E.note_type(r, ret)
        return [(s, E.wrap_ptr(r, ret))]
    tag = [x for x in (targs_of(info.get("cls")), info.get("targs")) if x]
    vis = visible(E, info, f, p, av)
    pre = s.clone() if vis else None
    r = event(s, name + ("<" + ";".join(tag) + ">" if tag else ""), ov, vals, bump=b.get("bump", True))
    tag_line(s, loc)
    if vis:
        s.events = s.events[:-1] + (s.events[-1] + (pre, vis),)
    # effects
    tok = T("hv", T("after", r))
    if p is not None and not info.get("const"):
        for fld in sorted(E.mods(info, f), key=str):
            E.havoc_at(s, p + fld, tok)
    for i, a in enumerate(av):
        if a[0] == "p":
            pt = a[2]
            if strip_ref(pt).startswith("c:") or pt.startswith("&&"):
                continue
            if (rec_base(pt) or "").startswith("Clingo::"):
                continue
            if f is not None and f.get("body") is not None and i < len(f["params"]):
                if not E.prog.param_modified(f, i):
                    for fld in E.reach(pt, E.prog.mods(f["key"])):
                        E.havoc_at(s, a[1] + fld, tok)
                    continue
            if islocal_path(a[1]):
                E.write_any(s, a[1], T("outp", r, K(i)))
            else:
                E.write(s, a[1], tok)
        elif a[1].op == "&" and a[2].startswith("*") and not a[2].startswith("*c:"):
            q = a[1].args[0]
            if islocal_path(q):
                E.write_any(s, q, T("outp", r, K(i)))
    if b.get("throws"):
        # success or exception
        c = T("thr", r)
        BOOL.add(c)
        out = []
        for s2, t in E.branch(s, c):
            out.append((s2, ("t", "any")) if t else (s2, ret_value(E, r, ret)))
        return out
    return called_back(E, [(s, ret_value(E, r, ret))], r, clos, loc)


def called_back(E, res, r, clos, loc):
    """closures with effects handed to a function that is not followed: called any number of times"""
    for k, c in enumerate(clos):
        nxt = []
        for s, v in res:
            if isinstance(v, tuple):
                nxt.append((s, v))
                continue
            pts = E.closure_params(c)

            def again(x):
                t = T("t", T("loop", *[K(i) for i in x.loopctx]))
                q = T("call", "again", K(k), (r, t), None)
                BOOL.add(q)
                return E.branch(x, q)

            def body(x):
                t = T("t", T("loop", *[K(i) for i in x.loopctx]))
                av = []
                for i, pt in enumerate(pts):
                    a = T("call", "given", K(k), (r, t, K(i)), None)
                    if pt.startswith("&"):
                        av.append(("p", (("*", a),), pt))
                    else:
                        E.note_type(a, pt)
                        av.append(("v", E.wrap_ptr(a, pt), pt))
                out = []
                for y, w in E.call_closure(x, c, av):
                    if isinstance(w, tuple):
                        out.append((y, w))
                        continue
                    if w is not None:
                        if w.op not in ("opaque", "undef"):
                            event(y, "closure result", None, [w], bump=False)
                            tag_line(y, loc)
                    out.append((y, ("n",)))
                return out

            for x, o in E.loop(s, again, body, None, loc):
                nxt.append((x, v if o[0] == "n" else o))
        res = nxt
    return res


def outonly(E, f, i):
    """a free function that overwrites the object its i-th parameter points to before looking at it"""
    memo = E.prog.__dict__.setdefault("_outonly", {})
    k = (f["key"], i)
    if k in memo:
        return memo[k]
    memo[k] = False
    if f.get("cls") or f.get("body") is None or i >= len(f["params"]) or not f["params"][i]["type"].startswith("*"):
        return False
    from interp import Engine
    sub = Engine(E.prog)
    sub.boundaries = E.boundaries
    root = ("*", T("sym", "p%d" % i))
    try:
        ps = sub.summarise(f, "free")
    except (Undecided, RecursionError):
        return False
    bad, seen = set(), set()

    def look(x):
        collect(x, lambda t: t.op == "ld" and t.args[1] is None and t.args[0] and t.args[0][0] == root, bad, seen)

    def loops(evs):
        for e in evs:
            if e[0] == "loop":
                r = e[1]
                for v in r.init.values():
                    look(v)
                for q in r.table:
                    look(tuple(u for u, _ in q.lits))
                    look(tuple(v for _, v in q.writes))
                    look(tuple(x for x in q.outcome if isinstance(x, Term)))
                    loops(q.events)
            else:
                look(tuple(x for x in e[2:4]))

    for q in ps:
        if not any(w == (root,) or w == (root, ("[", K(0))) for w in q.state.wlog):
            return False
        look(tuple(u for u, _ in q.lits))
        look(tuple(x for x in q.outcome if isinstance(x, Term)))
        loops(q.events)
    memo[k] = not bad
    return memo[k]


def visible(E, info, f, p, av):
    """locations a boundary callee may read or write"""
    if f is None or f.get("body") is None:
        return ()
    acc = E.prog.reads(f["key"])
    out = []
    if p is not None and not islocal_path(p):
        out.extend(p + x for x in E.reach(info["cls"], acc, fine=True))
    for a in av:
        if a[0] == "p" and not islocal_path(a[1]) and not (rec_base(a[2]) or "").startswith("Clingo::"):
            out.extend(a[1] + x for x in E.reach(a[2], acc, fine=True))
    return tuple(sorted(set(out), key=str))


def ret_value(E, r, ret):
    if ret == "void":
        return None
    E.note_type(r, ret)
    if ret.startswith("&"):
        return P((("*", r),))
    return E.wrap_ptr(r, ret)


def icall(E, e, st):
    out = []
    _, callee, args, loc, typ = e[:5]
    E.at(loc)
    for s, v in E.rv(callee, st):
        if isinstance(v, tuple):
            out.append((s, v))
            continue
        info = E.fninfo.get(v.args[0]) if v.op == "fnref" else None
        if info is not None and len(info["ptypes"]) == len(args):
            cur, done = E.eval_args(args, info["ptypes"], s)
        else:
            cur, done = E.eval_args(args, [], s, by_value=True)
        out.extend(done)
        for s2, av in cur:
            out.extend(call_value(E, s2, v, av, typ, loc))
    return out


def call_value(E, s, v, av, typ, loc):
    if v.op == "clo":
        return E.call_closure(s, v, av)
    if v.op == "fnref":
        f = E.prog.functions.get(v.args[0])
        info = E.fninfo.get(v.args[0])
        if info is not None and info.get("repo") and not info.get("method"):
            b = E.boundary(info, f)
            if b is not None:
                return boundary(E, s, info, f, None, av, b, loc)
        if f is not None and f["body"] is not None and f["key"] not in E.boundaries and f["name"] not in E.boundaries:
            return E.inline(f, None, av, s)
        r = event(s, v.args[1], None, [canon_arg(E, s, a) for a in av])
        tag_line(s, loc)
        return [(s, ret_value(E, r, typ))]
    if v.op in ("opaque", "undef"):
        raise Undecided("indirect call")
    r = event(s, "indirect", v, [canon_arg(E, s, a) for a in av])
    tag_line(s, loc)
    return [(s, ret_value(E, r, typ))]


EPOCH = {"is_true", "is_false", "truth_value", "level", "decision_level", "is_total", "is_fixed", "has_conflict", "is_consistent",
         "is_undefined", "size", "trail", "value"}
NOBUMP = {"add_watch", "remove_watch", "extend", "clingo_set_error", "freeze_literal"}


def ext_call(E, e, st, info, obj, arrow, args, loc):
    name, cls = info["name"], info.get("cls") or ""
    base = rec_base(cls) or ""
    short = name.split("::")[-1]
    ret = info["ret"]
    cur, out = with_obj(E, st, obj, arrow, args, info["ptypes"])
    for s, p, av in cur:
        ov = None
        if p is not None:
            ov = E.rvpath(s, p, cls)
            if ov.op in ("opaque", "undef"):
                raise Undecided("call on %s" % ov.op)
        vals, clos = [], []
        for a in av:
            v = canon_arg(E, s, a)
            if v.op == "clo":
                c = v
                v = clo_value(E, s, v)
                if len(v.args) == 1:
                    clos.append(c)
            vals.append(v)
        if base.startswith("std::") or name.startswith("std::"):
            if not (info.get("const") or name in PUREFREE):
                raise Undecided("library call %s" % name)
        if (obj is not None and (info.get("const") or base == "Clingo::Optional" and short in ("operator->", "operator*", "get"))) or name in PUREFREE or name.startswith(PUREPREFIX):
            ep = s.ep if base == "Clingo::Assignment" and short in EPOCH else None
            fn = short
            if base == "Clingo::Assignment" and short in ("is_true", "is_false") and len(vals) == 1:
                c, d = TM._poly(vals[0])
                if c == 0 and len(d) == 1 and next(iter(d.values())) == -1:
                    # a literal is true if its complement is false
                    fn, vals = ("is_false" if short == "is_true" else "is_true"), [neg(vals[0])]
            if base == "Clingo::AST::Node" and short == "get" and "Vector" not in ret:
                sets = [e for e in s.events if e[0] == "ev" and e[1] == "set" and e[2] is ov and e[3][0] is vals[0]]
                if sets:
                    ep = K(len(sets))
                elif not any(e[0] == "loop" for e in s.events):
                    # a copy has the attributes of the original
                    while ov.op == "call" and ov.args[0] == "copy" and not any(e[0] == "ev" and e[1] == "set" and e[2] is ov.args[1] for e in s.events):
                        ov = ov.args[1]
            r = purecall(fn, ov, vals, ep)
            if ret in ("u64", "u32", "u16", "u8"):
                NONNEG.add(r)
            E.note_type(r, ret)
            if rec_base(ret) in ("std::vector",) and ret[:1] not in "&*":
                FRESH.add(r)
            out.append((s, (P((("*", r),)) if ret.startswith("&") and not ret.startswith("&c:*") else E.wrap_ptr(r, ret)) if ret != "void" else None))
            continue
        r = event(s, name if obj is None else short, ov, vals, bump=short not in NOBUMP)
        tag_line(s, loc)
        for i, a in enumerate(av):
            if a[0] == "v" and a[1].op == "&" and a[2].startswith("*") and not a[2].startswith("*c:"):
                q = a[1].args[0]
                if islocal_path(q):
                    E.write_any(s, q, T("outp", r, K(i)))
                elif i < len(info["ptypes"]) and strip_type(info["ptypes"][i][1:])[:1] in "uifb":
                    E.write(s, q, T("outp", r, K(i)))
        out.extend(called_back(E, [(s, ret_value(E, r, ret))], r, clos, loc))
    return out


PUREFREE = {"Clingo::Number", "Clingo::String", "Clingo::Function", "Clingo::add_string", "tolower", "std::tolower", "toupper", "pow", "std::pow", "fmod",
            "std::fmod", "std::to_string", "std::stod", "std::abs", "abs", "isspace", "std::isspace", "isdigit", "std::isdigit",
            "std::chrono::duration::zero", "Clingo::parse_term", "Clingo::Id", "Clingo::Infimum", "Clingo::Supremum", "strtol", "floor", "ceil", "std::floor",
            "std::locale::classic", "std::chrono::steady_clock::now", "std::numeric_limits::max", "std::numeric_limits::min", "std::numeric_limits::lowest"}
PUREPREFIX = ("Clingo::AST::operator", "Clingo::operator==", "Clingo::operator!=", "Clingo::operator<", "Clingo::operator>")


# ------------------------------------------------------------------ free functions
FREE = {}
OPS = {}
METHODS = {}
CTORS = {}


def free(*names):
    def d(f):
        for n in names:
            FREE[n] = f
        return f
    return d


def op(*names):
    def d(f):
        for n in names:
            OPS[n] = f
        return f
    return d


def method(cls, *names):
    def d(f):
        for c in cls if isinstance(cls, (tuple, list)) else (cls,):
            for n in names:
                METHODS.setdefault(c, {})[n] = f
        return f
    return d


def ctor(*names):
    def d(f):
        for n in names:
            CTORS[n] = f
        return f
    return d


def vals_of(E, st, args, ptypes):
    """evaluate args to rvalues"""
    cur, done = E.eval_args(args, ptypes, st)
    return [(s, [E.argval(s, a) for a in av], av) for s, av in cur], done


@free("std::move", "std::forward", "std::as_const", "std::ref", "std::cref")
def _move(E, e, st, info, obj, arrow, args, loc):
    return [(s, p.o if isinstance(p, Throw) else P(p)) for s, p in E.lv_or_tmp(args[0], st, info["ptypes"][0])]


@free("ClingoDL::numeric_cast", "(anonymous namespace)::numeric_cast", "numeric_cast")
def _numcast(E, e, st, info, obj, arrow, args, loc):
    return E.rv(args[0], st)


@free("Clingo::Detail::handle_error")
def _handle_error(E, e, st, info, obj, arrow, args, loc):
    out = []
    for s, b in E.cond(args[0], st) if info["ptypes"][0] == "b1" else []:
        if isinstance(b, tuple):
            out.append((s, b))
        elif b:
            out.append((s, None))
        else:
            out.append((s, ("t", "R:clingo error")))
    if not out:
        raise Undecided("handle_error")
    return out


@free("Clingo::Detail::handle_cxx_error")
def _hce(E, e, st, info, obj, arrow, args, loc):
    event(st, "handle_cxx_error", None, (), bump=False)
    tag_line(st, loc)
    return [(st, None)]


@free("std::make_pair", "std::make_tuple", "std::pair", "std::forward_as_tuple")
def _mkpair(E, e, st, info, obj, arrow, args, loc):
    names = ("first", "second") if info["name"] == "std::make_pair" else ["e%d" % i for i in range(len(args))]
    cur, done = vals_of(E, st, args, info["ptypes"])
    return done + [(s, T("st", strip_type(info["ret"]), tuple(zip(names, vs)))) for s, vs, _ in cur]


@free("std::tie")
def _tie(E, e, st, info, obj, arrow, args, loc):
    cur, done = E.eval_args(args, info["ptypes"], st)
    return done + [(s, T("st", strip_type(info["ret"]), tuple(("e%d" % i, P(a[1])) for i, a in enumerate(av)))) for s, av in cur]


@free("std::get")
def _get(E, e, st, info, obj, arrow, args, loc):
    out = []
    ix = info["targs"][0] if info.get("targs") else None
    try:
        i = int(ix)
    except (TypeError, ValueError):
        raise Undecided("std::get by type")
    b = rec_base(info["ptypes"][0])
    fld = ("first", "second")[i] if b == "std::pair" else "e%d" % i
    for s, p in E.lv_or_tmp(args[0], st, info["ptypes"][0]):
        out.append((s, p.o if isinstance(p, Throw) else P(E.refpart(s, p, strip_type(info["ptypes"][0]), i, fld, True))))
    return out


@free("std::max", "std::min")
def _max(E, e, st, info, obj, arrow, args, loc):
    if len(args) != 2:
        raise Undecided("std::max")
    mx = info["name"] == "std::max"
    isint = not strip_type(info["ptypes"][0]).startswith("f")
    cur, done = vals_of(E, st, args, info["ptypes"])
    out = list(done)
    for s, (a, b), av in cur:
        c = lt(a, b, isint) if mx else lt(b, a, isint)
        for s2, t in E.branch(s, c):
            v = b if t else a
            p = E.alloc(s2, "i32")
            E.write(s2, p, v)
            out.append((s2, P(p)))
    return out


@free("std::swap", "std::iter_swap")
def _swap(E, e, st, info, obj, arrow, args, loc):
    cur, done = E.eval_args(args, info["ptypes"], st)
    out = list(done)
    for s, av in cur:
        if info["name"] == "std::iter_swap":
            p, q = E.deref(av[0][1]), E.deref(av[1][1])
            ty = "?"
        else:
            p, q = av[0][1], av[1][1]
            ty = strip_type(info["ptypes"][0])
        if E.is_container(ty):
            raise Undecided("container swap")
        a, b = E.load_value(s, p, ty), E.load_value(s, q, ty)
        E.write(s, p, b)
        E.write(s, q, a)
        out.append((s, None))
    return out


@free("std::exchange")
def _exchange(E, e, st, info, obj, arrow, args, loc):
    cur, done = vals_of(E, st, args, info["ptypes"])
    out = list(done)
    for s, vs, av in cur:
        E.write(s, av[0][1], vs[1])
        out.append((s, vs[0]))
    return out


@free("std::abs", "abs")
def _abs(E, e, st, info, obj, arrow, args, loc):
    out = []
    for s, v in E.rv(args[0], st):
        if isinstance(v, tuple):
            out.append((s, v))
            continue
        for s2, b in E.branch(s, lt(v, K(0), not info["ret"].startswith("f"))):
            out.append((s2, neg(v) if b else v))
    return out


@free("strcmp", "std::strcmp")
def _strcmp(E, e, st, info, obj, arrow, args, loc):
    cur, done = vals_of(E, st, args, info["ptypes"])
    return done + [(s, T("strcmp", E.cstr(a), E.cstr(b))) for s, (a, b), _ in cur]


@free("strlen", "std::strlen")
def _strlen(E, e, st, info, obj, arrow, args, loc):
    cur, done = vals_of(E, st, args, info["ptypes"])
    out = list(done)
    for s, (a,), _ in cur:
        a = E.cstr(a)
        if a.op == "s":
            out.append((s, K(len(a.args[0]))))
        else:
            r = purecall("strlen", None, (a,))
            NONNEG.add(r)
            out.append((s, r))
    return out


@free("strncmp", "std::strncmp")
def _strncmp(E, e, st, info, obj, arrow, args, loc):
    cur, done = vals_of(E, st, args, info["ptypes"])
    out = list(done)
    for s, (a, b, n), _ in cur:
        a, b = E.cstr(a), E.cstr(b)
        x, y = (b, a) if a.op == "s" else (a, b)
        if y.op == "s" and is_const(n) and 0 < n.args[0] <= min(4, len(y.args[0])):
            q = E.wrap_ptr(x, "*i8").args[0]
            cur = [s]
            for i in range(int(n.args[0])):
                nxt = []
                for z in cur:
                    for w, c in E.branch(z, eq(E.read(z, q[:-1] + (("[", add(q[-1][1], K(i))),)), K(ord(y.args[0][i])))):
                        if c:
                            nxt.append(w)
                        else:
                            r = purecall("strncmp", None, (x, y, n))
                            w.store.assume(eq(r, K(0)), False)
                            out.append((w, r))
                cur = nxt
            out.extend((z, K(0)) for z in cur)
            continue
        out.append((s, purecall("strncmp", None, (a, b, n))))
    return out


@free("strtod", "std::strtod")
def _strtod(E, e, st, info, obj, arrow, args, loc):
    cur, done = E.eval_args(args, info["ptypes"], st)
    out = list(done)
    for s, av in cur:
        a = E.cstr(av[0][1])
        if av[1][1].op == "&":
            q = av[1][1].args[0]
            E.write(s, q, P((("*", T("call", "strtod_end", None, (a,), None)), ("[", K(0)))))
        out.append((s, purecall("strtod", None, (a,))))
    return out


@free("std::make_unique")
def _mkuniq(E, e, st, info, obj, arrow, args, loc):
    cur, done = E.eval_args(args, info["ptypes"], st)
    out = list(done)
    ty = split_targs(strip_type(info["ret"]))[0]
    cs = [f for f in E.prog.functions.values() if f.get("cls") == ty and f["name"].endswith("(ctor)") and len(f["params"]) == len(args) and f.get("body") is not None]
    for s, av in cur:
        if len(cs) == 1:
            av = [a if a[0] == "v" else (a[0], a[1], f["type"]) for a, f in zip(av, cs[0]["params"])]
        r = event(s, "make_unique", None, [S(ty)] + [canon_arg(E, s, a) for a in av], bump=True)
        tag_line(s, loc)
        out.append((s, P((("*", r),))))
    return out


def construct_new(E, e, st):
    """object of a class of the library on the heap"""
    info = e[2][2]
    cur, done = E.eval_args(e[2][3], info["ptypes"], st)
    out = list(done)
    for s, av in cur:
        r = event(s, "make_unique", None, [S(strip_type(e[1]))] + [canon_arg(E, s, a) for a in av], bump=True)
        tag_line(s, e[2][4])
        out.append((s, P((("*", r),))))
    return out


# ---- algorithms
def rng(E, a, b):
    """(index -> path, lo, hi) of an iterator range over a sequence"""
    if a.op == "&" and b.op == "&" and a.args[0][:-1] == b.args[0][:-1] and isinstance(a.args[0][-1], tuple) and a.args[0][-1][0] == "[":
        base = a.args[0][:-1]
        lo, hi = a.args[0][-1][1], b.args[0][-1][1]
        return (lambda i: base + (("[", add(lo, i)),)), sub(hi, lo), base, lo
    if a.op == "xit" and b.op == "xit" and a.args[0] is b.args[0]:
        v = a.args[0]
        lo = a.args[1]
        return (lambda i: (("*", purecall("at", v, (add(lo, i),))),)), sub(b.args[1], lo), None, lo
    if a.op == "rit" and b.op == "rit" and a.args[0] == b.args[0]:
        base = a.args[0]
        return (lambda i: base + (("[", sub(a.args[1], i)),)), sub(a.args[1], b.args[1]), None, None
    raise Undecided("iterator range")


def elemtype(E, info, i=0):
    t = strip_type(info["ptypes"][i])
    a = split_targs(t)
    if rec_base(t) == "__gnu_cxx::__normal_iterator" and a:
        return strip_type(a[0][1:])
    if t.startswith("*"):
        return strip_type(t[1:])
    return "?"


def counted_loop(E, s, n, body, loc):
    """for (i = 0; i < n; ++i) body(state, i)"""
    ctr = (("L", s.nl + 1),)
    s.nl += 1
    E.write(s, ctr, K(0))

    def c(x):
        return E.branch(x, lt(E.read(x, ctr), n, True))

    def inc(x):
        E.write(x, ctr, add(E.read(x, ctr), K(1)))
        return [(x, None)]

    return E.loop(s, c, lambda x: body(x, E.read(x, ctr)), inc, loc)


def apply_pred(E, s, f, path, ety, loc):
    pts = E.closure_params(f) if f.op == "clo" else ["&c:" + ety]
    res = call_value(E, s, f, [("p", path, pts[0] if pts else "&" + ety)], "b1", loc)
    out = []
    for x, v in res:
        if isinstance(v, tuple):
            out.append((x, v))
        else:
            out.extend(E.branch(x, E.truth(x, v)))
    return out


@free("std::remove_if", "std::partition", "std::stable_partition")
def _remove_if(E, e, st, info, obj, arrow, args, loc):
    if info["name"] != "std::remove_if":
        raise Undecided(info["name"])
    cur, done = E.eval_args(args, info["ptypes"], st)
    out = list(done)
    ety = elemtype(E, info)
    for s, av in cur:
        a, b, f = av[0][1], av[1][1], av[2][1] if av[2][0] == "v" else E.read(s, av[2][1])
        at, n, base, lo = rng(E, a, b)
        j = (("L", s.nl + 1),)
        s.nl += 1
        E.write(s, j, K(0))

        def body(x, i):
            r = []
            for y, t in apply_pred(E, x, f, at(i), ety, loc):
                if isinstance(t, tuple):
                    r.append((y, t))
                    continue
                if not t:
                    jv = E.read(y, j)
                    E.write(y, at(jv), E.load_value(y, at(i), ety))
                    E.write(y, j, add(jv, K(1)))
                r.append((y, ("n",)))
            return r

        for s2, o in counted_loop(E, s, n, body, loc):
            if o[0] == "t":
                out.append((s2, o))
            else:
                out.append((s2, P(at(E.read(s2, j)))))
    return out


@free("std::any_of", "std::all_of", "std::none_of", "std::find_if", "std::find_if_not", "std::find", "std::for_each", "std::count_if")
def _algo(E, e, st, info, obj, arrow, args, loc):
    kind = info["name"][5:]
    cur, done = E.eval_args(args, info["ptypes"], st)
    out = list(done)
    ety = elemtype(E, info)
    for s, av in cur:
        f = av[2][1] if av[2][0] == "v" else E.read(s, av[2][1])
        at, n, base, lo = rng(E, av[0][1], av[1][1])
        cnt = None
        if kind == "count_if":
            cnt = (("L", s.nl + 1),)
            s.nl += 1
            E.write(s, cnt, K(0))
        res = (("L", s.nl + 1),)
        s.nl += 1

        def body(x, i):
            r = []
            if kind == "find":
                tests = E.branch(x, eq(E.rvpath(x, at(i), ety), f))
            elif kind == "for_each":
                pts = E.closure_params(f) if f.op == "clo" else ["&" + ety]
                for y, v in call_value(E, x, f, [("p", at(i), pts[0])], "void", loc):
                    r.append((y, v if isinstance(v, tuple) else ("n",)))
                return r
            else:
                tests = apply_pred(E, x, f, at(i), ety, loc)
            for y, t in tests:
                if isinstance(t, tuple):
                    r.append((y, t))
                    continue
                if kind == "count_if":
                    if t:
                        E.write(y, cnt, add(E.read(y, cnt), K(1)))
                    r.append((y, ("n",)))
                    continue
                stop = t if kind in ("any_of", "none_of", "find_if", "find") else not t
                if stop:
                    r.append((y, ("b", i)))
                else:
                    r.append((y, ("n",)))
            return r

        for s2, o in counted_loop(E, s, n, body, loc):
            if o[0] == "t":
                out.append((s2, o))
            elif kind in ("any_of",):
                out.append((s2, K(o[0] == "b")))
            elif kind in ("none_of", "all_of"):
                out.append((s2, K(o[0] != "b")))
            elif kind == "for_each":
                out.append((s2, None))
            elif kind == "count_if":
                out.append((s2, E.read(s2, cnt)))
            else:
                out.append((s2, P(at(o[1]))) if o[0] == "b" else (s2, P(at(n))))
    return out


@free("std::transform", "std::copy", "std::copy_if", "std::accumulate")
def _algo_out(E, e, st, info, obj, arrow, args, loc):
    kind = info["name"][5:]
    cur, done = E.eval_args(args, info["ptypes"], st)
    out = list(done)
    ety = elemtype(E, info)
    for s, av in cur:
        if kind == "transform" and len(av) != 4:
            raise Undecided("std::transform")
        at, n, base, lo = rng(E, av[0][1], av[1][1])
        acc = None
        f = None
        if kind in ("transform", "copy_if") or len(av) > 3:
            f = av[3][1] if av[3][0] == "v" else E.read(s, av[3][1])
        if kind == "accumulate":
            acc = (("L", s.nl + 1),)
            s.nl += 1
            E.write(s, acc, E.argval(s, av[2]))
        else:
            dst = E.argval(s, av[2])
            if dst.op not in ("&", "binsert"):
                raise Undecided("std::" + kind)
        pos = None
        if kind == "copy_if" and dst.op == "&":
            pos = (("L", s.nl + 1),)
            s.nl += 1
            E.write(s, pos, K(0))
        oty = strip_type(split_targs(strip_type(info["ptypes"][2]))[0]) if kind != "accumulate" and dst.op == "binsert" else None

        def store(y, i, v):
            if dst.op == "&":
                q = dst.args[0]
                k = i if pos is None else E.read(y, pos)
                store_elem(E, y, q[:-1] + (("[", add(q[-1][1], k)),), v)
                if pos is not None:
                    E.write(y, pos, add(k, K(1)))
                return [(y, ("n",))]
            ty = split_targs(oty)[0]
            q = dst.args[0].args[0]
            r = []
            for z, w in construct_elem(E, y, ty, [("v", v, ty)], {"name": "push_back"}):
                if isinstance(w, tuple) and w[0] == "t":
                    r.append((z, w))
                    continue
                m = E.read(z, q + ("#size",), "u64")
                if E.is_bag(q, oty):
                    E.write(z, q + ("#bag",), bag_add(E.read(z, q + ("#bag",)), w))
                else:
                    store_elem(E, z, q + (("[", m),), w)
                E.write(z, q + ("#size",), add(m, K(1)))
                r.append((z, ("n",)))
            return r

        def body(x, i):
            r = []
            if kind == "copy_if":
                for y, t in apply_pred(E, x, f, at(i), ety, loc):
                    if isinstance(t, tuple):
                        r.append((y, t))
                    elif t:
                        r.extend(store(y, i, E.load_value(y, at(i), ety)))
                    else:
                        r.append((y, ("n",)))
                return r
            if f is None:
                v = E.load_value(x, at(i), ety)
                if kind == "copy":
                    return store(x, i, v)
                E.write(x, acc, E.arith("+", E.read(x, acc), v, info["ret"]))
                return [(x, ("n",))]
            pts = E.closure_params(f) if f.op == "clo" else (E.fninfo.get(f.args[0]) or {}).get("ptypes") if f.op == "fnref" else None
            pts = pts or ["&c:" + ety] * 2
            ps = [("p", at(i), pts[-1])]
            if kind == "accumulate":
                ps.insert(0, ("v", E.read(x, acc), strip_type(pts[0])))
            for y, v in call_value(E, x, f, ps, info["ret"] if kind == "accumulate" else "?", loc):
                if isinstance(v, tuple):
                    r.append((y, v))
                elif kind == "accumulate":
                    E.write(y, acc, v)
                    r.append((y, ("n",)))
                else:
                    r.extend(store(y, i, v))
            return r

        for s2, o in counted_loop(E, s, n, body, loc):
            if o[0] == "t":
                out.append((s2, o))
            elif kind == "accumulate":
                out.append((s2, E.read(s2, acc)))
            elif dst.op == "binsert":
                out.append((s2, dst))
            else:
                q = dst.args[0]
                out.append((s2, P(q[:-1] + (("[", add(q[-1][1], n if pos is None else E.read(s2, pos))),))))
    return out


@free("std::sort", "std::stable_sort")
def _sort(E, e, st, info, obj, arrow, args, loc):
    cur, done = E.eval_args(args, info["ptypes"], st)
    out = list(done)
    ety = elemtype(E, info)
    for s, av in cur:
        at, n, base, lo = rng(E, av[0][1], av[1][1])
        cmp = "default"
        if len(av) > 2:
            f = av[2][1] if av[2][0] == "v" else E.read(s, av[2][1])
            cmp = clo_value(E, s, f)
        if base is None:
            raise Undecided("sort range")
        if E.forks and not E.probing:
            # nothing to sort in an empty range
            r = E.branch(s, lt(K(0), n, True))
            out.extend((x, None) for x, b in r if not b)
            s = next((x for x, b in r if b), None)
            if s is None:
                continue
        cont = T("cont", E.snapshot(s, base)) if islocal_path(base) else P(base)
        r = event(s, "sort", cont, (lo, n, cmp if cmp != "default" else S("default")), bump=False)
        tag_line(s, loc)
        E.write(s, base + (("[", None),), T("hv", T("after", r)))
        out.append((s, None))
    return out


@free("std::begin", "std::cbegin", "std::end", "std::cend", "std::rbegin", "std::rend", "std::size", "std::empty", "std::data")
def _stdbegin(E, e, st, info, obj, arrow, args, loc):
    n = info["name"][5:]
    out = []
    ty = strip_type(info["ptypes"][0])
    for s, p in E.lv_or_tmp(args[0], st, info["ptypes"][0]):
        if isinstance(p, Throw):
            out.append((s, p.o))
            continue
        if rec_base(ty) == "std::vector":
            out.extend(vec_access(E, s, p, n, ty))
        elif ty.startswith("[]"):
            sz = E.read(s, p + ("#size",), "u64")
            out.append((s, P(p + (("[", K(0) if "begin" in n else sz),))))
        else:
            v = E.read(s, p)
            out.append((s, span_access(E, v, n)))
    return out


@free("std::distance")
def _dist(E, e, st, info, obj, arrow, args, loc):
    cur, done = vals_of(E, st, args, info["ptypes"])
    return done + [(s, E.arith("-", b, a, "i64")) for s, (a, b), _ in cur]


@free("std::next", "std::prev")
def _next(E, e, st, info, obj, arrow, args, loc):
    cur, done = vals_of(E, st, args[:1] if len(args) < 2 or args[1][0] == "defarg" else args, info["ptypes"])
    out = list(done)
    for s, vs, _ in cur:
        d = vs[1] if len(vs) > 1 else K(1)
        out.append((s, E.shift(vs[0], d if info["name"].endswith("next") else neg(d))))
    return out


@free("std::back_inserter")
def _binserter(E, e, st, info, obj, arrow, args, loc):
    return [(s, T("binsert", P(p))) for s, p in E.lv_or_tmp(args[0], st, info["ptypes"][0])]


@free("std::to_string")
def _tostring(E, e, st, info, obj, arrow, args, loc):
    return [(s, v if isinstance(v, tuple) else purecall("to_string", None, (v, S(info["ptypes"][0])))) for s, v in E.rv(args[0], st)]


@free("Clingo::parse_term")
def _pterm(E, e, st, info, obj, arrow, args, loc):
    return [(s, v if isinstance(v, tuple) else purecall("parse_term", None, (E.cstr(v),))) for s, v in E.rv(args[0], st)]


# ------------------------------------------------------------------ operators
@op("operator==", "operator!=", "operator<", "operator>", "operator<=", "operator>=")
def _opcmp(E, e, st, info, obj, arrow, args, loc):
    o = info["name"].split("operator")[-1]
    cur, done = E.eval_args(args, info["ptypes"], st)
    out = list(done)
    for s, av in cur:
        a, b = [x[1] if x[0] == "v" else E.rvpath(s, x[1], strip_type(x[2])) for x in av]
        out.extend(cmp_values(E, s, o, a, b, info))
    return out


def cmp_values(E, s, o, a, b, info):
    if a.op == "mit" and b.op == "mit":
        return mit_cmp(E, s, o, a, b)
    if a.op in ("&", "rit", "k", "poly", "ite", "null"):
        out = []
        for s2, x in E.resolve(s, a):
            for s3, y in E.resolve(s2, b):
                out.append((s3, E.compare(o, x, y)))
        return out
    if a.op == "xit" and b.op == "xit":
        if a.args[0] is not b.args[0]:
            raise Undecided("iterators of different sequences")
        return [(s, E.compare(o, a.args[1], b.args[1]))]
    base = rec_base(info["ptypes"][0]) or ""
    if a.op == "st" and b.op == "st" and o in ("==", "!="):
        c = TRUE
        for (f, x), (g, y) in zip(a.args[1], b.args[1]):
            q = eq(x, y)
            c = q if c is TRUE else (c if q is TRUE else T("and", *sorted((c, q), key=lambda z: z.uid)))
        return [(s, c if o == "==" else NOT(c))]
    if base.startswith("std::basic_string") or "i8" in (strip_type(info["ptypes"][0])):
        if o in ("==", "!="):
            r = E.streq(a, b)
            return [(s, r if o == "==" else NOT(r))]
    isint = True
    if base.startswith("Clingo::") or base.startswith("std::chrono"):
        if o in ("==", "!="):
            x, y = (a, b) if a.uid < b.uid else (b, a)
            r = TRUE if x is y else T("same", x, y)
            BOOL.add(r)
            return [(s, r if o == "==" else NOT(r))]
        r = purecall("less", None, (a, b) if o in ("<", ">=") else (b, a))
        BOOL.add(r)
        return [(s, r if o in ("<", ">") else NOT(r))]
    if base.startswith("std::optional") and a.op == "st":
        raise Undecided("optional comparison")
    return [(s, E.compare(o, a, b, isint))]


def mit_cmp(E, s, o, a, b):
    if o not in ("==", "!="):
        raise Undecided("map iterator order")
    if a.args[0] != b.args[0]:
        raise Undecided("iterators of different maps")
    if a.args[1] is b.args[1]:
        r = eq(a.args[2], b.args[2])
        return [(s, r if o == "==" else NOT(r))]
    if a.args[1].op == "end":
        a, b = b, a
    if b.args[1].op != "end":
        raise Undecided("map iterators of different keys")
    base, key, i = a.args[:3]
    cnt = E.read(s, base + (("#cnt", key),), "u64")
    NONNEG.add(cnt)
    out = []
    for s2, inr in E.branch(s, lt(i, cnt, True)):
        if inr:
            if keyed(E, s2, base, key, i, True):
                out.append((s2, K(o == "!=")))
            continue
        if i is K(0):
            out.append((s2, K(o == "==")))
            continue
        r = T("atend", P(base), key, cnt)
        BOOL.add(r)
        for s3, at in E.branch(s2, r):
            if at or keyed(E, s3, base, key, i, False):
                out.append((s3, K(at == (o == "=="))))
    return out


def keyed(E, s, base, key, i, val):
    """elements with a key are those in the range of the key"""
    if is_const(i):
        return True
    try:
        f = E.read(s, base + (("{", key, i), "first"))
    except Undecided:
        return True
    return E.assume(s, eq(f, key), val)


@op("operator-")
def _opminus(E, e, st, info, obj, arrow, args, loc):
    cur, done = vals_of(E, st, args, info["ptypes"])
    out = list(done)
    for s, vs, _ in cur:
        a, b = vs
        if a.op == "xit" and b.op == "xit" and a.args[0] is b.args[0]:
            out.append((s, sub(a.args[1], b.args[1])))
        elif a.op == "xit":
            out.append((s, T("xit", a.args[0], sub(a.args[1], b))))
        elif rec_base(info["ptypes"][0] or "") in ("std::chrono::time_point", "std::chrono::duration"):
            out.append((s, purecall("tdiff", None, (a, b))))
        else:
            out.append((s, E.arith("-", a, b, "i64")))
    return out


@op("operator+")
def _opplus(E, e, st, info, obj, arrow, args, loc):
    cur, done = vals_of(E, st, args, info["ptypes"])
    out = list(done)
    for s, vs, _ in cur:
        a, b = vs
        if a.op == "xit":
            out.append((s, T("xit", a.args[0], add(a.args[1], b))))
        elif any("basic_string" in (p or "") for p in info["ptypes"]):
            out.append((s, cat(E.cstr(a), E.cstr(b))))
        elif a.op in ("&", "rit"):
            out.append((s, E.shift(a, b)))
        elif all(rec_base(strip_ref(x or "").replace("c:", "")) == "std::chrono::duration" for x in info["ptypes"]):
            out.append((s, add(a, b)))
        else:
            raise Undecided("operator+")
    return out


@op("operator<<")
def _shl(E, e, st, info, obj, arrow, args, loc):
    out = []
    cur, done = E.eval_args(args, info["ptypes"], st)
    out.extend(done)
    for s, av in cur:
        p = av[0][1]
        v = E.argval(s, av[1]) if len(av) > 1 else S("")
        if islocal_path(p):
            old = E.peek(s, p)
            E.write(s, p, cat(old if old is not None and old.op != "undef" else S(""), E.cstr(v)))
        else:
            event(s, "<<", P(p), (E.cstr(v),), bump=False)
            tag_line(s, loc)
        out.append((s, P(p)))
    return out


@op("operator>>")
def _shr(E, e, st, info, obj, arrow, args, loc):
    cur, done = E.eval_args(args, info["ptypes"], st)
    out = list(done)
    for s, av in cur:
        p = av[0][1]
        old = E.peek(s, p)
        q = av[1][1]
        E.write(s, q, T("extr", old, S(strip_type(info["ptypes"][-1]))))
        E.write(s, p, T("rest", old))
        out.append((s, P(p)))
    return out


def cat(a, b):
    xs = []
    for t in (a, b):
        for y in (t.args if t.op == "cat" else (t,)):
            if y.op == "chr" and y.args[0].op == "k" and 0 < y.args[0].args[0] < 128:
                y = S(chr(int(y.args[0].args[0])))
            if y.op == "s" and xs and xs[-1].op == "s":
                xs[-1] = S(xs[-1].args[0] + y.args[0])
            elif not (y.op == "s" and y.args[0] == ""):
                xs.append(y)
    if not xs:
        return S("")
    return xs[0] if len(xs) == 1 else T("cat", *xs)


# ------------------------------------------------------------------ vector
VEC = ("std::vector", "std::initializer_list", "std::array", "std::deque")


def vec_access(E, s, p, n, ty):
    if n in ("size",):
        return [(s, E.read(s, p + ("#size",), "u64"))]
    if n == "empty":
        return [(s, eq(E.read(s, p + ("#size",), "u64"), K(0)))]
    if n in ("begin", "cbegin", "data"):
        return [(s, P(p + (("[", K(0)),)))]
    if n in ("end", "cend"):
        return [(s, P(p + (("[", E.read(s, p + ("#size",), "u64")),)))]
    if n in ("rbegin", "crbegin"):
        return [(s, T("rit", p, sub(E.read(s, p + ("#size",), "u64"), K(1))))]
    if n in ("rend", "crend"):
        return [(s, T("rit", p, K(-1)))]
    if n == "front":
        return [(s, P(p + (("[", K(0)),)))]
    if n == "back":
        return [(s, P(p + (("[", sub(E.read(s, p + ("#size",), "u64"), K(1))),)))]
    raise Undecided("vector " + n)


def on_obj(fn):
    """wrap fn(E, s, p, av, info, loc) over object evaluation"""
    def h(E, e, st, info, obj, arrow, args, loc):
        cur, out = with_obj(E, st, obj, arrow, args, info["ptypes"])
        for s, p, av in cur:
            out.extend(fn(E, s, p, av, info, loc))
        return out
    return h


def short(info):
    n = info["name"]
    if n.endswith("(conv)"):
        return "(conv)"
    if "operator" in n:
        return "operator" + n.split("operator")[-1]
    return n.split("::")[-1]


@method(VEC, "size", "empty", "begin", "end", "cbegin", "cend", "rbegin", "rend", "crbegin", "crend", "front", "back", "data")
@on_obj
def _vacc(E, s, p, av, info, loc):
    v = E.peek(s, p) if rec_base(info.get("cls")) == "std::initializer_list" else None
    if v is not None and v.op == "st" and v.args[0] == "vec":
        n = short(info)
        if n == "size":
            return [(s, K(len(v.args[1])))]
        if n == "begin":
            return [(s, P(p + (("[", K(0)),)))]
        if n == "end":
            return [(s, P(p + (("[", K(len(v.args[1]))),)))]
    return vec_access(E, s, p, short(info), info.get("cls"))


@method(VEC, "operator[]", "at")
@on_obj
def _vidx(E, s, p, av, info, loc):
    i = E.argval(s, av[0])
    return [(s, P(p + (("[", i),)))]


def elem_ty(info):
    a = split_targs(strip_type(info.get("cls") or ""))
    return a[0] if a else "?"


def construct_elem(E, s, ety, av, info):
    """value(s) of an element constructed from arguments"""
    if len(av) == 1 and (not E.is_agg(ety) or strip_type(av[0][2]) == strip_type(ety)):
        v = E.argval(s, av[0])
        return [(s, v)]
    if not E.is_agg(ety):
        if not av:
            return [(s, E.zero(ety))]
        vals = [E.argval(s, a) for a in av]
        if E.is_container(ety):
            raise Undecided("container element")
        return [(s, purecall("make", None, [S(strip_type(ety))] + vals))]
    b = rec_base(ety)
    fs = E.fields(ety)
    if b in ("std::pair", "std::tuple"):
        if len(av) == 1:
            v = E.argval(s, av[0])
            return [(s, v)]
        if not av:
            return E.default_agg(ety, s)
        return [(s, T("st", strip_type(ety), tuple((f[0], E.argval(s, a)) for f, a in zip(fs, av))))]
    # repo record: aggregate or constructor
    c = E.prog.find_ctor(ety, len(av))
    if c is not None and c.get("body") is not None:
        p = E.alloc(s, "i32")
        s.mem.pop(p[0], None)
        out = []
        for s2, o in E.run_ctor(c, p, av, s):
            if o is not None and o[0] == "t":
                out.append((s2, o))
            else:
                out.append((s2, ("obj", p)))
        return out
    if not av:
        return E.default_agg(ety, s)
    raise Undecided("element construction %s" % ety)


def store_elem(E, s, path, v):
    if isinstance(v, tuple) and v[0] == "obj":
        E.move_into(s, path, v[1])
    else:
        E.write(s, path, v)


@method(VEC, "push_back", "emplace_back")
@on_obj
def _vpush(E, s, p, av, info, loc):
    ety = elem_ty(info)
    out = []
    for s2, v in construct_elem(E, s, ety, av, info):
        if isinstance(v, tuple) and v[0] == "t":
            out.append((s2, v))
            continue
        n = E.read(s2, p + ("#size",), "u64")
        if E.is_bag(p, info["cls"]):
            b = E.read(s2, p + ("#bag",))
            E.write(s2, p + ("#bag",), bag_add(b, v))
        else:
            store_elem(E, s2, p + (("[", n),), v)
        E.write(s2, p + ("#size",), add(n, K(1)))
        out.append((s2, P(p + (("[", n),))))
    return out


def bag_add(b, v):
    if b.op == "bag":
        return T("bag", b.args[0], tuple(sorted(b.args[1] + (v,), key=lambda x: x.uid)))
    return T("bag", b, (v,))


@method(VEC, "pop_back")
@on_obj
def _vpop(E, s, p, av, info, loc):
    n = E.read(s, p + ("#size",), "u64")
    if E.is_bag(p, info["cls"]):
        b = E.read(s, p + ("#bag",))
        E.write(s, p + ("#bag",), T("popped", b))
    E.write(s, p + ("#size",), sub(n, K(1)))
    return [(s, None)]


@method(VEC, "clear")
@on_obj
def _vclear(E, s, p, av, info, loc):
    if E.is_bag(p, info["cls"]):
        E.write(s, p + ("#bag",), EMPTYBAG)
    E.write(s, p + ("#size",), K(0))
    return [(s, None)]


@method(VEC, "reserve", "shrink_to_fit")
@on_obj
def _vres(E, s, p, av, info, loc):
    return [(s, None)]


def plain(v):
    """a value of a struct without the contents of empty optionals"""
    if isinstance(v, Term) and v.op == "st":
        fs = tuple((f, plain(x)) for f, x in v.args[1])
        d = dict(fs)
        if d.get("#has") is FALSE:
            fs = (("#has", FALSE),)
        return T("st", v.args[0], fs)
    return v


def fill_value(E, s, v, ety):
    """the value given to new elements: a default constructed object is the same as none given"""
    ty = strip_type(ety)
    if isinstance(v, Term) and v.op == "st":
        try:
            d = E.default_agg(ty, s.clone())[0][1]
        except Exception:  # not a plain struct
            return v
        if plain(v) is plain(d):
            return T("dflt", S(ty))
    return v


@method(VEC, "resize")
@on_obj
def _vresize(E, s, p, av, info, loc):
    n = E.argval(s, av[0])
    old = E.read(s, p + ("#size",), "u64")
    ety = elem_ty(info)
    out = []
    for s2, b in E.branch(s, lt(old, n, True)):
        if b:
            v = E.argval(s2, av[1]) if len(av) > 1 else None
            # new elements [old, n) get a fill value
            fill = T("fillv", fill_value(E, s2, v, ety) if v is not None else T("dflt", S(strip_type(ety))), old)
            E.write(s2, p + ("#fill",), fill)
        E.write(s2, p + ("#size",), n)
        out.append((s2, None))
    return out


@method(VEC, "assign")
@on_obj
def _vassign(E, s, p, av, info, loc):
    if len(av) == 2 and strip_type(info["ptypes"][0]).startswith("u"):
        # clears and fills
        if not E.is_bag(p, info["cls"]):
            E.write(s, p + ("#size",), K(0))
            v = E.argval(s, av[1])
            out = []
            for s2, b in E.branch(s, lt(K(0), E.argval(s, av[0]), True)):
                if b:
                    E.write(s2, p + ("#fill",), T("fillv", fill_value(E, s2, v, elem_ty(info)), K(0)))
                E.write(s2, p + ("#size",), E.argval(s2, av[0]))
                out.append((s2, None))
            return out
    raise Undecided("vector assign")


@method(VEC, "erase")
@on_obj
def _verase(E, s, p, av, info, loc):
    vs = [E.argval(s, a) for a in av]
    n = E.read(s, p + ("#size",), "u64")
    if len(vs) == 2:
        if vs[0].op != "&" or vs[1].op != "&":
            raise Undecided("erase")
        j, k = vs[0].args[0][-1][1], vs[1].args[0][-1][1]
        if s.store.decide(eq(k, n)) is True:
            E.write(s, p + ("#size",), j)
            return [(s, vs[0])]
        E.write(s, p + (("[", None),), T("hv", T("erased", j, k)))
        E.write(s, p + ("#size",), sub(n, sub(k, j)))
        return [(s, vs[0])]
    raise Undecided("erase element")


@method(VEC, "insert")
@on_obj
def _vinsert(E, s, p, av, info, loc):
    vs = [E.argval(s, a) if a[0] == "v" or True else None for a in av]
    if len(vs) == 3 and vs[0].op == "&":
        n = E.read(s, p + ("#size",), "u64")
        if E.compare("==", vs[0].args[0][-1][1], n) is not TRUE:
            raise Undecided("insert in the middle")
        a, b = vs[1], vs[2]
        if a.op == "xit" and b.op == "xit" and a.args[0] is b.args[0]:
            src, cnt = T("range", a.args[0], a.args[1]), sub(b.args[1], a.args[1])
        elif a.op == "&" and b.op == "&" and a.args[0][:-1] == b.args[0][:-1]:
            src, cnt = T("range", P(a.args[0][:-1]), a.args[0][-1][1]), sub(b.args[0][-1][1], a.args[0][-1][1])
        else:
            raise Undecided("insert range")
        E.write(s, p + (("[..", n, cnt),), src)
        E.write(s, p + ("#size",), add(n, cnt))
        return [(s, vs[0])]
    raise Undecided("vector insert")


@method(VEC, "operator=", "swap")
@on_obj
def _vassignop(E, s, p, av, info, loc):
    a = av[0]
    if short(info) == "swap" or a[0] != "p":
        raise Undecided("vector assignment")
    if islocal_path(a[1]):
        E.move_into(s, p, a[1])
    else:
        E.copy_container_to(s, p, a[1])
    return [(s, P(p))]


def model_ctor(E, st, typ, info, args, e):
    """container constructors with arguments: list of (state, path|Throw)"""
    out = []
    base = rec_base(typ)
    cur, done = E.eval_args([a for a in args if a[0] != "defarg"], info["ptypes"], st)
    out.extend((s, Throw(o)) for s, o in done)
    for s, av in cur:
        av = [a for a in av if "allocator" not in a[2]]
        p = E.alloc(s, typ)
        s.mem.pop(p[0], None)
        E.init_container(s, p)
        if not av:
            out.append((s, p))
            continue
        if base == "std::vector":
            t0 = av[0][2]
            if rec_base(t0) == "std::initializer_list" or strip_type(t0).startswith("[]"):
                v = E.argval(s, av[0])
                if v.op != "st":
                    raise Undecided("initializer list")
                items = [x for _, x in v.args[1]]
                if E.is_bag(p, typ):
                    b = EMPTYBAG
                    for x in items:
                        b = bag_add(b, x)
                    E.write(s, p + ("#bag",), b)
                else:
                    for i, x in enumerate(items):
                        E.write(s, p + (("[", K(i)),), x)
                E.write(s, p + ("#size",), K(len(items)))
                out.append((s, p))
                continue
            if strip_type(t0)[:1] == "u":
                n = E.argval(s, av[0])
                ety = split_targs(typ)[0]
                fill = fill_value(E, s, E.argval(s, av[1]), ety) if len(av) > 1 else T("dflt", S(strip_type(ety)))
                E.write(s, p + ("#size",), n)
                E.write(s, p + ("#fill",), T("fillv", fill, K(0)))
                out.append((s, p))
                continue
            if len(av) == 2:
                a, b = [E.argval(s, x) for x in av]
                at, n, b0, lo = rng(E, a, b)
                src = T("range", P(b0) if b0 is not None else a.args[0], lo if lo is not None else K(0))
                E.write(s, p + (("[..", K(0), n),), src)
                E.write(s, p + ("#size",), n)
                out.append((s, p))
                continue
        raise Undecided("container constructor %s" % typ)
    return out


# ------------------------------------------------------------------ iterators
NIT = ("__gnu_cxx::__normal_iterator", "std::reverse_iterator", "std::__detail::_Node_iterator", "std::__detail::_Node_const_iterator",
       "Clingo::ArrayIterator", "Clingo::TheoryIterator", "Clingo::TheoryAtomIterator", "std::_Rb_tree_iterator", "std::_Rb_tree_const_iterator")


@method(NIT, "operator*", "operator->")
@on_obj
def _itderef(E, s, p, av, info, loc):
    v = E.rvpath(s, p, info["cls"])
    if v.op == "xit":
        if info["ret"][:1] not in "&*":
            return [(s, purecall("at", v.args[0], (v.args[1],)))]
        return [(s, P((("*", purecall("at", v.args[0], (v.args[1],))),)))]
    if v.op == "mit" and v.args[1].op == "end":
        raise Undecided("deref of end")
    return [(s2, P(E.deref(w))) for s2, w in E.resolve(s, v)]


@method(NIT, "operator++", "operator--")
@on_obj
def _itinc(E, s, p, av, info, loc):
    v = E.rvpath(s, p, info["cls"])
    out = []
    for s2, w in E.resolve(s, v):
        E.write(s2, p, E.step(w, 1 if "++" in info["name"] else -1))
        out.append((s2, w if av else P(p)))
    return out


@method(NIT, "operator+", "operator-", "operator+=", "operator-=")
@on_obj
def _itadd(E, s, p, av, info, loc):
    v = E.rvpath(s, p, info["cls"])
    d = E.argval(s, av[0])
    n = short(info)
    if d.op in ("&", "rit"):
        return [(s, E.arith("-", v, d, "i64"))]
    if v.op == "xit":
        r = T("xit", v.args[0], add(v.args[1], d if "+" in n else neg(d)))
    else:
        r = E.shift(v, d if "+" in n else neg(d))
    if n.endswith("="):
        E.write(s, p, r)
        return [(s, P(p))]
    return [(s, r)]


@method(NIT, "operator[]")
@on_obj
def _itidx(E, s, p, av, info, loc):
    v = E.rvpath(s, p, info["cls"])
    return [(s, P(E.deref(E.shift(v, E.argval(s, av[0])))))]


@method(NIT, "operator=")
@on_obj
def _itassign(E, s, p, av, info, loc):
    E.write(s, p, E.argval(s, av[0]))
    return [(s, P(p))]


@method(NIT, "base")
@on_obj
def _itbase(E, s, p, av, info, loc):
    v = E.rvpath(s, p, info["cls"])
    if v.op == "rit":
        return [(s, P(v.args[0] + (("[", add(v.args[1], K(1))),)))]
    return [(s, v)]


@method(NIT, "operator==", "operator!=")
@on_obj
def _itcmp(E, s, p, av, info, loc):
    a = E.rvpath(s, p, info["cls"])
    b = E.argval(s, av[0])
    return cmp_values(E, s, short(info)[8:], a, b, info)


@ctor("__gnu_cxx::__normal_iterator", "std::reverse_iterator", "std::__detail::_Node_iterator", "std::__detail::_Node_const_iterator",
      "Clingo::ArrayIterator")
def _itctor(E, s, typ, av, e):
    if not av:
        return [(s, UNDEF)]
    v = E.argval(s, av[0])
    if rec_base(typ) == "std::reverse_iterator" and v.op == "&":
        q = v.args[0]
        return [(s, T("rit", q[:-1], sub(q[-1][1], K(1))))]
    return [(s, v)]


# ------------------------------------------------------------------ maps
MAPS = ("std::unordered_map", "std::unordered_multimap", "std::map", "std::multimap", "std::unordered_set", "std::set")


def cntpath(p, key):
    return p + (("#cnt", key),)


def getcnt(E, s, p, key):
    c = E.read(s, cntpath(p, key), "u64")
    if c.op not in ("k",):
        NONNEG.add(c)
    return c


@method(MAPS, "find", "equal_range", "count", "contains", "lower_bound")
@on_obj
def _mfind(E, s, p, av, info, loc):
    key = E.argval(s, av[0])
    n = short(info)
    if n == "find":
        return [(s, T("mit", p, key, K(0)))]
    c = getcnt(E, s, p, key)
    if n == "count":
        return [(s, c)]
    if n == "contains":
        return [(s, NOT(eq(c, K(0))))]
    if n == "equal_range":
        return [(s, T("st", strip_type(info["ret"]), (("first", T("mit", p, key, K(0))), ("second", T("mit", p, key, c)))))]
    raise Undecided("map " + n)


@method(MAPS, "end", "cend")
@on_obj
def _mend(E, s, p, av, info, loc):
    return [(s, T("mit", p, T("end"), K(0)))]


@method(MAPS, "emplace", "insert", "try_emplace", "insert_or_assign")
@on_obj
def _memplace(E, s, p, av, info, loc):
    n = short(info)
    base = rec_base(info["cls"])
    if n in ("insert_or_assign",):
        raise Undecided("map " + n)
    if len(av) == 1:
        v = E.argval(s, av[0])
        if v.op != "st":
            if rec_base(av[0][2]) == "std::pair":
                key, val = T("fld", v, "first"), T("fld", v, "second")
            else:
                raise Undecided("map insert")
        else:
            key, val = v.args[1][0][1], v.args[1][1][1]
    elif len(av) == 2:
        if n == "insert":
            a, b = [E.argval(s, x) for x in av]
            if a.op == "&" and b.op == "&":
                return insert_range(E, s, p, a, b, "multi" in base, loc)
            r = event(s, "map_insert_range", P(p) if not islocal_path(p) else T("lref"), (a, b), bump=False)
            tag_line(s, loc)
            E.write(s, p, T("hv", T("after", r)))
            return [(s, None)]
        key, val = [E.argval(s, x) for x in av]
    else:
        raise Undecided("map emplace")
    multi = "multi" in base
    out = []
    c = getcnt(E, s, p, key)
    if multi:
        E.write(s, p + (("{", key, c), "first"), key)
        E.write(s, p + (("{", key, c), "second"), val)
        E.write(s, cntpath(p, key), add(c, K(1)))
        return [(s, T("mit", p, key, c))]
    for s2, b in E.branch(s, eq(c, K(0))):
        if b:
            E.write(s2, p + (("{", key, K(0)), "first"), key)
            E.write(s2, p + (("{", key, K(0)), "second"), val)
            E.write(s2, cntpath(p, key), K(1))
        out.append((s2, T("st", strip_type(info["ret"]), (("first", T("mit", p, key, K(0))), ("second", K(b))))))
    return out


def insert_range(E, s, p, a, b, multi, loc):
    """elements of a range inserted one after the other"""
    at, n, _, _ = rng(E, a, b)

    def body(x, i):
        key, val = [E.read(x, at(i) + (m,)) for m in ("first", "second")]
        c = getcnt(E, x, p, key)
        r = []
        for y, new in [(x, True)] if multi else E.branch(x, eq(c, K(0))):
            if new:
                k = c if multi else K(0)
                E.write(y, p + (("{", key, k), "first"), key)
                E.write(y, p + (("{", key, k), "second"), val)
                E.write(y, cntpath(p, key), add(k, K(1)))
            r.append((y, ("n",)))
        return r

    return [(s2, o if o[0] == "t" else None) for s2, o in counted_loop(E, s, n, body, loc)]


@method(MAPS, "operator[]", "at")
@on_obj
def _midx(E, s, p, av, info, loc):
    key = E.argval(s, av[0])
    if short(info) == "at":
        return [(s, P(p + (("{", key, K(0)), "second")))]
    c = getcnt(E, s, p, key)
    out = []
    for s2, b in E.branch(s, eq(c, K(0))):
        if b:
            ety = split_targs(strip_type(info["cls"]))[1]
            E.write(s2, p + (("{", key, K(0)), "first"), key)
            E.write(s2, p + (("{", key, K(0)), "second"), E.zero(ety))
            E.write(s2, cntpath(p, key), K(1))
        out.append((s2, P(p + (("{", key, K(0)), "second"))))
    return out


@method(MAPS, "clear")
@on_obj
def _mclear(E, s, p, av, info, loc):
    E.write(s, p + (("#cnt", None),), K(0))
    return [(s, None)]


@method(MAPS, "erase")
@on_obj
def _merase(E, s, p, av, info, loc):
    vs = [E.argval(s, a) for a in av]
    if len(vs) == 2 and vs[0].op == "mit" and vs[1].op == "mit" and vs[0].args[1] is vs[1].args[1] and vs[0].args[2] is K(0):
        key = vs[0].args[1]
        if E.compare("==", vs[1].args[2], getcnt(E, s, p, key)) is TRUE:
            E.write(s, cntpath(p, key), K(0))
            return [(s, vs[1])]
    if len(vs) == 1 and vs[0].op != "mit":
        E.write(s, cntpath(p, vs[0]), K(0))
        return [(s, UNDEF)]
    raise Undecided("map erase")


@method(MAPS, "reserve", "rehash")
@on_obj
def _mres(E, s, p, av, info, loc):
    return [(s, None)]


@method(MAPS, "begin", "size", "empty")
@on_obj
def _mbegin(E, s, p, av, info, loc):
    raise Undecided("map traversal")


# ------------------------------------------------------------------ optional
OPT = ("std::optional",)


@method(OPT, "(conv)", "has_value")
@on_obj
def _ohas(E, s, p, av, info, loc):
    return [(s, E.read(s, p + ("#has",), "b1"))]


@method(OPT, "operator*", "value", "operator->")
@on_obj
def _oval(E, s, p, av, info, loc):
    return [(s, P(p + ("#val",)))]


@method(OPT, "value_or")
@on_obj
def _ovalor(E, s, p, av, info, loc):
    out = []
    ty = split_targs(strip_type(info["cls"]))[0]
    for s2, b in E.branch(s, E.read(s, p + ("#has",), "b1")):
        out.append((s2, E.load_value(s2, p + ("#val",), ty) if b else E.argval(s2, av[0])))
    return out


def opt_of(E, s, typ, a):
    """optional value of an argument"""
    t = strip_type(a[2])
    if rec_base(t) == "std::nullopt_t":
        return T("st", strip_type(typ), (("#has", FALSE),))
    if rec_base(t) == "std::optional":
        v = E.argval(s, a)
        return v
    v = E.argval(s, a)
    return T("st", strip_type(typ), (("#has", TRUE), ("#val", v)))


@method(OPT, "operator=")
@on_obj
def _oassign(E, s, p, av, info, loc):
    v = opt_of(E, s, info["cls"], av[0])
    E.write(s, p, v)
    return [(s, P(p))]


@method(OPT, "reset")
@on_obj
def _oreset(E, s, p, av, info, loc):
    E.write(s, p + ("#has",), FALSE)
    return [(s, None)]


@method(OPT, "emplace")
@on_obj
def _oemplace(E, s, p, av, info, loc):
    E.write(s, p + ("#has",), TRUE)
    E.write(s, p + ("#val",), E.argval(s, av[0]))
    return [(s, P(p + ("#val",)))]


@ctor("std::optional")
def _octor(E, s, typ, av, e):
    if not av:
        return [(s, T("st", strip_type(typ), (("#has", FALSE),)))]
    return [(s, opt_of(E, s, typ, av[0]))]


# ------------------------------------------------------------------ pair / tuple
@ctor("std::pair")
def _pctor(E, s, typ, av, e):
    fs = E.fields(typ)
    if not av:
        return E.default_agg(typ, s)
    if len(av) == 1:
        v = E.argval(s, av[0])
        if v.op == "st":
            return [(s, T("st", strip_type(typ), tuple((f[0], x) for f, (_, x) in zip(fs, v.args[1]))))]
        return [(s, v)]
    return [(s, T("st", strip_type(typ), tuple((f[0], E.argval(s, a)) for f, a in zip(fs, av))))]


@ctor("std::tuple")
def _tctor(E, s, typ, av, e):
    fs = E.fields(typ)
    if not av:
        return E.default_agg(typ, s)
    if len(av) == 1 and len(fs) > 1:
        return [(s, E.argval(s, av[0]))]
    return [(s, T("st", strip_type(typ), tuple((f[0], E.argval(s, a)) for f, a in zip(fs, av))))]


@method(("std::pair", "std::tuple"), "operator=")
@on_obj
def _passign(E, s, p, av, info, loc):
    v = E.argval(s, av[0])
    fs = E.fields(info["cls"])
    cls = strip_type(info["cls"])
    for i, (f, ft) in enumerate(fs):
        x = E.proj1(v, i)
        if ft.startswith("&"):
            tgt = E.read(s, p + (f,))
            if tgt.op != "&":
                raise Undecided("tie")
            E.write(s, tgt.args[0], x)
        else:
            E.write(s, p + (f,), x)
    return [(s, P(p))]


# ------------------------------------------------------------------ unique_ptr, function
UPTR = ("std::unique_ptr", "std::shared_ptr")


def uptr_val(E, s, p):
    v = E.read(s, p)
    if v.op in ("&", "null", "ite", "undef", "opaque"):
        return v
    return P((("*", v),))


@method(UPTR, "operator->", "get")
@on_obj
def _uget(E, s, p, av, info, loc):
    return [(s, uptr_val(E, s, p))]


@method(UPTR, "operator*")
@on_obj
def _uderef(E, s, p, av, info, loc):
    return [(s2, P(E.deref(v))) for s2, v in E.resolve(s, uptr_val(E, s, p))]


@method(UPTR, "(conv)")
@on_obj
def _ubool(E, s, p, av, info, loc):
    return [(s, NOT(E.isnull(uptr_val(E, s, p))))]


@method(UPTR, "operator=")
@on_obj
def _uassign(E, s, p, av, info, loc):
    a = av[0]
    v = a[1] if a[0] == "v" else uptr_val(E, s, a[1])
    E.write(s, p, v)
    return [(s, P(p))]


@method(UPTR, "release")
@on_obj
def _urel(E, s, p, av, info, loc):
    v = uptr_val(E, s, p)
    E.write(s, p, NULL)
    return [(s, v)]


@method(UPTR, "reset")
@on_obj
def _ureset(E, s, p, av, info, loc):
    E.write(s, p, E.argval(s, av[0]) if av else NULL)
    return [(s, None)]


@ctor("std::unique_ptr", "std::shared_ptr")
def _uctor(E, s, typ, av, e):
    if not av:
        return [(s, NULL)]
    a = av[0]
    if a[0] == "v":
        return [(s, a[1])]
    v = uptr_val(E, s, a[1])
    return [(s, v)]


@ctor("std::function")
def _fctor(E, s, typ, av, e):
    if not av:
        return [(s, NULL)]
    return [(s, E.argval(s, av[0]))]


@method("std::function", "operator()")
@on_obj
def _fcall(E, s, p, av, info, loc):
    v = E.rvpath(s, p, info["cls"])
    return call_value(E, s, v, av, info["ret"], loc)


@method("std::function", "(conv)")
@on_obj
def _fbool(E, s, p, av, info, loc):
    return [(s, NOT(E.isnull(E.rvpath(s, p, info["cls"]))))]


# ------------------------------------------------------------------ strings
@ctor("std::basic_string")
def _sctor(E, s, typ, av, e):
    av = [a for a in av if "allocator" not in a[2]]
    if not av:
        return [(s, S(""))]
    if len(av) == 1:
        return [(s, E.cstr(E.argval(s, av[0])))]
    return [(s, purecall("string", None, [E.cstr(E.argval(s, a)) for a in av]))]


STR = "std::basic_string"
SV = "std::basic_string_view"


@ctor(SV)
def _svctor(E, s, typ, av, e):
    if not av:
        return [(s, S(""))]
    if len(av) == 1:
        return [(s, E.cstr(E.argval(s, av[0])))]
    return [(s, purecall("string", None, [E.cstr(E.argval(s, a)) for a in av]))]


@method((STR, SV), "c_str", "data", "(conv)")
@on_obj
def _scstr(E, s, p, av, info, loc):
    return [(s, E.cstr(E.rvpath(s, p, info["cls"])))]


@method(STR, "push_back", "operator+=", "append")
@on_obj
def _sappend(E, s, p, av, info, loc):
    if len(av) != 1:
        raise Undecided("string append")
    old = E.cstr(E.rvpath(s, p, info["cls"]))
    v = E.cstr(E.argval(s, av[0]))
    if strip_type(info["ptypes"][0]) == "i8":
        v = S(chr(int(v.args[0]))) if is_const(v) else T("chr", v)
    E.write(s, p, cat(old, v))
    return [(s, P(p))]


@method(STR, "operator=", "assign")
@on_obj
def _sassign(E, s, p, av, info, loc):
    E.write(s, p, E.cstr(E.argval(s, av[0])))
    return [(s, P(p))]


@method(STR, "clear")
@on_obj
def _sclear(E, s, p, av, info, loc):
    E.write(s, p, S(""))
    return [(s, None)]


@method((STR, SV), "compare")
@on_obj
def _seq(E, s, p, av, info, loc):
    if len(av) != 1:
        raise Undecided("string comparison")
    return [(s, T("strcmp", E.cstr(E.rvpath(s, p, info["cls"])), E.cstr(E.argval(s, av[0]))))]


@ctor("std::basic_ostringstream", "std::basic_stringstream")
def _osctor(E, s, typ, av, e):
    return [(s, S("") if not av or strip_type(av[0][2]).startswith("E") else E.cstr(E.argval(s, av[0])))]


@method(("std::basic_ostringstream", "std::basic_stringstream"), "str")
@on_obj
def _osstr(E, s, p, av, info, loc):
    return [(s, E.cstr(E.read(s, p)))]


@method(("std::basic_ostream",), "operator<<")
@on_obj
def _osshl(E, s, p, av, info, loc):
    v = E.cstr(E.argval(s, av[0]))
    if islocal_path(p):
        old = E.peek(s, p)
        E.write(s, p, cat(old if old is not None and old.op != "undef" else S(""), v))
    return [(s, P(p))]


@method(("std::basic_istream",), "operator>>")
@on_obj
def _isshr(E, s, p, av, info, loc):
    old = E.peek(s, p)
    E.write(s, av[0][1], purecall("extract", None, (old, S(strip_type(info["ptypes"][0])))))
    E.write(s, p, purecall("rest", None, (old,)))
    return [(s, P(p))]


@method(("std::basic_ios", "std::basic_istream"), "imbue", "(conv)", "operator!", "fail", "eof", "good")
@on_obj
def _ios(E, s, p, av, info, loc):
    n = short(info)
    old = E.peek(s, p)
    if n == "imbue":
        return [(s, UNDEF)]
    r = purecall("fail" if n in ("(conv)", "operator!", "fail") else n, None, (old,))
    BOOL.add(r)
    return [(s, NOT(r) if n == "(conv)" else r)]


@method(("std::basic_stringstream",), "rdbuf")
@on_obj
def _rdbuf(E, s, p, av, info, loc):
    return [(s, P(p))]


@method(("std::basic_streambuf",), "in_avail")
@on_obj
def _avail(E, s, p, av, info, loc):
    r = purecall("in_avail", None, (E.peek(s, p),))
    return [(s, r)]


@ctor("std::allocator", "std::logic_error", "std::overflow_error", "std::underflow_error", "std::runtime_error", "std::nullopt_t",
      "std::integral_constant", "Clingo::ToIterator", "Clingo::ToTheoryIterator", "std::locale", "std::invalid_argument", "std::out_of_range",
      "std::domain_error")
def _unit(E, s, typ, av, e):
    return [(s, T("unit"))]


# ------------------------------------------------------------------ chrono
@ctor("std::chrono::duration")
def _durctor(E, s, typ, av, e):
    return [(s, E.argval(s, av[0]) if av else K(0))]


@method("std::chrono::duration", "operator=", "operator+=", "operator-=")
@on_obj
def _durassign(E, s, p, av, info, loc):
    v = E.argval(s, av[0])
    if short(info) == "operator+=":
        v = add(E.read(s, p), v)
    elif short(info) == "operator-=":
        v = sub(E.read(s, p), v)
    E.write(s, p, v)
    return [(s, P(p))]


@method("std::chrono::duration", "count")
@on_obj
def _durcount(E, s, p, av, info, loc):
    return [(s, E.read(s, p))]


@free("std::chrono::duration::zero")
def _durzero(E, e, st, info, obj, arrow, args, loc):
    return [(st, K(0))]


# ------------------------------------------------------------------ clingo wrappers
def span_access(E, v, n):
    sz = purecall("size", v, ())
    NONNEG.add(sz)
    if v.op == "bag":
        sz = K(len(v.args[1])) if v.args[0] is None and not any(x.op == "all" for x in v.args[1]) else sz
    if v.op == "st" and v.args[0] == "vec":
        sz = K(len(v.args[1]))
    if n == "size":
        return sz
    if n == "empty":
        return eq(sz, K(0))
    if n in ("begin", "cbegin"):
        return T("xit", v, K(0))
    if n in ("end", "cend"):
        return T("xit", v, sz)
    if n == "front":
        return span_at(E, v, K(0))
    if n == "back":
        return span_at(E, v, sub(sz, K(1)))
    raise Undecided("span " + n)


def span_at(E, v, i):
    if v.op == "st" and v.args[0] == "vec" and is_const(i):
        return v.args[1][int(i.args[0])][1]
    return P((("*", purecall("at", v, (i,))),))


STATS = ("Clingo::StatisticsBase", "Clingo::UserStatistics")


@method(STATS, "begin", "end")
@on_obj
def _statit(E, s, p, av, info, loc):
    v = E.rvpath(s, p, info["cls"])
    return [(s, span_access(E, v, short(info)))]


@method(STATS, "operator[]", "at")
def _statat(E, e, st, info, obj, arrow, args, loc):
    if not info["ptypes"] or info["ptypes"][0][:1] not in "ui":
        return ext_call(E, e, st, info, obj, arrow, args, loc)
    cur, out = with_obj(E, st, obj, arrow, args, info["ptypes"])
    for s, p, av in cur:
        out.append((s, purecall("at", E.rvpath(s, p, info["cls"]), (E.argval(s, av[0]),))))
    return out


SPANS = ("Clingo::Span", "Clingo::AST::NodeVector", "Clingo::AST::StrVector", "Clingo::TheoryAtoms", "Clingo::SymbolSpan")


@method(SPANS, "size", "empty", "begin", "end", "front", "back")
@on_obj
def _spacc(E, s, p, av, info, loc):
    v = E.rvpath(s, p, info["cls"])
    return [(s, span_access(E, v, short(info)))]


@method(SPANS, "operator[]", "at")
@on_obj
def _spidx(E, s, p, av, info, loc):
    v = E.rvpath(s, p, info["cls"])
    r = span_at(E, v, E.argval(s, av[0]))
    if r.op == "&" and not info["ret"].startswith("&") and len(r.args[0]) == 1:
        r = r.args[0][0][1]
    return [(s, r)]


@method(("Clingo::AST::NodeRef", "Clingo::AST::StringRef"), "get", "(conv)")
@on_obj
def _noderef(E, s, p, av, info, loc):
    """the element of a sequence of AST nodes that a reference stands for"""
    return [(s, E.wrap_ptr(E.rvpath(s, p, info["cls"]), info["ret"]))]


@ctor("Clingo::Span")
def _spctor(E, s, typ, av, e):
    av = [a for a in av if rec_base(a[2]) not in ("Clingo::ToIterator", "Clingo::ToTheoryIterator")]
    if not av:
        return [(s, T("st", "vec", ()))]
    a = av[0]
    ety = (split_targs(strip_type(typ)) or ["?"])[0]
    if len(av) == 2:
        b = E.argval(s, av[0])
        n = E.argval(s, av[1])
        if b.op == "&" and isinstance(b.args[0][-1], tuple) and b.args[0][-1][0] == "[":
            if is_const(n) and n.args[0] <= 8:
                items = [("", E.load_value(s, b.args[0][:-1] + (("[", add(b.args[0][-1][1], K(i))),), ety)) for i in range(int(n.args[0]))]
                return [(s, to_bag(ety, T("st", "vec", tuple(items))))]
            if n.op == "&" and n.args[0][:-1] == b.args[0][:-1] and isinstance(n.args[0][-1], tuple) and n.args[0][-1][0] == "[":
                n = sub(n.args[0][-1][1], b.args[0][-1][1])
            return [(s, T("seg", P(b.args[0][:-1]), b.args[0][-1][1], n))]
        if b.op == "null" and n is K(0):
            return [(s, T("st", "vec", ()))]
        return [(s, purecall("span", None, (b, n)))]
    v = E.argval(s, a)
    if v.op == "st" and v.args[0] == "vec":
        return [(s, to_bag(ety, v))]
    return [(s, v)]


def to_bag(ety, v):
    if ety != "i32":
        return v
    b = EMPTYBAG
    for _, x in v.args[1]:
        b = bag_add(b, x)
    return b


@ctor("Clingo::Symbol")
def _symctor(E, s, typ, av, e):
    if not av:
        return [(s, T("sym0"))]
    return [(s, T("symof", E.argval(s, av[0])))]


@method(("Clingo::Symbol", "Clingo::AST::Node"), "operator=")
@on_obj
def _symassign(E, s, p, av, info, loc):
    E.write(s, p, E.argval(s, av[0]))
    return [(s, P(p))]


@method("Clingo::Symbol", "to_c")
@on_obj
def _symc(E, s, p, av, info, loc):
    v = E.rvpath(s, p, info["cls"])
    if v.op == "symof":
        return [(s, v.args[0] if not info["ret"].startswith("&") else P((("*", T("symc", v)),)))]
    return [(s, T("symc", v) if not info["ret"].startswith("&") else P((("*", T("symc", v)),)))]


def _generic_ctor(E, s, typ, av, e):
    base = rec_base(typ)
    vals = []
    for a in av:
        v = canon_arg(E, s, a)
        if v.op == "clo":
            v = clo_value(E, s, v)
        vals.append(E.cstr(v))
    if len(vals) == 1:
        return [(s, T("wrap", S(base), vals[0]))]
    return [(s, T("wrap", S(base), *vals))]


for _n in ("Clingo::Assignment", "Clingo::Model", "Clingo::PropagateControl", "Clingo::PropagateInit", "Clingo::Part", "Clingo::StatisticsBase",
           "Clingo::UserStatistics", "Clingo::Variant", "Clingo::Optional", "Clingo::AST::Node", "Clingo::Location", "Clingo::AST::ProgramBuilder",
           "Clingo::Control", "Clingo::SymbolicLiteral", "Clingo::ClingoOptions", "Clingo::SolveControl"):
    CTORS[_n] = _generic_ctor


@ctor("Clingo::Heuristic", "Clingo::SolveEventHandler", "Clingo::Application", "Clingo::Propagator")
def _basector(E, s, typ, av, e):
    return [(s, T("unit"))]

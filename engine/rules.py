"""Rules: syntax directed analyses of the type-checked program."""
import json
import os
import re
import ast as pyast

import equiv
import spec
from program import Program, base_name, mutref
from interp import strip_type, rec_base

RULES = {}


def rule(name, title, text):
    def deco(f):
        RULES[name] = (f, title, text)
        return f
    return deco


class Report:
    def __init__(self, name, title, text):
        self.name, self.title, self.text = name, title, text
        self.checked = 0
        self.violations = []
        self.samples = []
        self.notes = []

    def ok(self, n=1, sample=None):
        self.checked += n
        if sample is not None and len(self.samples) < 8:
            self.samples.append(sample)

    def bad(self, function, loc, what, found, required):
        self.violations.append({"function": function, "loc": loc, "what": what, "found": str(found)[:600], "required": str(required)[:600], "kind": "rule"})

    def evidence(self):
        return {"rule": self.title, "statement": self.text, "checked": self.checked, "violations": len(self.violations), "notes": self.notes[:20]}


def run(name, ctx):
    key, _, arg = name.partition(":")
    f, title, text = RULES[key]
    rep = Report(name, title, text)
    if arg:
        f(ctx, rep, arg)
    else:
        f(ctx, rep)
    return rep


class Merged(Program):
    """all functions of all translation units"""

    def __init__(self, progs):
        self.functions, self.records, self.globals = {}, {}, {}
        self._mods, self._own, self._reads = {}, {}, {}
        self._memptrs = None
        self.unit = {}
        for n, p in progs:
            for k, f in p.functions.items():
                g = self.functions.get(k)
                if g is None or (g.get("body") is None and f.get("body") is not None):
                    self.functions[k] = f
                    self.unit[k] = p
            for k, r in p.records.items():
                if k not in self.records:
                    self.records[k] = r
                    self.unit[k] = p
            for g in p.data["globals"]:
                if g["name"] not in self.globals:
                    self.globals[g["name"]] = g
                    self.unit["G:" + g["name"]] = p

    def where(self, f, l=None):
        p = self.unit[f["key"]]
        return p.loc(l or f.get("loc"))


class Context:
    def __init__(self, us, repo, ref, tier):
        self.us, self.repo, self.ref_root, self.tier = us, repo, ref, tier
        self._cur = self._ref = None

    @property
    def cur(self):
        if self._cur is None:
            self._cur = Merged([(n, u.cur) for n, u in self.us.items()])
        return self._cur

    @property
    def ref(self):
        if self._ref is None:
            self._ref = Merged([(n, u.ref) for n, u in self.us.items()])
        return self._ref


# ------------------------------------------------------------------ syntax helpers
def children(x):
    for y in x:
        if isinstance(y, (list, dict)):
            yield y


def walk(x):
    """all nodes"""
    stack = [x]
    while stack:
        y = stack.pop()
        if isinstance(y, dict):
            stack.extend(v for v in y.values() if isinstance(v, (list, dict)))
        elif isinstance(y, list):
            if y and isinstance(y[0], str):
                yield y
            stack.extend(v for v in y if isinstance(v, (list, dict)))


def bodies(f):
    out = []
    if f.get("body") is not None:
        out.append(f["body"])
    for it in f.get("inits") or []:
        out.append(it[3])
    return out


def callinfo(x):
    """(info, object, args, loc) of a call node"""
    k = x[0]
    if k == "mcall":
        return x[1], x[2], x[4], x[5]
    if k == "call":
        return x[1], None, x[2], x[3]
    if k == "opcall":
        if x[2].get("method"):
            return x[2], x[3][0], x[3][1:], x[4]
        return x[2], None, x[3], x[4]
    if k == "ctor":
        return x[2], None, x[3], x[4]
    return None


def sname(name):
    return spec.short(name)


def real(f):
    return f.get("body") is not None and not f.get("implicit")


def const_of(x):
    """value of a constant initialiser"""
    while isinstance(x, list) and x and x[0] in ("tmp", "up"):
        x = x[1]
    if not isinstance(x, list) or not x:
        return None
    if x[0] == "int":
        return int(x[1])
    if x[0] == "bool":
        return int(bool(x[1]))
    if x[0] == "flt":
        return float(x[1])
    if x[0] == "str":
        return re.sub(r"\s+", " ", x[1])
    if x[0] == "null":
        return "null"
    if x[0] == "zero":
        return 0
    if x[0] == "init" and len(x[2]) == 1 and x[2][0][0] == "":
        return const_of(x[2][0][1])
    if x[0] == "init" and len(x[2]) == 0:
        return 0
    if x[0] == "un" and x[1] == "-":
        v = const_of(x[2])
        return -v if isinstance(v, (int, float)) else None
    if x[0] in ("icast", "i2f", "fcast", "f2i"):
        return const_of(x[1])
    return None


BITS = {"b1": 1, "i8": 8, "u8": 8, "i16": 16, "u16": 16, "i32": 32, "u32": 32, "i64": 64, "u64": 64, "f32": 24, "f64": 53}


# ------------------------------------------------------------------ defaults and constants
DEFAULTS = [
    ("ClingoDL::PropagatorConfig", "C13 C12"), ("ClingoDL::ThreadConfig", "C13"), ("ClingoDL::Graph::Vertex", "C19 C01"), ("ClingoDL::Graph::EdgeState", "C19 C20"),
    ("ClingoDL::Graph*", "C01"), ("ClingoDL::ThreadStatistics", "C16"), ("ClingoDL::Statistics", "C16"), ("ClingoDL::DLPropagator::FactState", "C18"),
    ("ClingoDL::DLPropagator::ThreadState", "C13 C17"), ("ClingoDL::DLPropagator::VertexInfo", "C26"), ("ClingoDL::DLPropagator*", "C26 C18"),
    ("ClingoDL::Optim*", "C22"), ("ClingoDL::App*", "C22"), ("clingodl_theory", "C12 C13 C07"), ("*TheoryRewriter*", "C07"), ("ClingoDL::*EdgeAtom*", "C05"),
]
CONSTS = [("*invalid_edge_index", "C08"), ("*EPSILON*", "C04"), ("*THEORY*", "C04 C05 C07"), ("ClingoDL::SORT_EDGES", "C13"), ("ClingoDL::DECISON_MODE", "C14 C13"),
          ("ClingoDL::MUTEX_*", "C27 C13"), ("ClingoDL::PROPAGATE_*", "C13"), ("ClingoDL::CALCULATE_CC", "C13 C26")]


def props_by(table, name):
    import fnmatch
    out = set()
    name = name[2:] if name.startswith("R:") else name
    base = name.split("<")[0]
    for pat, ps in table:
        if fnmatch.fnmatchcase(base, pat):
            out |= set(ps.split())
    return out


@rule("defaults", "initial values of fields and constants",
      "every field with a default initialiser and every named constant starts with the reviewed value, and no numeric field is narrower than reviewed")
def defaults(ctx, rep, pid):
    for n, r in ctx.ref.records.items():
        if pid not in props_by(DEFAULTS, n):
            continue
        c = ctx.cur.records.get(n)
        if c is None:
            continue
        cf = {f["name"]: f for f in c["fields"]}
        for f in r["fields"]:
            g = cf.get(f["name"])
            if g is None:
                continue
            loc = ctx.cur.unit[n].loc(g.get("loc"))
            if f["type"] in BITS and g["type"] in BITS:
                rep.ok()
                if BITS[g["type"]] < BITS[f["type"]] or (f["type"][0] == "i" and g["type"][0] == "u" and BITS[g["type"]] == BITS[f["type"]]):
                    rep.bad(n, loc, "type of field %s" % f["name"], g["type"], "at least %s" % f["type"])
            if "init" in f:
                want = const_of(f["init"])
                if want is None:
                    continue
                if "init" in g:
                    have = const_of(g["init"])
                    rep.ok(1, {"record": n, "field": f["name"], "value": want})
                    if have is not None and have != want:
                        rep.bad(n, loc, "initial value of field %s" % f["name"], have, want)
                elif g["type"] in BITS or g["type"].startswith(("E:", "*")):
                    rep.ok()
                    if not any(it[0] == "field" and it[1] == f["name"] for q in ctx.cur.functions.values() if q.get("cls") == n and q["name"].endswith("(ctor)")
                               for it in q.get("inits") or []):
                        rep.bad(n, loc, "initial value of field %s" % f["name"], "none", want)
    for n, g in ctx.ref.globals.items():
        if pid not in props_by(CONSTS, n) or not g["const"] or "init" not in g:
            continue
        h = ctx.cur.globals.get(n)
        if h is None or "init" not in h:
            continue
        want, have = const_of(g["init"]), const_of(h["init"])
        if want is None or have is None:
            continue
        rep.ok(1, {"constant": n, "value": str(want)[:60]})
        if want != have:
            rep.bad(n, ctx.cur.unit["G:" + n].loc(h.get("loc")), "value of constant %s" % n, have, want)


# ------------------------------------------------------------------ statics
@rule("statics", "no mutable state outside of objects",
      "every variable with static storage is constant, or private to a thread and cleared before it is used in the function declaring it")
def statics(ctx, rep):
    for n, g in ctx.cur.globals.items():
        rep.ok(1, {"variable": n, "constant": g["const"], "thread_local": g["thread"]})
        p = ctx.cur.unit["G:" + n]
        if g["const"] or g["constexpr"]:
            continue
        loc = p.loc(g.get("loc"))
        if not g["thread"]:
            rep.bad(n.split("::")[-1], loc, "variable %s with static storage is mutable" % n, "static, not constant", "state belonging to an object")
            continue
        # thread local: cleared first
        users = []
        for f in p.functions.values():
            if not real(f):
                continue
            refs = [x for b in bodies(f) for x in walk(b) if x[0] == "glob" and x[3] == g["id"]]
            if refs:
                users.append(f)
        for f in users:
            rep.ok()
            if not cleared_first(f["body"], g["id"]):
                rep.bad(f["name"], p.loc(f["loc"]), "thread local %s carries information between calls" % n, "used before it is cleared", "cleared first")
    for n, r in ctx.cur.records.items():
        for f in r["fields"]:
            if f.get("mutable"):
                rep.ok()
                if not any(x["name"] == f["name"] and x.get("mutable") for x in ctx.ref.records.get(n, {"fields": []})["fields"]):
                    rep.notes.append("mutable field %s::%s" % (n, f["name"]))


def refs_glob(x, gid):
    return any(y[0] == "glob" and y[3] == gid for y in walk(x))


def cleared_first(body, gid):
    """the first statement (in a block at top level) using the variable clears it"""
    for s in body[1] if body[0] == "block" else [body]:
        if not refs_glob(s, gid):
            continue
        if s[0] == "decl":
            continue
        if s[0] == "expr":
            e = s[1]
            if e[0] == "mcall" and e[1]["name"].endswith("::clear") and e[2][0] == "glob":
                return True
            if e[0] in ("assign", "opcall") and refs_glob(e[1] if e[0] == "assign" else e[3][0], gid):
                return True
            return False
        if s[0] == "block":
            return cleared_first(s, gid)
        return False
    return True


# ------------------------------------------------------------------ threads
SHARED = {"ClingoDL::DLPropagator", "ClingoDL::DLPropagator::VertexInfo", "ClingoDL::Edge", "ClingoDL::EdgeAtom", "ClingoDL::PropagatorConfig", "ClingoDL::ThreadConfig",
          "ClingoDL::Statistics", "DLPropagatorFacade", "PropagatorFacade", "clingodl_theory"}
SEARCH = ("ClingoDL::DLPropagator::propagate", "ClingoDL::DLPropagator::undo", "ClingoDL::DLPropagator::check", "ClingoDL::DLPropagator::decide",
          "ClingoDL::DLPropagator::extend_model", "ClingoDL::DLPropagator::lower_bound", "ClingoDL::DLPropagator::has_lower_bound")


@rule("threads", "search callbacks write only per-thread state",
      "no function reachable from the callbacks used during search writes a field of a record shared by the threads or a variable with static storage")
def threads(ctx, rep):
    P = ctx.cur
    reach = {}
    for f in P.functions.values():
        if f["name"] in SEARCH and real(f):
            todo = [f["key"]]
            while todo:
                k = todo.pop()
                if k in reach:
                    continue
                g = P.functions.get(k)
                if g is None or g.get("body") is None:
                    continue
                reach[k] = f["name"]
                todo.extend(P.own(g).callees)
    for k, root in sorted(reach.items()):
        f = P.functions[k]
        o = P.own(f)
        rep.ok(1, {"function": f["name"], "reached_from": root, "fields_written": sorted("%s::%s" % m for m in o.mods)[:8]})
        for r, fld in sorted(o.mods | o.retmods if False else o.mods):
            if r in SHARED:
                rep.bad(f["name"], P.where(f), "writes %s::%s while searching (reached from %s)" % (r, fld, root), "write", "shared state is only read during search")
        for b in bodies(f):
            for x in walk(b):
                if x[0] == "glob" and not x[2].startswith("c:"):
                    g = P.globals.get(x[1])
                    if g is not None and not g["const"] and not g["constexpr"] and not g["thread"]:
                        rep.bad(f["name"], P.where(f, x[4]), "uses mutable variable %s shared by all threads" % x[1], "access", "none")
                if x[0] == "cast" and x[1] == "ConstCast":
                    pass


# ------------------------------------------------------------------ results
def discarded(body):
    """(call node) whose value is dropped, including variables never read"""
    out = []
    reads, decls = {}, {}
    for x in walk(body):
        if x[0] == "var" and len(x) == 4:
            reads[x[1]] = reads.get(x[1], 0) + 1
        elif x[0] == "var" and len(x) == 6:
            decls[x[1]] = x
    lhs = {}
    for x in walk(body):
        if x[0] == "assign" and x[1] and x[1][0] == "var":
            lhs.setdefault(x[1][1], []).append(x[2])

    def top(e):
        """calls whose value is the value of e (dropped with it)"""
        while isinstance(e, list) and e and e[0] in ("tmp", "up", "ld", "void", "tobool", "icast"):
            e = e[1]
        if not isinstance(e, list) or not e:
            return []
        if e[0] in ("call", "mcall", "opcall"):
            return [e]
        if e[0] == "cond":
            return top(e[2]) + top(e[3])
        if e[0] == "bin" and e[1] in ("&&", "||"):
            return top(e[3])
        if e[0] == "bin" and e[1] == ",":
            return top(e[2]) + top(e[3])
        return []

    for x in walk(body):
        if x[0] == "expr":
            out.extend(top(x[1]))
        elif x[0] == "void":
            out.extend(top(x[1]))
        elif x[0] == "bin" and x[1] == ",":
            out.extend(top(x[2]))
        elif x[0] == "for" and x[3] is not None:
            out.extend(top(x[3]))
    for vid, d in decls.items():
        n = reads.get(vid, 0) - len(lhs.get(vid, ()))
        if n <= 0 and d[4] is not None:
            out.extend(top(d[4]))
            for e in lhs.get(vid, ()):
                out.extend(top(e))
    seen, res = set(), []
    for e in out:
        if id(e) not in seen:
            seen.add(id(e))
            res.append(e)
    return res


def lambda_bodies(body):
    for x in walk(body):
        if x[0] == "lambda":
            if x[2]:
                yield x[2]


def failing(ctx, basepred):
    """keys of repo functions that hand on the result of a base call"""
    P = ctx.cur
    s = set()
    ch = True
    while ch:
        ch = False
        for k, f in P.functions.items():
            if k in s or not real(f) or f.get("ret") != "b1":
                continue
            for b in bodies(f):
                for x in walk(b):
                    ci = callinfo(x)
                    if ci and (basepred(ci[0]) or ci[0].get("key") in s):
                        s.add(k)
                        ch = True
                        break
                if k in s:
                    break
    return s


@rule("clause_results", "results of adding clauses are used",
      "the Boolean result of every call that adds or propagates clauses, and of every function handing such a result on, is tested or returned")
def clause_results(ctx, rep):
    P = ctx.cur
    base = lambda i: i["name"] in ("Clingo::PropagateControl::add_clause", "Clingo::PropagateControl::propagate", "Clingo::PropagateInit::add_clause",
                                   "Clingo::PropagateInit::propagate", "clingo_propagate_control_add_clause", "clingo_propagate_init_add_clause")
    hand = failing(ctx, base)
    # functions that by their nature do not report
    for k, f in sorted(P.functions.items()):
        if not real(f):
            continue
        n = 0
        for b in bodies(f):
            dropped = {id(x) for x in discarded(b)}
            for x in walk(b):
                ci = callinfo(x)
                if not ci:
                    continue
                if base(ci[0]) or (ci[0].get("key") in hand and reports(P.functions[ci[0]["key"]])):
                    n += 1
                    if id(x) in dropped:
                        rep.bad(f["name"], P.where(f, ci[3]), "result of %s" % sname(ci[0]["name"]), "dropped", "tested or returned")
        if n:
            rep.ok(n, {"function": f["name"], "calls": n})


def reports(f):
    return f.get("ret") == "b1"


@rule("api_results", "failures of C functions are handled",
      "the result of every call of a C function that reports failure through a Boolean is handed to the error handler, tested or returned")
def api_results(ctx, rep):
    P = ctx.cur
    for k, f in sorted(P.functions.items()):
        if not real(f):
            continue
        n = 0
        for b in bodies(f):
            dropped = {id(x) for x in discarded(b)}
            for x in walk(b):
                if x[0] == "icall" and x[4] == "b1":
                    n += 1
                    if id(x) in dropped or in_expr(b, x):
                        rep.bad(f["name"], P.where(f, x[3]), "result of an indirect call", "dropped", "tested or returned")
                ci = callinfo(x)
                if not ci or x[0] != "call":
                    continue
                nm = ci[0]["name"]
                if ci[0]["ret"] == "b1" and (nm.startswith("clingo_") or nm.startswith("clingodl_")) and nm not in PREDICATES:
                    n += 1
                    if id(x) in dropped:
                        if nm == "clingodl_destroy" and f["name"].endswith("(dtor)"):
                            continue
                        rep.bad(f["name"], P.where(f, ci[3]), "result of %s" % nm, "dropped", "tested or returned")
        if n:
            rep.ok(n, {"function": f["name"], "calls": n})


PREDICATES = {"clingodl_lookup_symbol", "clingodl_assignment_next", "clingodl_assignment_has_value", "clingo_assignment_is_total", "clingo_assignment_has_conflict"}


def in_expr(body, node):
    for x in walk(body):
        if x[0] in ("expr", "void"):
            e = x[1]
            while isinstance(e, list) and e and e[0] in ("tmp", "up", "ld", "void", "tobool"):
                e = e[1]
            if e is node:
                return True
    return False


# ------------------------------------------------------------------ exceptions
THROWING = re.compile(r"^std::(stoi|stol|stoul|stoll|stoull|stof|stod)$|::at$|^std::(basic_)?optional::value$|^std::get$")


class Throws:
    """may a construct raise an exception of its own (running out of memory aside)"""

    def __init__(self, P):
        self.P = P
        self.memo = {}

    def fn(self, key):
        if key in self.memo:
            return self.memo[key]
        self.memo[key] = None
        f = self.P.functions.get(key)
        r = None
        if f is not None:
            for b in bodies(f):
                r = r or self.stmt(b)
        self.memo[key] = r
        return r

    def stmt(self, x):
        """first construct outside of a catch-all, as text"""
        if isinstance(x, dict):
            return None
        if not isinstance(x, list) or not x:
            return None
        if isinstance(x[0], str):
            k = x[0]
            if k == "try":
                if any(h[0] == "..." for h in x[2]):
                    for h in x[2]:
                        r = self.stmt(h[1])
                        if r:
                            return r
                    return None
            if k == "lambda":
                return None
            if k == "throw":
                return "throw at line %s" % (x[3][1] if x[3] else "?")
            ci = callinfo(x)
            if ci:
                r = self.callee(ci[0], x)
                if r:
                    return r
        for y in x:
            if isinstance(y, list):
                r = self.stmt(y)
                if r:
                    return r
        return None

    def callee(self, i, x):
        f = self.P.functions.get(i.get("key"))
        if f is not None and f.get("body") is not None:
            r = self.fn(i["key"])
            return "%s: %s" % (sname(i["name"]), r) if r else None
        n = i["name"]
        if i.get("noexcept"):
            return None
        if THROWING.search(n):
            return "call of %s" % n
        if n.startswith("Clingo::") and "(dtor)" not in n and "(ctor)" not in n and not n.startswith("Clingo::Detail::handle_cxx_error"):
            if n in NOTHROW_CLINGO:
                return None
            return "call of %s" % n
        return None


NOTHROW_CLINGO = {"Clingo::PropagateControl::thread_id", "Clingo::PropagateControl::assignment", "Clingo::Span::begin", "Clingo::Span::end", "Clingo::Span::size", "Clingo::Span::empty",
                  "Clingo::Span::operator[]", "Clingo::begin", "Clingo::end", "Clingo::Symbol::to_c", "Clingo::Model::to_c", "Clingo::Assignment::decision_level",
                  "Clingo::operator==", "Clingo::operator!=", "Clingo::operator<", "Clingo::Symbol::hash", "Clingo::Assignment::size"}


def nothrow_doc(root):
    """functions documented not to throw in the public header"""
    out = set()
    p = os.path.join(root, "libclingo-dl/clingo-dl.h")
    t = open(p).read()
    pend = False
    for l in t.splitlines():
        s = l.strip()
        if s.startswith("//"):
            if "does not throw" in s:
                pend = True
            continue
        m = re.search(r"\b(clingodl_\w+)\(", s)
        if m and "typedef" not in s:
            if pend:
                out.add(m.group(1))
            pend = False
        elif not s:
            pend = False
    return out


def c_callbacks(P):
    """functions handed to C code: key -> where"""
    out = {}
    for f in P.functions.values():
        if not real(f):
            continue
        for b in bodies(f):
            for x in walk(b):
                hits = []
                ci = callinfo(x)
                if ci and x[0] == "call" and (ci[0]["name"].startswith("clingo_") or ci[0]["name"].startswith("clingodl_")):
                    hits = ci[2]
                elif x[0] == "init" and isinstance(x[1], str) and x[1].startswith("R:clingo_"):
                    hits = [y[1] for y in x[2]]
                elif x[0] == "assign" and x[1] and x[1][0] == "mem" and x[1][5].startswith("clingo_"):
                    hits = [x[2]]
                for h in hits:
                    for y in walk(h):
                        if y[0] == "fn":
                            out[y[1]["key"]] = f["name"]
    return out


def after(body, t):
    """the return statement that is reached once the given statement ends"""
    nxt = []

    def go(s, rest):
        if s is t:
            nxt.append(rest)
        elif s[0] == "block":
            for i, c in enumerate(s[1]):
                go(c, s[1][i + 1:] + rest)
        elif s[0] in ("if", "label"):
            for c in s:
                if isinstance(c, list) and c and isinstance(c[0], str):
                    go(c, rest)

    go(body, [])
    for rest in nxt:
        for s in rest:
            if s[0] == "return":
                return [s]
            if s[0] not in ("decl", "expr", "nop"):
                return []
    return []


@rule("exceptions", "exceptions stay inside",
      "in every function of the C interface and every callback handed to C code, each construct of this library that may raise an exception is enclosed by a handler for all "
      "exceptions, which registers the error and returns false; functions documented not to throw contain no such construct")
def exceptions(ctx, rep):
    P = ctx.cur
    T = Throws(P)
    doc = nothrow_doc(ctx.repo)
    refdoc = nothrow_doc(ctx.ref_root)
    cbs = c_callbacks(P)
    for k, f in sorted(P.functions.items()):
        if not real(f):
            continue
        isapi = f.get("externc") and f["name"].startswith("clingodl_")
        if not isapi and k not in cbs:
            continue
        rep.ok(1, {"function": f["name"], "kind": "interface" if isapi else "callback given in " + cbs[k], "documented_not_to_throw": f["name"] in doc | refdoc})
        r = None
        for b in bodies(f):
            r = r or T.stmt(b)
        if r:
            rep.bad(f["name"], P.where(f), "exception may leave the function", r, "caught and turned into an error")
        for b in bodies(f):
            for x in walk(b):
                if x[0] != "try":
                    continue
                for h in x[2]:
                    rep.ok()
                    cs = {callinfo(y)[0]["name"] for y in walk(h[1]) if callinfo(y)}
                    deep = set(cs)
                    for y in walk(h[1]):
                        ci = callinfo(y)
                        if ci and ci[0].get("key") in P.functions:
                            for z in bodies(P.functions[ci[0]["key"]]):
                                deep |= {callinfo(w)[0]["name"] for w in walk(z) if callinfo(w)}
                    rets = [y for y in walk(h[1]) if y[0] == "return"]
                    if not rets:
                        rets = after(b, x)
                    if f.get("ret") == "b1":
                        if not ({"Clingo::Detail::handle_cxx_error", "clingo_set_error"} & deep):
                            rep.bad(f["name"], P.where(f, x[3]), "handler does not register the error", sorted(cs), "handle_cxx_error or clingo_set_error")
                        if not rets or any(const_of(y[1]) == 1 for y in rets):
                            rep.bad(f["name"], P.where(f, x[3]), "handler result", "not false", "return false")


# ------------------------------------------------------------------ header
CT = {"b1": "bool", "void": "void", "u64": ("uint64_t", "size_t", "clingo_symbol_t"), "u32": ("uint32_t",), "i32": ("int", "int32_t")}


@rule("header", "header, library and binding agree",
      "every function declared in the public header is defined with C linkage and the declared parameter types, is listed in the binding with the same types, enumerators agree, "
      "and the reported version is the one of the header")
def header(ctx, rep):
    decl = {}
    for n, u in ctx.us.items():
        for d in u.cur.decls:
            if d.get("externc") and d["name"].startswith("clingodl_"):
                decl.setdefault(d["name"], (d, u.cur))
    defs = {f["name"]: f for f in ctx.cur.functions.values() if f.get("externc") and real(f) and f["name"].startswith("clingodl_")}
    refdecl = {d["name"] for u in ctx.us.values() for d in u.ref.decls if d.get("externc") and d["name"].startswith("clingodl_")}
    for n in sorted(refdecl - set(decl)):
        rep.bad(n, "libclingo-dl/clingo-dl.h", "declaration", "none", "declared in the header")
    btext = open(os.path.join(ctx.repo, "libpyclingo-dl/_clingodl.c")).read()
    bind = {}
    for m in re.finditer(r"^static ([\w \t*]*?)[ \t]*_cffi_d_(clingodl_\w+)\(([^{]*?)\)\s*\{", btext, re.M):
        bind[m.group(2)] = (m.group(1).strip(), m.group(3))
    for n, (d, p) in sorted(decl.items()):
        loc = p.loc(d["loc"])
        rep.ok(1, {"function": n, "returns": d["ret"], "parameters": [t for _, t in d["params"]]})
        f = defs.get(n)
        if f is None:
            rep.bad(n, loc, "definition", "none with C linkage", "defined")
            continue
        if f["ret"] != d["ret"] or [x["type"].replace("c:", "", 1) if x["type"].startswith("c:") else x["type"] for x in f["params"]] != [t for _, t in d["params"]]:
            rep.bad(n, ctx.cur.where(f), "signature", (f["ret"], [x["type"] for x in f["params"]]), (d["ret"], [t for _, t in d["params"]]))
        if n not in bind:
            rep.bad(n, "libpyclingo-dl/_clingodl.c", "binding", "none", "declared in the binding")
            continue
        want = [canon_type(t) for _, t in d["params"]]
        have = [canon_c(t) for t in split_params(bind[n][1])]
        rep.ok()
        if want != have or canon_type(d["ret"]) != canon_c(bind[n][0] + " x"):
            rep.bad(n, "libpyclingo-dl/_clingodl.c", "binding signature", (bind[n][0], have), (canon_type(d["ret"]), want))
        if '{ "%s",' % n not in btext:
            rep.bad(n, "libpyclingo-dl/_clingodl.c", "binding table", "missing", "listed")
    for n in sorted(set(bind) - set(decl)):
        rep.bad(n, "libpyclingo-dl/_clingodl.c", "binding of an undeclared function", n, "declared in the header")
    # enumerators
    hdr = open(os.path.join(ctx.repo, "libclingo-dl/clingo-dl.h")).read()
    rhdr = open(os.path.join(ctx.ref_root, "libclingo-dl/clingo-dl.h")).read()
    for u in list(ctx.us.values())[3:4]:
        ce = {e["name"]: dict(map(tuple, e["consts"])) for e in u.cur.data["enums"] if e["name"].startswith("clingodl_")}
        re_ = {e["name"]: dict(map(tuple, e["consts"])) for e in u.ref.data["enums"] if e["name"].startswith("clingodl_")}
        for n, cs in re_.items():
            for c, v in cs.items():
                rep.ok()
                if ce.get(n, {}).get(c) != v:
                    rep.bad(n, "libclingo-dl/clingo-dl.h", "enumerator %s" % c, ce.get(n, {}).get(c), v)
    # version
    mac = dict(re.findall(r"#define (CLINGODL_VERSION(?:_\w+)?) (.*)", hdr))
    parts = [mac.get("CLINGODL_VERSION_" + x, "").strip() for x in ("MAJOR", "MINOR", "REVISION")]
    rep.ok(1, {"version": mac.get("CLINGODL_VERSION"), "parts": parts})
    if mac.get("CLINGODL_VERSION", "").strip() != '"%s"' % ".".join(parts):
        rep.bad("CLINGODL_VERSION", "libclingo-dl/clingo-dl.h", "version string", mac.get("CLINGODL_VERSION"), ".".join(parts))
    f = defs.get("clingodl_version")
    if f is not None:
        got = {}
        for x in walk(f["body"]):
            if x[0] == "assign" and x[1][0] == "un" and x[1][1] == "*":
                v = [y for y in walk(x[1]) if y[0] == "var"]
                c = const_of(x[2])
                if v and c is not None:
                    got[v[0][1]] = c
        for prm, want in zip(f["params"], parts):
            rep.ok()
            if prm["id"] in got and str(got[prm["id"]]) != want:
                rep.bad("clingodl_version", ctx.cur.where(f), "reported version (%s)" % prm["name"], got[prm["id"]], want)
    # value kinds and layout
    for u in list(ctx.us.values())[3:4]:
        for n, r in u.ref.records.items():
            if "clingodl_value" in n:
                c = u.cur.records.get(n)
                rep.ok()
                if c is None or [(f["name"], f["type"]) for f in c["fields"]] != [(f["name"], f["type"]) for f in r["fields"]]:
                    rep.bad(n, "libclingo-dl/clingo-dl.h", "layout", c and [(f["name"], f["type"]) for f in c["fields"]], [(f["name"], f["type"]) for f in r["fields"]])


def split_params(s):
    s = " ".join(s.split())
    if s in ("", "void"):
        return []
    out, d, cur = [], 0, ""
    for ch in s:
        if ch == "(":
            d += 1
        elif ch == ")":
            d -= 1
        if ch == "," and d == 0:
            out.append(cur.strip())
            cur = ""
        else:
            cur += ch
    out.append(cur.strip())
    return out


def canon_c(t):
    if "(*" in t or "( *" in t:
        return "*fn"
    t = re.sub(r"\bx\d*$", "", t.strip()).strip()
    stars = t.count("*")
    b = t.replace("*", " ").replace("const", " ").split()
    b = " ".join(b)
    b = {"_Bool": "bool", "char": "i8", "uint32_t": "u32", "uint64_t": "u64", "size_t": "u64", "clingo_symbol_t": "u64", "int": "i32", "unsigned long": "u64"}.get(b, b)
    if b.endswith("_t"):
        b = b[:-2]
    b = {"clingo_statistics": "clingo_statistic"}.get(b, b)  # typedef struct clingo_statistic clingo_statistics_t
    return "*" * stars + b


def canon_type(t):
    t = t.replace("c:", "").replace("R:", "").replace("b1", "bool")
    return t


# ------------------------------------------------------------------ mirror
MIRROR = [("from", "to"), ("outgoing", "incoming"), ("lower", "upper"), ("less", "greater")]


def mirror_name(n):
    toks = re.split(r"(_)", n)
    out = []
    for t in toks:
        for a, b in MIRROR[:3]:
            if t == a:
                t = b
                break
            if t == b:
                t = a
                break
        out.append(t)
    return "".join(out)


@rule("mirror", "directions use mirrored data",
      "for each accessor of the two directions of the constraint graph, the fields used in one direction are the mirror image of the fields used in the other")
def mirror(ctx, rep):
    P = ctx.cur
    by = {}
    for f in P.functions.values():
        if real(f) and f["name"].startswith("ClingoDL::Graph::Impl::"):
            c = f.get("cls") or ""
            d = "From" if "ClingoDL::From>" in c else "To" if "ClingoDL::To>" in c else None
            if d:
                vt = re.search(r"Graph<(\w+)>", c)
                sig = (f["name"], c.replace("ClingoDL::From>", "#").replace("ClingoDL::To>", "#"), str(f.get("targs")), len(f["params"]), f.get("const"))
                by.setdefault(sig, {})[d] = f
    for sig, ds in sorted(by.items(), key=str):
        if len(ds) != 2 or nloops(ds["From"]["body"]):
            continue
        a, b = fields_used(ds["From"]), fields_used(ds["To"])
        ma = sorted(mirror_name(x) for x in a)
        rep.ok(1, {"accessor": sname(sig[0]), "from": a, "to": b})
        if ma != sorted(b):
            # one may be written with arithmetic instead: only names with a mirror image count
            x = sorted(n for n in set(ma) ^ set(b) if mirror_name(n) != n)
            if x:
                rep.bad(sig[0], P.where(ds["To"]), "fields used for the transposed graph", sorted(b), ma)


def nloops(b):
    return any(x[0] in ("for", "while", "do", "range") for x in walk(b))


def fields_used(f):
    out = []
    for b in bodies(f):
        for x in walk(b):
            if x[0] == "mem":
                out.append(x[2])
            ci = callinfo(x)
            if ci and ci[0].get("repo") and mirror_name(ci[0]["name"].split("::")[-1]) != ci[0]["name"].split("::")[-1]:
                out.append(ci[0]["name"].split("::")[-1])
    return sorted(out)


# ------------------------------------------------------------------ statistics
@rule("stats", "every counter is reset, accumulated and reported",
      "each numeric field of the statistics records is written by reset (or the whole record is), accumulated by accu and read by the function reporting statistics")
def stats(ctx, rep):
    P = ctx.cur
    for rn in ("R:ClingoDL::Statistics", "R:ClingoDL::ThreadStatistics"):
        r = P.records.get(rn)
        if r is None:
            continue
        fns = {m: [f for f in P.functions.values() if real(f) and f.get("cls") == rn and f["name"].endswith("::" + m)] for m in ("reset", "accu")}
        rep_fns = [f for f in P.functions.values() if real(f) and ("add_statistics_" in f["name"] or "on_statistics" in f["name"])]
        for fld in r["fields"]:
            for m, fs in fns.items():
                for f in fs:
                    used, whole = closure_fields(P, f)
                    rep.ok(1, {"field": fld["name"], "function": f["name"]})
                    if (rn[2:], fld["name"]) not in used and not (whole and m == "reset"):
                        rep.bad(f["name"], P.where(f), "statistics field %s" % fld["name"], "not handled", "handled")
            if rep_fns:
                used = set()
                for f in rep_fns:
                    used |= closure_fields(P, f)[0]
                rep.ok()
                if (rn[2:], fld["name"]) not in used:
                    rep.bad(rep_fns[0]["name"], P.where(rep_fns[0]), "statistics field %s" % fld["name"], "not reported", "reported")


def closure_fields(P, f):
    used, seen, todo, whole = set(), set(), [f["key"]], False
    while todo:
        k = todo.pop()
        if k in seen:
            continue
        seen.add(k)
        g = P.functions.get(k)
        if g is None:
            continue
        for b in bodies(g):
            for x in walk(b):
                if x[0] == "mem":
                    used.add((base_name(x[5]), x[2]))
                if x[0] == "opcall" and x[1] == "=" and any(y[0] == "this" for y in walk(x[3][0])):
                    whole = True
                ci = callinfo(x)
                if ci and ci[0].get("repo"):
                    todo.append(ci[0]["key"])
    return used, whole


# ------------------------------------------------------------------ arithmetic
@rule("checked", "arithmetic on program numbers is checked",
      "in the functions reading and normalising constraints, integer additions, subtractions, multiplications, divisions, remainders and negations of program numbers go through the "
      "checked helpers; no number is converted to a smaller type unchecked")
def checked(ctx, rep):
    P, R = ctx.cur, ctx.ref

    def scan(M):
        out = {}
        sites = {}
        for f in M.functions.values():
            if not real(f):
                continue
            fl = M.unit[f["key"]].files[f["loc"][0]]
            n = sname(f["name"])
            if not (fl.endswith("parsing.cc") or n.startswith("DLPropagator::normalize") or n.startswith("DLPropagator::add_edges_") or n.startswith("DLPropagator::add_constraints_")):
                continue
            if "f64" in str(f.get("cls")) or str(f.get("targs")).startswith("f64"):
                continue
            c = 0
            for b in bodies(f):
                for x in walk(b):
                    if x[0] == "bin" and x[1] in ("+", "-", "*", "/", "%") and x[4] == "i32" and not (const_of(x[2]) is not None and const_of(x[3]) is not None):
                        k = (n, x[1])
                    elif x[0] == "opassign" and x[1] in ("+", "-", "*", "/", "%") and x[4] == "i32":
                        k = (n, x[1])
                    elif x[0] == "un" and x[1] == "-" and x[3] == "i32" and not literal_negation(x):
                        k = (n, "neg")
                    elif x[0] == "icast" and x[2] in ("i64", "u64") and x[3] == "i32" and not a_size(x[1]):
                        k = (n, "narrow")
                    else:
                        continue
                    out[k] = out.get(k, 0) + 1
                    sites.setdefault(k, []).append((f, x))
        return out, sites
    co, cs = scan(P)
    ro, rs = scan(R)
    total = 0
    for f in P.functions.values():
        if real(f):
            for b in bodies(f):
                for x in walk(b):
                    ci = callinfo(x)
                    if ci and "safe_" in ci[0]["name"]:
                        total += 1
                        rep.ok(1, {"function": sname(f["name"]), "helper": sname(ci[0]["name"])})
    ops = {}
    for (n, o), c in co.items():
        ops[o] = ops.get(o, 0) + c
    rops = {}
    for (n, o), c in ro.items():
        rops[o] = rops.get(o, 0) + c
    for o, c in ops.items():
        rep.ok()
        if c > rops.get(o, 0):
            # operations that cannot overflow do not count
            c = unproven(ctx, P, cs, o)
            if c <= unproven(ctx, R, rs, o):
                continue
            for (n, p), fs in cs.items():
                if p == o and co[(n, p)] > ro.get((n, p), 0):
                    f, x = fs[-1]
                    l = next((y for y in reversed(x) if isinstance(y, list) and len(y) == 2 and all(isinstance(z, int) for z in y)), None)
                    rep.bad(f["name"], P.where(f, l), "unchecked operation %s on a program number" % o, "%d in the reading functions" % c, "%d (reviewed)" % rops.get(o, 0))
                    break
    rep.notes.append("unchecked operations in the reading functions (reviewed): %s" % json.dumps({"%s %s" % k: v for k, v in ro.items()}))


@rule("wraps", "differences of unsigned numbers",
      "no comparison depends on the difference of two unsigned quantities unless the difference is shown not to be negative (or the minuend is the size of a container)")
def wraps(ctx, rep):
    def scan(M):
        out = []
        for f in M.functions.values():
            if not real(f):
                continue
            for b in bodies(f):
                for x in walk(b):
                    if x[0] == "bin" and x[1] in ("<", "<=", ">", ">=", "==", "!="):
                        rep.ok(1, None)
                        todo = [x[2], x[3]]
                        while todo:
                            y = todo.pop()
                            if not isinstance(y, list) or not y:
                                continue
                            if y[0] in ("icast", "paren", "ld"):
                                todo.append(y[1])
                            elif y[0] == "bin" and y[1] in ("+", "-", "*"):
                                todo += [y[2], y[3]]
                                if y[1] == "-" and y[4] in ("u32", "u64") and const_of(y[3]) is None and not a_size(y[2]):
                                    out.append((f, y))
        return out
    cs, rs = scan(ctx.cur), scan(ctx.ref)
    if len(cs) > len(rs):
        if unproven(ctx, ctx.cur, {(0, 0): cs}, 0) > unproven(ctx, ctx.ref, {(0, 0): rs}, 0):
            f, y = cs[-1]
            rep.bad(f["name"], ctx.cur.where(f, y[-1]), "comparison with a difference of unsigned numbers that may wrap", "%d" % len(cs), "%d (reviewed)" % len(rs))


def unproven(ctx, M, sites, op):
    """operations of a kind that may overflow"""
    per = {}
    for (n, o), fs in sites.items():
        if o == op:
            for f, x in fs:
                per.setdefault(f["key"], (f, []))[1].append(x)
    n = 0
    for f, xs in per.values():
        n += len(xs) - len(equiv.fitting(ctx.us, M, f, xs))
    return n


def a_size(x):
    """number of elements"""
    while isinstance(x, list) and x and x[0] in ("icast", "paren", "ld"):
        x = x[1]
    ci = callinfo(x) if isinstance(x, list) else None
    return bool(ci) and sname(ci[0]["name"]).split("::")[-1] in ("size", "strlen", "distance", "operator-", "length", "count")


def literal_negation(x):
    return False


# ------------------------------------------------------------------ stale references
import stale  # noqa


@rule("stale", "no stale references",
      "along every path of every function, a reference, pointer or iterator into a container is not used after an operation that may move or remove its elements (directly or in a "
      "called function), and references kept by longer living objects are not invalidated in the function that hands them out")
def stale_rule(ctx, rep):
    stale.analyse(ctx.cur, rep)


# ------------------------------------------------------------------ python application
@rule("pyapp", "Python application",
      "the Python front end loads the binding under the library's prefix, registers the theory before rewriting, adds the rewritten statements, grounds, prepares and solves with both "
      "handlers, and the handlers and option functions forward to the theory")
def pyapp(ctx, rep):
    def facts(root):
        init = pyast.parse(open(os.path.join(root, "libpyclingo-dl/clingodl/__init__.py")).read())
        main = pyast.parse(open(os.path.join(root, "libpyclingo-dl/clingodl/__main__.py")).read())
        return pyfacts(init, "ClingoDLTheory"), pyfacts(main, "ClingoDLApp")
    ci, cm = facts(ctx.repo)
    ri, rm = facts(ctx.ref_root)
    for what, c, r, file in (("ClingoDLTheory", ci, ri, "__init__.py"), ("ClingoDLApp", cm, rm, "__main__.py")):
        for m, want in sorted(r.items()):
            have = c.get(m)
            rep.ok(1, {"method": "%s.%s" % (what, m), "calls": want[:6]})
            if have is None:
                if m.startswith("_") and not m.startswith("__init"):
                    continue
                rep.bad("%s.%s" % (what, m), "libpyclingo-dl/clingodl/" + file, "method", "missing", "defined")
            elif have != want:
                rep.bad("%s.%s" % (what, m), "libpyclingo-dl/clingodl/" + file, "calls made", have, want)


def pyfacts(tree, cls):
    """ordered library calls per public method, helper methods of the class inlined"""
    out = {}
    for c in tree.body:
        if not (isinstance(c, pyast.ClassDef) and c.name == cls):
            continue
        methods = {m.name: m for m in c.body if isinstance(m, pyast.FunctionDef)}
        for n, m in methods.items():
            if n.startswith("__") and n != "__init__" or n.startswith("_") and n != "__init__":
                continue
            out[n] = pycalls(m, methods, {n}, cls)
    return out


def pyexpr(e, methods, seen, cls, env):
    if isinstance(e, pyast.Constant):
        return repr(e.value)
    if isinstance(e, pyast.Name):
        return env.get(e.id, e.id)
    if isinstance(e, pyast.Attribute):
        b = pyexpr(e.value, methods, seen, cls, env)
        if b == "self" and e.attr in methods and e.attr not in seen:
            return "{" + "; ".join(pycalls(methods[e.attr], methods, seen | {e.attr}, cls)) + "}"
        return b + "." + e.attr
    if isinstance(e, pyast.Lambda):
        en = dict(env)
        for i, a in enumerate(e.args.args):
            en[a.arg] = "#%d" % i
        return "{" + "; ".join(exprcalls(e.body, methods, seen, cls, en)) + "}"
    if isinstance(e, pyast.Call):
        return pyexpr(e.func, methods, seen, cls, env) + "(" + ",".join([pyexpr(a, methods, seen, cls, env) for a in e.args] + sorted(
            "%s=%s" % (k.arg, pyexpr(k.value, methods, seen, cls, env)) for k in e.keywords)) + ")"
    if isinstance(e, (pyast.List, pyast.Tuple)):
        return "[" + ",".join(pyexpr(x, methods, seen, cls, env) for x in e.elts) + "]"
    return pyast.dump(e)[:80] if not isinstance(e, (pyast.GeneratorExp, pyast.ListComp)) else "comp"


def exprcalls(e, methods, seen, cls, env):
    out = []

    def visit(x):
        if isinstance(x, pyast.Lambda):
            return
        for ch in pyast.iter_child_nodes(x):
            visit(ch)
        if isinstance(x, pyast.Call):
            out.append(pyexpr(x, methods, seen, cls, env))
    visit(e)
    return out


def pycalls(m, methods, seen, cls):
    env = {}
    for i, a in enumerate(m.args.args):
        if a.arg != "self":
            env[a.arg] = "#%d" % (i - 1)
    out = []
    for s in m.body:
        if isinstance(s, pyast.Expr) and isinstance(s.value, pyast.Constant):
            continue
        for x in pyast.walk(s):
            if isinstance(x, pyast.withitem) and isinstance(x.optional_vars, pyast.Name):
                env[x.optional_vars.id] = pyexpr(x.context_expr, methods, seen, cls, env)
        if "write" in pyast.dump(s) or isinstance(s, (pyast.For,)):
            continue
        for x in stmts_exprs(s):
            out.extend(c for c in exprcalls(x, methods, seen, cls, env) if "theory" in c or "control" in c or "ast." in c or "super" in c or "#" in c)
    return out


def stmts_exprs(s):
    if isinstance(s, pyast.With):
        for i in s.items:
            yield i.context_expr
        for b in s.body:
            yield from stmts_exprs(b)
    elif isinstance(s, pyast.If):
        yield s.test
        for b in s.body + s.orelse:
            yield from stmts_exprs(b)
    else:
        for x in pyast.iter_child_nodes(s):
            if isinstance(x, pyast.expr):
                yield x

"""Loading of dumped translation units and whole program facts."""
import json
import re
from interp import strip_type, rec_base

RECS = re.compile(r"R:((?:[A-Za-z_][A-Za-z_0-9]*::)*[A-Za-z_][A-Za-z_0-9]*)")

ACCESSORS = {"operator[]", "at", "begin", "end", "front", "back", "data", "rbegin", "rend", "cbegin", "cend", "operator*", "operator->", "find",
             "equal_range", "get", "value"}


class Program:
    def __init__(self, path):
        d = json.load(open(path))
        self.data = d
        self.errors = d["errors"]
        self.files = d["files"]
        self.functions = {}
        self.byname = {}
        self.lambdas = {}
        for f in d["functions"]:
            f["file"] = self.files[f["loc"][0]] if f.get("loc") else "?"
            if f.get("bad"):
                f["body_bad"] = f["body"]
            self.functions[f["key"]] = f
            self.byname.setdefault(f["name"], []).append(f)
            if f.get("lambda"):
                self.lambdas.setdefault((f["loc"][0], f["loc"][1]), []).append(f)
        self.records = {}
        for r in d["records"]:
            self.records["R:" + r["name"] if not r["name"].startswith("R:") else r["name"]] = r
        self.decls = d.get("decls", [])
        self.constants = {}
        twice = set()
        for g in d.get("globals", ()):
            if g.get("const") and g.get("init") is not None:
                if g.get("local") and g["name"] in self.constants and str(self.constants[g["name"]]["init"]) != str(g["init"]):
                    twice.add(g["name"])
                self.constants[g["name"]] = g
        for n in twice:
            del self.constants[n]
        self._mods = {}
        self._memptrs = None
        self._outside = {}
        self._own = {}
        self._reads = {}

    def loc(self, l):
        if not l:
            return "?"
        if isinstance(l, list) and len(l) >= 2:
            return "%s:%s" % (self.files[l[0]], l[1])
        return str(l)

    def lambda_at(self, key, n):
        """instantiation of a generic lambda"""
        for f in self.functions.values():
            if f.get("lambda") and f["key"].startswith(key[:0] or "") and f.get("body"):
                pass
        return None

    def find_ctor(self, typ, n):
        cls = strip_type(typ)
        for f in self.functions.values():
            if f["name"].endswith("::(ctor)") and f.get("cls") == cls and len(f["params"]) == n and not f.get("implicit"):
                return f
        return None

    # ---------------------------------------------------------------- mod sets
    def own(self, f):
        k = f["key"]
        r = self._own.get(k)
        if r is None:
            r = Effects()
            self._own[k] = r
            # two rounds: which reference variables are modified, then the fields
            for _ in range(3):
                n = (len(r.vars), len(r.mods))
                w = Walker(self, r)
                w.walk(f.get("body"), False)
                for it in f.get("inits") or []:
                    w.walk(it[3], False)
                    if it[0] == "field" and f.get("cls"):
                        pass
                if n == (len(r.vars), len(r.mods)):
                    break
        return r

    def member_pointers(self):
        """(record, field) for the fields that pointers to members may select"""
        if self._memptrs is None:
            self._memptrs = set()
            for f in self.functions.values():
                stack = [f.get("body"), f.get("inits")]
                while stack:
                    x = stack.pop()
                    if isinstance(x, list):
                        if len(x) == 5 and x[0] == "memptr":
                            self._memptrs.add((base_name(x[3]), x[1], strip_type(x[4])))
                        stack.extend(x)
        return self._memptrs

    def selected(self, typ, rec):
        """(record, field) for the fields that a pointer to a member of the given type of the given record may select"""
        rec, names = strip_type(rec).lstrip("*"), set()
        todo = [strip_type(rec)]
        while todo:
            r = todo.pop()
            if base_name(r) not in names:
                names.add(base_name(r))
                todo.extend((self.records.get(strip_type(r)) or {"bases": ()})["bases"])
        known = {base_name(r) for r in self.records}
        return {(c, f) for c, f, t in self.member_pointers() if (c in names or base_name(rec) not in known) and t == strip_type(typ)}

    def mods(self, key):
        """transitive set of (record, field) possibly written"""
        if key in self._mods:
            return self._mods[key]
        seen, todo, acc = set(), [(key, False)], set()
        while todo:
            k, wr = todo.pop()
            if (k, wr) in seen:
                continue
            seen.add((k, wr))
            f = self.functions.get(k)
            if f is None:
                continue
            o = self.own(f)
            acc |= o.mods
            todo.extend((c, False) for c in o.callees)
            todo.extend((c, True) for c in o.wcallees)
            if wr:
                acc |= o.retmods
                todo.extend((c, True) for c in o.retcallees)
        self._mods[key] = acc
        return acc

    def reads(self, key):
        """transitive set of (record, field) mentioned"""
        r = self._reads.get(key)
        if r is None:
            seen, todo, r = set(), [key], set()
            while todo:
                k = todo.pop()
                if k in seen:
                    continue
                seen.add(k)
                f = self.functions.get(k)
                if f is None:
                    continue
                mentions(f.get("body"), r)
                for it in f.get("inits") or []:
                    mentions(it[3], r)
                todo.extend(self.own(f).callees)
            for x in [x for x in r if x[0] == ".*"]:
                r.discard(x)
                r |= self.selected(*x[1])
            self._reads[key] = r
        return r

    def outside(self, key):
        """may calling a function have an effect on something beyond the objects of this library"""
        if key in self._outside:
            return self._outside[key]
        seen, todo = {key}, [key]
        r = False
        while todo and not r:
            f = self.functions.get(todo.pop())
            if f is None or f.get("body") is None or f.get("bad"):
                r = True
                break
            stack = [f["body"], f.get("inits")]
            while stack:
                x = stack.pop()
                if isinstance(x, list):
                    stack.extend(x)
                elif isinstance(x, dict):
                    if "key" in x and "name" in x:
                        g = self.functions.get(x["key"])
                        if g is not None and g.get("body") is not None:
                            if x["key"] not in seen:
                                seen.add(x["key"])
                                todo.append(x["key"])
                        elif x.get("const") or x["name"].startswith("std::") and not x["name"].startswith("std::function"):
                            pass
                        else:
                            r = True
                    stack.extend(v for v in x.values() if isinstance(v, (list, dict)))
        self._outside[key] = r
        return r

    def param_modified(self, f, i):
        """is the referenced object of parameter i (or something it holds) possibly modified as a whole"""
        if i >= len(f["params"]):
            return True
        return f["params"][i]["id"] in self.own(f).vars


# library functions that do not copy the elements their parameter types name
NOCOPY = {"operator!=", "operator==", "operator<", "operator-", "operator+", "operator++", "operator--", "operator*", "operator->", "operator+=", "begin", "end",
          "rbegin", "rend", "empty", "size", "erase", "operator[]", "distance", "advance", "next", "prev"}


def mentions(x, acc):
    """(record, field) for the fields mentioned; (record, "*") for records copied as a whole"""
    stack = [x]
    while stack:
        y = stack.pop()
        if isinstance(y, list):
            if len(y) > 5 and y[0] == "mem":
                acc.add((base_name(y[5]), y[2]))
            if len(y) == 5 and y[0] == "memptr":
                acc.add((base_name(y[3]), y[1]))
            if len(y) > 5 and y[0] == "bin" and y[1] in (".*", "->*"):
                acc.add((".*", (y[4], y[5])))
            stack.extend(y)
        if isinstance(y, dict) and "key" in y:
            ts = list(y.get("ptypes") or ())
            if y.get("repo"):
                ts = [t for t in ts if not t.startswith("&") and not t.startswith("*")]
                if len(y.get("ptypes") or ()) == 1 and (y["name"].endswith("::(ctor)") or y["name"].endswith("operator=")):
                    ts = y["ptypes"]
            elif y["name"].split("::")[-1] in NOCOPY:
                continue
            for t in ts:
                for m in RECS.findall(t):
                    acc.add((m, "*"))


class Effects:
    def __init__(self):
        self.mods, self.callees, self.wcallees, self.vars, self.retmods, self.retcallees = set(), set(), set(), set(), set(), set()


def is_rec(t):
    b = rec_base(t)
    return b is not None and not b.startswith("std::")


def mutref(t):
    return t.startswith("&") and not t.lstrip("&").startswith("c:")


class Walker:
    def __init__(self, prog, eff):
        self.prog, self.e = prog, eff
        self.target = eff.mods
        self.callw = eff.wcallees

    def walk(self, x, w):
        if not isinstance(x, list) or not x:
            return
        k = x[0]
        if not isinstance(k, str):
            for y in x:
                self.walk(y, False)
            return
        m = getattr(self, "k_" + k, None)
        if m is not None:
            m(x, w)
            return
        for y in x[1:]:
            if isinstance(y, list):
                self.walk(y, False)

    def k_mem(self, x, w):
        if w and base_name(x[5]).startswith("std::"):
            self.walk(x[1], not x[3])
            return
        if w:
            self.target.add((base_name(x[5]), x[2]))
        self.walk(x[1], False)

    def k_ld(self, x, w):
        self.walk(x[1], False)

    def k_assign(self, x, w):
        self.walk(x[1], True)
        self.walk(x[2], False)

    def k_opassign(self, x, w):
        self.walk(x[2], True)
        self.walk(x[3], False)

    def k_un(self, x, w):
        if x[1] in ("++", "--", "++post", "--post"):
            self.walk(x[2], True)
        elif x[1] == "&":
            self.walk(x[2], x[2][0] in ("mem", "var"))
        else:
            self.walk(x[2], w and x[1] == "*")

    def value(self, x, typ):
        """an expression whose value is held by something of the given type"""
        if typ.startswith("*c:") and isinstance(x, list) and x and x[0] == "un" and x[1] == "&":
            # nothing is written through the address
            self.walk(x[2], False)
        else:
            self.walk(x, False)

    def k_bin(self, x, w):
        if x[1] in (".*", "->*"):
            if w:
                self.target |= self.prog.selected(x[4], x[5])
            self.walk(x[2], False)
            self.walk(x[3], False)
        else:
            self.k_up(x, w)

    def k_idx(self, x, w):
        self.walk(x[1], w)
        self.walk(x[2], False)

    def bind(self, vid, typ, init):
        """a reference bound to init"""
        if not typ.startswith("&") or not mutref(typ):
            self.value(init, typ)
            return
        self.walk(init, vid in self.e.vars)

    def k_var(self, x, w):
        if len(x) == 6 and isinstance(x[3], str) and isinstance(x[5], (bool, int)) and not isinstance(x[2], list):
            self.bind(x[1], x[3], x[4])
            return
        if w:
            self.e.vars.add(x[1])

    def k_decl(self, x, w):
        for d in x[1]:
            self.decl(d)

    def decl(self, d):
        if d[0] == "var":
            self.bind(d[1], d[3], d[4])
        elif d[0] == "decomp":
            ids = [b.get("id") for b in d[4]] + [b.get("hid") for b in d[4] if "hid" in b]
            self.walk(d[3], mutref(d[2]) and any(i in self.e.vars for i in ids))

    def k_range(self, x, w):
        d = x[1][1][0] if x[1] and x[1][0] == "decl" else x[1][0]
        if isinstance(d, list):
            t = d[3] if d[0] == "var" else d[2]
            ids = [d[1]] if d[0] == "var" else [b.get("id") for b in d[4]]
            self.walk(x[2], mutref(t) and any(i in self.e.vars for i in ids))
        else:
            self.walk(x[2], False)
        self.walk(x[4], False)

    def k_return(self, x, w):
        e = x[1]
        if e is None:
            return
        self.walk(e, False)
        sv = (self.target, self.callw)
        self.target, self.callw = self.e.retmods, self.e.retcallees
        vs = set(self.e.vars)
        self.walk(e, True)
        self.e.vars = vs
        self.target, self.callw = sv

    def args(self, info, args):
        for i, a in enumerate(args):
            pt = info["ptypes"][i] if i < len(info["ptypes"]) else "?"
            w = mutref(pt) and not pt.startswith("&&")
            if w:
                g = self.prog.functions.get(info["key"])
                if g is not None and g.get("body") is not None and i < len(g["params"]):
                    w = g["params"][i]["id"] in self.prog.own(g).vars
                elif is_rec(pt):
                    w = False
            if w:
                self.walk(a, w)
            else:
                self.value(a, pt)

    def call(self, info, obj, arrow, args, w):
        self.e.callees.add(info["key"])
        if w:
            self.callw.add(info["key"])
        if obj is not None:
            sh = info["name"].split("::")[-1]
            if "operator" in info["name"]:
                sh = "operator" + info["name"].split("operator")[-1]
            if info.get("const"):
                self.walk(obj, False)
            elif info.get("repo"):
                self.walk(obj, sh == "operator=")
            elif sh in ACCESSORS:
                self.walk(obj, w)
            elif arrow:
                self.walk(obj, False)
            else:
                self.walk(obj, True)
        self.args(info, args)

    def k_mcall(self, x, w):
        self.call(x[1], x[2], x[3], x[4], w)

    def k_opcall(self, x, w):
        if x[2].get("method"):
            self.call(x[2], x[3][0], False, x[3][1:], w)
        else:
            self.call(x[2], None, False, x[3], w)

    def k_call(self, x, w):
        self.call(x[1], None, False, x[2], w)

    def k_ctor(self, x, w):
        self.e.callees.add(x[2]["key"])
        self.args(x[2], x[3])

    def k_fn(self, x, w):
        self.e.callees.add(x[1]["key"])

    def k_up(self, x, w):
        for y in x[1:]:
            self.walk(y, w)

    k_tmp = k_cast = k_cond = k_void = k_up


def base_name(t):
    t = strip_type(t)
    if t.startswith("R:"):
        t = t[2:]
    return t.split("<")[0]

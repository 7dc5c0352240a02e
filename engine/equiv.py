"""Comparison of the current sources with the reviewed reference, function by function."""
import itertools
import os
import signal
import sys
import time
import traceback
import multiprocessing as mp

sys.setrecursionlimit(20000)
from interp import Engine, Undecided, strip_type
from program import Program
import compare as CMP
import spec
from compare import Compare, Fuzzy, Diff

LIMIT = {"quick": 75, "thorough": 400}


class Timeout(Exception):
    pass


def on_alarm(*_):
    raise Timeout()


def nstmts(x):
    n = 0
    stack = [x]
    while stack:
        y = stack.pop()
        if isinstance(y, list):
            if y and isinstance(y[0], str):
                if y[0] in ("expr", "decl", "if", "return", "for", "while", "do", "range", "switch", "throw", "try", "assign"):
                    n += 1
                if y[0] in ("for", "while", "do", "range"):
                    n += 3
            stack.extend(y)
    return n


def has_lambda(f):
    return any("lambda" in p["type"] for p in f["params"]) or "lambda" in str(f.get("targs"))


def wanted(f):
    return f.get("body") is not None and not f.get("implicit") and not f.get("lambda") and "(lambda)" not in f["name"]


def shape(f):
    return (f["name"], (f.get("cls") or "").split("<", 1)[-1], str(f.get("targs")), len(f["params"]))


def match(cur, ref):
    """pairs (current function, reference function) denoting the same operation"""
    a = {f["key"]: f for f in cur.functions.values() if wanted(f)}
    b = {f["key"]: f for f in ref.functions.values() if wanted(f)}
    pairs = [(a[k], b[k]) for k in b if k in a]
    ra = {}
    for k, f in a.items():
        if k not in b:
            ra.setdefault(shape(f), []).append(f)
    rb = {}
    for k, f in b.items():
        if k not in a:
            rb.setdefault(shape(f), []).append(f)
    for s, fs in rb.items():
        if len(fs) == 1 and len(ra.get(s, ())) == 1:
            pairs.append((ra[s][0], fs[0]))
    got = {y["key"] for _, y in pairs}
    missing = [f for k, f in b.items() if k not in got]
    return pairs, missing


def rename_fields(cur, ref):
    """map renamed fields of records onto the names of the reference"""
    ren = {}
    for n, r in ref.records.items():
        c = cur.records.get(n)
        if c is None:
            continue
        fr, fc = [(f["name"], f["type"]) for f in r["fields"]], [(f["name"], f["type"]) for f in c["fields"]]
        nr, nc = [x for x, _ in fr], [x for x, _ in fc]
        lost = [x for x in fr if x[0] not in nc]
        new = [x for x in fc if x[0] not in nr]
        if lost and len(lost) == len(new):
            if [t for _, t in lost] == [t for _, t in new]:
                for (o, _), (w, _) in zip(lost, new):
                    ren[(n[2:] if n.startswith("R:") else n, w)] = o
            else:
                for w, t in new:
                    os_ = [o for o, u in lost if u == t]
                    if len(os_) == 1 and sum(1 for _, u in new if u == t) == 1:
                        ren[(n[2:] if n.startswith("R:") else n, w)] = os_[0]
    return ren


def new_fields(cur, ref):
    """fields that no record of the reference has: what they are set to does not matter, what is done with their values does"""
    old = {f["name"] for r in ref.records.values() for f in r["fields"]}
    out = set()
    for n, r in cur.records.items():
        if n in ref.records:
            out |= {f["name"] for f in r["fields"] if f["name"] not in old}
    return out


def apply_renames(cur, ren):
    if not ren:
        return
    names = {}
    for (r, w), o in ren.items():
        names.setdefault(w, {})[r] = o
    from interp import strip_type
    stack = [f for f in cur.data["functions"]] + [r for r in cur.data["records"]]
    while stack:
        x = stack.pop()
        if isinstance(x, dict):
            stack.extend(x.values())
        elif isinstance(x, list):
            if len(x) > 5 and x[0] == "mem" and x[2] in names:
                t = strip_type(x[5])
                t = t[2:] if t.startswith("R:") else t
                o = names[x[2]].get(t)
                if o:
                    x[2] = o
            stack.extend(x)
    for f in cur.data["functions"]:
        for it in f.get("inits") or []:
            if it[0] == "field" and it[1] in names:
                t = strip_type(f.get("cls") or "")
                o = names[it[1]].get(t[2:] if t.startswith("R:") else t)
                if o:
                    it[1] = o
    for n, r in cur.records.items():
        for f in r["fields"]:
            o = ren.get((n[2:] if n.startswith("R:") else n, f["name"]))
            if o:
                f["name"] = o


class Unit:
    def __init__(self, name, cur, ref):
        self.name = name
        self.cur, self.ref = Program(cur), Program(ref)
        self.renamed = rename_fields(self.cur, self.ref)
        apply_renames(self.cur, self.renamed)
        CMP.IGNORED_FIELDS |= new_fields(self.cur, self.ref)
        self.pairs, self.missing = match(self.cur, self.ref)
        self.bc, self.br = {}, {}
        for x, y in self.pairs:
            if not has_lambda(x) and not has_lambda(y) and nstmts(y["body"]) >= 8:
                b = {"idle": True} if y["name"].endswith(spec.IDLE) else {}
                if not self.cur.outside(x["key"]) and not self.ref.outside(y["key"]):
                    b["bump"] = False
                self.bc[x["key"]] = b
                self.br[y["key"]] = b
        self.pairs = [(x, y) for x, y in self.pairs if not has_lambda(y)]


def getter(u, y):
    """how calls of a constant method from other translation units are seen"""
    try:
        ps = Engine(u.ref).summarise(y, "method")
    except Exception:
        return None
    if any(p.events or p.outcome[0] != "r" or p.outcome[1] is None or [w for w in p.state.wlog if not (isinstance(w[0], tuple) and w[0][0] in ("L", "C"))] for p in ps):
        return None
    return "inline" if len(ps) == 1 else "value"


def predicate(u, y):
    """free functions without effects over arguments that calls cannot change"""
    for p in y["params"]:
        t = p["type"]
        if t.startswith("*") and not t.startswith("*c:") or t.startswith("&") and not strip_type(t).startswith("R:Clingo::"):
            return None
    try:
        ps = Engine(u.ref).summarise(y, "free")
    except Exception:
        return None
    return "predicate" if all(quiet(p) for p in ps) else None


def link(us):
    """bodies of functions that other translation units define; functions of the C interface stay opaque"""
    kind = {}
    for u in us.values():
        for x, y in u.pairs:
            if x.get("const") and y.get("const") and y["key"] not in kind:
                kind[y["key"]] = kind[x["key"]] = getter(u, y)
            elif not y.get("cls") and x["key"] == y["key"] and y["key"] not in kind and y["ret"] == "b1":
                kind[y["key"]] = predicate(u, y)
    for side, bs in (("cur", "bc"), ("ref", "br")):
        home = {}
        for n, u in us.items():
            for k, f in getattr(u, side).functions.items():
                if f.get("body") is not None and not f.get("bad") and not f.get("externc") and f["name"] != "main" and not f["name"].endswith("tor)"):
                    home.setdefault(k, (u, f))
        for n, u in us.items():
            p = getattr(u, side)
            off = {}
            todo = [c for f in list(p.functions.values()) if wanted(f) for c in callees(f) if c in home]
            while todo:
                k = todo.pop()
                g = p.functions.get(k)
                if g is not None and g.get("body") is not None:
                    continue
                v, f = home[k]
                q = getattr(v, side)
                if v.name not in off:
                    off[v.name] = len(p.files)
                    p.files.extend(q.files)
                    for rn, r in q.records.items():
                        p.records.setdefault(rn, r)
                    for gn, c in q.constants.items():
                        p.constants.setdefault(gn, c)
                h = shift_locs(f, off[v.name])
                h["file"] = f["file"]
                p.functions[k] = h
                if kind.get(k) == "value":
                    getattr(u, bs)[k] = {"pure": True, "state": True}
                elif kind.get(k) == "predicate":
                    getattr(u, bs)[k] = {"pure": True, "obj": False}
                elif kind.get(k) != "inline":
                    getattr(u, bs)[k] = {} if v.cur.outside(k) or v.ref.outside(k) else {"bump": False}
                todo.extend(c for c in callees(h) if c in home and (c not in p.functions or p.functions[c].get("body") is None))
            p._mods, p._own, p._reads = {}, {}, {}


def callees(f):
    stack = [f.get("body"), f.get("inits")]
    while stack:
        x = stack.pop()
        if isinstance(x, list):
            stack.extend(x)
        elif isinstance(x, dict):
            if "key" in x:
                yield x["key"]
            stack.extend(v for v in x.values() if isinstance(v, (list, dict)))


def shift_locs(x, off):
    if isinstance(x, list):
        if len(x) == 2 and type(x[0]) is int and type(x[1]) is int and 0 <= x[0] < 1000:
            return [x[0] + off, x[1]]
        return [shift_locs(y, off) for y in x]
    if isinstance(x, dict):
        return {k: shift_locs(v, off) for k, v in x.items()}
    return x


class Result:
    def __init__(self, unit, fn, sig):
        self.unit, self.fn, self.sig = unit, fn, sig
        self.status = "ok"
        self.diffs = []
        self.fuzzy = []
        self.reason = ""
        self.obl = 0
        self.paths = (0, 0)
        self.loops = 0
        self.loc = None
        self.secs = 0.0


def once(u, x, y, ignore, perm, eng, nocount=False, closed=None, forks=0):
    CMP.forget()
    EC, ER = Engine(u.cur), Engine(u.ref)
    eng[:] = [EC, ER]
    EC.boundaries, ER.boundaries = u.bc, u.br
    if closed:
        EC.boundaries, ER.boundaries = dict(u.bc, **closed[0]), dict(u.br, **closed[1])
    ER.base = 100000
    EC.cperm = perm
    EC.nocount = ER.nocount = nocount
    EC.forks = ER.forks = forks
    EC.entry = ER.entry = spec.ENTRY.get(y["name"].replace("ClingoDL::", ""), ())
    mode = "method" if y.get("cls") else "free"
    pc = EC.summarise(x, mode)
    pr = ER.summarise(y, mode)
    C = Compare(EC, ER, ignore)
    return C, C.functions(pc, pr), pc, pr


def orders(ca, cb):
    ks = [k for k in sorted(ca) if 1 < max(ca[k], cb.get(k, 0)) <= 3 and k in cb]
    n = 0
    for ps in itertools.product(*[list(itertools.permutations(range(max(ca[k], cb[k])))) for k in ks]):
        if all(list(p) == sorted(p) for p in ps):
            continue
        n += 1
        if n > 12:
            return
        yield dict(zip(ks, ps))


CLOSED = {}


def closed_fns(u, root):
    """functions without effects that contain loops, are the same on both sides and are otherwise followed"""
    if u.name not in CLOSED:
        a, b = {}, {}
        for x, y in u.pairs:
            if y.get("cls") or x["key"] in u.bc or not any(n[0] in ("for", "while", "do", "range") for n in nodes(y["body"])) or y["ret"] == "void" or y["ret"].startswith("&"):
                continue
            if any(p["type"].startswith("&") or p["type"].startswith("*") and not p["type"].startswith("*c:") for p in y["params"]):
                continue
            if any(not p["type"].startswith("*") and Engine(u.ref).is_agg(p["type"]) for p in y["params"]):
                continue
            try:
                C, ds, pc, pr = once(u, x, y, (), {}, [])
            except (Undecided, Fuzzy):
                continue
            if ds or C.fuzzy or not all(quiet(p) for p in pr):
                continue
            a[x["key"]] = b[y["key"]] = {"pure": True, "obj": False}
            if x["name"] != y["name"] or x["key"] != y["key"]:
                a.pop(x["key"]), b.pop(y["key"])
        CLOSED[u.name] = (a, b)
    a, b = CLOSED[u.name]
    return {k: v for k, v in a.items() if k != root}, {k: v for k, v in b.items() if k != root}


def quiet(p):
    """neither events (other than loops without any) nor writes to what others can see"""
    if p.outcome[0] == "t" or any(not (isinstance(w[0], tuple) and w[0][0] in ("L", "C")) for w in p.state.wlog):
        return False
    for e in p.events:
        if e[0] != "loop" or not all(quiet(q) for q in e[1].table):
            return False
    return True


def reached(p, f):
    seen, todo = set(), [f]
    while todo:
        for k in callees(todo.pop()):
            if k not in seen and k in p.functions:
                seen.add(k)
                todo.append(p.functions[k])
    return seen


def nodes(x):
    stack = [x]
    while stack:
        y = stack.pop()
        if isinstance(y, list):
            if y and isinstance(y[0], str):
                yield y
            stack.extend(y)


def fitting(us, prog, f, nodes, limit=20):
    """operations of a function whose results fit their types on every path"""
    for u in us.values():
        for side, br in ((u.cur, u.bc), (u.ref, u.br)):
            if f["key"] in side.functions and side.functions[f["key"]] is f:
                CMP.forget()
                E = Engine(side)
                E.boundaries = br
                E.watch = {id(x): None for x in nodes}
                E.empty = lambda store: CMP.fm_infeasible(store.lits.items())
                signal.signal(signal.SIGALRM, on_alarm)
                signal.alarm(limit)
                try:
                    E.summarise(f, "method" if f.get("cls") else "free")
                except Exception:
                    return set()
                finally:
                    signal.alarm(0)
                return {k for k, v in E.watch.items() if v}
    return set()


def compare_pair(u, x, y, tier="quick", ignore=()):
    r = Result(u.name, y["name"], shape(y)[1])
    r.key = y["key"]
    r.loc = u.cur.loc(x.get("loc"))
    t0 = time.time()
    signal.signal(signal.SIGALRM, on_alarm)
    signal.alarm(LIMIT[tier])
    eng = []
    try:
        try:
            C, ds, pc, pr = once(u, x, y, ignore, {}, eng)
        except (Undecided, Fuzzy):
            cl = closed_fns(u, y["key"])
            if not cl[1] or not any(k in cl[1] for k in reached(u.ref, y)):
                raise
            try:
                o = once(u, x, y, ignore, {}, [], closed=cl)
            except (Undecided, Fuzzy):
                o = None
            if o is None or o[1]:
                raise
            C, ds, pc, pr = o
        # other ways to look at both sides: agreement in any of them is agreement
        try:
            if ds or C.fuzzy:
                # local containers of one type in another order
                for perm in orders(eng[0].cmax, eng[1].cmax):
                    if time.time() - t0 > LIMIT[tier] / 3:
                        break
                    try:
                        o = once(u, x, y, ignore, perm, [])
                    except Fuzzy:
                        continue
                    if not o[1] and (ds or not o[0].fuzzy):
                        C, ds, pc, pr = o
                        if not C.fuzzy:
                            break
            views = []
            if ds or any(str(f) == "kind of loop differs" for f in C.fuzzy):
                # loops that stop early without counting their iterations
                views.append({"nocount": True})
            if ds or C.fuzzy:
                # functions without effects and with loops that agree: calls with the same arguments give the same value
                views.append(None)
                # loops that are not entered at all in cases of their own
                views.append({"forks": 1})
                views.append({"forks": 2})
            for kw in views:
                if not (ds or C.fuzzy) or time.time() - t0 > LIMIT[tier] / 2:
                    break
                if kw is None:
                    cl = closed_fns(u, y["key"])
                    if not cl[1] or not any(k in cl[1] for k in reached(u.ref, y)):
                        continue
                    kw = {"closed": cl}
                try:
                    o = once(u, x, y, ignore, {}, [], **kw)
                except (Fuzzy, Undecided):
                    continue
                if not o[1] and (ds or not o[0].fuzzy):
                    C, ds, pc, pr = o
        except Timeout:
            pass
        r.paths = (len(pc), len(pr))
        r.obl = C.obl
        r.fuzzy = list(dict.fromkeys(map(str, C.fuzzy)))
        r.loops = count_loops(pr)
        if ds:
            r.status = "diff"
            seen = set()
            for d in ds:
                k = (d.what, str(d.a), str(d.b))
                if k in seen:
                    continue
                seen.add(k)
                r.diffs.append({"kind": d.kind, "what": str(d.what)[:600], "found": str(d.a)[:1500], "required": str(d.b)[:1500], "loc": u.cur.loc(d.loc) if d.loc else None, "facet": d.facet})
        elif r.fuzzy:
            r.status = "partial"
    except Undecided as ex:
        r.status, r.reason = "undecided", "%s (%s)" % (ex, eng[0].prog.loc(eng[0].line))
    except Fuzzy as ex:
        r.status, r.reason = "undecided", "fuzzy: %s" % ex
    except Timeout:
        r.status, r.reason = "undecided", "time limit"
    except RecursionError:
        r.status, r.reason = "undecided", "recursion limit"
    except MemoryError:
        r.status, r.reason = "undecided", "memory"
    except Exception as ex:
        r.status, r.reason = "undecided", "internal: %r" % ex
        if os.environ.get("VERIF_TB"):
            traceback.print_exc()
    finally:
        signal.alarm(0)
    r.secs = time.time() - t0
    r.inlined = sorted(eng[1].visited_fns)
    return r


def count_loops(paths):
    seen = set()
    todo = list(paths)
    while todo:
        p = todo.pop()
        for e in p.events:
            if e[0] == "loop" and id(e[1]) not in seen:
                seen.add(id(e[1]))
                todo.extend(e[1].table)
    return len(seen)


UNITS_LOADED = {}


def load(cur, ref, names):
    new = [n for n in names if n not in UNITS_LOADED]
    for n in new:
        UNITS_LOADED[n] = Unit(n, cur[n], ref[n])
    if new:
        link(UNITS_LOADED)
    return UNITS_LOADED


def _task(a):
    un, i, tier, ignore = a
    u = UNITS_LOADED[un]
    x, y = u.pairs[i]
    return compare_pair(u, x, y, tier, ignore)


def _child(a, conn):
    import resource
    try:
        resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
        conn.send(_task(a))
    except BaseException as ex:
        try:
            conn.send(repr(ex))
        except BaseException:
            pass
    finally:
        conn.close()
        os._exit(0)


def run(tasks, jobs=8):
    """tasks: (unit, pair index, tier, ignore); one process per task"""
    ctx = mp.get_context("fork")
    todo = list(tasks)
    # larger functions first
    todo.sort(key=lambda a: nstmts(UNITS_LOADED[a[0]].pairs[a[1]][1]["body"]))
    live = {}
    out = []
    from multiprocessing.connection import wait
    while todo or live:
        while todo and len(live) < jobs:
            a = todo.pop()
            pr, pw = ctx.Pipe(False)
            p = ctx.Process(target=_child, args=(a, pw))
            p.start()
            pw.close()
            live[pr] = (p, a, time.time())
        for c in wait(list(live), timeout=5):
            p, a, t = live.pop(c)
            try:
                r = c.recv()
            except EOFError:
                r = "worker died"
            c.close()
            p.join()
            if not isinstance(r, Result):
                u = UNITS_LOADED[a[0]]
                y = u.pairs[a[1]][1]
                q = Result(a[0], y["name"], shape(y)[1])
                q.key, q.inlined = y["key"], []
                q.status, q.reason = "undecided", str(r)
                r = q
            out.append(r)
        for c in list(live):
            p, a, t = live[c]
            if time.time() - t > LIMIT[a[2]] + 30:
                p.kill()
    return out


if __name__ == "__main__":
    import build
    cur = build.dump(sys.argv[1] if len(sys.argv) > 1 else build.REPO)
    ref = build.dump(build.REF)
    us = load(cur, ref, list(cur))
    only = sys.argv[2:]
    tasks, seen = [], set()
    for n, u in us.items():
        for f in u.missing:
            if not has_lambda(f):
                print("missing", f["name"])
        for i, (x, y) in enumerate(u.pairs):
            if y["key"] in seen or (only and not any(o in y["name"] for o in only)):
                continue
            seen.add(y["key"])
            tasks.append((n, i, "quick", ()))
    t = time.time()
    rs = run(tasks)
    for r in sorted(rs, key=lambda r: (r.status, r.unit, r.fn)):
        if r.status != "ok" or only:
            print(r.status, r.unit, r.fn, r.sig, "%.1fs" % r.secs, r.paths, r.obl, r.reason, r.fuzzy[:4])
            for d in r.diffs[:4]:
                print("     ", d)
    print(len(rs), "functions", time.time() - t, "s", sum(r.obl for r in rs), "obligations")

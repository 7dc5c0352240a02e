"""Decides one property on the current sources: `verify.py quick|thorough ID`."""
import hashlib
import json
import os
import re
import sys
import time

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build
import spec
import equiv
import rules

VERIF = build.VERIF
EVID = os.environ.get("VERIF_EVID", os.path.join(VERIF, "evidence"))
KNOWN = os.path.join(VERIF, "known_findings.txt")


# ------------------------------------------------------------------ call structure
def scan_calls(f):
    """keys called and keys whose address is taken in a function"""
    calls, taken = set(), set()
    stack = [f.get("body")] + [it[3] for it in f.get("inits") or []]
    while stack:
        x = stack.pop()
        if isinstance(x, dict):
            stack.extend(x.values())
        elif isinstance(x, list):
            if x and isinstance(x[0], str):
                if x[0] == "fn" and len(x) > 1 and isinstance(x[1], dict):
                    taken.add(x[1].get("key"))
                for y in x[1:4]:
                    if isinstance(y, dict) and "key" in y and x[0] != "fn":
                        calls.add(y["key"])
            stack.extend(x)
    return calls, taken


class World:
    """all translation units with their call structure"""

    def __init__(self, units):
        self.units = units
        self.pair_of = {}      # reference key -> (unit, index)
        self.callers = {}      # reference key -> set of reference keys calling it
        self.home = {}         # reference key -> units with a body
        self.taken = set()
        self.foreign = set()   # called from a unit without its body
        for n, u in units.items():
            cur2ref = {}
            for i, (x, y) in enumerate(u.pairs):
                self.pair_of.setdefault(y["key"], (n, i))
                self.home.setdefault(y["key"], set()).add(n)
                cur2ref[x["key"]] = y["key"]
            for prog, tr in ((u.ref, lambda k: k), (u.cur, lambda k: cur2ref.get(k, k))):
                for f in prog.functions.values():
                    if f.get("body") is None:
                        continue
                    c, t = scan_calls(f)
                    self.taken |= {tr(k) for k in t}
                    me = tr(f["key"])
                    for k in c:
                        k = tr(k)
                        self.callers.setdefault(k, set()).add(me)
                        g = prog.functions.get(k)
                        if g is None or g.get("body") is None:
                            self.foreign.add(k)


def dedupe(us):
    seen = {}
    for n, u in us.items():
        for i, (x, y) in enumerate(u.pairs):
            if y["key"] not in seen:
                seen[y["key"]] = (n, i)
    return seen


def select(us, pid):
    out = []
    for k, (n, i) in dedupe(us).items():
        u = us[n]
        y = u.pairs[i][1]
        if pid in spec.properties_of(y["name"], u.ref.loc(y["loc"]).rsplit(":", 1)[0]):
            out.append((n, i))
    return out


def ignore_for(pid):
    if pid == "C16":
        return ()
    return tuple(spec.STATS - spec.BUDGET) if pid != "C13" else tuple(spec.STATS - spec.BUDGET)


def relevant(pid, d):
    if pid == "C16":
        return d.get("facet") in spec.STATS or d["kind"] in ("outcome",) or "stat" in str(d.get("what", "")).lower()
    return True


class Outcome:
    def __init__(self):
        self.violations = []
        self.results = []
        self.notes = []
        self.rule_reports = []


def compare_all(us, pid, tier, log):
    tasks = [(n, i, tier, ignore_for(pid)) for n, i in select(us, pid)]
    rs = equiv.run(tasks)
    if pid == "C16":
        for r in rs:
            if r.status == "diff":
                name = spec.short(r.fn)
                own = "tatistics" in name or name.startswith("clingodl") or "add_s" in name or name.startswith("Timer")
                if not own:
                    r.diffs = [d for d in r.diffs if relevant(pid, d)]
                    if not r.diffs:
                        r.status = "partial"
                        r.fuzzy.append("differs in other respects")
    bad = {r.key: r for r in rs if r.status == "diff"}
    if bad:
        for k in forgive(us, rs, bad, tier, ignore_for(pid), log):
            r = bad[k]
            r.status, r.diffs = "ok", []
            r.reason = "contract moved between the function and its callers; callers agree"
    return rs


def forgive(us, rs, bad, tier, ignore, log):
    """differences that disappear when the function is seen together with its callers"""
    w = World(us)
    ok = {r.key for r in rs if r.status == "ok"}
    u_of = {k: w.pair_of[k] for k in w.pair_of}
    forgiven = set()

    def internal(k):
        return k in u_of and k not in w.taken and k not in w.foreign and w.callers.get(k) and len(w.home[k]) >= 1 and not exported(us, u_of[k])

    def boundary(k):
        n, i = u_of[k]
        return k in us[n].br

    # helpers that are always seen through their callers
    memo = {}

    def check(callers):
        """all given functions agree (under the present boundaries)"""
        todo = [c for c in callers if (c, epoch[0]) not in memo]
        tasks = [(u_of[c][0], u_of[c][1], tier, ignore) for c in todo if c in u_of]
        for r in equiv.run(tasks):
            memo[(r.key, epoch[0])] = r.status
        return all(memo.get((c, epoch[0])) == "ok" for c in callers)

    epoch = [0]

    def tops(ks):
        """callers outside of the set, through unmatched functions"""
        out, seen, todo = set(), set(), list(ks)
        while todo:
            k = todo.pop()
            for c in w.callers.get(k, ()):
                if c in seen or c in ks:
                    continue
                seen.add(c)
                if c in u_of:
                    out.add(c)
                else:
                    todo.append(c)
        return out

    cand = [k for k in bad if internal(k)]
    sets = []
    if len(cand) > 1:
        sets.append(set(cand))
    sets.extend({k} for k in cand)
    for ks in sets:
        ks = ks - forgiven
        if not ks:
            continue
        callers = tops(ks)
        if not callers:
            continue
        saved = []
        for k in ks:
            for n in w.home[k]:
                for x, y in us[n].pairs:
                    if y["key"] != k:
                        continue
                    for u in us.values():
                        if k in u.br:
                            saved.append((u, x["key"], k))
                            u.br.pop(k)
                            u.bc.pop(x["key"], None)
        epoch[0] += 1
        try:
            if check(callers):
                forgiven |= ks | (callers & set(bad))
                log("differences of %s disappear when seen with the callers %s" % (sorted(us[u_of[k][0]].pairs[u_of[k][1]][1]["name"] for k in ks), len(callers)))
        finally:
            for u, a, b in saved:
                u.bc[a] = {}
                u.br[b] = {}
    return forgiven


def exported(us, ui):
    n, i = ui
    y = us[n].pairs[i][1]
    return bool(y.get("externc")) or bool(y.get("virtual")) or spec.short(y["name"]).startswith("clingodl_") or y["name"] == "main"


# ------------------------------------------------------------------ known findings
def known():
    out = []
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            m = re.match(r"known: property=(\S+) id=(\S+) (.*)", l.strip())
            if m:
                out.append(m.groups())
    return out


def fingerprint(v):
    return hashlib.sha256(("%s|%s|%s" % (v.get("rule"), v.get("function"), v.get("what"))).encode()).hexdigest()[:12]


def main():
    tier, pid = sys.argv[1], sys.argv[2]
    t0 = time.time()
    os.makedirs(EVID, exist_ok=True)
    log_lines = []
    log = log_lines.append
    try:
        cur = build.dump(build.REPO)
        ref = build.dump(build.REF)
        us = equiv.load(cur, ref, list(cur))
        errs = [n for n, u in us.items() if u.cur.errors]
        if errs:
            raise build.AnalysisBroken("sources with errors: %s" % errs)
    except build.AnalysisBroken as ex:
        print("analysis not possible:", ex)
        return 2
    prop = spec.PROPS[pid]
    violations = []
    rs = []
    if select(us, pid):
        rs = compare_all(us, pid, tier, log)
    for r in rs:
        if r.status != "diff":
            continue
        for d in r.diffs[:3]:
            violations.append({"rule": "agreement with the reviewed reference", "function": r.fn, "class": r.sig, "unit": r.unit, "loc": d["loc"] or r.loc,
                               "kind": d["kind"], "what": d["what"], "found": d["found"], "required": d["required"]})
    reports = []
    ctx = rules.Context(us, build.REPO, build.REF, tier)
    for name in prop.get("rules", ()):
        rep = rules.run(name, ctx)
        reports.append(rep)
        for v in rep.violations:
            v["rule"] = rep.title
            violations.append(v)
    decided = [r for r in rs if r.status == "ok"]
    part = [r for r in rs if r.status == "partial"]
    und = [r for r in rs if r.status == "undecided"]
    missing = sorted({f["name"] for u in us.values() for f in u.missing if not equiv.has_lambda(f)
                      and pid in spec.properties_of(f["name"], u.ref.loc(f["loc"]).rsplit(":", 1)[0])})
    kn = [k for k in known() if k[0] == pid]
    fresh, hits = [], []
    for v in violations:
        fp = fingerprint(v)
        v["id"] = fp
        m = [k for k in kn if k[1] == fp]
        (hits if m else fresh).append(v)
    nobl = sum(r.obl for r in rs) + sum(r.checked for r in reports)
    write_evidence(pid, prop, tier, rs, reports, fresh, hits, und, part, missing, log_lines, t0)
    for k in sorted({(k[0], k[2]) for k in kn if any(v["id"] == k[1] for v in hits)}):
        print("KNOWN-FINDING: property=%s %s" % k)
    print("property %s (%s): %d functions compared, %d agree, %d partly decided, %d undecided, %d obligations; %d rules" % (
        pid, tier, len(rs), len(decided), len(part), len(und), nobl, len(reports)))
    for r in und:
        print("  undecided: %s: %s" % (r.fn, r.reason))
    for r in part:
        print("  partly decided: %s: %s" % (r.fn, (r.fuzzy or [""])[0][:200]))
    for m in missing:
        print("  not present any more: %s (seen through its callers)" % m)
    for l in log_lines:
        print("  note:", l[:400])
    if fresh:
        path = os.path.join("evidence", pid + ".violation.json")
        with open(os.path.join(VERIF, path), "w") as f:
            json.dump(fresh, f, indent=1)
        for v in fresh[:8]:
            print("  %s: %s [%s] %s: found %s, required %s" % (v.get("loc"), v.get("function"), v["rule"], v.get("what"), str(v.get("found"))[:300], str(v.get("required"))[:300]))
        print("VIOLATION property=%s replay=%s" % (pid, path))
        return 1
    if nobl == 0:
        print("nothing could be decided")
        return 2
    return 0


def write_evidence(pid, prop, tier, rs, reports, fresh, hits, und, part, missing, log_lines, t0):
    samples = []
    for r in sorted(rs, key=lambda r: -r.obl)[:6]:
        samples.append({"function": r.fn, "class": r.sig, "where": r.loc, "paths_current": r.paths[0], "paths_reference": r.paths[1], "loops": r.loops,
                        "obligations": r.obl, "status": r.status})
    expl = prop["how"]
    cov = {
        "explanation": expl,
        "functions_compared": len(rs),
        "functions_agreeing": sum(1 for r in rs if r.status == "ok"),
        "functions_with_paths_left_undecided": [{"function": r.fn, "why": (r.fuzzy or [""])[0][:300]} for r in part],
        "functions_undecided": [{"function": r.fn, "why": r.reason[:300]} for r in und],
        "functions_gone_seen_through_callers": missing,
        "path_pairs_and_loop_rows_compared": sum(r.obl for r in rs),
        "loops_summarised": sum(r.loops for r in rs),
        "functions_inlined": len({k for r in rs for k in getattr(r, "inlined", [])}),
        "notes": log_lines,
        "rules": [rep.evidence() for rep in reports],
        "samples": samples + [s for rep in reports for s in rep.samples[:4]],
        "obligations": sum(r.obl for r in rs) + sum(r.checked for r in reports),
    }
    cov["discharged"] = cov["obligations"] - len(fresh) - len(hits)
    ev = {"property": pid, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": prop["level"], "coverage": cov,
          "assumptions": prop.get("assumptions", spec.ASSUME), "wall_s": round(time.time() - t0, 2), "violations": len(fresh)}
    tmp = os.path.join(EVID, pid + ".json.tmp")
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1)
    os.replace(tmp, os.path.join(EVID, pid + ".json"))
    vio = os.path.join(EVID, pid + ".violation.json")
    if not fresh and os.path.exists(vio):
        os.unlink(vio)


if __name__ == "__main__":
    sys.exit(main())

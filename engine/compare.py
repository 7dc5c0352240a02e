"""Comparison of two path summaries (implementation against reference)."""
import itertools
import math
from fractions import Fraction
from terms import *  # noqa
import terms as TM
from interp import substitute, rebuild, collect, ite, P, Undecided

showloc_safe = showloc

SCRATCH = {"clause_", "neg_cycle_"}
COMMUTE = ("ClingoDL::safe_add<", "ClingoDL::safe_mul<")
IGNORED_FIELDS = {"elapsed_", "start_", "#fill0"}


class Diff:
    def __init__(self, what, a, b, loc=None, kind="value", facet=None):
        self.what, self.a, self.b, self.loc, self.kind, self.facet = what, a, b, loc, kind, facet

    def __repr__(self):
        return "%s: %s: found %s, required %s" % (self.kind, self.what, self.a, self.b)


class Fuzzy(Exception):
    """comparison not decided"""


def opaque_in(t):
    acc = set()
    if t is None:
        return False
    collect(t, lambda x: x.op in ("opaque", "undef", "lref_unknown"), acc, set())
    return bool(acc)


# ---------------------------------------------------------------- emptiness
FM = {}


def forget():
    TM.forget()
    FM.clear()


def fm_infeasible(lits, limit=400):
    """emptiness of the polyhedron of linear literals (Fourier-Motzkin)"""
    key = (frozenset(lits), limit)
    r = FM.get(key)
    if r is None:
        r = FM[key] = infeasible(lits, limit)
    return r


def infeasible(lits, limit):
    cons = []  # (coeffs dict, const, strict): sum + const <= 0  (or < 0)
    eqs = []
    neqs = []
    lits = list(lits)
    known = {}
    for t, v in lits:
        if v and t.op == "eq" and t.args[2] and t.args[0].op != "poly" and Fraction(t.args[1]).denominator == 1:
            known[t.args[0]] = K(int(t.args[1]))
    if known:
        # values of terms that are inside of other terms
        nl = []
        for t, v in lits:
            own = t.args[0] if v and t.op == "eq" and t.args[0] in known else None
            r = substitute(t, {k: x for k, x in known.items() if k is not own} if own is not None else known)
            if r is not t:
                if r.op == "k":
                    if bool(r.args[0]) != v:
                        return True
                elif r.op == "not":
                    nl.append((r.args[0], not v))
                else:
                    nl.append((r, v))
        if nl:
            seen = dict(lits)
            for r, v in nl:
                if seen.get(r, v) != v:
                    return True
                seen[r] = v
            lits = list(seen.items())
    truth = {t: v for t, v in lits if t in BOOL}
    for t, v in lits:
        if t.op not in ("le", "lt", "eq"):
            continue
        lp, b, isint = t.args
        c, d = TM._poly(lp)
        d = {m: Fraction(x) for m, x in d.items()}
        c = Fraction(c) - Fraction(b)
        if t.op == "eq":
            if v:
                eqs.append((d, c))
            else:
                neqs.append((d, c, isint))
            continue
        if t.op == "le":
            if v:
                cons.append((d, c, False))
            elif isint:
                cons.append(({m: -x for m, x in d.items()}, -c + 1, False))
            else:
                cons.append(({m: -x for m, x in d.items()}, -c, True))
        else:
            if v:
                cons.append((d, c, True))
            else:
                cons.append(({m: -x for m, x in d.items()}, -c, False))
    monos = set()
    for d, *_ in cons + eqs + neqs:
        monos.update(d)
    for m in monos:
        if all(a in NONNEG or a in BOOL for a in m):
            cons.append(({m: Fraction(-1)}, Fraction(0), False))
        if len(m) == 1 and m[0] in BOOL:
            cons.append(({m: Fraction(1)}, Fraction(-1), False))
            v = truth.get(m[0])
            if v is not None:
                cons.append(({m: Fraction(-1)}, Fraction(1), False) if v else ({m: Fraction(1)}, Fraction(0), False))
    for m in monos:
        # the sign of a quotient of a number
        t = m[0]
        if len(m) == 1 and t.op == "div" and t.args[0].op == "k" and t.args[1].op != "poly":
            x, k, sign = (t.args[1],), t.args[0].args[0], 0
            for d, c, s in cons + [(d, c, False) for d, c in eqs] + [({n: -y for n, y in d.items()}, -c, False) for d, c in eqs]:
                if len(d) == 1 and x in d and (c > 0 or c == 0 and s):
                    sign = 1 if d[x] < 0 else -1
            if x[0] in NONNEG:
                sign = 1
            if sign:
                k = k * sign
                cons.append(({m: Fraction(-1)}, Fraction(min(k, 0)), False))
                cons.append(({m: Fraction(1)}, Fraction(-max(k, 0)), False))
    if any(abs(c) >= 128 for d, c, *_ in cons + eqs + neqs):
        for m in monos:
            b = RANGE.get(m[0]) if len(m) == 1 else None
            if b is not None:
                cons.append(({m: Fraction(-1)}, Fraction(b[0]), False))
                cons.append(({m: Fraction(1)}, Fraction(-b[1]), False))
    for d, c in eqs:
        cons.append((dict(d), c, False))
        cons.append(({m: -x for m, x in d.items()}, -c, False))

    def whole(d, c, s):
        """the constraint with integer coefficients without common divisor"""
        k = 1
        for x in d.values():
            k = math.lcm(k, x.denominator)
        d = {m: int(x * k) for m, x in d.items() if x != 0}
        g = math.gcd(*d.values())
        c = c * k
        if g > 1:
            d = {m: x // g for m, x in d.items()}
            c = c / g
        return d, (c.numerator if c.denominator == 1 else c), s

    def empty(cons):
        cons = [whole(*x) for x in cons]
        while True:
            nxt = []
            seen = set()
            pos, neg = {}, {}
            for d, c, s in cons:
                if not d:
                    if c > 0 or (c == 0 and s):
                        return True
                    continue
                key = (frozenset(d.items()), c, s)
                if key in seen:
                    continue
                seen.add(key)
                nxt.append((d, c, s))
                for m, x in d.items():
                    if x > 0:
                        pos[m] = pos.get(m, 0) + 1
                    else:
                        neg[m] = neg.get(m, 0) + 1
            cons = nxt
            if not cons:
                return False
            best, cost = None, None
            for m in {**pos, **neg}:
                x = pos.get(m, 0) * neg.get(m, 0)
                if cost is None or x < cost:
                    best, cost = m, x
                    if x == 0:
                        break
            up = [x for x in cons if x[0].get(best, 0) > 0]
            down = [x for x in cons if x[0].get(best, 0) < 0]
            rest = [x for x in cons if best not in x[0]]
            if len(up) * len(down) + len(rest) > limit:
                return False
            for d1, c1, s1 in up:
                for d2, c2, s2 in down:
                    k1, k2 = -d2[best], d1[best]
                    d = {m: x * k1 for m, x in d1.items()}
                    for m, x in d2.items():
                        x = d.get(m, 0) + x * k2
                        if x:
                            d[m] = x
                        else:
                            d.pop(m, None)
                    c = c1 * k1 + c2 * k2
                    g = math.gcd(*d.values())
                    if g > 1:
                        d = {m: x // g for m, x in d.items()}
                        c = c // g if type(c) is int and c % g == 0 else Fraction(c) / g
                    rest.append((d, c, s1 or s2))
            cons = rest

    if empty(cons):
        return True
    # disequalities: split (few)
    rel = [n for n in neqs if n[0]]
    if rel and len(rel) <= 4:
        combos = list(itertools.product((0, 1), repeat=len(rel)))
        for combo in combos:
            extra = []
            for k, (d, c, isint) in zip(combo, rel):
                if k == 0:
                    extra.append((d, c + 1, False) if isint else (d, c, True))
                else:
                    nd = {m: -x for m, x in d.items()}
                    extra.append((nd, -c + 1, False) if isint else (nd, -c, True))
            if not empty(cons + extra):
                return False
        return True
    # many: over the rationals, a polyhedron covered by hyperplanes is covered by one of them
    for d, c, isint in rel:
        nd = {m: -x for m, x in d.items()}
        if isint:
            a, b = (d, c + 1, False), (nd, -c + 1, False)
        else:
            a, b = (d, c, True), (nd, -c, True)
        if empty(cons + [a]) and empty(cons + [b]):
            return True
    return False


# ---------------------------------------------------------------- normalise
class Norm:
    """rewriting of terms under the literals of a store"""

    def __init__(self, store):
        self.store = store
        self.map = {}
        for t, v in list(store.lits.items()):
            if t.op == "eq" and v and t.args[2]:
                self.add_eq(t.args[0], t.args[1])
            elif t.op == "streq" and v:
                a, b = t.args
                self.bind(a, b)
            elif t.op == "same" and v:
                a, b = t.args
                self.bind(b, a)
        # bounds forcing equality
        for lp in list(store.lo):
            lo, hi = store.bounds(lp)
            if lo and hi and lo[0] == hi[0] and not lo[1] and not hi[1]:
                self.add_eq(lp, lo[0])
        self.memo = {}

    def bind(self, a, b):
        a, b = self._apply(a), self._apply(b)
        if a is b or a.op in ("k", "s"):
            if b.op in ("k", "s") or a is b:
                return
            a, b = b, a
        acc = set()
        collect(b, lambda x: x is a, acc, set())
        if acc:
            return
        for k in list(self.map):
            self.map[k] = substitute(self.map[k], {a: b})
        self.map[a] = b

    def add_eq(self, lp, b):
        lp = self._apply(lp)
        c, d = TM._poly(lp)
        # lp == b: choose an atom with unit coefficient
        cands = [(m[0], x) for m, x in d.items() if len(m) == 1 and abs(x) == 1 and m[0].op not in ("k",)]
        if not cands:
            return
        cands.sort(key=lambda ax: -ax[0].uid)
        for a, x in cands:
            rest = sub(lp, scale(a, x))
            acc = set()
            collect(rest, lambda y: y is a, acc, set())
            if acc:
                continue
            self.bind(a, scale(sub(K(b), rest), x) if x == 1 else scale(sub(rest, K(b)), 1))
            return

    def _apply(self, t):
        for _ in range(6):
            n = substitute(t, self.map)
            if n is t:
                return t
            t = n
        return t

    def __call__(self, t):
        r = self.memo.get(t)
        if r is None:
            r = self.norm(t)
            self.memo[t] = r
        return r

    def norm(self, t):
        for _ in range(6):
            n = self.once(t)
            if n is t:
                return t
            t = n
        return t

    def once(self, t):
        memo = {}
        st = self.store

        def go(x):
            r = memo.get(x)
            if r is not None:
                return r
            y = self.map.get(x)
            if y is not None:
                memo[x] = y
                return y
            if x.op == "ite":
                c = go(x.args[0])
                d = st.decide(c)
                if d is True:
                    r = go(x.args[1])
                elif d is False:
                    r = go(x.args[2])
                else:
                    r = ite(c, go(x.args[1]), go(x.args[2]))
            elif TM.is_bool(x) and x.op != "k":
                d = st.decide(x)
                if d is not None:
                    r = K(d)
                else:
                    r = rebuild(x, go)
                    if TM.is_bool(r) and r.op != "k":
                        d = st.decide(r)
                        if d is not None:
                            r = K(d)
            else:
                r = rebuild(x, go)
            memo[x] = r
            return r

        return go(t)


def mkstore(base, lits, extra=()):
    s = base.clone()
    for u, v in lits:
        if not s.assume(u, v):
            return None
    for u, v in extra:
        if not s.assume(u, v):
            return None
    return s


# ---------------------------------------------------------------- comparison
class Compare:
    def __init__(self, E, S, ignore=()):
        """E: engine of the implementation, S: engine of the reference"""
        self.E, self.S = E, S
        self.obl = 0
        self.ignore = IGNORED_FIELDS | set(ignore)
        self.sub = {}
        self.fuzzy = []
        self.depth = 0
        self.cur = None
        self.memo = {}
        self.hints = {}
        self.conts = frozenset()
        self.deferred = frozenset()

    # substitution of reference tokens by implementation tokens
    def m(self, t):
        return substitute(t, self.sub) if self.sub else t

    def mpath(self, p):
        out = []
        for x in p:
            if isinstance(x, tuple):
                out.append(tuple(self.m(y) if isinstance(y, Term) else y for y in x))
            else:
                out.append(x)
        return tuple(out)

    def functions(self, A, B):
        """A: implementation paths, B: reference paths; returns list of Diff"""
        diffs = []
        self.live = live_locals(A) | live_locals(B)
        for a in A:
            hit = False
            for b in B:
                self.sub = {}
                s = mkstore(a.store, b.lits)
                if s is None:
                    continue
                hit = True
                self.obl += 1
                try:
                    d = self.pair(a, b, s, b.lits, None)
                except Fuzzy as ex:
                    if not fm_infeasible(s.lits.items()):
                        self.fuzzy.append(str(ex))
                    continue
                if d and not fm_infeasible(s.lits.items()):
                    diffs.extend(d)
                if len(diffs) > 12:
                    return diffs
            if not hit and not fm_infeasible(a.store.lits.items()):
                diffs.extend(self.unmatched(a, B, [], None))
                if len(diffs) > 12:
                    return diffs
        return diffs

    def unmatched(self, a, B, blits, lid):
        """no path of the reference has conditions compatible with those of a: the loops on the way must differ"""
        if mentions_loop_lits(a.lits, lid) == 0:
            self.fuzzy.append("a path without counterpart")
            return []
        seen = 0
        keep = dict(self.sub)
        for b in B:
            if a.outcome[0] in ("n", "c") and b.outcome[0] not in ("n", "c") and lid is not None:
                continue
            bl = [(self.m(u), v) for u, v in list(blits) + list(b.lits) if not deeper(u, lid)]
            s = mkstore(strip_store(a, lid), bl)
            if s is None or fm_infeasible(s.lits.items()):
                continue
            seen += 1
            self.obl += 1
            try:
                ea = [e for e in a.events if e[0] != "caught"]
                eb = [e for e in b.events if e[0] != "caught"]
                for x, y in zip(ea, eb):
                    if x[0] != y[0] or x[0] == "ev" and x[1] != y[1]:
                        break
                    if x[0] == "loop":
                        d = self.loops(x[1], y[1], s, list(blits) + list(b.lits))
                        if d:
                            return d
            except Fuzzy as ex:
                self.fuzzy.append(str(ex))
                return []
            finally:
                self.sub = dict(keep)
        self.fuzzy.append("a path without counterpart" if seen else "no path to compare with")
        return []

    def pair(self, a, b, s, blits, lid):
        """compare one implementation with one reference path under store s"""
        old = self.cur
        self.cur = (a, b)
        try:
            return self.pair_in(a, b, s, blits, lid)
        finally:
            self.cur = old

    def pair_in(self, a, b, s, blits, lid):
        n = Norm(s)
        if lid is not None:
            # the way a loop is left is compared where it is left to
            ka, kb = (a.outcome[0] in ("n", "c")), (b.outcome[0] in ("n", "c"))
        old = dict(self.sub)
        diffs = self.events(a.events, b.events, s, n, blits)
        if diffs is None:
            return None
        if diffs:
            return diffs
        if self.sub != old:
            # variables of loops have been matched: conditions on their final values can exclude the pair
            s = mkstore(s, self.mlits(b.lits))
            if s is None or fm_infeasible(s.lits.items()):
                return None
            n = Norm(s)
        if lid is not None:
            if ka != kb:
                return [Diff("control flow", outcome_text(a), outcome_text(b), self.aloc(a), "outcome")]
            return self.writes(a, b, s, n, lid)
        ka, kb = a.outcome[0], b.outcome[0]
        if ka != kb:
            return [Diff("control flow", outcome_text(a), outcome_text(b), self.aloc(a), "outcome")]
        if ka == "t":
            return []
        if ka == "r":
            va, vb = a.outcome[1], b.outcome[1]
            if (va is None) != (vb is None):
                return [Diff("returned value", show(va), show(vb), self.aloc(a), "outcome")]
            if va is not None:
                d = self.same(va, self.m(vb), s, n, a.state, b.state)
                if d:
                    return [Diff("returned value", show(n(va)), show(n(self.m(vb))), self.aloc(a), "outcome")]
        return self.writes(a, b, s, n, lid)

    def aloc(self, a):
        for e in reversed(a.events):
            if e[0] == "ev" and e[4]:
                return e[4]
            if e[0] == "loop":
                return e[1].loc
        return None

    # -- values
    def same(self, x, y, s, n, sa=None, sb=None):
        """None if equal, else a (description) ; raises Fuzzy"""
        if x is y:
            return None
        if x is None or y is None:
            return "missing"
        x, y = n(x), n(y)
        if x is y:
            return None
        x, y = canon(x), canon(y)
        if x is y:
            return None
        if "fnref" in (x.op, y.op) and x.op in ("fnref", "lam", "clo") and y.op in ("fnref", "lam", "clo"):
            # functions without counterpart: not comparable by name
            if x.op != y.op or x.args[0] not in self.S.prog.functions or y.args[0] not in self.E.prog.functions:
                raise Fuzzy("function value %s / %s" % (show(x), show(y)))
        if x.op == "st" and y.op == "st":
            fx, fy = dict(x.args[1]) if x.args[0] != "vec" else None, dict(y.args[1]) if y.args[0] != "vec" else None
            if fx is None or fy is None:
                if len(x.args[1]) == len(y.args[1]):
                    for (f, u), (g, v) in zip(x.args[1], y.args[1]):
                        d = self.same(u, v, s, n)
                        if d:
                            return d
                    return None
                return "length"
            if x.args[1] and y.args[1] and fx.get("#has") is FALSE and fy.get("#has") is FALSE:
                return None
            if x.args[0] not in self.E.prog.records:
                for f in set(fx) | set(fy):
                    u, v = fx.get(f), fy.get(f)
                    if u is None or v is None:
                        # members not named in an initialiser are zero
                        w = v if u is None else u
                        if w.op == "null" or w is K(0):
                            continue
                        return "field " + f
            for f in fy:
                if f in fx:
                    d = self.same(fx[f], fy[f], s, n)
                    if d:
                        return d
                elif x.args[0] in self.E.prog.records:
                    return "field " + f
            return None
        if x.op == "snap" and y.op == "snap" and x.args[0] == y.args[0]:
            r = self.same_snap(x, y, s, n)
            if r is not None:
                return r or None
        if x.op == y.op and len(x.args) == len(y.args) and x.op in ("call", "lref", "lam", "&", "cat", "fld", "wrap", "res", "bag", "cont", "op&", "xit", "all"):
            ok = True
            for u, v in zip(x.args, y.args):
                if u is v or u == v:
                    continue
                if isinstance(u, Term) and isinstance(v, Term):
                    if self.same(u, v, s, n):
                        ok = False
                        break
                elif isinstance(u, tuple) and isinstance(v, tuple) and len(u) == len(v):
                    if x.op == "bag":
                        if not self.same_bag(u, v, s, n):
                            ok = False
                            break
                        continue
                    if not self.same_tuple(u, v, s, n):
                        ok = False
                        break
                else:
                    ok = False
                    break
            if ok:
                return None
        if not TM.is_bool(x) and not TM.is_bool(y) and arith_like(x) and arith_like(y):
            if s.decide(eq(x, y)) is True:
                return None
            e = eq(x, y)
            if e is not TRUE and e.op in ("eq",):
                if fm_infeasible(list(s.lits.items()) + [(e, False)]):
                    return None
        elif TM.is_bool(x) and TM.is_bool(y):
            # equal truth value
            r = self.bool_same(x, y, s)
            if r:
                return None
        if opaque_in(x) or opaque_in(y):
            raise Fuzzy("value not tracked: %s / %s" % (show(x), show(y)))
        # case split over conditionals
        c = first_ite(x) or first_ite(y)
        if c is not None and self.depth < 6:
            self.depth += 1
            try:
                for v in (True, False):
                    s2 = s.clone()
                    if not s2.assume(c, v):
                        continue
                    if fm_infeasible(s2.lits.items()):
                        continue
                    if self.same(x, y, s2, Norm(s2)):
                        return "differs"
                return None
            finally:
                self.depth -= 1
        return "differs"

    def bool_same(self, x, y, s):
        for v in (True, False):
            s2 = s.clone()
            if not s2.assume(x, v):
                continue
            if s2.decide(y) is not v:
                s3 = s2.clone()
                if s3.assume(y, not v) and not fm_infeasible(s3.lits.items()):
                    return False
        return True

    def same_snap(self, x, y, s, n):
        """contents written to two containers, in whatever order: "" if equal"""
        fx, fy = {}, {}
        loose = False
        for f, e in ((fx, x.args[1]), (fy, y.args[1])):
            for z in e:
                k = z[:-1]
                if any(isinstance(q, tuple) and None in q for p in k if isinstance(p, tuple) for q in p):
                    loose = True
                f.pop(k, None)
                f[k] = z[-1]
        if set(fx) != set(fy):
            if loose or any(v.op == "hv" for f in (fx, fy) for v in f.values()):
                raise Fuzzy("contents of a container")
            return "contents"
        for k in fx:
            u, v = fx[k], fy[k]
            if u is v:
                continue
            if u.op == "hv" and v.op == "hv":
                raise Fuzzy("contents of a container")
            if self.same(u, v, s, n):
                return "contents"
        return ""

    def same_bag(self, u, v, s, n):
        if len(u) != len(v):
            return False
        rest = list(v)
        for x in u:
            for y in rest:
                if x is y or self.same(x, y, s, n) is None:
                    rest.remove(y)
                    break
            else:
                return False
        return True

    def same_tuple(self, u, v, s, n):
        for x, y in zip(u, v):
            if isinstance(x, Term) and isinstance(y, Term):
                if self.same(x, y, s, n):
                    return False
            elif isinstance(x, tuple) and isinstance(y, tuple) and len(x) == len(y):
                if not self.same_tuple(x, y, s, n):
                    return False
            elif x != y:
                return False
        return True

    # -- events
    def events(self, ea, eb, s, n, blits):
        ea = [e for e in ea if e[0] != "caught"]
        eb = [e for e in eb if e[0] != "caught"]
        i = 0
        for x, y in zip(ea, eb):
            if x[0] != y[0] or (x[0] == "ev" and x[1] != y[1]):
                return self.misaligned(ea[i:], eb[i:], x, s, n)
            if x[0] == "loop":
                old = dict(self.sub)
                d = self.loops(x[1], y[1], s, blits)
                if d and self.reordered(x, y, ea, eb):
                    raise Fuzzy("order of loops differs")
                if d:
                    m = self.absent(x, y, ea, eb, s)
                    if m:
                        return [m]
                    self.distributed(d[0], x, y, ea, eb)
                    return d
                if self.sub != old:
                    s = mkstore(s, self.mlits(blits))
                    if s is None:
                        return None
                    n = Norm(s)
                if (x[2] is None) != (y[2] is None):
                    return None  # excluded by the agreement of the loop tables
                if x[2] is not None and not self.exit_rows(x[1].table[x[2]], y[1].table[y[2]], s, blits):
                    return None
            else:
                d = self.event(x, y, s, n)
                if d:
                    if len(ea) > i + 1 and i + 1 < len(eb) and self.permuted(ea[i:], eb[i:], s, n):
                        if len(ea) != len(eb) and all(e[0] == "ev" for e in ea[i:] + eb[i:]):
                            return self.misaligned(ea[i:], eb[i:], x, s, n)
                        raise Fuzzy("order of events differs")
                    return d
                if len(x) > 5 and len(y) > 5:
                    cov = set(x[6]) | {self.mpath(p) for p in y[6]}
                    d = self.states(x[5], y[5], s, n, "call", cov)
                    if d:
                        for z in d:
                            z.loc = z.loc or x[4]
                            z.what += " when calling " + x[1]
                        return d
            i += 1
        if len(ea) != len(eb):
            return self.misaligned(ea[i:], eb[i:], ea[i] if len(ea) > i else None, s, n)
        return []

    def exit_rows(self, a, b, s, blits):
        """variables of the loops inside the last iteration are matched as they were when the tables were compared"""
        ra, rb = [e for e in a.events if e[0] == "loop"], [e for e in b.events if e[0] == "loop"]
        if not ra or not rb:
            return True
        old = dict(self.sub)
        nf = len(self.fuzzy)
        try:
            d = self.events(a.events, b.events, s, Norm(s), blits)
        except Fuzzy:
            self.sub = old
            return True
        finally:
            del self.fuzzy[nf:]
        if d is None:
            return False
        if d:
            self.sub = old
        return True

    def event(self, x, y, s, n):
        if (x[2] is None) != (y[2] is None):
            raise Fuzzy("call form")
        if x[2] is not None:
            if self.same(x[2], self.m(y[2]), s, n):
                return [Diff("object of call %s" % x[1], show(n(x[2])), show(n(self.m(y[2]))), x[4], "event", x[1])]
        if len(x[3]) != len(y[3]):
            return [Diff("arguments of %s" % x[1], str(len(x[3])), str(len(y[3])), x[4], "event", x[1])]
        if x[1].startswith(COMMUTE) and len(x[3]) == 2 and all(not self.same(u, self.m(v), s, n) for u, v in zip(x[3], y[3][::-1])):
            return []
        for k, (u, v) in enumerate(zip(x[3], y[3])):
            if self.same(u, self.m(v), s, n):
                return [Diff("argument %d of %s" % (k + 1, x[1]), show(n(u)), show(n(self.m(v))), x[4], "event", x[1])]
        return []

    def permuted(self, ea, eb, s, n):
        rest = [y for y in eb]
        for x in ea:
            for y in rest:
                if x[0] == y[0] == "ev" and x[1] == y[1] and not self.event(x, y, s, n):
                    rest.remove(y)
                    break
            else:
                return False
        return True

    def misaligned(self, ea, eb, x, s, n):
        na, nb = evnames(ea), evnames(eb)
        for k in set(na) | set(nb):
            if na.get(k, 0) == 0 and nb.get(k, 0) > 0:
                return [Diff("effect", "no call of %s" % k, "a call of %s" % k, evloc(ea), "missing", k)]
            if nb.get(k, 0) == 0 and na.get(k, 0) > 0:
                return [Diff("effect", "a call of %s" % k, "no call of %s" % k, evloc([e for e in ea if k in evnames([e])]), "extra", k)]
        la, lb = [e for e in ea if e[0] == "loop"], [e for e in eb if e[0] == "loop"]
        if not la and not lb:
            for k in na:
                if na[k] != nb[k]:
                    return [Diff("effect", "%d calls of %s" % (na[k], k), "%d" % nb[k], evloc(ea), "count", k)]
            d = self.shifted(ea, eb, s, n)
            if d:
                return [d]
            raise Fuzzy("order of calls differs")
        # loops missing altogether
        if not la or not lb:
            fa, fb = fieldset(la), fieldset(lb)
            ex = (fb - fa) if not la else (fa - fb)
            # the other side may do the same without a loop
            if self.cur is not None:
                o = self.cur[0 if not la else 1]
                ex -= {field_of(p) for p in o.state.wlog} | fieldset(o.events)
            if ex:
                return [Diff("effect", "no loop writing %s" % ", ".join(sorted(ex)) if not la else "a loop writing %s" % ", ".join(sorted(ex)),
                             "loop" if not la else "no loop", evloc(ea), "missing" if not la else "extra", sorted(ex)[0])]
        elif na == nb and len(la) == len(lb):
            d = moved(ea, eb)
            if d:
                return [d]
        raise Fuzzy("structure of loops differs")

    def shifted(self, ea, eb, s, n):
        """a call that gets a copy of an object before another call changes it on one side and afterwards on the other"""
        rest = [y for y in eb if y[0] == "ev"]
        left = []
        for x in ea:
            if x[0] != "ev":
                continue
            for y in rest:
                if x[1] == y[1] and not self.event(x, y, s, n):
                    rest.remove(y)
                    break
            else:
                left.append(x)
        if len(left) != 1 or len(rest) != 1 or left[0][1] != rest[0][1]:
            return None
        x, y = left[0], rest[0]
        if len(x[3]) != len(y[3]):
            return None
        for k, (u, v) in enumerate(zip(x[3], y[3])):
            if u.op != "st" or v.op != "st" or u.args[0] != v.args[0] or len(u.args[1]) != len(v.args[1]):
                continue
            r = []
            for a, b in zip(u.args[1], v.args[1]):
                try:
                    r.append(bool(self.same(a[1], self.m(b[1]), s, n)))
                except Fuzzy:
                    pass
            if r and all(r):
                return Diff("argument %d of %s" % (k + 1, x[1]), show(n(u)), show(n(self.m(v))), x[4], "order", x[1])
        return None

    def reordered(self, x, y, ea, eb):
        """independent loops in another order"""
        fx, fy = fieldset([x]), fieldset([y])
        la, lb = [e for e in ea if e[0] == "loop"], [e for e in eb if e[0] == "loop"]
        if fx == fy or sorted(map(sorted, map(fieldset, ([e] for e in la)))) != sorted(map(sorted, map(fieldset, ([e] for e in lb)))):
            return False
        return all(independent(x, e) for e in la if fieldset([e]) != fx) and all(independent(y, e) for e in lb if fieldset([e]) != fy)

    def absent(self, x, y, ea, eb, s):
        """calls made by the loop on one side that are not made anywhere on the other side"""
        na, nb = evnames(ea), evnames(eb)
        la, lb = [e for e in ea if e[0] == "loop"], [e for e in eb if e[0] == "loop"]
        if len(la) == len(lb):
            return None
        for z, one, other, isb in ((y, nb, na, True), (x, na, nb, False)):
            if (len(lb) > len(la)) is not isb or self.idle(z[1], s, isb):
                continue
            for k in evnames([z]):
                if other.get(k, 0) == 0:
                    if isb:
                        return Diff("effect", "no call of %s" % k, "a call of %s" % k, evloc(ea), "missing", k)
                    return Diff("effect", "a call of %s" % k, "no call of %s" % k, z[1].loc, "extra", k)
            if self.cur is not None:
                o = self.cur[0 if isb else 1]
                ex = fieldset([z]) - {field_of(p) for p in o.state.wlog} - fieldset(o.events) - fieldset(ea if isb else eb)
                if ex:
                    f = sorted(ex)[0]
                    if isb:
                        return Diff("effect", "no loop writing %s" % f, "loop", evloc(ea), "missing", f)
                    return Diff("effect", "a loop writing %s" % f, "no loop", z[1].loc, "extra", f)
        return None

    def distributed(self, d, x, y, ea, eb):
        """the same work done in another loop"""
        if d.kind not in ("missing", "extra", "write", "loop") or d.facet is None:
            return
        na = [e for e in ea if e[0] == "loop" and d.facet in fieldset([e]) | set(evnames([e]))]
        nb = [e for e in eb if e[0] == "loop" and d.facet in fieldset([e]) | set(evnames([e]))]
        if (x in na) != (y in nb) and (len(na) >= len(nb) if d.kind == "missing" else len(na) <= len(nb)) and na and nb:
            raise Fuzzy("work distributed differently over loops")

    # -- loops
    def loops(self, la, lb, s, blits):
        self.obl += 1
        old = self.conts
        self.conts = containers(la) & containers(lb)
        try:
            d = self.loops_in(la, lb, s, blits)
            if d and la.post != lb.post:
                return self.loop_coarse(la, lb, "condition after the body of the loop")
            return d
        finally:
            self.conts = old

    def idle(self, l, s, isb):
        """is the loop known not to do anything: it is not entered or left at once"""
        if l.count is not None:
            c = self.m(l.count) if isb else l.count
            st = mkstore(s, [(lt(K(0), c, True), True)])
            return st is None or fm_infeasible(st.lits.items())
        if l.post:
            return False
        first = {T("t", l.lid): K(0)}
        first.update({T("lv", l.lid, p): v for p, v in l.init.items() if v is not None})
        for e in l.table:
            if e.outcome[0] in ("b", "x") and not e.writes and not e.events:
                continue
            lits = [(substitute(u, first), v) for u, v in e.lits]
            st = mkstore(s, [(self.m(u), v) for u, v in lits] if isb else lits)
            if st is not None and not fm_infeasible(st.lits.items()):
                return False
        return True

    def content(self, q):
        """contents of a container of the function that both sides fill in the loop"""
        return q[0] in self.conts and len(q) > 1 and not (len(q) == 2 and isinstance(q[1], str))

    def loops_in(self, la, lb, s, blits):
        if la.lid is not lb.lid and self.m(lb.lid) is not la.lid:
            self.sub[lb.lid] = la.lid
        if (la.count is None) != (lb.count is None):
            if self.idle(la, s, False) and self.idle(lb, s, True):
                return []
            return self.loop_coarse(la, lb, "kind of loop differs")
        n = Norm(s)
        if la.count is not None:
            if self.same(la.count, self.m(lb.count), s, n):
                return [Diff("number of iterations", show(n(la.count)), show(n(self.m(lb.count))), la.loc, "loop")]
        cov = {p for p in la.M if not is_local(p)} | {self.mpath(p) for p in lb.M if not is_local(p)}
        cov -= set(la.sums) & {self.mpath(p) for p in lb.sums}
        late = self.cached(la, lb)
        if late:
            cov -= late
            old = self.deferred
            self.deferred = old | late
            try:
                return self.loops_body(la, lb, s, blits, n, cov, late)
            finally:
                self.deferred = old
        return self.loops_body(la, lb, s, blits, n, cov, late)

    def cached(self, la, lb):
        """locations that one side keeps in a local variable during the loop and writes behind it"""
        if self.cur is None:
            return set()
        out = set()
        ma = {p for p in la.M if not is_local(p)}
        mb = {self.mpath(p) for p in lb.M if not is_local(p)}
        for one, other, path in ((ma, mb, self.cur[1]), (mb, ma, self.cur[0])):
            w = {self.mpath(p) for p in path.state.wlog}
            for p in one:
                if any(isinstance(x, tuple) and None in x for x in p) or any(self.E.abs_covers(q, p) or self.E.abs_covers(p, q) for q in other):
                    continue
                if p in w:
                    out.add(p)
        return out

    def loops_body(self, la, lb, s, blits, n, cov, late):
        if cov:
            d = self.states(la.entry, lb.entry, s, n, la.lid, cov)
            if d:
                for x in d:
                    x.loc = x.loc or la.loc
                    x.what += " at the start of the loop"
                return d
        ca = self.carried(la)
        cb = self.carried(lb)
        ca = [p for p in ca if is_local(p) or p in late]
        cb = [p for p in cb if is_local(p) or self.mpath(p) in late]
        if len(ca) != len(cb):
            return self.loop_tables_fuzzy(la, lb, s, blits, "loop variables differ")
        best = None
        saved = dict(self.sub)
        cnt = 0
        fuzzy = None
        for perm in itertools.permutations(ca):
            cnt += 1
            if cnt > 120:
                break
            ok = True
            self.sub = dict(saved)
            for p, q in zip(perm, cb):
                ia, ib = la.init.get(p), lb.init.get(q)
                if ia is None or ib is None:
                    ok = False
                    break
                try:
                    if self.same(ia, self.m(ib), s, n):
                        ok = False
                        break
                except Fuzzy:
                    # undefined initial value on both sides
                    if not (ia.op == "undef" and ib.op == "undef"):
                        if ia.op == "undef" or ib.op == "undef":
                            pass
                        else:
                            raise
                if late and not (is_local(p) and is_local(q)):
                    hb, ha = lb.head[q], la.head[p]
                    if hb is not None and ha is not None:
                        self.sub[hb] = ha
                        self.sub[self.m(hb)] = ha
                    continue
                self.sub[T("lv", lb.lid, q)] = T("lv", la.lid, p)
                if lb.lid in self.sub:
                    self.sub[T("lv", la.lid, q)] = T("lv", la.lid, p)
            if not ok:
                continue
            try:
                d = self.tables(la, lb, s, blits, dict(zip(cb, perm)))
            except Fuzzy as ex:
                fuzzy = ex
                if best is None:
                    best = []
                continue
            if not d:
                return []
            if best is None or best == []:
                best = (d, dict(self.sub))
        if best is None:
            # initial values differ: report if unique pairing
            self.sub = dict(saved)
            if len(ca) == 1:
                p, q = ca[0], cb[0]
                ia, ib = la.init.get(p), lb.init.get(q)
                if ia is None or ib is None or kindof(ia) != kindof(ib):
                    return self.loop_coarse(la, lb, "kinds of loop variables differ")
                return [Diff("initial value of the loop variable", show(la.init.get(p)), show(self.m(lb.init.get(q))), la.loc, "loop")]
            return self.loop_coarse(la, lb, "loop variables differ")
        if best == [] or fuzzy is not None:
            raise Fuzzy("loop body: %s" % fuzzy)
        self.sub = best[1]
        return best[0]

    def loop_tables_fuzzy(self, la, lb, s, blits, why):
        return self.loop_coarse(la, lb, why)

    def loop_coarse(self, la, lb, why):
        na, nb = evnames([("loop", la)]), evnames([("loop", lb)])
        oa, ob = (set(evnames(x.events)) for x in self.cur) if self.cur else (set(), set())
        for k in set(na) | set(nb):
            if (na.get(k, 0) == 0) != (nb.get(k, 0) == 0) and k not in (ob if na.get(k, 0) else oa):
                return [Diff("calls in loop", "%d calls of %s" % (na.get(k, 0), k), "%d" % nb.get(k, 0), la.loc, "missing", k)]
        fa, fb = fieldset([("loop", la)]), fieldset([("loop", lb)])
        wa, wb = ({field_of(p) for p in x.state.wlog} | fieldset(x.events) for x in self.cur) if self.cur else (set(), set())
        if (fa - fb - wb) or (fb - fa - wa):
            x = sorted((fa - fb - wb) | (fb - fa - wa))
            return [Diff("state written in loop", ", ".join(sorted(fa)) or "none", ", ".join(sorted(fb)) or "none", la.loc, "write", x[0])]
        raise Fuzzy(why)

    def carried(self, l):
        """modified scalar locations whose value at the loop head matters"""
        live = self.live
        return [p for p in sorted(l.M, key=str) if p not in l.ind and (l.lid, p) in live]

    def tables(self, la, lb, s, blits, cmap):
        """tables that agree whatever is known at the entry of the loop are compared only once"""
        key = (id(la), id(lb), tuple(sorted(cmap.items(), key=str)), frozenset(self.sub.items()), self.deferred)
        r = self.memo.get(key)
        if r is None:
            nf = len(self.fuzzy)
            try:
                r = not self.tables_in(la, lb, s, [], cmap)
            except Fuzzy:
                r = False
            if not r:
                del self.fuzzy[nf:]
            self.memo[key] = r
        if r:
            return []
        return self.tables_in(la, lb, s, blits, cmap)

    def tables_in(self, la, lb, s, blits, cmap):
        """cmap: reference local -> implementation local"""
        diffs = []
        fuzzy = None
        # facts established by leaving the loop do not hold inside
        blits = [(u, v) for u, v in blits if not mentions_loop(u, (la.lid, lb.lid))]
        # paths that were seen to differ under other assumptions are tried first
        first = self.hints.get((id(la), id(lb)), ())
        for a in sorted(la.table, key=lambda x: id(x) not in first) if first else la.table:
            hit = False
            for b in sorted(lb.table, key=lambda x: id(x) not in first) if first else lb.table:
                bl = [(self.m(u), v) for u, v in b.lits]
                st = mkstore(a.store, list(self.mlits(blits)) + bl)
                if st is None:
                    continue
                hit = True
                self.obl += 1
                save = dict(self.sub)
                n = Norm(st)
                d = None
                try:
                    d = self.pair(a, b, st, list(blits) + list(b.lits), la.lid)
                    if d is not None and not d and a.outcome[0] in ("n", "c", "b", "x"):
                        d = self.carried_values(a, b, st, n, cmap, la, lb)
                except Fuzzy as ex:
                    if fuzzy is None and not fm_infeasible(st.lits.items()):
                        fuzzy = ex
                finally:
                    self.sub = save
                if d and not fm_infeasible(st.lits.items()):
                    for x in d:
                        x.loc = x.loc or la.loc
                    diffs.extend(d)
                    self.hints[id(la), id(lb)] = (id(a), id(b))
                    return diffs
            if not hit and mkstore(a.store, self.mlits(blits)) is not None and not fm_infeasible(a.store.lits.items()):
                save = dict(self.sub)
                try:
                    d = self.unmatched(a, lb.table, blits, la.lid)
                finally:
                    self.sub = save
                if d:
                    return d
        if fuzzy is not None:
            raise fuzzy
        return diffs

    def mlits(self, lits):
        for u, v in lits:
            yield self.m(u), v

    def carried_values(self, a, b, st, n, cmap, la, lb):
        for q, p in cmap.items():
            va = self.E.peek(a.state, p)
            vb = self.S.peek(b.state, q)
            if va is None or vb is None:
                raise Fuzzy("loop variable")
            if va.op == "undef" and vb.op == "undef":
                continue
            if self.same(va, self.m(vb), st, n):
                return [Diff("loop variable", show(n(va)), show(n(self.m(vb))), la.loc, "loop")]
        return []

    # -- writes
    def writes(self, a, b, s, n, lid):
        return self.states(a.state, b.state, s, n, lid)

    def states(self, sa, sb, s, n, lid, covered=None):
        """values of all written locations in two states"""
        locs = []
        seen = set()
        for st, isb in ((sa, False), (sb, True)):
            for p in st.wlog:
                q = self.mpath(p) if isb else p
                if is_local(q) and not (lid is not None and covered is None and self.content(q)) or is_fresh(q):
                    continue
                q = tuple(tuple(n(y) if isinstance(y, Term) else y for y in x) if isinstance(x, tuple) else x for x in q)
                if q in seen:
                    continue
                seen.add(q)
                if covered is not None and not any(self.E.abs_covers(c, q) for c in covered):
                    continue
                locs.append((q, isb))
        for q, isb in locs:
            last = field_of(q)
            if self.skip(q, lid) or lid is not None and lid != "call" and covered is None and q in self.deferred:
                continue
            if q[-1] == "#fill" and not (self.wrote(sa, q, n, False) and self.wrote(sb, q, n, True)):
                # a resize that only shrinks on one side; the sizes are compared
                continue
            if any(isinstance(x, tuple) and None in x for x in q):
                # abstract location: contents compared with the loop that wrote it
                continue
            va = self.E.peek(sa, q)
            vb = self.peek_b(sb, q)
            if va is None or vb is None:
                if any(len(r) > len(q) and r[:len(q)] == q for r, _ in locs):
                    continue
                va, vb = self.E.snapshot(sa, q), self.m(self.S.snapshot(sb, self.inverse(q)))
                if n(va) == n(vb):
                    # written as a whole and in part
                    continue
                self.fuzzy.append("cannot read %s" % showloc_safe(q))
                continue
            if self.beyond(q, sa, s, n):
                continue
            vb = self.m(vb)
            try:
                d = self.same(va, vb, s, n)
            except Fuzzy as ex:
                if va.op == "undef" or vb.op == "undef":
                    continue
                raise
            if d:
                w = [e for e in sa.wlog if tuple(tuple(n(y) if isinstance(y, Term) else y for y in x) if isinstance(x, tuple) else x for x in e) == q]
                kind = "write" if w else "missing"
                return [Diff("value of %s" % showloc_safe(q), show(n(va)), show(n(vb)), self.wloc(sa, q), kind, last)]
        return []

    def wrote(self, st, q, n, isb):
        for p in st.wlog:
            if p[-1] == "#fill":
                p = self.mpath(p) if isb else p
                if tuple(tuple(n(y) if isinstance(y, Term) else y for y in x) if isinstance(x, tuple) else x for x in p) == q:
                    return True
        return False

    def wloc(self, st, q):
        return None

    def peek_b(self, st, q):
        inv = self.inverse(q)
        return self.S.peek(st, inv)

    def inverse(self, q):
        if not self.sub:
            return q
        m = {}
        for k, v in self.sub.items():
            m[v] = k
        return tuple(tuple(substitute(y, m) if isinstance(y, Term) else y for y in x) if isinstance(x, tuple) else x for x in q)

    def skip(self, q, lid):
        names = [x for x in q if isinstance(x, str)]
        if lid is None and any(x in SCRATCH for x in names):
            return True
        if any(x in self.ignore for x in names):
            return True
        return False

    def beyond(self, q, st, s, n):
        """element beyond the final size of its vector"""
        for i, x in enumerate(q):
            if isinstance(x, tuple) and x[0] == "[" and i > 0 and isinstance(x[1], Term):
                sz = self.E.peek(st, q[:i] + ("#size",))
                if sz is not None and sz.op not in ("undef", "opaque"):
                    d = s.decide(lt(x[1], n(sz), True))
                    if d is False:
                        return True
                    if d is None and fm_infeasible(list(s.lits.items()) + [(lt(x[1], n(sz), True), True)] if lt(x[1], n(sz), True).op != "not" else list(s.lits.items()) + [(lt(x[1], n(sz), True).args[0], False)]):
                        return True
            if isinstance(x, tuple) and x[0] == "{":
                c = self.E.peek(st, q[:i] + (("#cnt", x[1]),))
                if c is not None and s.decide(lt(x[2], n(c), True)) is False:
                    return True
        return False


def is_deeper(x, lid):
    if x.op != "loop":
        return False
    if lid is None:
        return True
    return len(x.args) > len(lid.args) and x.args[: len(lid.args)] == lid.args


def deeper(t, lid):
    """does t mention a loop inside of loop lid"""
    acc = set()
    collect(t, lambda x: is_deeper(x, lid), acc, set())
    return bool(acc)


def mentions_loop_lits(lits, lid):
    return sum(1 for u, _ in lits if deeper(u, lid))


def strip_store(a, lid):
    s = a.store.clone()
    n = type(s)()
    for u, v in s.lits.items():
        if not deeper(u, lid):
            n.assume(u, v)
    return n


def containers(l):
    return frozenset(p[0] for p in l.M if isinstance(p[0], tuple) and p[0][0] == "C" and any(isinstance(s, tuple) and None in s for s in p[1:]))


def mentions_loop(t, lids):
    acc = set()

    def pred(x):
        if x.op != "loop":
            return False
        return any(l.op == "loop" and x.args[: len(l.args)] == l.args for l in lids)

    collect(t, pred, acc, set())
    return bool(acc)


def live_locals(paths):
    """(loop, local) pairs whose value at the head of (or after) the loop matters"""
    pred = lambda x: x.op == "lv"
    acc, seen = set(), set()
    recs = {}

    def nonlocal_writes(ws):
        for p, v in ws:
            if is_local(p):
                continue
            for x in p:
                if isinstance(x, tuple):
                    for y in x:
                        if isinstance(y, Term):
                            collect(y, pred, acc, seen)
            if v is not None:
                collect(v, pred, acc, seen)

    def events(evs):
        for ev in evs:
            if ev[0] == "ev":
                if ev[2] is not None:
                    collect(ev[2], pred, acc, seen)
                for x in ev[3]:
                    collect(x, pred, acc, seen)
            elif ev[0] == "loop":
                l = ev[1]
                rs = recs.setdefault(l.lid, [])
                if any(r is l for r in rs):
                    continue
                rs.append(l)
                if l.count is not None:
                    collect(l.count, pred, acc, seen)
                for e in l.table:
                    row(e)
                for p, v in l.init.items():
                    if v is not None and not is_local(p):
                        collect(v, pred, acc, seen)

    def row(e):
        for u, _ in e.lits:
            collect(u, pred, acc, seen)
        events(e.events)
        if len(e.outcome) > 1 and isinstance(e.outcome[1], Term):
            collect(e.outcome[1], pred, acc, seen)
        nonlocal_writes(e.writes)

    for p in paths:
        for u, _ in p.lits:
            collect(u, pred, acc, seen)
        events(p.events)
        if len(p.outcome) > 1 and isinstance(p.outcome[1], Term):
            collect(p.outcome[1], pred, acc, seen)
        nonlocal_writes([(w, v) for r, es in p.state.mem.items() for w, v in es])
    live = set()
    todo = [(t.args[0], t.args[1]) for t in acc]
    while todo:
        k = todo.pop()
        if k in live:
            continue
        live.add(k)
        lid, p = k
        sub, sn = set(), set()
        for l in recs.get(lid, ()):
            v = l.init.get(p)
            if v is not None:
                collect(v, pred, sub, sn)
            for e in l.table:
                for w, v in e.writes:
                    if w == p and v is not None:
                        collect(v, pred, sub, sn)
        todo.extend((t.args[0], t.args[1]) for t in sub)
    return live


def arith_like(x):
    return x.op not in ("st", "s", "cat", "&", "null", "bag", "snap", "cont", "lam", "clo", "streq", "rit", "mit", "xit", "hv", "isnull", "fnref", "seg",
                        "range", "fillv")


def canon(x):
    return x


def first_ite(t):
    stack = [t]
    seen = set()
    while stack:
        x = stack.pop()
        if isinstance(x, tuple):
            stack.extend(x)
            continue
        if not isinstance(x, Term) or x in seen:
            continue
        seen.add(x)
        if x.op == "ite":
            c = x.args[0]
            i = first_ite(c)
            return i if i is not None else (c if c.op != "and" else c.args[0])
        stack.extend(x.args)
    return None


def is_local(p):
    r = p[0]
    return isinstance(r, tuple) and r[0] in ("L", "C")


def is_fresh(p):
    """element of a container returned by value"""
    r = p[0]
    return isinstance(r, tuple) and r[0] == "*" and r[1].op == "call" and r[1].args[0] == "at" and r[1].args[2][0] in FRESH


def kindof(t):
    return "ptr" if t.op in ("&", "null") else "it" if t.op in ITERS else "val"


ITERS = {"xit", "rit", "mit", "sit", "vit"}


def field_of(q):
    for x in reversed(q):
        if isinstance(x, str) and not x.startswith("#"):
            return x
    return None


def evnames(evs):
    d = {}
    for e in evs:
        if e[0] == "ev":
            d[e[1]] = d.get(e[1], 0) + 1
        elif e[0] == "loop":
            for p in e[1].table:
                for k, v in evnames(p.events).items():
                    d[k] = max(d.get(k, 0), v)
    return d


def evloc(evs):
    for e in evs:
        if e[0] == "ev" and e[4]:
            return e[4]
        if e[0] == "loop":
            return e[1].loc
    return None


def fieldset(evs):
    out = set()
    for e in evs:
        if e[0] == "loop":
            for p in e[1].M:
                if not is_local(p):
                    f = field_of(p)
                    if f and f not in SCRATCH and f not in IGNORED_FIELDS:
                        out.add(f)
    return out


def moved(ea, eb):
    """a loop and a call that sees what the loop writes in another order"""
    pos = []
    for evs in (ea, eb):
        lo, ca = {}, {}
        for i, e in enumerate(evs):
            if e[0] == "loop":
                f = frozenset(fieldset([e]))
                lo[f] = None if f in lo else i
            elif e[0] == "ev":
                ca[e[1]] = None if e[1] in ca else i
        pos.append((lo, ca))
    (l1, c1), (l2, c2) = pos
    for f in l1:
        if not f or l1[f] is None or l2.get(f) is None:
            continue
        for k in c1:
            if c1[k] is None or c2.get(k) is None or (l1[f] < c1[k]) == (l2[f] < c2[k]):
                continue
            e = ea[c1[k]] if l1[f] < c1[k] else eb[c2[k]]
            seen = {field_of(q) for q in e[6]} & f if len(e) > 6 else ()
            if seen:
                a = "after the loop writing %s" % ", ".join(sorted(seen)), "before it"
                x, y = a if l1[f] < c1[k] else a[::-1]
                return Diff("call of %s" % k, x, y, ea[c1[k]][4], "order", sorted(seen)[0])
    return None


def independent(x, y):
    if evnames([x]) and evnames([y]):
        return False
    wx, wy = fieldset([x]), fieldset([y])
    return not (wx & (wy | readset(y))) and not (wy & readset(x))


def readset(ev):
    acc = set()
    ev_terms(ev, lambda t: t.op == "ld", acc, set())
    out = set()
    for t in acc:
        out |= {z for z in t.args[0] if isinstance(z, str)}
    return {z for z in out if not z.startswith("#")}


def ev_terms(ev, pred, acc, seen):
    if ev[0] == "ev":
        if ev[2] is not None:
            collect(ev[2], pred, acc, seen)
        for x in ev[3]:
            collect(x, pred, acc, seen)
    elif ev[0] == "loop":
        l = ev[1]
        if l.count is not None:
            collect(l.count, pred, acc, seen)
        for v in l.init.values():
            if v is not None:
                collect(v, pred, acc, seen)
        for e in l.table:
            for u, _ in e.lits:
                collect(u, pred, acc, seen)
            for x in e.events:
                ev_terms(x, pred, acc, seen)
            if len(e.outcome) > 1 and isinstance(e.outcome[1], Term):
                collect(e.outcome[1], pred, acc, seen)
            for p, v in e.writes:
                for x in p:
                    if isinstance(x, tuple):
                        for y in x:
                            if isinstance(y, Term):
                                collect(y, pred, acc, seen)
                if v is not None:
                    collect(v, pred, acc, seen)


def outcome_text(p):
    k = p.outcome[0]
    return {"r": "return", "t": "throw", "n": "continue", "b": "leave loop", "x": "leave loop"}.get(k, k)

"""Hash-consed terms, linear normal forms and the atom store.

Terms are interned: structural equality is identity.  No solver is involved:
conditions are literals over canonical atoms plus interval bounds on linear
forms.
"""
from fractions import Fraction

_table = {}


class Term:
    __slots__ = ("op", "args", "uid", "__weakref__")

    def __repr__(self):
        return show(self)

    def __lt__(self, other):
        return self.uid < other.uid


def T(op, *args):
    k = (op,) + args
    t = _table.get(k)
    if t is None:
        t = Term()
        t.op = op
        t.args = args
        t.uid = len(_table)
        _table[k] = t
    return t


def K(v):
    if isinstance(v, bool):
        v = int(v)
    if isinstance(v, Fraction) and v.denominator == 1:
        v = int(v)
    return T("k", v)


TRUE = K(1)
FALSE = K(0)
NULL = T("null")

# terms known to be boolean / known to be non-negative (typed loads)
BOOL = set()
NONNEG = set()
FRESH = set()  # containers returned by value
RANGE = {}  # typed loads of integers
WIDTH = {k + str(n): ((-2 ** (n - 1), 2 ** (n - 1) - 1) if k == "i" else (0, 2 ** n - 1)) for k in "iu" for n in (8, 16, 32, 64)}
DISTINCT = {"heap_"}  # containers without repeated elements


def forget():
    """what is known about terms holds in one function (or one function and its reference)"""
    for x in (BOOL, NONNEG, FRESH, RANGE):
        x.clear()


def is_const(t):
    return t.op == "k"


def S(s):
    return T("s", s)


# ---------------------------------------------------------------- polynomials
def _poly(t):
    """(const, {mono: coeff}) of a term"""
    if t.op == "k":
        return t.args[0], {}
    if t.op == "poly":
        return t.args[0], dict(t.args[1])
    return 0, {(t,): 1}


def _mk(const, d):
    items = [(m, c) for m, c in d.items() if c != 0]
    if not items:
        return K(const)
    if const == 0 and len(items) == 1 and items[0][1] == 1 and len(items[0][0]) == 1:
        return items[0][0][0]
    items.sort(key=lambda mc: tuple(a.uid for a in mc[0]))
    return T("poly", const, tuple(items))


def add(a, b):
    ca, da = _poly(a)
    cb, db = _poly(b)
    for m, c in db.items():
        da[m] = da.get(m, 0) + c
    return _mk(ca + cb, da)


def scale(a, k):
    c, d = _poly(a)
    return _mk(c * k, {m: x * k for m, x in d.items()})


def neg(a):
    return scale(a, -1)


def sub(a, b):
    return add(a, neg(b))


def mul(a, b):
    ca, da = _poly(a)
    cb, db = _poly(b)
    r = {}
    da = dict(da)
    db = dict(db)
    if ca:
        da[()] = ca
    if cb:
        db[()] = cb
    const = 0
    for m1, c1 in da.items():
        for m2, c2 in db.items():
            m = tuple(sorted(m1 + m2, key=lambda t: t.uid))
            if m == ():
                const += c1 * c2
            else:
                r[m] = r.get(m, 0) + c1 * c2
    return _mk(const, r)


def linpart(t):
    """normalised linear part: returns (Lp, sign*scale, const): t = scale*Lp + const"""
    c, d = _poly(t)
    if not d:
        return None, 0, c
    items = sorted(d.items(), key=lambda mc: tuple(a.uid for a in mc[0]))
    lead = items[0][1]
    nd = {}
    from math import gcd

    g = None
    for m, x in items:
        if isinstance(x, Fraction):
            g = None
            break
        g = abs(x) if g is None else gcd(g, abs(x))
    s = g if g else 1
    if g is None:
        s = abs(lead)
    if lead < 0:
        s = -s
    for m, x in items:
        nd[m] = x // s if isinstance(x, int) and isinstance(s, int) and x % s == 0 else Fraction(x) / s
    return _mk(0, nd), s, c


def nonneg_lin(lp):
    c, d = _poly(lp)
    if c < 0:
        return False
    for m, x in d.items():
        if x < 0:
            return False
        for a in m:
            if a not in NONNEG and a not in BOOL:
                return False
    return True


def nonpos_lin(lp):
    return nonneg_lin(neg(lp))


# ---------------------------------------------------------------- conditions
def NOT(t):
    if t is TRUE:
        return FALSE
    if t is FALSE:
        return TRUE
    if t.op == "not":
        return t.args[0]
    return T("not", t)


def _floor_div(a, b):
    return Fraction(a, 1) / b


def lt(a, b, isint):
    """a < b"""
    d = sub(a, b)
    lp, s, c = linpart(d)
    if lp is None:
        return K(c < 0)
    bound = Fraction(-c) / s
    if isint:
        import math

        if s > 0:  # s*lp + c < 0  <=>  lp < bound  <=> lp <= ceil(bound)-1
            return _le(lp, math.ceil(bound) - 1, True)
        # lp > bound  <=> not lp <= floor(bound)
        return NOT(_le(lp, math.floor(bound), True))
    if bound.denominator == 1:
        bound = int(bound)
    if s > 0:
        return T("lt", lp, bound, False)
    return NOT(T("le", lp, bound, False))


def _le(lp, b, isint):
    if nonneg_lin(lp):
        if b < 0:
            return FALSE
        if b == 0:
            return eq(lp, K(0), isint)
        if b >= 1 and lp in BOOL:
            return TRUE
    elif nonpos_lin(lp):
        if b >= 0:
            return TRUE
        # lp <= b < 0, lp <= 0 : -lp >= -b ; for b == -1: lp != 0
        if isint and b == -1:
            return NOT(eq(lp, K(0), isint))
    return T("le", lp, b, isint)


def le(a, b, isint):
    return NOT(lt(b, a, isint)) if isint else _lef(a, b)


def _lef(a, b):
    d = sub(a, b)
    lp, s, c = linpart(d)
    if lp is None:
        return K(c <= 0)
    bound = Fraction(-c) / s
    if bound.denominator == 1:
        bound = int(bound)
    if s > 0:
        return T("le", lp, bound, False)
    return NOT(T("lt", lp, bound, False))


def eq(a, b, isint=True):
    if a is b:
        return TRUE
    for x, y in ((a, b), (b, a)):
        if y.op == "k" and is_bool(x):
            if y.args[0] == 0:
                return NOT(x)
            if y.args[0] == 1:
                return x
            return FALSE
    if a.op == "s" or b.op == "s":
        if a.op == "s" and b.op == "s":
            return K(a.args[0] == b.args[0])
        if a.op == "s":
            a, b = b, a
        return T("streq", a, b)
    if a.op == "ld" and b.op == "ld" and a.args[1] is b.args[1] and len(a.args[0]) > 1 and a.args[0][-2] in DISTINCT and a.args[0][:-1] == b.args[0][:-1]:
        return eq(a.args[0][-1][1], b.args[0][-1][1])
    d = sub(a, b)
    lp, s, c = linpart(d)
    if lp is None:
        return K(c == 0)
    bound = Fraction(-c) / s
    if bound.denominator != 1 and isint:
        return FALSE
    if bound.denominator == 1:
        bound = int(bound)
    if nonneg_lin(lp) and bound < 0:
        return FALSE
    return T("eq", lp, bound, isint)


def is_bool(t):
    return t in BOOL or t.op in ("not", "le", "lt", "eq", "streq", "isnull", "found", "and", "or") or t is TRUE or t is FALSE


STRTEST = {"iequals": "eq", "iequals_pre": "pre"}


def strtest(t):
    """(kind, value, constant, literal is positive) for a case insensitive test of a value against a constant"""
    if t.op == "call":
        neg_, c = True, t
    elif t.op == "isnull" and t.args[0].op == "call":
        neg_, c = False, t.args[0]
    else:
        return None
    k = STRTEST.get(c.args[0])
    if k is None or len(c.args[2]) != 2 or c.args[2][1].op != "s" or (k == "eq") != neg_:
        return None
    return k, c.args[2][0], str(c.args[2][1].args[0]).lower(), neg_


def excludes(a, k, s):
    """a value passing test a cannot pass test k against s"""
    k0, s0 = a
    if k0 == "eq":
        return s0 != s if k == "eq" else not s0.startswith(s)
    if k == "eq":
        return not s.startswith(s0)
    return not (s.startswith(s0) or s0.startswith(s))


class Store:
    """conjunction of literals"""

    __slots__ = ("lits", "lo", "hi", "neq", "streq", "pref")

    def __init__(self):
        self.lits = {}
        self.lo = {}
        self.hi = {}
        self.neq = {}
        self.streq = {}
        self.pref = {}

    def clone(self):
        s = Store()
        s.lits = dict(self.lits)
        s.lo = dict(self.lo)
        s.hi = dict(self.hi)
        s.neq = dict(self.neq)
        s.streq = dict(self.streq)
        s.pref = dict(self.pref)
        return s

    def bounds(self, lp):
        lo = self.lo.get(lp)
        hi = self.hi.get(lp)
        nlp = neg(lp)
        if nlp.op == "poly" or nlp.op != "k":
            if nlp in self.hi:
                v, s = self.hi[nlp]
                if lo is None or -v > lo[0]:
                    lo = (-v, s)
            if nlp in self.lo:
                v, s = self.lo[nlp]
                if hi is None or -v < hi[0]:
                    hi = (-v, s)
        if nonneg_lin(lp) and (lo is None or lo[0] < 0):
            lo = (0, False)
        if lp in BOOL and (hi is None or hi[0] > 1):
            hi = (1, False)
        return lo, hi

    def decide(self, t):
        """True/False/None"""
        if t.op == "k":
            return t.args[0] != 0
        if t.op == "not":
            r = self.decide(t.args[0])
            return None if r is None else not r
        r = self.lits.get(t)
        if r is not None:
            return r
        if t.op in ("le", "lt", "eq"):
            lp, b = t.args[0], t.args[1]
            lo, hi = self.bounds(lp)
            if t.op == "le":
                if hi is not None and hi[0] <= b:
                    return True
                if lo is not None and (lo[0] > b or (lo[0] == b and lo[1])):
                    return False
            elif t.op == "lt":
                if hi is not None and (hi[0] < b or (hi[0] == b and hi[1])):
                    return True
                if lo is not None and lo[0] >= b:
                    return False
            else:
                if lo is not None and hi is not None and lo[0] == hi[0] == b and not lo[1] and not hi[1]:
                    return True
                if lo is not None and (lo[0] > b or (lo[0] == b and lo[1])):
                    return False
                if hi is not None and (hi[0] < b or (hi[0] == b and hi[1])):
                    return False
                if b in self.neq.get(lp, ()):
                    return False
        if t.op == "streq":
            k = self.streq.get(t.args[0])
            if k is not None and t.args[1].op == "s":
                return k is t.args[1]
        if self.pref:
            c = strtest(t)
            if c is not None:
                for a in self.pref.get(c[1], ()):
                    if excludes(a, c[0], c[2]):
                        return False if c[3] else True
        return None

    def assume(self, t, val):
        """returns False on contradiction"""
        while t.op == "not":
            t = t.args[0]
            val = not val
        if t.op == "k":
            return (t.args[0] != 0) == val
        r = self.decide(t)
        if r is not None:
            if r != val:
                return False
            self.lits.setdefault(t, val)
            return True
        self.lits[t] = val
        if t.op in ("le", "lt", "eq"):
            lp, b, isint = t.args
            if t.op == "le":
                if val:
                    self._sethi(lp, b, False)
                else:
                    self._setlo(lp, b + 1 if isint else b, not isint)
            elif t.op == "lt":
                if val:
                    self._sethi(lp, b, True)
                else:
                    self._setlo(lp, b, False)
            else:
                if val:
                    self._sethi(lp, b, False)
                    self._setlo(lp, b, False)
                else:
                    self.neq[lp] = self.neq.get(lp, frozenset()) | {b}
            # integer tightening with disequalities
            if isint:
                for _ in range(4):
                    lo, hi = self.bounds(lp)
                    ne = self.neq.get(lp, ())
                    ch = False
                    if lo is not None and lo[0] in ne:
                        self._setlo(lp, lo[0] + 1, False)
                        ch = True
                    if hi is not None and hi[0] in ne:
                        self._sethi(lp, hi[0] - 1, False)
                        ch = True
                    if not ch:
                        break
                lo, hi = self.bounds(lp)
                if lo is not None and hi is not None and lo[0] > hi[0]:
                    return False
        if t.op == "streq" and val and t.args[1].op == "s":
            self.streq[t.args[0]] = t.args[1]
        c = strtest(t)
        if c is not None and c[3] == val:
            self.pref[c[1]] = self.pref.get(c[1], ()) + ((c[0], c[2]),)
        return True

    def _sethi(self, lp, b, strict):
        h = self.hi.get(lp)
        if h is None or b < h[0] or (b == h[0] and strict):
            self.hi[lp] = (b, strict)

    def _setlo(self, lp, b, strict):
        h = self.lo.get(lp)
        if h is None or b > h[0] or (b == h[0] and strict):
            self.lo[lp] = (b, strict)


# ---------------------------------------------------------------- printing
def show(t, depth=0):
    if not isinstance(t, Term):
        if isinstance(t, tuple):
            return showloc(t)
        return str(t)
    if depth > 9:
        return "…"
    o, a = t.op, t.args
    d = depth + 1
    if o == "k":
        return str(a[0])
    if o == "s":
        return repr(a[0])
    if o == "poly":
        parts = []
        for m, c in a[1]:
            ms = "*".join(show(x, d) for x in m)
            if c == 1:
                parts.append("+" + ms)
            elif c == -1:
                parts.append("-" + ms)
            else:
                parts.append("%+s*%s" % (c, ms))
        if a[0]:
            parts.append("%+d" % a[0] if isinstance(a[0], int) else "+" + str(a[0]))
        s = "".join(parts)
        return "(" + (s[1:] if s.startswith("+") else s) + ")"
    if o == "not":
        return "!" + show(a[0], d)
    if o in ("le", "lt", "eq"):
        return "%s%s%s" % (show(a[0], d), {"le": "<=", "lt": "<", "eq": "=="}[o], a[1])
    if o == "ld":
        s = showloc(a[0], d)
        if a[1] is not None:
            s += "'"
        return s
    if o == "&":
        return "&" + showloc(a[0], d)
    if o == "sym":
        return str(a[0])
    return "%s(%s)" % (o, ",".join(show(x, d) if isinstance(x, (Term, tuple)) else str(x) for x in a))


def showloc(p, depth=0):
    if not isinstance(p, tuple):
        return show(p, depth)
    out = ""
    for i, s in enumerate(p):
        if isinstance(s, str):
            out += ("." if out else "") + s
        elif isinstance(s, tuple) and s and s[0] == "[":
            out += "[%s]" % (show(s[1], depth + 1) if isinstance(s[1], Term) else s[1])
        elif isinstance(s, tuple):
            out += ("." if out else "") + "/".join(show(x, depth + 1) if isinstance(x, Term) else str(x) for x in s)
        elif isinstance(s, Term):
            out += ("." if out else "") + show(s, depth + 1)
        else:
            out += "." + str(s)
    return out

"""Symbolic sizes and bounds: rational functions over named atoms.

An atom is a size (number of units, periods, classes, ...), a loop counter or
an opaque value with known bounds.  Nothing here enumerates paths or calls a
solver: all questions are answered by coefficient signs after shifting every
atom by its lower bound.
"""
from fractions import Fraction
import math

ATOMS = {}        # name -> Atom


class Atom:
    __slots__ = ("name", "lo", "hi", "lo_open", "hi_open", "integral", "kind")

    def __init__(self, name, lo, hi, lo_open=False, hi_open=False, integral=False, kind="val"):
        self.name, self.lo, self.hi = name, lo, hi
        self.lo_open, self.hi_open, self.integral, self.kind = lo_open, hi_open, integral, kind


def atom(name, lo=None, hi=None, lo_open=False, hi_open=False, integral=False, kind="val"):
    a = ATOMS.get(name)
    if a is None:
        a = ATOMS[name] = Atom(name, lo, hi, lo_open, hi_open, integral, kind)
    return sym(name)


MAXMONO = 60


class Ex:
    """num/den with polynomial dictionaries {monomial: Fraction}."""
    __slots__ = ("num", "den", "_h")

    def __init__(self, num, den=None):
        self.num = num
        self.den = den if den is not None else {(): Fraction(1)}
        self._h = None

    def __eq__(self, o):
        if self is o:
            return True
        if not isinstance(o, Ex):
            return NotImplemented
        if self.den == o.den:
            return self.num == o.num
        return pmul(self.num, o.den) == pmul(o.num, self.den)

    def __hash__(self):
        if self._h is None:
            # equal rational functions with different denominators may hash apart;
            # only used as a speed-up key together with normal form
            self._h = hash((frozenset(self.num.items()), frozenset(self.den.items())))
        return self._h

    def __repr__(self):
        s = pstr(self.num)
        if self.den != {(): 1}:
            s = "(%s)/(%s)" % (s, pstr(self.den))
        return s

    def const(self):
        if self.den == {(): 1}:
            if not self.num:
                return Fraction(0)
            if len(self.num) == 1 and () in self.num:
                return self.num[()]
        return None

    def atoms(self):
        out = set()
        for p in (self.num, self.den):
            for m in p:
                for a, _ in m:
                    out.add(a)
        return out


def pstr(p):
    if not p:
        return "0"
    out = []
    for m, c in sorted(p.items(), key=lambda kv: str(kv[0])):
        t = "*".join(a if e == 1 else "%s^%d" % (a, e) for a, e in m)
        if not t:
            t = str(c) if c.denominator < 10**6 else "%.6g" % float(c)
        elif c == -1:
            t = "-" + t
        elif c != 1:
            t = "%s*%s" % (c if c.denominator < 10**6 else "%.6g" % float(c), t)
        out.append(t)
    return "+".join(out).replace("+-", "-")


def padd(a, b, s=1):
    r = dict(a)
    for m, c in b.items():
        v = r.get(m, 0) + s * c
        if v:
            r[m] = v
        else:
            r.pop(m, None)
    return r


def mmul(a, b):
    if not a:
        return b
    if not b:
        return a
    d = dict(a)
    for s, e in b:
        d[s] = d.get(s, 0) + e
    return tuple(sorted(d.items()))


def pmul(a, b):
    r = {}
    for m, c in a.items():
        for n, d in b.items():
            k = mmul(m, n)
            v = r.get(k, 0) + c * d
            if v:
                r[k] = v
            else:
                r.pop(k, None)
    return r


def num(c):
    if isinstance(c, Ex):
        return c
    if isinstance(c, bool):
        c = int(c)
    if isinstance(c, float):
        if not math.isfinite(c):
            return None
        c = Fraction(c)
    c = Fraction(c)
    return Ex({(): c} if c else {})


def sym(name):
    return Ex({((name, 1),): Fraction(1)})


def _norm(nu, de):
    if nu is None or de is None or len(nu) > MAXMONO or len(de) > MAXMONO:
        return None
    if not nu:
        return Ex({})
    if len(de) == 1:
        (m, c), = de.items()
        if m == ():
            if c != 1:
                nu = {k: v / c for k, v in nu.items()}
            return Ex(nu)
    # cancel common monomial content
    if de != {(): 1}:
        # den = q * num ?
        if len(nu) == len(de):
            ks = list(nu)
            if all(k in de for k in ks):
                r = de[ks[0]] / nu[ks[0]]
                if all(de[k] == r * nu[k] for k in ks):
                    return Ex({(): 1 / r})
        common = None
        for p in (nu, de):
            for m in p:
                d = dict(m)
                if common is None:
                    common = d
                else:
                    common = {a: min(e, d[a]) for a, e in common.items() if a in d}
        if common:
            def red(p):
                out = {}
                for m, c in p.items():
                    d = dict(m)
                    for a, e in common.items():
                        d[a] -= e
                        if not d[a]:
                            del d[a]
                    out[tuple(sorted(d.items()))] = c
                return out
            nu, de = red(nu), red(de)
            return _norm(nu, de)
        # scale so that a canonical den monomial has coefficient 1
        k = max(de, key=lambda m: (len(m), m))
        c = de[k]
        if c != 1:
            nu = {m: v / c for m, v in nu.items()}
            de = {m: v / c for m, v in de.items()}
        # exact polynomial division by a linear den (cheap try)
        q = _divide(nu, de)
        if q is not None:
            return Ex(q)
    return Ex(nu, de)


def _divide(nu, de):
    lead = max(de, key=lambda m: (sum(e for _, e in m), m))
    lc = de[lead]
    if not lead:
        return None
    q, r = {}, dict(nu)
    for _ in range(12):
        if not r:
            return q
        m = max(r, key=lambda m: (sum(e for _, e in m), m))
        d = dict(m)
        for a, e in lead:
            if d.get(a, 0) < e:
                return None
            d[a] -= e
            if not d[a]:
                del d[a]
        mono = tuple(sorted(d.items()))
        c = r[m] / lc
        q = padd(q, {mono: c})
        r = padd(r, pmul({mono: c}, de), -1)
    return None


def add(a, b):
    if a is None or b is None:
        return None
    if a.den == b.den:
        return _norm(padd(a.num, b.num), a.den)
    return _norm(padd(pmul(a.num, b.den), pmul(b.num, a.den)), pmul(a.den, b.den))


def neg(a):
    return None if a is None else Ex({m: -c for m, c in a.num.items()}, a.den)


def sub(a, b):
    return add(a, neg(b))


def mul(a, b):
    if a is None or b is None:
        return None
    if len(a.num) * len(b.num) > 400:
        return None
    return _norm(pmul(a.num, b.num), pmul(a.den, b.den))


def div(a, b):
    if a is None or b is None or not b.num:
        return None
    return _norm(pmul(a.num, b.den), pmul(a.den, b.num))


def subst(e, m):
    """Substitute atoms by expressions: m = {name: Ex}."""
    if e is None or not m:
        return e
    if not (e.atoms() & set(m)):
        return e

    def ps(p):
        acc = num(0)
        for mono, c in p.items():
            t = num(c)
            for a, k in mono:
                x = m.get(a) or sym(a)
                for _ in range(k):
                    t = mul(t, x)
            acc = add(acc, t)
        return acc
    return div(ps(e.num), ps(e.den))


def _lower(a):
    at = ATOMS.get(a)
    if at is None or at.kind != "dim":
        return None
    return at.lo


def sign_dims(p):
    """Sign of a polynomial in size atoms: '+0' (>=0), '+' (>0), '-0', '-', '0' or None."""
    if not p:
        return "0"
    e = Ex(p)
    m = {}
    for a in e.atoms():
        lo = _lower(a)
        if lo is None:
            return None
        m[a] = add(sym(a), num(lo))
    q = subst(e, m).num
    if not q:
        return "0"
    cs = list(q.values())
    c0 = q.get((), 0)
    if all(c >= 0 for c in cs):
        return "+" if c0 > 0 else "+0"
    if all(c <= 0 for c in cs):
        return "-" if c0 < 0 else "-0"
    return None


def sgn(e):
    """Sign of a size expression (no value atoms)."""
    if e is None:
        return None
    s = sign_dims(e.num)
    d = sign_dims(e.den)
    if s is None or d not in ("+", "-"):
        return None
    if d == "-":
        s = s.translate(str.maketrans("+-", "-+"))
    return s


def has_val(e):
    return [a for a in sorted(e.atoms()) if ATOMS[a].kind != "dim"] if e is not None else []


def lincoef(p, a):
    """p as c1*a + c0, or None when not linear in a."""
    c1, c0 = {}, {}
    for m, c in p.items():
        d = dict(m)
        e = d.pop(a, 0)
        if e == 0:
            c0[m] = c
        elif e == 1:
            k = tuple(sorted(d.items()))
            c1[k] = c1.get(k, 0) + c
        else:
            return None
    return c1, c0


def bound(e, which, depth=0):
    """Lower (which=-1) or upper (+1) bound of e over the ranges of its value atoms.

    Returns (Ex over sizes, open) or None when unbounded or not decidable.
    """
    if e is None or depth > 14:
        return None
    vs = has_val(e)
    if not vs:
        return (e, False)
    # loop counters whose bounds mention other counters must go first
    def rank(a):
        at = ATOMS[a]
        ms = [has_val(x) for x in (at.lo, at.hi) if isinstance(x, Ex)]
        return (-max([0] + [sum(y in vs0 for y in m) for m in ms]), -max([0] + [len(m) for m in ms]))
    vs0 = set(vs)
    vs.sort(key=rank)
    a = vs[0]
    if any(a == s for m in e.den for s, _ in m):
        return None
    lc = lincoef(e.num, a)
    at = ATOMS[a]
    if lc is None:
        return powbound(e, which, a, at, depth)
    coef = Ex(lc[0], e.den)
    s = esign(coef, depth + 1)
    lo, hi = num_or_none(at.lo), num_or_none(at.hi)

    def at_end(x, op):
        if x is None:
            return None
        r = bound(subst(e, {a: x}), which, depth + 1)
        if r is None:
            return None
        return (r[0], r[1] or (op and s in ("+", "-")))
    if s in ("+", "+0"):
        return at_end(lo, at.lo_open) if which < 0 else at_end(hi, at.hi_open)
    if s in ("-", "-0"):
        return at_end(hi, at.hi_open) if which < 0 else at_end(lo, at.lo_open)
    if s == "0":
        return bound(Ex(lc[1], e.den), which, depth + 1)
    x, y = at_end(lo, False), at_end(hi, False)
    if x is None or y is None:
        return None
    d = sgn(sub(x[0], y[0]))
    if d is None:
        return None
    if d in ("+", "+0"):
        return y if which < 0 else x
    return x if which < 0 else y


def powbound(e, which, a, at, depth):
    """Bound of a polynomial in a >= 0 whose coefficients all have one sign."""
    lo = num_or_none(at.lo)
    if lo is None or has_val(lo) or sgn(lo) not in ("+", "+0", "0"):
        return None
    by = {}
    for m, c in e.num.items():
        d = dict(m)
        q = d.pop(a, 0)
        if q:
            by.setdefault(q, {})[tuple(sorted(d.items()))] = c
    ss = {esign(Ex(c, e.den), depth + 1) for c in by.values()}
    if ss <= {"+", "+0", "0"}:
        x = lo if which < 0 else num_or_none(at.hi)
    elif ss <= {"-", "-0", "0"}:
        x = lo if which > 0 else num_or_none(at.hi)
    else:
        return None
    return bound(subst(e, {a: x}), which, depth + 1) if x is not None else None


def num_or_none(x):
    if x is None:
        return None
    return num(x)


def esign(e, depth=0):
    """Sign of an expression that may contain value atoms."""
    if e is None or depth > 10:
        return None
    if not has_val(e):
        return sgn(e)
    lo = bound(e, -1, depth + 1)
    if lo is not None:
        s = sgn(lo[0])
        if s == "+" or (s == "+0" and lo[1]):
            return "+"
        if s in ("+0", "0"):
            if s == "0" and lo[1]:
                return "+"
            return "+0"
    hi = bound(e, 1, depth + 1)
    if hi is not None:
        s = sgn(hi[0])
        if s == "-" or (s == "-0" and hi[1]):
            return "-"
        if s in ("-0", "0"):
            if s == "0" and hi[1]:
                return "-"
            return "-0"
    return None


def ge0(e):
    return esign(e) in ("+", "+0", "0")


def gt0(e):
    return esign(e) == "+"


def le(a, b):
    return ge0(sub(b, a))


def lt(a, b):
    return gt0(sub(b, a))


ONE = num(1)
ZERO = num(0)

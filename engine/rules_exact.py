"""Element-by-element values: a term over one free number, followed piece by piece."""
import math
from . import sym as S
from . import node as N
from .node import Node, constof, NOCONST, walk
from .interp import ArrCell, ListCell, DictCell, InstCell, Ref, Alt, Tup  # noqa: F401
from .rulelib import prop, entry, opts, tainted, rngs, ins  # noqa: F401
from .rules_val import attr_items, where_of, strip_lead, firm
from .rules_inf import the_node, same
from .rules_dim import contradicts
from .rules_tab import inner

TAU = 2 * math.pi


class Split(Exception):
    def __init__(self, at):
        self.at = at


class Piece:
    """Open interval (lo, hi), or the point lo."""

    def __init__(self, lo, hi):
        self.lo, self.hi = lo, hi
        self.pt = lo == hi
        self.mid = lo if self.pt else (lo + hi) / 2

    def __repr__(self):
        return "{%g}" % self.lo if self.pt else "(%g,%g)" % (self.lo, self.hi)


def lin(a, b):
    return ("lin", float(a), float(b))


def isnum(v):
    return isinstance(v, tuple) and v[0] == "lin"


def tonum(v):
    return lin(0, 1 if v else 0) if isinstance(v, bool) else v


FUZZY = "fuzzy"      # a test that does not separate equal from nearly equal


class Elem:
    """Value of a term at one element, the free number lying in a piece of its range."""

    def __init__(self, leaf, zero=lambda n: False, gen=None):
        self.leaf, self.gen = leaf, gen

    def pieces(self, n, ps):
        todo, out = list(ps), []
        while todo and len(out) < 200:
            p = todo.pop(0)
            try:
                self.memo = {}
                out.append((p, self.ev(n, p)))
            except Split as s:
                todo = [Piece(p.lo, s.at), Piece(s.at, s.at), Piece(s.at, p.hi)] + todo
        return out

    def at0(self, v, p, shift=0.0):
        """Sign of a linear value on a piece, splitting where it changes."""
        a, b = v[1], v[2] - shift
        if a == 0 or p.pt:
            x = a * p.mid + b
            return 0 if x == 0 else 1 if x > 0 else -1
        r = -b / a
        if p.lo < r < p.hi:
            raise Split(r)
        x = a * p.mid + b
        return 0 if x == 0 else 1 if x > 0 else -1

    def ev(self, n, p, d=0):
        if not isinstance(n, Node):
            return lin(0, n) if isinstance(n, (int, float)) and not isinstance(n, bool) else n if isinstance(n, bool) else None
        if n.id in self.memo:
            return self.memo[n.id]
        self.memo[n.id] = v = self.ev1(n, p, d)
        return v

    def ev1(self, n, p, d):
        if d > 60:
            return None
        if self.leaf(n):
            return lin(1, 0)
        if self.gen is not None:
            g = self.gen(self, n, p)
            if g is not NotImplemented:
                return g
        c = constof(n)
        if c is not NOCONST:
            if isinstance(c, bool):
                return c
            return lin(0, c) if isinstance(c, (int, float)) else None
        e = n._ex
        if e is not None and e.atoms() <= {"pi"} and n.shape == ():
            x = S.subst(e, {"pi": S.num(0)}).const() if "pi" in e.atoms() else e.const()
            y = S.subst(e, {"pi": S.num(1)}).const() if "pi" in e.atoms() else x
            if x is not None and y is not None and e.den == {(): 1} and all(sum(k for _, k in m) <= 1 for m in e.num):
                return lin(0, float(x) + float(y - x) * math.pi)
        o, A = n.op, n.args
        ev = lambda z: self.ev(z, p, d + 1)
        if o in ("cast", "assume", "copy", "reshape", "diagm"):
            return ev(A[0])
        if n.rank == 2 and o in ("sel", "upd", "loop", "new"):
            b = base_of(n)      # fills concern rows without transitions only
            if b is not n:
                return ev(b)
        if o == "ix":
            if all(s[0] in "sn" or s[0] == "m" or s[0] == "a" and isinstance(s[1], Node) and s[1].op == "nonzero" or s[0] == "p" and chosen(s[1]) is not None for s in A[1]):
                return ev(A[0])
            return None
        if o == "full":
            return ev(A[1])
        if o in ("add", "sub", "mul", "div"):
            x, y = tonum(ev(A[0])), tonum(ev(A[1]))
            if FUZZY in (x, y):
                return FUZZY
            if any(isinstance(z, tuple) and vague(z) for z in (x, y)):
                return None
            if isinstance(x, tuple) and isinstance(y, tuple) and (not isnum(x) or not isnum(y)):
                return (o, x, y)
            if not isnum(x) or not isnum(y):
                for u, w in ((x, y), (y, x)):
                    if o == "mul" and isnum(u) and u[1] == 0 and u[2] == 0 and w is not None:
                        return lin(0, 0)
                return None
            if o in ("add", "sub"):
                s = 1 if o == "add" else -1
                if any(math.isinf(z) for z in (x[2], y[2])):
                    return lin(0, x[2] + s * y[2]) if x[1] == y[1] == 0 or True else None
                return lin(x[1] + s * y[1], x[2] + s * y[2])
            if o == "mul":
                if x[1] and y[1]:
                    return ("mul", x, y)
                if math.isinf(x[2]) or math.isinf(y[2]):
                    return lin(0, x[2] * y[2]) if x[1] == y[1] == 0 else None
                return lin(x[1] * y[2] + y[1] * x[2], x[2] * y[2])
            if y[1] == 0 or p.pt:
                y0 = y[1] * p.mid + y[2]
                if y0:
                    return lin(x[1] / y0, x[2] / y0)
                s = self.at0(x, p)
                return lin(0, math.inf if s > 0 else -math.inf if s < 0 else math.nan)
            return ("div", x, y)
        if o == "neg":
            x = tonum(ev(A[0]))
            return lin(-x[1], -x[2]) if isnum(x) else None
        if o == "abs":
            x = tonum(ev(A[0]))
            if not isnum(x):
                return None
            return x if self.at0(x, p) >= 0 else lin(-x[1], -x[2])
        if o in ("max2", "min2"):
            x, y = tonum(ev(A[0])), tonum(ev(A[1]))
            if not isnum(x) or not isnum(y):
                return None
            s = self.at0(lin(x[1] - y[1], x[2] - y[2]), p)
            return (x if s >= 0 else y) if o == "max2" else (x if s <= 0 else y)
        if o == "mod":
            x, y = tonum(ev(A[0])), tonum(ev(A[1]))
            if not isnum(x) or not isnum(y) or y[1] or y[2] <= 0 or math.isinf(x[2]):
                return None
            if x[1] and not p.pt:
                a, b = sorted((x[1] * p.lo + x[2], x[1] * p.hi + x[2]))
                k0, k1 = math.floor(a / y[2]), math.ceil(b / y[2])
                for k in range(k0, k1 + 1):
                    r = (k * y[2] - x[2]) / x[1]
                    if p.lo < r < p.hi and abs(r - p.lo) > 1e-12 and abs(r - p.hi) > 1e-12:
                        raise Split(r)
            k = math.floor((x[1] * p.mid + x[2]) / y[2])
            return lin(x[1], x[2] - k * y[2])
        if o == "cmp":
            x, y = tonum(ev(A[1])), tonum(ev(A[2]))
            if FUZZY in (x, y):
                return FUZZY
            if not isnum(x) or not isnum(y):
                return None
            if math.isinf(x[2]) or math.isinf(y[2]):
                s = 0 if x[2] == y[2] else 1 if x[2] > y[2] else -1
            else:
                s = self.at0(lin(x[1] - y[1], x[2] - y[2]), p)
            return {"lt": s < 0, "le": s <= 0, "gt": s > 0, "ge": s >= 0, "eq": s == 0, "ne": s != 0}.get(A[0])
        if o == "not":
            x = ev(A[0])
            return not x if isinstance(x, bool) else x if x == FUZZY else None
        if o in ("and", "or"):
            x, y = ev(A[0]), ev(A[1])
            z = o == "or"
            if x is z or y is z:
                return z
            if x is (not z) and y is (not z):
                return not z
            return FUZZY if FUZZY in (x, y) else None
        if o in ("any", "all") and len(A) > 1 and A[0].rank == 1:
            x = ev(A[0])
            z = o == "any"
            return z if x is z else None
        if o in ("round", "around") or o == "fn" and A and A[0] in ("round", "around", "rint", "floor", "ceil"):
            z = [q for q in N.nodes_in(A)][:1]
            v = tonum(ev(z[0])) if z else None
            return v if isnum(v) and v[1] == 0 and v[2] == round(v[2]) else FUZZY if isnum(v) and v[1] else None
        if o in ("isclose",) or o == "fn" and A and A[0] in ("isclose",):
            return FUZZY
        if o in ("hdr", "loop") and n.rank == 1 and len(A) > 3 and isinstance(A[3], Node):
            if o == "hdr":
                return ev(A[3])
            return ev(A[4]) if every_turn(A[4]) else None
        if o == "sel" and A[0].op == "new":
            if A[0].args[0] == "ran" and A[1].op == "loop" and (A[1].args[3] is A[2] or same(A[1].args[3], A[2])):
                return ev(A[1])
            return None
        if o == "sel":
            m = ev(A[0])
            if m is FUZZY:
                return FUZZY
            if m is True or m is False:
                return ev(A[1 if m else 2])
            x, y = ev(A[1]), ev(A[2])
            if x == y:
                return x
            return ("either", x, y)
        if o == "upd" and len(A[1]) == 1:
            s = A[1][0]
            m = s[1] if s[0] == "m" else s[1].args[0] if s[0] == "a" and isinstance(s[1], Node) and s[1].op == "nonzero" else chosen(s[1]) if s[0] == "p" else None
            if m is None:
                return None
            v = ev(m)
            if v is FUZZY:
                return FUZZY
            return ev(A[2]) if v is True else ev(A[0]) if v is False else None
        if o == "seq" and A[0] == 0 and isinstance(A[1], str):
            return ev(A[3])
        return None


def chosen(i):
    """The mask whose positions an index takes one after another."""
    if isinstance(i, Node) and i.op == "ix" and i.args[0].op == "nonzero" and len(i.args[1]) == 1 and i.args[1][0][0] == "p" and i.args[1][0][1].op == "atom":
        return i.args[0].args[0]
    return None


def every_turn(b, d=0):
    """The turn of a loop stores at the positions of one mask, or leaves the array alone."""
    if b.op == "hdr":
        return True
    if b.op == "upd" and len(b.args[1]) == 1 and b.args[1][0][0] == "p" and d < 4:
        return chosen(b.args[1][0][1]) is not None and every_turn(b.args[0], d + 1)
    return False


def vague(v):
    """Some part of the value is not known."""
    return v is None or v == "either" or isinstance(v, tuple) and any(vague(z) for z in v)


def alts(v):
    return alts(v[1]) + alts(v[2]) if isinstance(v, tuple) and v[0] == "either" else [v]


# ---------------------------------------------------------------- C25
def turn(n):
    return n.shape == () and near(n, TAU)


def near(n, x):
    v = Elem(lambda z: False).pieces(n, [Piece(0, 0)])[0][1] if n.shape == () else None
    return isnum(v) and v[1] == 0 and abs(v[2] - x) < 1e-9


def known(n):
    v = Elem(lambda z: False).pieces(n, [Piece(0, 0)])[0][1] if n.shape == () else None
    return isnum(v)


def exof(n):
    return n._ex if n._ex is not None else n.ex


def edges(x, key, where, what, b, K):
    """b holds the K+1 edges of K equal sectors of a full turn."""
    x.count("sets of sector edges examined")
    b = strip_cast(b)
    ra = b.args[1] if b.op == "fn" and b.args[0] == "round" else ()
    if isinstance(ra, tuple) and ra and isinstance(ra[0], Node) and strip_cast(ra[0]).op == "linspace":
        d = ra[1] if len(ra) > 1 else 0
        d = constof(d) if isinstance(d, Node) else d
        if isinstance(d, int) and d <= 12:
            x.bad(key, where, "%s: the edges are rounded to %s decimals, so the last is no full turn and the sectors differ" % (what, d))
            return False
    if b.rank == 1 and b.op != "linspace" and b.shape[0] is not None:
        d = S.sub(b.shape[0], S.add(K, S.ONE))
        if d.const() not in (None, 0) and firm(b.shape[0]) and not tainted(b):
            x.bad(key, where, "%s: %s edges for %s sectors" % (what, b.shape[0], K))
            return False
    if b.op == "linspace":
        lo, hi, n = b.args[0], b.args[1], exof(b.args[2])
        d = S.sub(n, S.add(K, S.ONE)) if n is not None else None
        if d is not None and d != S.ZERO and firm(n) and "pi" not in n.atoms():
            x.bad(key, where, "%s: %s edges for %s sectors" % (what, n, K))
        elif not near(lo, 0) and known(lo) or not near(hi, TAU) and known(hi):
            x.bad(key, where, "%s: the edges do not run from zero to a full turn: %s" % (what, N.show(b, 4)[:100]))
        elif d == S.ZERO and near(lo, 0) and near(hi, TAU):
            x.ok(what)
            return True
        else:
            x.und(what, "edges not evaluated")
        return False
    if b.op == "new" and b.args[0] == "linspace_open":
        x.bad(key, where, "%s: the last edge is left out" % what)
        return False
    if b.op == "new" and b.args[0] == "frange":
        a = b.args[1]
        if len(a) == 3 and all(z.shape == () for z in a):
            e = [exof(z) for z in a]
            if all(z is not None for z in e):
                q = S.div(S.sub(e[1], e[0]), e[2])
                if q is not None and "pi" not in q.atoms() and all(S.ATOMS[z].integral for z in q.atoms()) and q.den == {(): 1} and all(c.denominator == 1 for c in q.num.values()):
                    x.bad(key, where, "%s: the number of edges made with a step that does not divide the turn exactly depends on rounding" % what)
                    return False
    x.und(what, "edges not recognised")
    return False


def strip_cast(n):
    while n.op in ("cast", "copy", "assume"):
        n = n.args[0]
    return n


def movement(n):
    """(source, sign): last minus first column of Y or of its lag."""
    n = strip_cast(n)
    if n.op == "neg":
        m = movement(n.args[0])
        return (m[0], -m[1]) if m else None
    if n.op == "lag":
        m = movement(n.args[1])
        return ("lag", m[1]) if m and m[0] == "own" else None
    if n.op != "sub":
        return None
    a, b = n.args
    if not all(isinstance(z, Node) and z.op == "ix" for z in (a, b)) or a.args[0] is not b.args[0] and not same(a.args[0], b.args[0]):
        return None
    src = a.args[0]
    cols = []
    for z in (a, b):
        s = z.args[1][-1]
        if len(z.args[1]) != 2 or s[0] != "p" or s[1]._ex is None or s[1]._ex.const() is None:
            return None
        cols.append(int(s[1]._ex.const()))
    last = [c in (-1, 1) for c in cols]
    first = [c in (0, -2) for c in cols]
    if last[0] and first[1]:
        sg = 1
    elif first[0] and last[1]:
        sg = -1
    else:
        return None
    kinds_ = {q.op for q in walk(src)}
    return ("lag" if "lag" in kinds_ else "own", sg)


PIS = (Piece(-math.pi, -math.pi), Piece(-math.pi, math.pi), Piece(math.pi, math.pi))


def sectors(x, r, e, K, key):
    where = e.where()
    v, b = e.x, e.bins
    what = "%s histogram" % r.name
    if e.density is True or e.weights is not None and not (isinstance(e.weights, Node) and constof(e.weights) is None):
        x.bad(key + "counts", where, what + ": sectors do not hold numbers of units")
    if b.rank == 1:
        edges(x, key + "edges", where, what + " edges", b, K)
    elif b.rank == 0:
        g = e.rng
        nb = exof(b)
        if g is None or constof(g) is None:
            x.bad(key + "edges", where, what + ": the edges are those of the directions found, not of a full turn")
        elif g.op == "stack" and len(list(N.nodes_in(g.args))) == 2 and nb is not None and (nb == K or firm(nb) and S.sub(nb, K).const() is not None):
            a, c = list(N.nodes_in(g.args))
            if nb != K or known(a) and not near(a, 0) or known(c) and not near(c, TAU):
                x.bad(key + "edges", where, what + ": the edges do not divide a full turn in %s" % K)
            elif known(a) and known(c):
                x.ok(what + " edges")
            else:
                x.und(what + " edges", "range not evaluated")
        else:
            x.und(what + " edges", "given by number")
    sz = v.shape[0] if v.shape else None
    if v.rank == 1 and sz is not None:
        d = S.sub(sz, S.sym("n"))
        if d == S.ZERO:
            x.ok(what + " units")
        elif any(a[:1] in "cu" and a[1:].isdigit() for a in sz.atoms()) or contradicts(d) or contradicts(S.neg(d)):
            x.bad(key + "units", where, what + ": %s of the n directions are counted" % sz)
        else:
            x.und(what + " units", "number of directions %s" % sz)
    at = [q for q in walk(v) if q.op == "arctan2"]
    if len(at) != 1:
        tn = [q for q in walk(v) if q.op in ("arctan", "atan") or q.op == "fn" and q.args and q.args[0] in ("arctan", "atan", "arccos", "arcsin")]
        if not at and tn and not tainted(v):
            x.bad(key + "movement", where, what + ": the angle does not tell opposite quadrants apart")
            return
        x.und(what + " directions", "no single angle")
        return
    x.count("directions followed piece by piece")
    m = (movement(at[0].args[0]), movement(at[0].args[1]))
    if None in m:
        x.und(what + " movement", "not recognised")
    elif m == (("lag", 1), ("own", 1)):
        x.ok(what + " movement")
    else:
        x.bad(key + "movement", where, what + ": the angle is not that of the movement of the unit and its lag")
    good, und = True, False
    for p, val in Elem(lambda z: z is at[0]).pieces(v, PIS):
        for a in alts(val):
            if not isnum(a):
                und = True
                continue
            ends = (p.lo, p.hi)
            y = [a[1] * t + a[2] for t in ends]
            shift = [(q - t) / TAU for q, t in zip(y, ends)]
            if min(y) < -1e-9 or max(y) > TAU + 1e-9:
                good = False
                x.bad(key + "range", where, what + ": directions in %s are brought to %s, outside the edges" % (p, sorted(round(q, 3) for q in y)))
            elif any(abs(s - round(s)) > 1e-9 for s in shift) or (not p.pt and abs(a[1] - 1) > 1e-9):
                good = False
                x.bad(key + "turned", where, what + ": directions in %s are changed into others" % p)
    if good and not und:
        x.ok(what + " directions")
    elif und:
        x.und(what + " directions", "not followed")


@prop("C25", ["rose"], "sector edges are the K+1 points of an exact division of a full turn; the angle of each movement is followed piece by piece from (-pi, pi] into the range of the edges; "
      "all n directions are counted once")
def c25(x):
    for r in x.runs.values():
        if entry(r.name) not in ("Rose", "Rose.permute"):
            continue
        o = opts(r.name)
        m = r.name[r.name.index("(") + 1:].split(")")[0]
        K = S.num(4) if m == "k=4" else S.sym("s") if m == "k" else S.num(8)
        key = "Rose|"
        for _, e in x.events([r], "hist"):
            sectors(x, r, e, K, key)
        if not r.ok or entry(r.name) != "Rose":
            continue
        A = attr_items(x, r)
        for nm in ("cuts", "bins"):
            n = the_node(x, r, A[nm]) if nm in A else None
            if n is None or n.rank != 1:
                x.und("%s.%s" % (r.name, nm), "not one array")
                continue
            edges(x, "Rose.%s|edges" % nm, where_of(x, r, nm), "%s.%s" % (r.name, nm), n, K)
        n = the_node(x, r, A["counts"]) if "counts" in A else None
        if n is not None:
            n = strip_cast(n)
            if n.op == "fn" and n.args[0] == "histogram":
                x.ok(r.name + ".counts")
            else:
                x.und(r.name + ".counts", "not a histogram")
        n = the_node(x, r, A["theta"]) if "theta" in A else None
        if n is not None:
            at = [q for q in walk(n) if q.op == "arctan2"]
            if len(at) == 1:
                bad = False
                for p, val in Elem(lambda z: z is at[0]).pieces(n, PIS):
                    for a in alts(val):
                        if isnum(a) and (abs((a[1] - 1) * p.mid + a[2]) > 1e-9):
                            bad = True
                if bad:
                    x.bad("Rose.theta|signed", where_of(x, r, "theta"), "%s.theta is not the signed angle of the movement" % r.name)
                else:
                    x.ok(r.name + ".theta")


# ---------------------------------------------------------------- C24
def base_of(n, depth=0):
    """The table under fills of empty rows."""
    while depth < 60:
        depth += 1
        if n.op in ("cast", "copy", "assume"):
            n = n.args[0]
        elif n.op == "upd" and constof(n.args[2]) in (1, 1.0) and n.rank and n.rank >= 2:
            n = n.args[0]
        elif n.op == "new" and n.args[0] == "filldiag":
            n = n.args[1]
        elif n.op == "sel" and n.rank and n.rank >= 2:
            a, b = base_of(n.args[1], depth), base_of(n.args[2], depth)
            if a is b or same(a, b):
                return a
            return n
        elif n.op == "loop" and len(n.args) == 5 and isinstance(n.args[3], Node) and isinstance(n.args[4], Node) and n.rank and n.rank >= 2:
            h = base_of(n.args[4], depth)
            if h.op != "hdr" or h.args[0] != n.args[0] or h.args[1] != n.args[1]:
                return n
            n = n.args[3]
        else:
            return n
    return n


def recip(n, d=0):
    """Carries 1/x that is multiplied later."""
    n = strip_cast(n)
    if d > 8:
        return False
    if n.op == "div" and constof(n.args[0]) in (1, 1.0):
        return True
    if n.op == "pow" and constof(n.args[1]) in (-1, -1.0):
        return True
    if n.op in ("diagv", "ix", "reshape", "T", "diagm"):
        return recip(n.args[0], d + 1)
    if n.op == "mul":
        return any(isinstance(z, Node) and recip(z, d + 1) for z in n.args)
    return False


def quotient(n, seen=None, depth=0):
    """How the table is normalised: ('div'|'recip'|None, node)"""
    seen = set() if seen is None else seen
    out = []
    if n.id in seen or depth > 60:
        return out
    seen.add(n.id)
    if n.op in ("cast", "copy", "assume", "ix", "reshape", "T"):
        return quotient(n.args[0], seen, depth + 1)
    if n.op == "sel":
        return quotient(n.args[1], seen, depth + 1) + quotient(n.args[2], seen, depth + 1)
    if n.op == "upd":
        v = n.args[2]
        return quotient(n.args[0], seen, depth + 1) + (quotient(v, seen, depth + 1) if v.rank else [])
    if n.op == "new" and n.args[0] == "filldiag":
        return quotient(n.args[1], seen, depth + 1)
    if n.op == "seq":
        return quotient(n.args[3], seen, depth + 1)
    if n.op in ("loop", "hdr"):
        return quotient(n.args[-1], seen, depth + 1)
    if n.op == "stack":
        return [q for z in N.nodes_in(n.args) for q in quotient(z, seen, depth + 1)]
    if n.op == "full":
        return out
    if n.op == "div":
        d = inner(n.args[1])
        if d.op == "add" and any(isinstance(z, Node) and isinstance(constof(z), (int, float)) and 1.0 + constof(z) != 1.0 for z in d.args):
            return [("off", n)]
        return [("div", n)]
    if n.op in ("round", "around") or n.op == "fn" and n.args and n.args[0] in ("round", "around"):
        return [("off", n)]
    if n.op in ("mul", "dot") and any(isinstance(z, Node) and recip(z) for z in n.args):
        return [("recip", n)]
    return [(None, n)]


def p_leaf(P):
    b = base_of(P)

    def leaf(n):
        if n.op != "diagm" and n.rank != 2:
            return False
        m = base_of(n.args[0] if n.op == "diagm" else n)
        return m is b or m is P or same(m, b)
    return leaf


def wide(P):
    """Tests on whole rows instead of the diagonal."""
    b = base_of(P)

    def gen(E, n, p):
        if n.op in ("any", "max") and len(n.args) > 1 and isinstance(n.args[1], int) and n.args[0].rank == 2:
            q = n.args[0]
            if q.op == "cmp" and q.args[0] in ("eq", "ge") and constof(q.args[2]) in (1, 1.0) and isinstance(q.args[1], Node) and base_of(q.args[1]) is b or base_of(q) is b:
                return FUZZY if p.lo < 1 else (True if n.op == "any" else lin(0, 1))
        if n.op == "cmp" and n.args[0] in ("eq", "le") and constof(n.args[2]) in (1, 1.0) and isinstance(n.args[1], Node):
            c = n.args[1]
            while c.op == "cast":
                c = c.args[0]
            if c.op == "sum" and len(c.args) > 1 and c.args[1] in (1, -1) and c.args[0].rank == 2:
                q = c.args[0]
                while q.op == "cast" or q.op == "mul" and constof(q.args[1]) == 1:
                    q = q.args[0]
                # the number of states that follow, whichever they are
                if q.op == "cmp" and q.args[0] in ("gt", "ne") and constof(q.args[2]) in (0, 0.0) and isinstance(q.args[1], Node) and base_of(q.args[1]) is b:
                    return FUZZY if p.pt and p.lo == 0 else p.pt and p.lo == 1
        return NotImplemented
    return gen


ABS = (Piece(0, 0), Piece(0, 1), Piece(1, 1))


def flag(x, key, where, what, m, P):
    """The mask m holds exactly where the diagonal of P is one."""
    x.count("tests for absorbing states followed")
    und = False
    for p, v in Elem(p_leaf(P), gen=wide(P)).pieces(m, ABS):
        want = p.pt and p.lo == 1
        for a in alts(v):
            if a == FUZZY:
                x.bad(key, where, "%s: states that can be left pass the test for absorbing states" % what)
                return
            if isinstance(a, bool):
                if a is not want:
                    x.bad(key, where, "%s: a state kept with probability in %s is %s absorbing" % (what, p, "taken to be" if a else "not taken to be"))
                    return
            else:
                und = True
    if und:
        x.und(what, "test not followed")
    else:
        x.ok(what)


def mask_root(n):
    while n.op in ("reshape", "cast", "ix", "T") or n.op == "seq" and n.args[0] == 0:
        n = n.args[0] if n.op != "seq" else n.args[3]
    return n.args[0] if n.op == "nonzero" else None


@prop("C24", ["markov", "spatial", "lisa", "tests"], "transition tables are divided by their totals in one rounding step; tests for absorbing states hold at probability one and at no other; sojourn times "
      "evaluated at probability one are infinite and elsewhere 1/(1-p)")
def c24(x):
    for r in x.runs.values():
        if not r.ok:
            continue
        en = entry(r.name)
        if en in ("Markov", "FullRank_Markov", "GeoRank_Markov", "LISA_Markov", "Spatial_Markov"):
            A = attr_items(x, r)
            for nm in ("p", "P"):
                n = the_node(x, r, A[nm]) if nm in A else None
                if n is None:
                    continue
                what = "%s.%s" % (r.name, nm)
                qs = quotient(n)
                x.count("normalisations examined", len(qs))
                if any(k == "recip" for k, _ in qs):
                    x.bad("%s.%s|rounded" % (en, nm), where_of(x, r, nm), "%s: counts are multiplied by a rounded reciprocal, so a certain transition can miss probability one" % what)
                elif any(k == "off" for k, _ in qs):
                    x.bad("%s.%s|rounded" % (en, nm), where_of(x, r, nm), "%s: probabilities are rounded or divided by more than the total, so probability one is not kept for certain transitions alone" % what)
                elif qs and all(k == "div" for k, _ in qs):
                    x.ok(what)
                else:
                    x.und(what, "normalisation not recognised")
            P = the_node(x, r, A["p"]) if "p" in A else None
            n = x.I.load(A["astates_indices"], r.st) if "astates_indices" in A else None
            num = the_node(x, r, A["num_astates"]) if "num_astates" in A else None
            if P is not None and n is not None:
                m = mask_root(n)
                if m is None or m.rank != 1:
                    m2 = m.rank if m is not None else None
                    x.und(r.name + ".astates_indices", "no test found (%s)" % m2)
                else:
                    flag(x, en + ".astates_indices|exact", where_of(x, r, "astates_indices"), r.name + ".astates_indices", m, P)
                if num is not None:
                    z = exof(num)
                    if z is not None and n.shape and n.shape[0] is not None and z == n.shape[0]:
                        x.ok(r.name + ".num_astates")
                    elif num.op == "sum" and num.args[0].rank == 1:
                        flag(x, en + ".num_astates|exact", where_of(x, r, "num_astates"), r.name + ".num_astates", num.args[0], P)
                    elif z is not None and n.shape and n.shape[0] is not None and firm(S.sub(z, n.shape[0])) and S.sub(z, n.shape[0]).const() is not None:
                        x.bad(en + ".num_astates|number", where_of(x, r, "num_astates"), "%s.num_astates is not the number of indices listed" % r.name)
                    else:
                        x.und(r.name + ".num_astates", "not the number of indices")
        if en.split(".")[-1] == "sojourn_time":
            n = x.I.load(r.val, r.st)
            if not isinstance(n, Node) or n.rank != 1:
                x.und(r.name, "no single result")
                continue
            par = r.parent
            P = None
            if par is not None and par.ok:
                A = attr_items(x, par)
                P = the_node(x, par, A["p"]) if "p" in A else None
            else:
                c = [q for q in walk(n) if q.op == "in" and q.rank == 2]
                P = c[0] if c else None
            if P is None:
                x.und(r.name, "no table")
                continue
            x.count("sojourn times followed")
            und = bad = False
            for p, v in Elem(p_leaf(P), gen=wide(P)).pieces(n, ABS):
                for a in alts(v):
                    if p.pt and p.lo == 1:
                        if isnum(a):
                            bad = bad or not (a[1] == 0 and a[2] == math.inf) and "at probability one the result is %s" % a[2]
                        elif a == FUZZY:
                            bad = "whether it is infinite is decided by a test that does not hold at probability one alone"
                        else:
                            und = True
                    elif isnum(a) and a[1] == 0 and a[2] == math.inf:
                        bad = "infinite at probability in %s" % p
                    elif a == FUZZY:
                        bad = "whether it is infinite is decided by a test that does not hold at probability one alone"
                    elif a == ("div", lin(0, 1), lin(-1, 1)) or p.pt and isnum(a) and a[1] * p.lo + a[2] == 1 / (1 - p.lo):
                        pass
                    elif isinstance(a, tuple) and a[0] in ("div", "lin", "mul"):
                        bad = bad or "the result at probability in %s is not 1/(1-p)" % p
                    else:
                        und = True
            if bad:
                x.bad(en + "|value", where_of(x, r, ""), "%s: %s" % (r.name, bad))
            elif und:
                x.und(r.name, "not followed")
            else:
                x.ok(r.name)

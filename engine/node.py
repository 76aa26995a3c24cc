"""Abstract numeric values: hash-consed terms with facets.

A Node stands for a scalar or an array (all its elements).  Facets are computed
once, bottom-up, from the facets of the operands:

  shape     tuple of Ex (symbolic sizes) / None per axis, or None when the rank is unknown
  dt        'b' 'i' 'f' 'c' 's' 'O' 'in:<param>' or None
  ex        symbolic value of every element (Ex over atoms with ranges)
  integral  every element is an integer
  nz        no element is zero
  att0      zero is reached for legitimate data (an empty class)
  pure      every element is an unmodified element of that input
  deps      set of atoms the value depends on
  tags      small set of marks
"""
from fractions import Fraction
import math
from . import sym as S
from .sym import Ex

TABLE = {}
COUNT = [0]
ES = frozenset()


ATOMNODE = {}      # name of an opaque size -> the node it stands for


class Node:
    __slots__ = ("op", "args", "id", "shape", "dt", "_ex", "lo", "hi", "lop", "hop",
                 "integral", "nz", "att0", "pure", "deps", "tags", "_b")

    def __repr__(self):
        return show(self)

    @property
    def ex(self):
        if self._ex is None:
            nm = ("o" if self.shape == () else "e") + str(self.id)
            self._ex = S.atom(nm, self.lo, self.hi, self.lop, self.hop, self.integral)
            ATOMNODE[nm] = self
        return self._ex

    @property
    def rank(self):
        return None if self.shape is None else len(self.shape)

    def bounds(self):
        """(lo, lo_open, hi, hi_open) as Ex over sizes or None."""
        if self._b is None:
            a = S.bound(self.ex, -1)
            b = S.bound(self.ex, 1)
            self._b = (a[0] if a else None, a[1] if a else False,
                       b[0] if b else None, b[1] if b else False)
        return self._b


def show(n, d=5):
    if not isinstance(n, Node):
        if isinstance(n, tuple):
            return "(" + ",".join(show(x, d) for x in n) + ")"
        return str(n)
    if n.op == "const":
        return repr(cval(n))
    if n.op in ("in", "atom"):
        return str(n.args[0])
    if d <= 0:
        return "#%d" % n.id
    return "%s(%s)" % (n.op, ",".join(show(a, d - 1) for a in n.args))


FAC = {}


def fac(*names):
    def w(f):
        for nm in names:
            FAC[nm] = f
        return f
    return w


def _key(a):
    if isinstance(a, (bool, int, float, complex, Fraction)):
        return (type(a).__name__, repr(a))
    if isinstance(a, tuple):
        return tuple(_key(x) for x in a)
    if isinstance(a, list):
        return ("L",) + tuple(_key(x) for x in a)
    return a


def mk(op, *args, **fx):
    key = (op,) + tuple(_key(a) for a in args)
    if fx:
        key += (tuple(sorted((k, _key(v)) for k, v in fx.items() if k != "deps")), fx.get("deps"))
    n = TABLE.get(key)
    if n is not None:
        return n
    f = FAC[op](*args) if op in FAC else {}
    if fx:
        f = dict(f, **fx)
    if isinstance(f, Node):
        TABLE[key] = f
        return f
    n = Node()
    COUNT[0] += 1
    n.op, n.args, n.id = op, args, COUNT[0]
    g = f.get
    n.shape = g("shape", ())
    n.dt = g("dt")
    n._ex = g("ex")
    n.lo, n.hi, n.lop, n.hop = S.num_or_none(g("lo")), S.num_or_none(g("hi")), g("lop", False), g("hop", False)
    n.integral = bool(g("integral", False)) or n.dt in ("b", "i")
    n.nz = bool(g("nz", False))
    n.att0 = bool(g("att0", False))
    n.pure = g("pure")
    n.tags = g("tags", ES)
    d = g("deps")
    if d is None:
        d = depsof(args)
    n.deps = d
    n._b = None
    if n.dt == "b" and n._ex is None and n.lo is None:
        n.lo, n.hi = S.ZERO, S.ONE
    TABLE[key] = n
    return n


def nodes_in(args):
    for a in args:
        if isinstance(a, Node):
            yield a
        elif isinstance(a, (tuple, list)):
            yield from nodes_in(a)


def depsof(args):
    d = ES
    for a in nodes_in(args):
        if a.deps:
            d = d | a.deps
    return d


# ---------------------------------------------------------------- constants
def const(v):
    """A Python scalar, string, None, or nested tuple of scalars (small array)."""
    if isinstance(v, Node):
        return v
    if isinstance(v, Fraction):
        v = int(v) if v.denominator == 1 else float(v)
    return mk("const", v)


def cval(n):
    return n.args[0]


def is_const(n, v=None):
    if not isinstance(n, Node) or n.op != "const":
        return False
    if v is None:
        return True
    c = n.args[0]
    return not isinstance(c, (str, tuple)) and c is not None and c == v


NOCONST = object()


def constof(n):
    """Python value of a Node when it is a known constant, else NOCONST."""
    if isinstance(n, Node):
        if n.op == "const":
            return n.args[0]
        if n.shape == () and n._ex is not None:
            c = n._ex.const()
            if c is not None and n.dt in ("i", "f", "b"):
                return (int(c) if n.integral and c.denominator == 1 else float(c))
        if n.op == "cast" and n.shape == ():
            c = constof(n.args[0])
            if c is not NOCONST and isinstance(c, (int, float, bool)) and not (isinstance(c, float) and not math.isfinite(c)):
                return {"i": int, "f": float, "b": bool}.get(n.args[1], lambda x: x)(c)
    return NOCONST


def _tup_shape(v):
    if isinstance(v, tuple):
        if not v:
            return (S.ZERO,)
        return (S.num(len(v)),) + _tup_shape(v[0])
    return ()


def _flat(v):
    if isinstance(v, tuple):
        for x in v:
            yield from _flat(x)
    else:
        yield v


@fac("const")
def _f_const(v):
    f = {"deps": ES, "shape": _tup_shape(v)}
    vals = list(_flat(v))
    if v is None:
        f["dt"] = "O"
    elif all(isinstance(x, bool) for x in vals) and vals:
        f.update(dt="b")
    elif all(isinstance(x, (bool, int)) for x in vals) and vals:
        f.update(dt="i")
    elif all(isinstance(x, (bool, int, float)) for x in vals) and vals:
        f.update(dt="f")
    elif vals and all(isinstance(x, str) for x in vals):
        f.update(dt="s")
        return f
    elif vals and all(isinstance(x, (complex, int, float)) for x in vals):
        f["dt"] = "c"
        return f
    else:
        f["dt"] = "f" if not vals else "O"
        return f
    if vals and all(isinstance(x, (bool, int, float)) and math.isfinite(x) for x in vals):
        mn, mx = min(vals), max(vals)
        if len(vals) == 1 and f["shape"] == () or mn == mx:
            f["ex"] = S.num(vals[0])
        else:
            f["lo"], f["hi"] = S.num(mn), S.num(mx)
        f["nz"] = all(x != 0 for x in vals)
        f["integral"] = all(float(x).is_integer() for x in vals)
    else:
        f["nz"] = all(x != 0 for x in vals)
    return f


NONE = None  # set below


# ---------------------------------------------------------------- leaves
@fac("in", "hdr", "unk", "rng", "loop", "lib", "new", "fn")
def _f_leaf(*a):
    return {}


@fac("atom")
def _f_atom(name):
    a = S.ATOMS[name]
    return {"ex": S.sym(name), "dt": "i" if a.integral else "f", "integral": a.integral, "shape": (), "deps": ES}


@fac("exn")
def _f_exn(ex):
    """A scalar integer given by a size expression."""
    return {"ex": ex, "dt": "i", "integral": True, "shape": (), "deps": ES}


def exn(e):
    c = e.const() if e is not None else None
    if c is not None and c.denominator == 1:
        return const(int(c))
    return mk("exn", e)


# ---------------------------------------------------------------- helpers
def dteq(a, b):
    return a == b


def dtjoin(a, b):
    if a == b:
        return a
    if a is None or b is None:
        return None
    for x in ("O", "s", "c", "f"):
        if a == x or b == x:
            return x
    if a.startswith("in:") and b.startswith("in:"):
        return None
    if a.startswith("in:"):
        return a
    if b.startswith("in:"):
        return b
    if "i" in (a, b):
        return "i"
    return "b"


def dim_eq(a, b):
    return a is not None and b is not None and a == b


def bshape(s1, s2):
    """Broadcast; returns (shape, mismatch or None)."""
    if s1 is None or s2 is None:
        return None, None
    out, bad = [], None
    for i in range(max(len(s1), len(s2))):
        a = s1[len(s1) - 1 - i] if i < len(s1) else S.ONE
        b = s2[len(s2) - 1 - i] if i < len(s2) else S.ONE
        if dim_eq(a, b):
            out.append(a)
        elif a is not None and a.const() == 1:
            out.append(b)
        elif b is not None and b.const() == 1:
            out.append(a)
        elif a is None or b is None:
            out.append(a if b is None else b)
        else:
            bad = bad or (a, b)
            out.append(a)
    return tuple(reversed(out)), bad


def is_elem(ex):
    """Does the expression mention element-wise atoms (meaning differs per position)?"""
    return any(a[0] == "e" and a[1:].isdigit() for a in ex.atoms())


def is_own(n):
    """Is the symbolic value just the name of this node (made on demand)?"""
    a = n._ex.atoms()
    return len(a) == 1 and next(iter(a)) == "o%d" % n.id


def reframe(n):
    """ex facets for a node holding (some of) the elements of n in other positions."""
    if n._ex is not None and not is_elem(n._ex) and not is_own(n):
        return {"ex": n._ex}
    lo, lop, hi, hop = n.bounds()
    return {"lo": lo, "hi": hi, "lop": lop, "hop": hop}


def carry(n):
    f = reframe(n)
    f.update(dt=n.dt, integral=n.integral, nz=n.nz, att0=n.att0, pure=n.pure, tags=n.tags & KEEP)
    return f


KEEP = frozenset({"id", "pos", "setord", "cls", "share", "blank", "cnt"})


def emin(a, b):
    """min of two bound expressions or None."""
    if a is None or b is None:
        return None
    s = S.esign(S.sub(a, b))
    if s in ("-", "-0", "0"):
        return a
    if s in ("+", "+0"):
        return b
    return None


def emax(a, b):
    if a is None or b is None:
        return None
    s = S.esign(S.sub(a, b))
    if s in ("-", "-0", "0"):
        return b
    if s in ("+", "+0"):
        return a
    return None


def raw_bounds(n):
    """Bounds allowed to mention atoms (relational)."""
    if n._ex is not None:
        return n._ex, n._ex, False, False
    if n.lo is None and n.hi is None:
        return n.ex, n.ex, False, False
    return n.lo, n.hi, n.lop, n.hop


def join_facets(ns):
    f = {}
    sh = ns[0].shape
    for n in ns[1:]:
        if n.shape is None or sh is None or len(n.shape) != len(sh):
            sh = None
            break
        sh = tuple(a if dim_eq(a, b) else None for a, b in zip(sh, n.shape))
    f["shape"] = sh
    dt = ns[0].dt
    for n in ns[1:]:
        dt = dtjoin(dt, n.dt)
    f["dt"] = dt
    same = all(n._ex is not None and n._ex == ns[0]._ex for n in ns)
    if same and not is_elem(ns[0]._ex):
        f["ex"] = ns[0]._ex
    else:
        lo, hi, lop, hop = raw_bounds(ns[0])
        for n in ns[1:]:
            l2, h2, lp2, hp2 = raw_bounds(n)
            nl, nh = emin(lo, l2), emax(hi, h2)
            if nl is None:
                x, y = S.num_or_none(n.bounds()[0]), (S.bound(lo, -1) if lo is not None else None)
                nl = emin(y[0], x) if y and x is not None else None
                lop = False
            else:
                lop = (lop if nl == lo else True) and (lp2 if nl == l2 else True) and (lop or lp2)
            if nh is None:
                x, y = S.num_or_none(n.bounds()[2]), (S.bound(hi, 1) if hi is not None else None)
                nh = emax(y[0], x) if y and x is not None else None
                hop = False
            else:
                hop = (hop if nh == hi else True) and (hp2 if nh == h2 else True) and (hop or hp2)
            lo, hi = nl, nh
        f["lo"], f["hi"], f["lop"], f["hop"] = lo, hi, lop, hop
    f["integral"] = all(n.integral for n in ns)
    f["nz"] = all(n.nz for n in ns)
    f["att0"] = any(n.att0 for n in ns)
    pures = {n.pure for n in ns if "blank" not in n.tags}
    if len(pures) == 1:
        f["pure"] = pures.pop()
    t = ns[0].tags
    for n in ns[1:]:
        t = t & n.tags
    u = ES
    for n in ns:
        u = u | (n.tags & frozenset({"id", "setord", "share"}))
    f["tags"] = t | u
    return f


# ---------------------------------------------------------------- elementwise
def guard_pair(a, b):
    """a + (a == 0) in any spelling."""
    b = strip_one(b)
    if b.op == "cmp" and b.args[0] == "eq":
        x, z = b.args[1], b.args[2]
        if is_const(x, 0):
            x, z = z, x
        return is_const(z, 0) and same(x, a)
    if b.op == "not" and same(b.args[0], a):
        return True
    return False


def strip_one(n):
    while True:
        if n.op == "mul" and isinstance(n.args[1], Node) and is_one(n.args[1]):
            n = n.args[0]
        elif n.op == "mul" and is_one(n.args[0]):
            n = n.args[1]
        elif n.op == "cast" and n.args[1] in ("f", "i", "b"):
            n = n.args[0]
        else:
            return n


def is_one(n):
    return n._ex is not None and n._ex.const() == 1


def is_zero(n):
    return n._ex is not None and n._ex.const() == 0


def same(a, b):
    """Same value (identical terms up to order of commutative operands and value-preserving wrappers)."""
    return canon(a) is canon(b)


def canon(n):
    while True:
        if n.op == "cast" and (n.args[1] == n.args[0].dt or n.args[1] == "f"):
            n = n.args[0]
        elif n.op == "mul" and is_one(n.args[1]) and (n.args[0].shape == n.shape):
            n = n.args[0]
        elif n.op == "mul" and is_one(n.args[0]) and (n.args[1].shape == n.shape):
            n = n.args[1]
        elif n.op == "add" and is_zero(n.args[1]) and n.args[0].shape == n.shape:
            n = n.args[0]
        elif n.op == "add" and is_zero(n.args[0]) and n.args[1].shape == n.shape:
            n = n.args[1]
        else:
            return n


def ismask(s, d=0):
    """Every element is 0 or 1 (a boolean, a constant table, a choice of such)."""
    if s.dt == "b":
        return True
    if s.op == "const" and s.shape != ():
        return s.dt == "i" and all(x in (0, 1) for x in _flat(cval(s)))
    if d < 4 and s.op == "sel":
        return ismask(s.args[1], d + 1) and ismask(s.args[2], d + 1)
    if d < 4 and s.op == "sub" and is_one(s.args[0]):
        return ismask(strip_one(s.args[1]), d + 1)
    return False


def mask_parts(n):
    """n = mask * value -> (mask, value); None if not."""
    if n.op == "mul":
        a, b = n.args
        for m, v in ((a, b), (b, a)):
            s = strip_one(m)
            if ismask(s):
                return s, v
        # (mask * 2) * v
        for m, v in ((a, b), (b, a)):
            p = mask_parts(m)
            if p:
                return p[0], mk("mul", p[1], v)
    s = strip_one(n)
    if s.dt == "b" and s is not n:
        return s, const(1.0)
    if n.dt == "b":
        return n, const(1)
    return None


def conj(m):
    """Conjuncts of a boolean mask."""
    m = strip_one(m)
    if m.op in ("and",):
        return conj(m.args[0]) + conj(m.args[1])
    if m.op == "mul" and m.args[0].dt == "b" and m.args[1].dt == "b":
        return conj(m.args[0]) + conj(m.args[1])
    return [m]


def complement(a, b):
    """b is the complement of mask a (given as 1-a, ~a, a==0, or the negated comparison)."""
    a, b = strip_one(a), strip_one(b)
    if a.op == "const" and b.op == "const" and a.shape == b.shape and a.shape != ():
        return all(x + y == 1 for x, y in zip(_flat(cval(a)), _flat(cval(b))))
    for x, y in ((a, b), (b, a)):
        if y.op == "not" and same(y.args[0], x):
            return True
        if y.op == "sub" and is_one(y.args[0]) and same(strip_one(y.args[1]), x):
            return True
        if y.op == "cmp" and y.args[0] == "eq" and is_zero(y.args[2]) and same(strip_one(y.args[1]), x):
            return True
        if y.op == "cmp" and y.args[0] == "eq" and y.args[2].op == "const" and cval(y.args[2]) is False and same(strip_one(y.args[1]), x):
            return True
        if x.op == "cmp" and y.op == "cmp" and NEGCMP.get(x.args[0]) == y.args[0] and x.args[1] is y.args[1] and x.args[2] is y.args[2]:
            return True
    return False


NEGCMP = {"lt": "ge", "ge": "lt", "gt": "le", "le": "gt", "eq": "ne", "ne": "eq"}
SWAP = {"lt": "gt", "gt": "lt", "le": "ge", "ge": "le", "eq": "eq", "ne": "ne"}


def select(m, a, b):
    """Element-wise choice; refines the operands by the mask."""
    m = strip_one(m)
    a2, b2 = refine(a, m, True), refine(b, m, False)
    return mk("sel", m, a2, b2)


def try_select(x, y):
    """mask*A + (1-mask)*B as a selection."""
    p, q = mask_parts(x), mask_parts(y)
    if p and q and complement(p[0], q[0]):
        m = strip_one(p[0])
        # decide which of the two is the positive mask
        if m.op in ("not", "sub") or (m.op == "cmp" and m.args[0] == "eq" and (is_zero(m.args[2]))):
            if not (q[0].op in ("not", "sub")):
                p, q = q, p
        return select(strip_one(p[0]), p[1], q[1])
    # A*(1-m) + m*B with the complement hidden in a non-boolean factor
    for u, v in ((x, y), (y, x)):
        pv = mask_parts(v)
        if pv and u.op == "mul":
            for f, o in ((u.args[0], u.args[1]), (u.args[1], u.args[0])):
                if f.op == "sub" and is_one(f.args[0]) and same(strip_one(f.args[1]), strip_one(pv[0])):
                    return select(strip_one(pv[0]), pv[1], o)
            for f, o in ((u.args[0], u.args[1]), (u.args[1], u.args[0])):
                # (1-m)*2*(..) nested
                if f.op == "mul":
                    for g, h in ((f.args[0], f.args[1]), (f.args[1], f.args[0])):
                        if g.op == "sub" and is_one(g.args[0]) and same(strip_one(g.args[1]), strip_one(pv[0])):
                            return select(strip_one(pv[0]), pv[1], mk("mul", h, o))
    return None


def arith_dt(op, a, b):
    if op == "div":
        if a.dt in ("c",) or b.dt == "c":
            return "c"
        if a.dt == "O" or b.dt == "O":
            return None
        return "f"
    d = dtjoin(a.dt, b.dt)
    if d == "b" and op in ("add", "sub", "mul"):
        return "b" if op != "sub" else "i"
    return d


def ebound_mul(a, b):
    """Bounds for products when the symbolic form is too large."""
    return {}


@fac("add", "sub", "mul", "div")
def _f_arith(a, b, op=None):
    raise AssertionError


def arith(op):
    def f(a, b):
        if op == "add":
            s = try_select(a, b)
            if s is not None:
                return s
        if op == "sub" and is_one(a) and b.op == "chi2cdf":
            return mk("chi2sf", *b.args)
        if op == "mul":
            for x, y in ((a, b), (b, a)):
                # row scaling by a reciprocal is a division
                if y.op == "div" and is_one(y.args[0]) and y.args[0].shape == () and y.shape != ():
                    return mk("div", x, y.args[1])
        if a.op == "const" and b.op == "const" and a.shape == () and b.shape == ():
            try:
                x, y = cval(a), cval(b)
                if all(isinstance(v, (bool, int, float)) for v in (x, y)):
                    if op == "div" and y == 0:
                        pass
                    else:
                        return const({"add": lambda: x + y, "sub": lambda: x - y, "mul": lambda: x * y,
                                      "div": lambda: x / y}[op]())
                if op == "add" and isinstance(x, str) and isinstance(y, str):
                    return const(x + y)
            except Exception:
                pass
        if a.op == "const" and b.op == "const":
            r = const_zip(op, cval(a), cval(b))
            if r is not None:
                return const(r)
        sh, _ = bshape(a.shape, b.shape)
        g = {"shape": sh, "dt": arith_dt(op, a, b)}
        if g["dt"] == "s":
            return g
        if op == "mul" and a.dt == "b" and b.dt == "b":
            g["dt"] = "b"
        fn = {"add": S.add, "sub": S.sub, "mul": S.mul, "div": S.div}[op]
        ea, eb = a.ex, b.ex
        # an element-wise value broadcast over new axes is a different frame
        if sh is not None:
            if a.shape != sh and is_elem(ea) and a.shape != ():
                ea = _fresh_frame(a)
            if b.shape != sh and is_elem(eb) and b.shape != ():
                eb = _fresh_frame(b)
        r = fn(ea, eb) if ea is not None and eb is not None else None
        if r is not None and len(r.num) <= 12 and len(r.den) <= 12:
            g["ex"] = r
        if op == "add" and guard_pair(a, b) or op == "add" and guard_pair(b, a):
            x = a if guard_pair(a, b) else b
            g["nz"] = True
            g.pop("ex", None)
            lo, lop, hi, hop = x.bounds()
            if lo is not None and S.ge0(lo):
                if x.integral:
                    g["lo"] = emax(lo, S.ONE) or S.ONE
                else:
                    g["lo"], g["lop"] = (lo, True) if S.sgn(lo) in ("0", "+0") else (lo, lop)
                g["hi"] = None
            g["tags"] = frozenset({"guard"})
        elif op == "mul":
            g["nz"] = a.nz and b.nz
            g["att0"] = a.att0 or b.att0
            if a is b and "ex" not in g:
                g["lo"] = S.ZERO
        elif op == "div":
            g["nz"] = a.nz
            g["att0"] = a.att0
        else:
            # numeric evidence of non-zero
            if r is not None and "ex" in g:
                s = S.esign(r)
                g["nz"] = s in ("+", "-")
        g["integral"] = op != "div" and a.integral and b.integral
        if "ex" not in g and "lo" not in g and op in ("mul", "div"):
            sa, sb = S.esign(ea) if ea is not None else None, S.esign(eb) if eb is not None else None
            if sa in ("+", "+0", "0") and sb in ("+", "+0", "0"):
                g["lo"] = S.ZERO
                g["lop"] = sa == "+" and sb == "+"
        if "share" in a.tags and not ("share" in b.tags) and op in ("mul", "add", "sub", "div"):
            g["tags"] = g.get("tags", ES) | frozenset({"share"})
        elif "share" in b.tags and op in ("mul", "add", "sub"):
            g["tags"] = g.get("tags", ES) | frozenset({"share"})
        if op == "div" and ("cnt" in a.tags) and ("cnt" in b.tags):
            g["tags"] = g.get("tags", ES) | frozenset({"share"})
        elif op in ("add", "mul") and "cnt" in a.tags and ("cnt" in b.tags or b.dt == "b" or b.integral):
            g["tags"] = g.get("tags", ES) | frozenset({"cnt"})
        if a.deps & SIGNY or b.deps & SIGNY:
            pass
        return g
    return f


SIGNY = frozenset()


def _fresh_frame(n):
    lo, lop, hi, hop = n.bounds()
    return S.atom("e%d" % (10 ** 7 + n.id), lo, hi, lop, hop, n.integral)


for _op in ("add", "sub", "mul", "div"):
    FAC[_op] = arith(_op)


def const_zip(op, x, y):
    """Element-wise arithmetic on small constant arrays."""
    def sc(u, v):
        if not all(isinstance(z, (bool, int, float)) for z in (u, v)):
            raise ValueError
        if op == "div":
            return u / v
        return {"add": u + v, "sub": u - v, "mul": u * v}[op]

    def go(u, v):
        if isinstance(u, tuple) and isinstance(v, tuple):
            if len(u) != len(v):
                raise ValueError
            return tuple(go(p, q) for p, q in zip(u, v))
        if isinstance(u, tuple):
            return tuple(go(p, v) for p in u)
        if isinstance(v, tuple):
            return tuple(go(u, q) for q in v)
        return sc(u, v)
    try:
        return go(x, y)
    except (ValueError, ZeroDivisionError, TypeError, OverflowError):
        return None


@fac("floordiv", "mod")
def _f_fdiv(a, b):
    sh, _ = bshape(a.shape, b.shape)
    g = {"shape": sh, "dt": dtjoin(a.dt, b.dt)}
    g["integral"] = a.integral and b.integral
    return g


FAC["mod"] = lambda a, b: _mod(a, b)


def _mod(a, b):
    if a.op == "const" and b.op == "const" and all(isinstance(cval(x), (int, float)) for x in (a, b)) and cval(b):
        return const(cval(a) % cval(b))
    sh, _ = bshape(a.shape, b.shape)
    g = {"shape": sh, "dt": dtjoin(a.dt, b.dt), "integral": a.integral and b.integral}
    if S.esign(b.ex) == "+":
        g.update(lo=S.ZERO, hi=b._ex if b._ex is not None else b.bounds()[2], hop=True)
    return g


def _floordiv(a, b):
    if a.op == "const" and b.op == "const" and all(isinstance(cval(x), (int, float)) for x in (a, b)) and cval(b):
        return const(cval(a) // cval(b))
    sh, _ = bshape(a.shape, b.shape)
    g = {"shape": sh, "dt": dtjoin(a.dt, b.dt), "integral": True}
    if b.op == "const" and isinstance(cval(b), int) and cval(b) > 0:
        lo, lop, hi, hop = a.bounds()
        if lo is not None and S.ge0(lo):
            g.update(lo=S.ZERO, hi=S.div(hi, S.num(cval(b))) if hi is not None else None)
    return g


FAC["floordiv"] = _floordiv


@fac("pow")
def _f_pow(a, b):
    if is_const(b, 2):
        if a.op == "const" and isinstance(cval(a), (int, float)):
            return const(cval(a) ** 2)
        f = {"shape": a.shape, "dt": a.dt, "integral": a.integral, "nz": a.nz, "lo": S.ZERO}
        if a._ex is not None:
            e = S.mul(a._ex, a._ex)
            if e is not None and S.esign(e) in ("+", "+0", "0"):
                f["ex"] = e
        return f
    if a.op == "const" and b.op == "const":
        try:
            return const(cval(a) ** cval(b))
        except Exception:
            pass
    sh, _ = bshape(a.shape, b.shape)
    dt = dtjoin(a.dt, b.dt)
    g = {"shape": sh, "dt": dt}
    if S.esign(a.ex) in ("+", "+0", "0"):
        g["lo"] = S.ZERO
    return g


@fac("neg")
def _f_neg(a):
    if a.op == "const" and isinstance(cval(a), (int, float)) and not isinstance(cval(a), bool):
        return const(-cval(a))
    return {"shape": a.shape, "dt": a.dt, "ex": S.neg(a.ex), "integral": a.integral, "nz": a.nz, "att0": a.att0}


@fac("abs")
def _f_abs(a):
    s = S.esign(a.ex)
    if s in ("+", "+0", "0") and a.dt != "c":
        return {**carry(a), "shape": a.shape, "ex": a._ex} if a._ex is not None else {**carry(a), "shape": a.shape}
    lo, lop, hi, hop = a.bounds()
    h = None
    if lo is not None and hi is not None:
        h = emax(S.neg(lo), hi)
    return {"shape": a.shape, "dt": "f" if a.dt == "c" else a.dt, "lo": S.ZERO, "lop": a.nz, "hi": h,
            "integral": a.integral, "nz": a.nz, "att0": a.att0,
            "tags": frozenset({"absdiff"}) if a.op == "sub" else ES}


@fac("sqrt")
def _f_sqrt(a):
    return {"shape": a.shape, "dt": "f", "lo": S.ZERO, "lop": a.nz, "nz": a.nz, "att0": a.att0}


@fac("log")
def _f_log(a):
    return {"shape": a.shape, "dt": "f"}


@fac("not")
def _f_not(a):
    if a.op == "const" and isinstance(cval(a), bool):
        return const(not cval(a))
    if a.op == "not" and a.args[0].dt == "b":
        return a.args[0]
    if a.op == "cmp" and False:
        return mk("cmp", NEGCMP[a.args[0]], a.args[1], a.args[2])
    return {"shape": a.shape, "dt": "b"}


@fac("and", "or", "xor")
def _f_bool(a, b):
    sh, _ = bshape(a.shape, b.shape)
    return {"shape": sh, "dt": "b" if a.dt == "b" and b.dt == "b" else dtjoin(a.dt, b.dt)}


def ordinal(deps, names):
    return frozenset(("in", d[1], "ord") if d[0] == "in" and d[1] in names else d for d in deps)


def diff_pure(n):
    """n is a difference of two unmodified elements of the same input -> its name."""
    n = strip_one(n)
    if n.op == "sub" and n.args[0].pure and n.args[0].pure == n.args[1].pure:
        return n.args[0].pure
    if n.op == "neg":
        return diff_pure(n.args[0])
    return None


@fac("cmp")
def _f_cmp(rel, a, b):
    if a.op == "const" and b.op == "const" and a.shape == () and b.shape == ():
        x, y = cval(a), cval(b)
        try:
            return const(bool({"lt": lambda: x < y, "le": lambda: x <= y, "gt": lambda: x > y,
                               "ge": lambda: x >= y, "eq": lambda: x == y, "ne": lambda: x != y}[rel]()))
        except TypeError:
            pass
    sh, _ = bshape(a.shape, b.shape)
    f = {"shape": sh, "dt": "b"}
    if a.shape == () and b.shape == () and a.dt not in ("s", "O") and b.dt not in ("s", "O"):
        d = S.sub(a.ex, b.ex)
        s = S.esign(d) if d is not None else None
        r = {"lt": {"-": 1, "+": 0, "+0": 0, "0": 0}, "le": {"-": 1, "-0": 1, "0": 1, "+": 0},
             "gt": {"+": 1, "-": 0, "-0": 0, "0": 0}, "ge": {"+": 1, "+0": 1, "0": 1, "-": 0},
             "eq": {"0": 1, "+": 0, "-": 0}, "ne": {"0": 0, "+": 1, "-": 1}}[rel].get(s)
        if r is not None:
            return const(bool(r))
    names = set()
    if a.pure and a.pure == b.pure:
        names.add(a.pure)
    else:
        for x, z in ((a, b), (b, a)):
            if is_zero(z) and diff_pure(x):
                names.add(diff_pure(x))
    d = a.deps | b.deps
    if names:
        d = ordinal(d, names)
    if names or True:
        f["deps"] = d
    # comparison of an array with one of its own rows is true on that row
    if rel in ("le", "ge", "eq"):
        for x, y in ((a, b), (b, a)):
            if y.op == "ix" and same(y.args[0], x) and y.args[1] and y.args[1][0][0] == "p" and all(s[0] == "s" for s in y.args[1][1:]):
                f["tags"] = frozenset({"refl0"})
            if x.op == "concat" and x.args[1] == 0 and x.rank is not None:
                y0 = y.args[0] if y.op == "ix" and y.args[1] and y.args[1][0][0] == "p" and all(s == FULL for s in y.args[1][1:]) else y
                for q in x.args[0]:
                    if q.shape and q.shape[0] == S.ONE and (q is y0 or lead1(q) is y0 or lead1(y0) is q or lead1(q) is lead1(y0)):
                        f["tags"] = frozenset({"refl0"})
    return f


def lead1(n):
    """Drop a reshape that only adds or removes axes of length one in front."""
    while True:
        if n.op == "reshape" and n.shape is not None and n.args[0].shape is not None and \
                tuple(d for d in n.shape if d != S.ONE) == tuple(d for d in n.args[0].shape if d != S.ONE):
            n = n.args[0]
        elif n.op == "stack" and len(n.args[0]) == 1:
            n = n.args[0][0]
        elif n.op == "ix" and n.args[0].shape and n.args[0].shape[0] == S.ONE and n.args[1] and \
                n.args[1][0][0] == "p" and all(s == FULL for s in n.args[1][1:]):
            n = n.args[0]
        else:
            return n


@fac("sign")
def _f_sign(a):
    f = {"shape": a.shape, "dt": a.dt, "lo": S.num(-1), "hi": S.ONE, "integral": True}
    p = diff_pure(a)
    if p:
        f["deps"] = ordinal(a.deps, {p})
    return f


@fac("max2", "min2")
def _f_mm(a, b):
    raise AssertionError


def _mm(which):
    def f(a, b):
        if a.op == "const" and b.op == "const" and a.shape == () and b.shape == ():
            try:
                return const((max if which == "max2" else min)(cval(a), cval(b)))
            except TypeError:
                pass
        sh, _ = bshape(a.shape, b.shape)
        al, alo, ah, aho = a.bounds()
        bl, blo, bh, bho = b.bounds()
        f = {"shape": sh, "dt": dtjoin(a.dt, b.dt), "integral": a.integral and b.integral}
        if which == "max2":
            # at least each lower bound that is known
            if al is not None and bl is not None:
                f["lo"] = emax(al, bl) or al
                f["lop"] = alo if f["lo"] == al and f["lo"] != bl else (blo if f["lo"] == bl and f["lo"] != al else alo and blo)
            else:
                f["lo"] = al if al is not None else bl
                f["lop"] = alo if al is not None else blo
            f["hi"] = emax(ah, bh)
            f["nz"] = f.get("lo") is not None and (S.gt0(f["lo"]) or (f["lop"] and S.ge0(f["lo"])))
        else:
            if ah is not None and bh is not None:
                f["hi"] = emin(ah, bh) or ah
            else:
                f["hi"] = ah if ah is not None else bh
            f["lo"] = emin(al, bl)
        if a.pure and a.pure == b.pure:
            f["pure"] = a.pure
        f["att0"] = (a.att0 or b.att0) and not f.get("nz")
        if a._ex is not None and b._ex is not None:
            if S.le(a._ex, b._ex):
                f["ex"] = b._ex if which == "max2" else a._ex
            elif S.le(b._ex, a._ex):
                f["ex"] = a._ex if which == "max2" else b._ex
        return f
    return f


FAC["max2"], FAC["min2"] = _mm("max2"), _mm("min2")


@fac("sel")
def _f_sel(m, a, b):
    if a is b:
        return a
    f = join_facets([a, b])
    if m.shape != ():
        sh, _ = bshape(a.shape, b.shape)
        if sh is not None and m.shape is not None:
            sh, _ = bshape(sh, m.shape)
        f["shape"] = sh
        # scalars chosen per position are no longer one value
        if f.get("ex") is None:
            pass
    f["deps"] = m.deps | a.deps | b.deps
    return f


@fac("join")
def _f_join(*ns):
    flat, seen = [], set()
    stack = list(reversed(ns))
    while stack:
        x = stack.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        if x.op == "join":
            stack.extend(reversed(x.args))
        else:
            flat.append(x)
    if len(flat) == 1:
        return flat[0]
    if len(flat) > 8:
        f = join_facets(flat)
        f["deps"] = depsof(flat)
        first = flat[:1] + sorted(flat[1:], key=lambda n: n.id)[:3]
        return mk("new", "oneof", *first, **f)
    srt = tuple(sorted(flat, key=lambda n: n.id))
    if srt != ns:
        return mk("join", *srt)
    return join_facets(list(ns))


@fac("assume")
def _f_assume(x, rel, c):
    """x restricted by a comparison with c (element-wise)."""
    f = carry(x)
    f["shape"] = x.shape
    f["deps"] = x.deps
    f.pop("ex", None)
    lo, hi, lop, hop = raw_bounds(x)
    if lo is x.ex:
        b = x.bounds()
        lo, lop, hi, hop = b
    cl, clo, ch, cho = c.bounds()
    if rel in ("gt", "ge") and cl is not None:
        m = emax(lo, cl) if lo is not None else cl
        if m is None:
            m, o = (lo, lop)
        else:
            o = (rel == "gt" or clo) if m == cl and m != lo else (lop or (m == cl and rel == "gt"))
        if x.integral and o and c.integral and m == cl and rel == "gt":
            m, o = S.add(cl, S.ONE), False
        lo, lop = m, o
    if rel in ("lt", "le") and ch is not None:
        m = emin(hi, ch) if hi is not None else ch
        if m is None:
            m, o = hi, hop
        else:
            o = (rel == "lt" or cho) if m == ch and m != hi else (hop or (m == ch and rel == "lt"))
        if x.integral and o and c.integral and m == ch and rel == "lt":
            m, o = S.sub(ch, S.ONE), False
        hi, hop = m, o
    if rel == "eq":
        if c._ex is not None and not is_elem(c._ex):
            f["ex"] = c._ex
            f["nz"] = c.nz or x.nz
            f["att0"] = is_zero(c)
            return f
        lo, hi = cl, ch
    f.update(lo=lo, hi=hi, lop=lop, hop=hop)
    pos = lo is not None and (S.gt0(lo) or (lop and S.ge0(lo)))
    neg = hi is not None and (S.lt(hi, S.ZERO) or (hop and S.le(hi, S.ZERO)))
    if rel == "ne" and is_zero(c):
        f["nz"] = True
        if lo is not None and S.sgn(lo) in ("0", "+0") and not lop:
            if x.integral:
                f["lo"] = S.ONE
            else:
                f["lop"] = True
    if pos or neg:
        f["nz"] = True
    if f["nz"]:
        f["att0"] = False
    return f


def refine(n, cond, truth):
    """n under the assumption that cond (a boolean Node) is `truth`."""
    mp = {}
    def collect(c, t):
        c = strip_one(c)
        if t:
            cs = conj(c)
            if len(cs) > 1:
                for x in cs:
                    collect(x, True)
                return
        if c.op == "not":
            collect(c.args[0], not t)
        elif c.op == "or" and not t:
            collect(c.args[0], False)
            collect(c.args[1], False)
        elif c.op == "cmp":
            rel, a, b = c.args
            if not t:
                rel = NEGCMP[rel]
            if a.op != "const" and b.op == "const" or a.op != "const":
                mp[a.id] = (a, mk("assume", a, rel, b))
            if b.op != "const" and a.op == "const":
                mp[b.id] = (b, mk("assume", b, SWAP[rel], a))
        elif c.dt not in ("b", "s", "O", None) and c.op not in ("const",):
            # truthiness of a number
            mp[c.id] = (c, mk("assume", c, "ne" if t else "eq", const(0)))
    collect(cond, truth)
    if not mp:
        return n
    return rebuild(n, {k: v[1] for k, v in mp.items()}, cut=cond)


def rebuild(n, mp, exs=None, cut=None, memo=None, depth=0):
    """Replace nodes (by id) and atoms (by name) in a term."""
    if memo is None:
        memo = {}
    if isinstance(n, Ex):
        return S.subst(n, exs) if exs else n
    if isinstance(n, (tuple, list)):
        return type(n)(rebuild(x, mp, exs, cut, memo, depth) for x in n)
    if not isinstance(n, Node):
        return n
    if n.id in mp:
        return mp[n.id]
    if n.id in memo:
        return memo[n.id]
    if depth > 60:
        return n
    if n.op in ("const", "assume", "rng") or n.op == "in" and len(n.args) == 1 or (cut is not None and n is cut):
        if n.op != "assume":
            memo[n.id] = n
            return n
    if n.op == "atom":
        if exs and n.args[0] in exs:
            e = exs[n.args[0]]
            r = exn(e) if n.dt == "i" else mk("exn", e)
        else:
            r = n
        memo[n.id] = r
        return r
    if n.op in ("hdr", "unk", "lib", "new", "loop", "fn") or n.op == "in" and len(n.args) > 1:
        r = rebuild_leaf(n, mp, exs, memo, depth)
        memo[n.id] = r
        return r
    if not exs and not any(True for _ in nodes_in(n.args)):
        memo[n.id] = n
        return n
    na = tuple(rebuild(a, mp, exs, cut, memo, depth + 1) for a in n.args)
    if all(x is y or (isinstance(x, tuple) and x == y) for x, y in zip(na, n.args)):
        r = n
    else:
        r = mk(n.op, *na)
    memo[n.id] = r
    return r


def rebuild_leaf(n, mp, exs, memo, depth):
    na = tuple(rebuild(a, mp, exs, None, memo, depth + 1) for a in n.args)
    if all(x is y or (not isinstance(x, Node) and x == y) for x, y in zip(na, n.args)) and not touches(n, exs):
        return n
    lo, lop, hi, hop = n.lo, n.lop, n.hi, n.hop
    fx = dict(shape=tuple(S.subst(d, exs) if d is not None else None for d in n.shape) if n.shape is not None else None,
              dt=n.dt, integral=n.integral, nz=n.nz, att0=n.att0, pure=n.pure, tags=n.tags, deps=n.deps,
              lo=S.subst(lo, exs) if lo is not None else None, hi=S.subst(hi, exs) if hi is not None else None,
              lop=lop, hop=hop)
    if n._ex is not None and not any(a in ("o%d" % n.id, "e%d" % n.id) for a in n._ex.atoms()):
        fx["ex"] = S.subst(n._ex, exs)
    if exs and touches(n, exs) and all(x is y or x == y for x, y in zip(na, n.args)):
        na = na + (("@",) + tuple(sorted((k, v) for k, v in exs.items() if k)),)
    return mk(n.op, *na, **fx)


def touches(n, exs):
    if not exs:
        return False
    for d in (n.shape or ()):
        if d is not None and d.atoms() & set(exs):
            return True
    for b in (n.lo, n.hi):
        if b is not None and b.atoms() & set(exs):
            return True
    return False


# ---------------------------------------------------------------- reductions
def norm_axis(axis, r):
    return axis + r if axis is not None and axis < 0 and r is not None else axis


@fac("sum")
def _f_sum(x, axis, keep=False):
    x_sh = x.shape
    f = {"dt": "i" if x.dt == "b" else x.dt, "integral": x.integral, "att0": x.att0 and axis is not None}
    n = None
    if axis is None:
        f["shape"] = ()
        if x_sh is not None and all(d is not None for d in x_sh):
            n = S.ONE
            for d in x_sh:
                n = S.mul(n, d) if n is not None else None
    elif x_sh is None:
        f["shape"] = None
    else:
        ax = norm_axis(axis, len(x_sh))
        if ax >= len(x_sh):
            f["shape"] = None
        else:
            n = x_sh[ax]
            f["shape"] = x_sh[:ax] + ((S.ONE,) if keep else ()) + x_sh[ax + 1:]
    if x._ex is not None and not is_elem(x._ex) and n is not None and not S.has_val(x._ex):
        e = S.mul(x._ex, n)
        if e is not None:
            f["ex"] = e
    else:
        lo, lop, hi, hop = x.bounds()
        if lo is not None:
            s = S.sgn(lo)
            if n is not None:
                f["lo"] = S.mul(lo, n)
                f["lop"] = lop
            elif s in ("0", "+0", "+"):
                f["lo"] = S.ZERO
            if s in ("0", "+0", "+") and "refl0" in x.tags and axis in (0, None):
                f["lo"] = S.ONE
        if hi is not None:
            if n is not None:
                f["hi"] = S.mul(hi, n)
            elif S.sgn(hi) in ("0", "-0"):
                f["hi"] = S.ZERO
    if axis is None and "totpos" in x.tags:
        f["nz"] = True
        f["lo"] = S.ONE
        f["att0"] = False
        f.pop("ex", None)
    elif axis is None and x.op == "sum" and sumroot_totpos(x):
        f["nz"] = True
        f["lo"] = S.ONE
        f["att0"] = False
        f.pop("ex", None)
    if "lo" in f and f["lo"] is not None and S.gt0(f["lo"]):
        f["nz"] = True
    t = ES
    if "cnt" in x.tags:
        t = frozenset({"cnt"})
    if "id" in x.tags:
        t = t - {"id"}
    f["tags"] = t
    return f


def sumroot_totpos(x):
    while isinstance(x, Node) and x.op == "sum":
        x = x.args[0]
    return "totpos" in x.tags


@fac("mean", "std", "var")
def _f_mean(x, axis):
    f = dict(_f_sum(x, axis))
    f = {"shape": f["shape"], "dt": "f"}
    lo, lop, hi, hop = x.bounds()
    f["lo"], f["hi"] = lo, hi
    return f


FAC["std"] = lambda x, axis: {"shape": _f_sum(x, axis)["shape"], "dt": "f", "lo": S.ZERO}


@fac("any", "all")
def _f_any(x, axis):
    return {"shape": _f_sum(x, axis)["shape"], "dt": "b"}


@fac("min", "max")
def _f_minmax(x, axis):
    f = carry(x)
    f["shape"] = _f_sum(x, axis)["shape"]
    return f


@fac("cumsum")
def _f_cumsum(x, axis):
    f = {"shape": x.shape, "dt": x.dt, "integral": x.integral}
    if S.esign(x.ex) in ("+", "+0", "0"):
        f["lo"] = S.ZERO
    return f


@fac("sort")
def _f_sort(x, axis):
    f = carry(x)
    f["shape"] = x.shape
    f["tags"] = f["tags"] - {"setord"}
    f["deps"] = frozenset(d for d in x.deps if d[0] != "setorder")
    return f


@fac("argsort")
def _f_argsort(x, axis):
    n = x.shape[axis if axis is not None else 0] if x.shape else None
    f = {"shape": x.shape, "dt": "i", "lo": S.ZERO, "hi": S.sub(n, S.ONE) if n is not None else None}
    f["deps"] = ordinal(x.deps, {x.pure}) if x.pure else x.deps
    return f


@fac("rank")
def _f_rank(x, axis, ordinal_):
    n = None
    if x.shape is not None and x.shape:
        n = x.shape[axis if axis is not None else 0]
    f = {"shape": x.shape, "dt": "i" if ordinal_ else "f", "lo": S.ONE, "hi": n, "integral": bool(ordinal_)}
    f["deps"] = ordinal(x.deps, {x.pure}) if x.pure else x.deps
    return f


@fac("unique")
def _f_unique(x):
    base = uroot(x)
    f = carry(x)
    n = None
    if x.shape is not None and all(d is not None for d in x.shape):
        n = S.ONE
        for d in x.shape:
            n = S.mul(n, d) if n is not None else None
    f["shape"] = (S.atom("u%d" % base.id, S.ONE, n, integral=True),)
    f["tags"] = (f["tags"] | frozenset({"sorted"})) - {"setord"}
    f["deps"] = frozenset(d for d in x.deps if d[0] != "setorder")
    return f


def uroot(x):
    """Strip operations that keep the set of element values."""
    while True:
        if x.op in ("T", "reshape", "sort", "cast", "unique", "assume"):
            x = x.args[0]
        elif x.op == "seq":
            e = x.args[3]
            # seq of y[i] over all i is y itself
            if e.op == "ix" and e.args[1] and e.args[1][0][0] == "p" and e.args[1][0][1].op == "atom" and e.args[1][0][1].args[0] == x.args[1]:
                x = e.args[0]
            else:
                return x
        else:
            return x


# ---------------------------------------------------------------- layout
@fac("T")
def _f_T(x, perm):
    if x.op == "T" and perm is None and x.args[1] is None:
        return x.args[0]
    f = carry(x)
    if x.shape is None:
        f["shape"] = None
    elif perm is None:
        f["shape"] = tuple(reversed(x.shape))
    else:
        f["shape"] = tuple(x.shape[p] for p in perm)
    if x.rank in (0, 1):
        return x
    return f


@fac("reshape")
def _f_reshape(x, shape):
    f = carry(x)
    f["shape"] = shape
    if x.shape is not None and shape == x.shape:
        return x
    return f


@fac("full")
def _f_full(shape, v):
    f = carry(v)
    f["shape"] = shape
    f["tags"] = f["tags"] | (frozenset({"blank"}) if v.op == "const" else ES)
    return f


@fac("eye")
def _f_eye(n):
    return {"shape": (n, n), "dt": "f", "lo": S.ZERO, "hi": S.ONE, "integral": True}


@fac("diagv")
def _f_diagv(v):
    n = v.shape[0] if v.shape else None
    f = join_facets([v, const(0.0)])
    f["shape"] = (n, n)
    f["nz"] = False
    f["pure"] = None
    f["att0"] = v.att0
    return f


@fac("diagm")
def _f_diagm(m):
    if m.op == "diagv":
        return m.args[0]
    f = carry(m)
    f["shape"] = (m.shape[0],) if m.shape else None
    return f


@fac("concat")
def _f_concat(parts, axis):
    f = join_facets(list(parts))
    ds = [p.shape for p in parts]
    if all(d is not None and len(d) == len(ds[0]) and len(d) > axis for d in ds):
        n = S.ZERO
        for d in ds:
            n = S.add(n, d[axis]) if n is not None and d[axis] is not None else None
        f["shape"] = ds[0][:axis] + (n,) + ds[0][axis + 1:]
    else:
        f["shape"] = None
    return f


@fac("stack")
def _f_stack(parts):
    if all(p.op == "const" and not isinstance(cval(p), str) and cval(p) is not None for p in parts) and len(parts) <= 64:
        if len({p.shape for p in parts}) == 1:
            return const(tuple(cval(p) for p in parts))
    f = join_facets(list(parts)) if parts else {}
    if parts:
        s = parts[0].shape
        if f["shape"] is None:
            f["shape"] = None
        else:
            f["shape"] = (S.num(len(parts)),) + f["shape"]
        e = f.get("ex")
    else:
        f["shape"] = (S.ZERO,)
        f["dt"] = "f"
    return f


@fac("seq")
def _f_seq(axis, atom, length, e):
    """Array whose element number `atom` along `axis` is e."""
    f = {"dt": e.dt, "integral": e.integral, "nz": e.nz, "att0": e.att0, "pure": e.pure, "tags": e.tags & KEEP}
    # y[it] for all it is y
    if e.op == "ix" and axis == 0:
        base, spec = e.args
        if base.shape and spec and spec[0][0] == "p" and spec[0][1].op == "atom" and spec[0][1].args[0] == atom \
                and all(s == ("s", None, None, 1) for s in spec[1:]) and dim_eq(base.shape[0], length) \
                and ("atomof", atom) not in base.deps and not mentions(base, atom):
            return base
    if e.shape is None:
        f["shape"] = None
    else:
        f["shape"] = e.shape[:axis] + (length,) + e.shape[axis:]
    ex = e._ex
    if ex is not None and not is_elem(ex) and atom not in ex.atoms() and not any(_atom_mentions(a, atom) for a in ex.atoms()):
        f["ex"] = ex
    else:
        lo, lop, hi, hop = e.bounds()
        f.update(lo=lo, lop=lop, hi=hi, hop=hop)
    f["deps"] = e.deps
    return f


def _atom_mentions(a, atom):
    at = S.ATOMS.get(a)
    if at is None:
        return False
    for b in (at.lo, at.hi):
        if isinstance(b, Ex) and atom in b.atoms():
            return True
    return a.startswith("o")


_ment = {}


def mentions(n, atom):
    key = (n.id, atom)
    r = _ment.get(key)
    if r is not None:
        return r
    _ment[key] = False
    r = False
    if n.op == "atom":
        r = n.args[0] == atom
    elif n.op == "exn":
        r = atom in n.args[0].atoms()
    elif n.op == "seq" and n.args[1] == atom:
        r = False
    else:
        for a in n.args:
            if _arg_mentions(a, atom):
                r = True
                break
    _ment[key] = r
    return r


def _arg_mentions(a, atom):
    if isinstance(a, Node):
        return mentions(a, atom)
    if isinstance(a, Ex):
        return atom in a.atoms()
    if isinstance(a, (tuple, list)):
        return any(_arg_mentions(x, atom) for x in a)
    return False


@fac("arange")
def _f_arange(lo, hi, step):
    n = S.div(S.sub(hi, lo), S.num(step)) if step else None
    f = {"shape": (n,), "dt": "i", "deps": ES}
    if step > 0:
        f.update(lo=lo, hi=S.sub(hi, S.ONE))
    else:
        f.update(lo=S.add(hi, S.ONE), hi=lo)
    return f


@fac("lag")
def _f_lag(w, y):
    return {"shape": y.shape, "dt": "f"}


@fac("lagcat")
def _f_lagcat(w, y, *r):
    f = carry(y)
    f["shape"] = y.shape
    f["pure"] = None
    return f


@fac("linspace")
def _f_linspace(a, b, n):
    lo, lop, hi, hop = a.bounds()[0], False, b.bounds()[2], False
    return {"shape": (n.ex,) if n.shape == () else None, "dt": "f", "lo": lo, "hi": hi}


@fac("tile")
def _f_tile(x, reps):
    f = carry(x)
    f["shape"] = None
    if x.shape is not None and all(isinstance(r, Ex) for r in reps):
        s = x.shape
        r = list(reps)
        while len(s) < len(r):
            s = (S.ONE,) + s
        while len(r) < len(s):
            r.insert(0, S.ONE)
        f["shape"] = tuple(S.mul(d, q) if d is not None else None for d, q in zip(s, r))
    return f


@fac("delete")
def _f_delete(x, i, axis):
    f = carry(x)
    if x.shape is None:
        f["shape"] = None
    else:
        ax = 0 if axis is None else axis
        one = i.shape == ()
        f["shape"] = x.shape[:ax] + ((S.sub(x.shape[ax], S.ONE) if one and x.shape[ax] is not None else None),) + x.shape[ax + 1:]
    return f


@fac("insert")
def _f_insert(x, i, v, axis):
    f = join_facets([x, v])
    if x.shape is None:
        f["shape"] = None
    else:
        ax = 0 if axis is None else axis
        f["shape"] = x.shape[:ax] + ((S.add(x.shape[ax], S.ONE) if x.shape[ax] is not None else None),) + x.shape[ax + 1:]
    return f


@fac("kron")
def _f_kron(a, b):
    f = {"dt": dtjoin(a.dt, b.dt), "shape": None}
    if a.shape and b.shape and len(a.shape) == len(b.shape):
        f["shape"] = tuple(S.mul(x, y) if x is not None and y is not None else None for x, y in zip(a.shape, b.shape))
    if all(S.esign(z.ex) in ("+", "+0", "0") for z in (a, b)):
        f["lo"] = S.ZERO
        f["hi"] = S.mul(a.bounds()[2], b.bounds()[2]) if a.bounds()[2] is not None and b.bounds()[2] is not None else None
    return f


def dot(a, b):
    """Matrix product with scaling by diagonal matrices normalised away."""
    if a.rank == 0 or b.rank == 0:
        return mk("mul", a, b)
    if a.op == "diagv" and b.rank == 2:
        v = a.args[0]
        return mk("mul", b, mk("ix", v, (("s", None, None, 1), ("n",))))
    if a.op == "diagv" and b.rank == 1:
        return mk("mul", a.args[0], b)
    if b.op == "diagv" and a.rank == 2:
        v = b.args[0]
        return mk("mul", a, mk("ix", v, (("n",), ("s", None, None, 1))))
    return mk("dot", a, b)


@fac("dot")
def _f_dot(a, b):
    f = {"dt": dtjoin(a.dt, b.dt), "shape": None, "integral": a.integral and b.integral}
    if a.dt == "b" and b.dt == "b":
        f["dt"] = "b"
    if a.shape is not None and b.shape is not None and a.shape and b.shape:
        if len(b.shape) == 1:
            f["shape"] = a.shape[:-1]
        else:
            f["shape"] = a.shape[:-1] + b.shape[:-2] + b.shape[-1:]
    if all(S.esign(z.ex) in ("+", "+0", "0") for z in (a, b)):
        f["lo"] = S.ZERO
    return f


# ---------------------------------------------------------------- indexing
FULL = ("s", None, None, 1)


def spec_shape(shape, spec):
    """Shape after indexing; returns (shape or None, list of (axis, item))."""
    if shape is None:
        return None, []
    items = list(spec)
    used = 0
    for s in items:
        if s[0] == "n" or s[0] == "e":
            continue
        if s[0] == "m" and s[1].rank is not None:
            used += max(1, s[1].rank)
        else:
            used += 1
    out, ax, pairs = [], 0, []
    if ("e",) in items:
        i = items.index(("e",))
        items[i:i + 1] = [FULL] * (len(shape) - used)
    else:
        items += [FULL] * (len(shape) - used)
    adv_pos, adv_shape = None, ()
    has_adv = any(s[0] in "am" for s in items)
    for s in items:
        if s[0] == "n":
            out.append(S.ONE)
            continue
        if ax >= len(shape):
            return None, pairs
        d = shape[ax]
        if s[0] == "m":
            r = max(1, s[1].rank or 1)
            pairs.append((ax, s))
            cnt = mask_count(s[1])
            if adv_pos is None:
                adv_pos = len(out)
                adv_shape = (cnt,)
            else:
                adv_shape, _ = bshape(adv_shape, (cnt,))
            ax += r
            continue
        pairs.append((ax, s))
        if s[0] == "p":
            if has_adv and s[1].shape == ():
                if adv_pos is None:
                    adv_pos = len(out)
            ax += 1
        elif s[0] == "a":
            if adv_pos is None:
                adv_pos = len(out)
            if s[1].shape is None:
                return None, pairs
            adv_shape, _ = bshape(adv_shape, s[1].shape)
            if adv_shape is None:
                return None, pairs
            ax += 1
        else:
            out.append(slice_len(d, s))
            ax += 1
    if adv_pos is not None:
        out[adv_pos:adv_pos] = list(adv_shape)
    return tuple(out), pairs


def mask_count(m):
    n = None
    if m.shape is not None and all(d is not None for d in m.shape):
        n = S.ONE
        for d in m.shape:
            n = S.mul(n, d) if n is not None else None
    return S.atom("c%d" % strip_one(m).id, S.ZERO, n, integral=True)


def slice_len(d, s):
    _, a, b, st = s
    if st is None:
        return None
    if st == -1 and a is None and b is None:
        return d
    if st != 1:
        return None
    a = S.ZERO if a is None else a
    if a.const() is not None and a.const() < 0:
        a = S.add(d, a) if d is not None else None
    if b is None:
        b = d
    elif b.const() is not None and b.const() < 0:
        b = S.add(d, b) if d is not None else None
    if a is None or b is None:
        return None
    return S.sub(b, a)


def slice_start(d, s):
    a = s[1]
    if a is None:
        return S.ZERO
    if a.const() is not None and a.const() < 0:
        return S.add(d, a) if d is not None else None
    return a


def const_index(v, items):
    """Index a nested constant tuple by constants; None when not constant."""
    if not items:
        return v
    it = items[0]
    if not isinstance(v, tuple):
        return None
    if it[0] == "p":
        c = constof(it[1])
        if c is NOCONST or isinstance(c, (float, str)) or c is None:
            return None
        try:
            return const_index(v[int(c)], items[1:])
        except IndexError:
            return None
    if it[0] == "s":
        def cc(x):
            if x is None:
                return None
            c = x.const()
            if c is None:
                raise ValueError
            return int(c)
        try:
            sl = v[cc(it[1]):cc(it[2]):it[3]]
        except ValueError:
            return None
        out = tuple(const_index(x, items[1:]) for x in sl) if items[1:] else sl
        return None if any(x is None for x in out) else out
    if it[0] == "a" and it[1].op == "const":
        idx = cval(it[1])
        if isinstance(idx, tuple) and all(isinstance(x, int) and not isinstance(x, bool) for x in idx):
            try:
                out = tuple(const_index(v[x], items[1:]) for x in idx)
            except IndexError:
                return None
            return None if any(x is None for x in out) else out
    return None


@fac("ix")
def _f_ix(x, spec):
    # drop trailing full slices
    sp = spec
    if x.rank is not None and all(s == FULL for s in sp) and len(sp) <= x.rank:
        return x
    # every position in order
    if x.shape is not None and sum(s[0] in "am" for s in sp) == 1 and not any(s[0] in "ne" for s in sp) and len(sp) <= x.rank and all(s[0] in "sa" for s in sp):
        for i, s in enumerate(sp):
            if s[0] == "a" and s[1].op == "arange" and s[1].args[0] == S.ZERO and s[1].args[2] == 1 and x.shape[i] is not None and s[1].shape == (x.shape[i],):
                return mk("ix", x, sp[:i] + (FULL,) + sp[i + 1:])
    if x.op == "const" and isinstance(cval(x), tuple):
        r = const_index(cval(x), list(sp))
        if r is not None:
            return const(r)
    if x.op == "stack" and sp and sp[0][0] == "p":
        c = constof(sp[0][1])
        if isinstance(c, int) and -len(x.args[0]) <= c < len(x.args[0]):
            e = x.args[0][c]
            return mk("ix", e, sp[1:]) if len(sp) > 1 else e
    if x.op == "seq" and x.args[0] == 0 and sp and sp[0][0] == "p" and sp[0][1].shape == () and (sp[0][1]._ex is not None):
        e = rebuild(x.args[3], {}, {x.args[1]: sp[0][1]._ex})
        return mk("ix", e, sp[1:]) if len(sp) > 1 else e
    if x.op == "seq" and x.args[0] == 1 and len(sp) >= 2 and sp[0][0] == "p" and sp[1][0] == "p" and sp[1][1].shape == () and sp[1][1]._ex is not None and not mentions(sp[0][1], x.args[1]):
        e = rebuild(x.args[3], {}, {x.args[1]: sp[1][1]._ex})
        return mk("ix", e, (sp[0],) + sp[2:])
    if x.op == "arange" and len(sp) == 1 and sp[0][0] == "p" and sp[0][1].shape == () and sp[0][1]._ex is not None and x.args[2] == 1:
        c = constof(sp[0][1])
        if c is NOCONST or c >= 0:
            return exn(S.add(x.args[0], sp[0][1]._ex))
    if x.op == "upd":
        # store followed by a load of the same place
        o, usp, v = x.args
        if usp == sp:
            if v.shape is not None and x.rank is not None:
                want, _ = spec_shape(x.shape, sp)
                if want == v.shape:
                    if v.dt == x.dt or x.dt == "f":
                        return v
        elif disjoint(usp, sp):
            return mk("ix", o, sp)
    if x.op == "concat" and x.args[1] == 0 and sp and sp[0][0] == "p" and is_const(sp[0][1], 0):
        p0 = x.args[0][0]
        if p0.shape and p0.shape[0] is not None and S.gt0(p0.shape[0]):
            return mk("ix", p0, sp)
    # compose point / slice over slices
    if x.op == "ix":
        c = compose(x, sp)
        if c is not None:
            return mk("ix", x.args[0], c)
    if x.op == "T" and x.args[1] is None and x.rank == 2 and sp and all(s[0] in ("p", "s") for s in sp):
        full = tuple(sp) + (FULL,) * (2 - len(sp))
        if sum(s[0] == "s" for s in full) <= 1:
            return mk("ix", x.args[0], (full[1], full[0]))
    f = carry(x)
    sh, _ = spec_shape(x.shape, sp)
    f["shape"] = sh
    if sh == () and f.get("ex") is None:
        pass
    d = x.deps
    for n in nodes_in(sp):
        d = d | n.deps
    f["deps"] = d
    # x[x > 0]: only the places where the mask holds are read
    ms = [strip_one(s[1]) for s in sp if s[0] == "m" or s[0] in "ap" and s[1].op == "nonzero"]
    if ms:
        m = ms[0].args[0] if ms[0].op == "nonzero" else ms[0]
        f["att0"] = False
        r = refine(x, m, True)
        if r is not x:
            if r.op in ("assume", "fn", "add", "sub", "mul", "div"):
                f["nz"] = f["nz"] or r.nz
                if "ex" not in f or f["ex"] is None:
                    lo, lop, hi, hop = r.bounds()
                    if lo is not None:
                        f.update(lo=lo, lop=lop)
                    if hi is not None:
                        f.update(hi=hi, hop=hop)
    return f


def disjoint(a, b):
    """Constant points that differ on some axis, or atom vs atom+c."""
    for s, t in zip(a, b):
        if s[0] == "p" and t[0] == "p" and s[1].shape == () and t[1].shape == ():
            if s[1]._ex is not None and t[1]._ex is not None:
                d = S.sub(s[1]._ex, t[1]._ex)
                c = d.const() if d is not None else None
                if c is not None and c != 0:
                    return True
    return False


def compose(x, sp):
    """ix(ix(b, s1), s2) -> spec on b when s1 is made of points and unit slices."""
    base, s1 = x.args
    if base.rank is None or any(s[0] not in ("p", "s", "a") for s in s1) or any(s[0] not in ("p", "s", "a", "m") for s in sp):
        return None
    na = sum(s[0] == "a" for s in s1)
    if na > 0 or any(s[0] == "p" and s[1].shape != () for s in s1):
        return None
    if any(s[0] in ("a", "m") for s in sp) and any(s[0] == "s" and s != FULL for s in s1):
        return None
    full = list(s1) + [FULL] * (base.rank - len(s1))
    rest = list(sp)
    out = []
    for ax, s in enumerate(full):
        if s[0] == "p":
            out.append(s)
            continue
        if not rest:
            out.append(s)
            continue
        t = rest.pop(0)
        if s == FULL:
            out.append(t)
            continue
        if s[3] != 1:
            return None
        st = slice_start(base.shape[ax], s)
        if st is None:
            return None
        if t[0] == "p":
            if t[1].shape != () or t[1]._ex is None:
                return None
            c = t[1]._ex.const()
            if c is not None and c < 0:
                en = base.shape[ax] if s[2] is None else s[2]
                if en is None:
                    return None
                if en.const() is not None and en.const() < 0:
                    if base.shape[ax] is None:
                        return None
                    en = S.add(base.shape[ax], en)
                out.append(("p", exn(S.add(en, S.num(c)))))
            else:
                out.append(("p", exn(S.add(st, t[1]._ex))))
        elif t == FULL:
            out.append(s)
        else:
            return None
    if rest:
        return None
    return tuple(out)


@fac("upd")
def _f_upd(x, spec, v):
    """x after x[spec] = v."""
    if x.op == "const" and v.op == "const" and isinstance(cval(x), tuple):
        r = const_store(cval(x), list(spec), cval(v))
        if r is not None:
            return const(r)
    if x.op == "upd" and x.args[1] == spec:
        x = x.args[0]
        return mk("upd", x, spec, v)
    if all(s == FULL for s in spec) and x.dt in ("f", v.dt):
        want, bad = bshape(x.shape, v.shape)
        if want is not None and want == x.shape and not bad:
            if v.shape == x.shape:
                return v
            return mk("full", x.shape, v) if v.shape == () else {**join_facets([v]), "shape": x.shape, "deps": v.deps}
    f = join_facets([x, v]) if x.shape == v.shape else _upd_facets(x, v)
    f["shape"] = x.shape
    f["dt"] = x.dt
    d = x.deps | v.deps
    for n in nodes_in(spec):
        d = d | n.deps
    f["deps"] = d
    # x[x == 0] = nonzero
    if len(spec) == 1 and spec[0][0] in ("m", "a"):
        m = strip_one(spec[0][1])
        if m.op == "cmp" and m.shape == x.shape:
            f2 = join_facets([refine(x, m, False), v])
            f.update({k: f2.get(k) for k in ("lo", "hi", "lop", "hop", "nz", "att0") if k in f2})
            f.pop("ex", None)
    if "cnt" in x.tags:
        f["tags"] = f.get("tags", ES) | {"cnt"}
    if "blank" in x.tags:
        f["tags"] = f.get("tags", ES) - {"blank"}
        if v.pure:
            f["pure"] = v.pure
    return f


def _upd_facets(x, v):
    f = join_facets([x, v])
    return f


def const_store(t, items, v):
    if not items:
        return v
    it = items[0]
    if it[0] != "p" or not isinstance(t, tuple):
        return None
    c = constof(it[1])
    if not isinstance(c, int):
        return None
    try:
        sub = const_store(t[c], items[1:], v)
    except IndexError:
        return None
    if sub is None or (isinstance(t[c], tuple) and not isinstance(sub, tuple)):
        return None
    l = list(t)
    l[c] = sub
    return tuple(l)


@fac("cast")
def _f_cast(x, dt):
    f = carry(x)
    f["shape"] = x.shape
    if x.shape == () and x._ex is not None or x._ex is not None:
        f["ex"] = x._ex
    f["dt"] = dt
    if dt in ("i", "b") and not x.integral:
        f.pop("ex", None)
        f["integral"] = True
        f["pure"] = None
        if dt == "i":
            f["nz"] = False
            f["lop"] = f["hop"] = False
    if dt == "b":
        f.pop("ex", None)
        f["lo"], f["hi"] = S.ZERO, S.ONE
    if x.dt == dt:
        return x
    if x.op == "const" and dt in ("f", "i", "b") and x.shape == ():
        v = cval(x)
        if isinstance(v, (int, float)) and (dt != "i" or math.isfinite(v)):
            return const({"f": float, "i": int, "b": bool}[dt](v))
    if x.op == "const" and dt in ("f", "i") and x.shape != ():
        def go(t):
            return tuple(go(y) for y in t) if isinstance(t, tuple) else {"f": float, "i": int}[dt](t)
        try:
            return const(go(cval(x)))
        except Exception:
            pass
    return f


# ---------------------------------------------------------------- tables, tests
@fac("lookup")
def _f_lookup(table, keys):
    """Constant table (tuple of (key, value)) read at symbolic keys."""
    vals = [const(v) for _, v in table.entries]
    f = join_facets(vals)
    sh = ()
    for k in keys:
        if k.shape is not None and sh is not None:
            sh, _ = bshape(sh, k.shape)
    f["shape"] = sh
    f["deps"] = depsof(keys)
    return f


class Table:
    """Constant mapping, hashable by content."""
    def __init__(self, entries, name=""):
        self.entries = tuple(entries)
        self.name = name
        self.map = dict(self.entries)

    def __hash__(self):
        return hash(self.entries)

    def __eq__(self, o):
        return isinstance(o, Table) and o.entries == self.entries

    def __repr__(self):
        return "table:%s" % self.name


@fac("index_of")
def _f_index_of(lst, x):
    n = lst.shape[0] if lst.shape else None
    sh = x.shape
    f = {"shape": sh, "dt": "i", "lo": S.ZERO, "hi": S.sub(n, S.ONE) if n is not None else None}
    f["deps"] = lst.deps | x.deps
    if x.pure and lst.op in ("unique", "sort") and uroot(lst.args[0]).pure == x.pure:
        f["deps"] = ordinal(f["deps"], {x.pure})
    return f


@fac("chi2cdf", "chi2sf")
def _f_chi2(stat, dof):
    sh, _ = bshape(stat.shape, dof.shape)
    return {"shape": sh, "dt": "f", "lo": S.ZERO, "hi": S.ONE}


@fac("arctan2")
def _f_atan2(a, b):
    sh, _ = bshape(a.shape, b.shape)
    return {"shape": sh, "dt": "f", "lo": S.neg(PI), "hi": PI}


PI = S.atom("pi", 3, 4, kind="dim")
S.ATOMS["pi"].kind = "dim"


@fac("nonzero")
def _f_nonzero(m, ax):
    n = m.shape[ax] if m.shape and ax < len(m.shape) else None
    return {"shape": (mask_count(m),), "dt": "i", "lo": S.ZERO, "hi": S.sub(n, S.ONE) if n is not None else None,
            "tags": frozenset({"pos"})}


def walk(n, seen=None):
    """All nodes of a term."""
    if seen is None:
        seen = set()
    stack = [n]
    while stack:
        x = stack.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        yield x
        stack.extend(nodes_in(x.args))


NONE = const(None)
TRUE, FALSE = const(True), const(False)
ZERO, ONE = const(0), const(1)

"""Behaviour of the functions giddy calls: numpy.  (models2: builtins, containers, other libraries)"""
import math
from . import sym as S
from . import node as N
from .node import mk, const, constof, NOCONST, exn, Node, FULL
from .interp import (Ref, Tup, Alt, Func, Cls, Mod, Lib, Slice, Partial, ArrCell, ListCell, DictCell, SetCell,
                     InstCell, LibInst, ModCell, Exc, Abrupt, ES)

REG = {}


def lib(*names):
    def w(f):
        for n in names:
            REG[n] = f
        return f
    return w


class Cx:
    """One library call."""

    def __init__(self, I, st, name, args, kw, node, selfv=None):
        self.I, self.st, self.name, self.args, self.kw, self.node, self.selfv = I, st, name, list(args), kw, node, selfv

    def a(self, i, *names, default=None):
        for n in names:
            if n in self.kw:
                return self.kw[n]
        if i is not None and i < len(self.args):
            return self.args[i]
        return default

    def n(self, i, *names):
        v = self.a(i, *names)
        return None if v is None else self.load(v)

    def load(self, v):
        if isinstance(v, Ref) and isinstance(self.st.heap.get(v.addr), LibInst):
            m = self.I.itermodel(v, self.st, self.node) if iterable(self.I, self.st, v) else None
            if m is not None:
                return self.I.load(tolist(self.I, self.st, v, self.node), self.st)
        return self.I.load(v, self.st)

    def c(self, i, *names, default=None):
        v = self.a(i, *names)
        if v is None:
            return default
        if isinstance(v, Tup):
            out = [constof(x) if isinstance(x, Node) else NOCONST for x in v.items]
            return NOCONST if any(x is NOCONST for x in out) else tuple(out)
        if isinstance(v, Lib):
            return v
        n = self.I.load(v, self.st)
        return constof(n)

    def has(self, i, *names):
        return self.a(i, *names) is not None

    def arr(self, n):
        return self.I.arr(self.st, n)

    def ev(self, kind, **info):
        return self.I.ev(kind, self.node, self.st, **info)

    def unk(self, taint=True, **fx):
        vals = list(self.args) + list(self.kw.values()) + ([self.selfv] if self.selfv is not None else [])
        return self.I.unk(self.name, vals, st=self.st, taint=taint, **fx)

    def out(self, node):
        """Result, honouring out= and a boolean where=."""
        o = self.kw.get("out")
        if isinstance(o, Tup) and o.items:
            o = o.items[0]
        w = self.kw.get("where")
        if o is not None and isinstance(o, Ref):
            cur = self.I.load(o, self.st)
            self.I.mutate(o, self.st, "out=", self.node)
            self.I.check_trunc(cur, node, self.node, self.st, "out=")
            if w is not None and constof(self.load(w)) is not True:
                m = self.load(w)
                new = mk("sel", m, node, cur)
            else:
                new = node if node.dt == cur.dt or cur.dt == "f" else mk("cast", node, cur.dt) if cur.dt in ("i", "f", "b") else mk("upd", cur, (FULL,) * (cur.rank or 0), node)
            self.I.write_arr(o, new, self.st, self.node)
            return o
        if w is not None and constof(self.load(w)) is not True:
            m = self.load(w)
            j = mk("unk", "uninit", (node,), shape=node.shape, dt=node.dt)
            return self.arr(mk("sel", m, node, j))
        return self.arr(node)

    def masked(self, x):
        w = self.kw.get("where")
        if w is None:
            return x
        m = self.load(w)
        return N.refine(x, m, True) if m.op != "const" else x


def iterable(I, st, v):
    c = st.heap.get(v.addr)
    return isinstance(c, LibInst) and c.cls in ITER


ITER = {}


def call(I, st, fn, args, kw, node):
    f = REG.get(fn.name)
    cx = Cx(I, st, fn.name, args, kw, node, fn.bound)
    if f is None:
        for pre, g in PREFIX:
            if fn.name.startswith(pre):
                return g(cx)
        I.gap("call " + fn.name, node)
        return cx.unk()
    r = f(cx)
    return N.NONE if r is None else r


PREFIX = []


# ------------------------------------------------------------------ dtypes and shapes
DT = {"builtins.int": "i", "int": "i", "builtins.float": "f", "float": "f", "builtins.bool": "b", "bool": "b", "builtins.str": "s", "str": "s",
      "builtins.object": "O", "object": "O", "builtins.complex": "c", "complex": "c"}


class Narrow(str):
    """A float type with fewer digits than double."""


NARROW = Narrow("f")


def dtype(cx, v):
    """dtype letter of a dtype argument; NOCONST when unknown."""
    if v is None:
        return None
    if isinstance(v, Lib):
        if v.name.startswith("dtype:"):
            d = v.name[6:]
            return None if d == "None" else d
        nm = v.name.split(".")[-1]
        if v.name in DT:
            return DT[v.name]
        if v.name.startswith("builtins."):
            return DT.get(v.name[9:], NOCONST)
        if nm in ("float32", "float16", "half", "single"):
            return NARROW
        if nm.startswith(("float", "double", "longdouble")):
            return "f"
        if nm.startswith(("int", "uint", "intp", "byte", "short", "long")):
            return "i"
        if nm.startswith("bool"):
            return "b"
        if nm.startswith("complex"):
            return "c"
        if nm.startswith(("str", "unicode", "character")):
            return "s"
        if nm.startswith("object"):
            return "O"
        return NOCONST
    n = cx.I.load(v, cx.st)
    c = constof(n)
    if c is None:
        return None
    if isinstance(c, str):
        s = c.lstrip("<>=|")
        if s in ("float32", "float16", "half", "single", "f", "f4", "f2", "e"):
            return NARROW
        if s[:1] in "fd" or s.startswith("float") or s.startswith("double"):
            return "f"
        if s.startswith("bool") or s == "?" or s == "b1":
            return "b"
        if s[:1] in "iu" or s.startswith("int"):
            return "i"
        if s[:1] == "c":
            return "c"
        if s[:1] in "OUS":
            return "O" if s[0] == "O" else "s"
    return NOCONST


def dimof(I, st, v):
    n = I.load(v, st) if not isinstance(v, Node) else v
    if n._ex is not None:
        return n._ex
    if n.shape == () or n.shape is None:
        return n.ex
    return None


def shapearg(I, st, v):
    """Shape argument -> tuple of Ex/None, or None."""
    if isinstance(v, Alt):
        ss = [shapearg(I, st, x) for x in v.vals]
        return ss[0] if all(s == ss[0] for s in ss) else None
    if isinstance(v, Tup):
        return tuple(dimof(I, st, x) for x in v.items)
    c = I.cell(v, st)
    if isinstance(c, ListCell):
        if c.summ is None and c.items is not None:
            return tuple(dimof(I, st, x) for x in c.items)
        return None
    if isinstance(c, LibInst) and c.cls == "shape":
        return c.attrs.get("dims")
    n = I.load(v, st)
    if n.shape == ():
        return (dimof(I, st, n),)
    k = constof(n)
    if isinstance(k, tuple):
        return tuple(S.num(x) for x in k)
    return None


def size(shape):
    if shape is None:
        return None
    e = S.ONE
    for d in shape:
        if d is None:
            return None
        e = S.mul(e, d)
        if e is None:
            return None
    return e


def toshape(I, st, v, n):
    """New shape of n for reshape, -1 resolved."""
    sh = shapearg(I, st, v)
    if sh is None:
        return None
    if any(d is not None and d.const() == -1 for d in sh):
        tot = size(n.shape)
        rest = S.ONE
        for d in sh:
            if d is None:
                rest = None
                break
            if d.const() != -1:
                rest = S.mul(rest, d)
        q = S.div(tot, rest) if tot is not None and rest is not None else None
        sh = tuple(q if (d is not None and d.const() == -1) else d for d in sh)
    return sh


def axisarg(cx, i, *names):
    """(axis int/None, known)"""
    v = cx.a(i, *names)
    if v is None:
        return None, True
    c = cx.c(i, *names)
    if c is NOCONST:
        return None, False
    if isinstance(c, tuple):
        return c, True
    return c, True


def newarr(cx, node, dt=None):
    if dt is NOCONST:
        dt = None
        f = cx.I.facets(node)
        return cx.I.new(cx.st, ArrCell(mk("new", "dtype?", node, **dict(f, dt=None, shape=node.shape))))
    if isinstance(dt, Narrow) and node.dt != "b" and constof(node) is NOCONST:
        return cx.I.new(cx.st, ArrCell(mk("fn", "narrow", (node,), **dict(cx.I.facets(node), dt="f", shape=node.shape, pure=None))))
    if dt is not None and dt != node.dt:
        node = cast(cx, node, dt)
    return cx.I.new(cx.st, ArrCell(node))


def cast(cx, n, dt):
    if dt is None or n.dt == dt:
        return n
    if dt in ("i", "b") and n.dt is not None and (n.dt in ("f", "c") or n.dt.startswith("in:")) and not n.integral and dt == "i":
        cx.ev("trunc", arr=None, val=n, how="cast", to=dt)
    if dt is not None and dt.startswith("in:") and n.dt is not None and n.dt != dt and (n.dt in ("f", "c") or n.dt.startswith("in:")) and not n.integral:
        cx.ev("trunc", arr=None, val=n, how="cast", to=dt)
    return mk("cast", n, dt)


# ------------------------------------------------------------------ creation
@lib("numpy.array", "numpy.asarray", "numpy.asanyarray", "numpy.ascontiguousarray", "numpy.asfarray", "numpy.require", "numpy.asarray_chkfinite", "numpy.atleast_1d", "numpy.asfortranarray")
def f_array(cx):
    v = cx.a(0, "object", "a")
    nm = cx.name.split(".")[-1]
    dt = dtype(cx, cx.a(1, "dtype")) if nm != "atleast_1d" else None
    if nm == "asfarray":
        dt = "f"
    copy = nm == "array" and cx.c(None, "copy", default=True) is not False
    if isinstance(v, Alt):
        vs = [x for x in v.vals if not cx.I.isnone(x, cx.st)]
        if vs and all(isinstance(cx.I.cell(x, cx.st), ArrCell) for x in vs) and not copy and dt is None:
            return v if len(vs) == len(v.vals) else (vs[0] if len(vs) == 1 else Alt(vs))
    n = cx.load(v)
    if n.op == "const" and n.args[0] is None:
        return newarr(cx, mk("new", "arr0", n, shape=(), dt="O"))
    c = cx.I.cell(v, cx.st)
    if isinstance(c, ArrCell) and not copy and (dt is None or (dt is not NOCONST and dt == n.dt)):
        if nm != "ascontiguousarray" or c.base is None:
            return v
    if isinstance(c, ArrCell) and not copy and dt not in (None, NOCONST) and n.dt is not None and n.dt.startswith("in:"):
        # aliases the caller's array whenever its type already matches
        r = cx.I.new(cx.st, ArrCell(cast(cx, n, dt), v.addr, lambda b, dt=dt: b if b.dt == dt else mk("cast", b, dt)))
        return r
    if isinstance(c, ArrCell) and not copy and dt is NOCONST:
        return v
    if nm == "atleast_1d" and n.shape == ():
        n = mk("reshape", n, (S.ONE,))
    return newarr(cx, n, dt)


@lib("numpy.atleast_2d")
def f_atleast2(cx):
    v = cx.a(0)
    n = cx.load(v)
    if n.rank is not None and n.rank >= 2:
        return v
    if n.rank == 1:
        return view(cx, v, (("n",), FULL))
    return cx.arr(mk("reshape", n, (S.ONE, S.ONE)) if n.rank == 0 else cx.unk(taint=False))


def filled(cx, sh, val, dt):
    if sh is None:
        node = mk("full", None, val)
        return newarr(cx, mk("new", "filled", node, **dict(cx.I.facets(node), shape=None, dt=dt)))
    if dt is NOCONST:
        return newarr(cx, mk("full", sh, val), NOCONST)
    if val.op == "const" and dt in ("f", "i", "b", None) or val.dt == dt:
        if dt is not None:
            val = mk("cast", val, dt)
        return cx.I.new(cx.st, ArrCell(mk("full", sh, val)))
    if dt is not None and dt.startswith("in:"):
        if not val.integral:
            cx.ev("trunc", arr=None, val=val, how="full_like", to=dt)
        return cx.I.new(cx.st, ArrCell(mk("full", sh, val, dt=dt)))
    return newarr(cx, mk("full", sh, val), dt)


@lib("numpy.zeros", "numpy.ones", "numpy.empty")
def f_zeros(cx):
    sh = shapearg(cx.I, cx.st, cx.a(0, "shape"))
    dt = dtype(cx, cx.a(1, "dtype"))
    nm = cx.name.split(".")[-1]
    if nm == "empty":
        r = cx.I.new(cx.st, ArrCell(mk("new", "empty", *((sh,) if sh is not None else ()), shape=sh, dt="f" if dt is None else (None if dt is NOCONST else dt), tags=frozenset({"blank"}))))
        return r
    return filled(cx, sh, const(0.0 if nm == "zeros" else 1.0), "f" if dt is None else dt)


@lib("numpy.full")
def f_full(cx):
    sh = shapearg(cx.I, cx.st, cx.a(0, "shape"))
    v = cx.n(1, "fill_value")
    dt = dtype(cx, cx.a(2, "dtype"))
    return filled(cx, sh, v, v.dt if dt is None else dt)


@lib("numpy.zeros_like", "numpy.ones_like", "numpy.full_like", "numpy.empty_like")
def f_like(cx):
    x = cx.n(0, "a", "prototype")
    nm = cx.name.split(".")[-1]
    k = 2 if nm == "full_like" else 1
    dt = dtype(cx, cx.a(k, "dtype"))
    sh = shapearg(cx.I, cx.st, cx.kw["shape"]) if "shape" in cx.kw else x.shape
    d = x.dt if dt is None else dt
    if nm == "empty_like":
        return cx.I.new(cx.st, ArrCell(mk("new", "empty", sh, shape=sh, dt=None if d is NOCONST else d, tags=frozenset({"blank"}))))
    v = {"zeros_like": const(0.0), "ones_like": const(1.0)}.get(nm)
    if v is None:
        v = cx.n(1, "fill_value")
    if d is None:
        return cx.I.new(cx.st, ArrCell(mk("full", sh, v, dt=None)))
    return filled(cx, sh, v, d)


@lib("numpy.eye", "numpy.identity")
def f_eye(cx):
    n = dimof(cx.I, cx.st, cx.a(0, "N", "n"))
    dt = dtype(cx, cx.a(3, "dtype") if cx.name.endswith("eye") else cx.a(1, "dtype"))
    if cx.has(1, "M") and cx.name.endswith("eye") or cx.has(2, "k"):
        return cx.arr(cx.unk(taint=False, dt="f", lo=S.ZERO, hi=S.ONE, integral=True, shape=(None, None)))
    return newarr(cx, mk("eye", n), None if dt == "f" else dt)


@lib("numpy.arange")
def f_arange(cx):
    return cx.I.new(cx.st, ArrCell(mkrange(cx)))


def mkrange(cx):
    ns = [cx.load(a) for a in cx.args]
    for k in ("start", "stop", "step"):
        if k in cx.kw:
            ns.append(cx.load(cx.kw[k]))
    ns = [n for n in ns if not (n.op == "const" and n.args[0] is None)]
    step = 1
    if len(ns) == 1:
        lo, hi = const(0), ns[0]
    else:
        lo, hi = ns[0], ns[1]
        if len(ns) > 2:
            step = constof(ns[2])
    if isinstance(step, (int, float)) and step and all(x.integral or x.dt in ("i", "b") or x.dt is None for x in (lo, hi)) and isinstance(step, int):
        a, b = lo.ex if lo._ex is None else lo._ex, hi.ex if hi._ex is None else hi._ex
        n = mk("arange", a, b, step)
        d = lo.deps | hi.deps
        if d:
            f = cx.I.facets(n)
            f["deps"] = n.deps | d
            return mk("arange", a, b, step, deps=n.deps | d)
        return n
    d = ES
    for x in ns:
        d |= x.deps
    return mk("new", "frange", tuple(ns), shape=(None,), dt="f", deps=d, lo=lo.bounds()[0], hi=hi.bounds()[2])


@lib("numpy.linspace")
def f_linspace(cx):
    a, b = cx.n(0, "start"), cx.n(1, "stop")
    n = cx.n(2, "num") if cx.has(2, "num") else const(50)
    ep = cx.c(3, "endpoint", default=True)
    if ep is True:
        return cx.I.new(cx.st, ArrCell(mk("linspace", a, b, n)))
    return cx.I.new(cx.st, ArrCell(mk("new", "linspace_open", a, b, n, shape=(n.ex if n._ex is None else n._ex,), dt="f", lo=a.bounds()[0], hi=b.bounds()[2])))


@lib("numpy.copy", "ndarray.copy", "numpy.ndarray.copy")
def f_copy(cx):
    n = cx.n(0) if cx.selfv is None else cx.load(cx.selfv)
    return cx.I.new(cx.st, ArrCell(n))


# ------------------------------------------------------------------ element-wise
BIN = {"add": "add", "subtract": "sub", "multiply": "mul", "divide": "div", "true_divide": "div", "floor_divide": "floordiv",
       "power": "pow", "float_power": "pow", "mod": "mod", "remainder": "mod", "fmod": "mod", "matmul": "matmul"}
CMP = {"less": "lt", "less_equal": "le", "greater": "gt", "greater_equal": "ge", "equal": "eq", "not_equal": "ne"}
UNA = {"sqrt": "sqrt", "log": "log", "abs": "abs", "absolute": "abs", "fabs": "abs", "negative": "neg", "logical_not": "not", "invert": "not",
       "bitwise_not": "not", "sign": "sign"}


def _bin(cx):
    nm = cx.name.split(".")[-1]
    x, y = cx.masked(cx.n(0, "x1")), cx.masked(cx.n(1, "x2"))
    if BIN[nm] == "matmul":
        cx.I.check_dot(x, y, cx.node, cx.st)
        return cx.out(N.dot(x, y))
    if BIN[nm] == "mod" and cx.name.endswith("fmod"):
        return cx.out(elem(cx, "fmod", [x, y], dt="f"))
    return cx.out(cx.I.numop(BIN[nm], x, y, cx.st, cx.node))


def _cmp(cx):
    nm = cx.name.split(".")[-1]
    r = cx.I.relcmp(CMP[nm], cx.a(0, "x1"), cx.a(1, "x2"), cx.st, cx.node)
    if "out" in cx.kw or "where" in cx.kw:
        return cx.out(cx.load(r))
    return r


def unary(cx, op, x):
    if op == "log":
        cx.ev("log", x=x)
    return mk(op, x)


def _una(cx):
    nm = cx.name.split(".")[-1]
    x = cx.masked(cx.n(0, "x"))
    if nm in ("fabs",) and x.dt in ("i", "b"):
        x = mk("cast", x, "f")
    return cx.out(unary(cx, UNA[nm], x))


for _n in BIN:
    REG["numpy." + _n] = _bin
for _n in CMP:
    REG["numpy." + _n] = _cmp
for _n in UNA:
    REG["numpy." + _n] = _una
REG["math.sqrt"] = REG["math.log"] = REG["math.fabs"] = _una


def elem(cx, op, xs, **fx):
    """Unmodelled element-wise function of its operands."""
    sh = ()
    for x in xs:
        if x.shape is None:
            sh = None
            break
        sh, bad = N.bshape(sh, x.shape)
        if bad:
            cx.ev("bmis", dims=bad, shapes=tuple(x.shape for x in xs), a=xs[0], b=xs[-1])
    fx.setdefault("shape", sh)
    fx.setdefault("dt", "f")
    return mk("fn", op, tuple(xs), **fx)


@lib("numpy.log2", "numpy.log10", "numpy.log1p", "math.log2", "math.log10", "math.log1p")
def f_log2(cx):
    x = cx.masked(cx.n(0))
    if not cx.name.endswith("log1p"):
        cx.ev("log", x=x)
    return cx.out(elem(cx, cx.name.split(".")[-1], [x]))


@lib("numpy.exp", "numpy.expm1", "math.exp", "numpy.exp2")
def f_exp(cx):
    x = cx.n(0)
    return cx.out(elem(cx, "exp", [x], **({"lo": S.ZERO, "lop": True, "nz": True} if not cx.name.endswith("expm1") else {})))


@lib("numpy.sin", "numpy.cos", "numpy.tan", "numpy.arcsin", "numpy.arccos", "numpy.arctan", "numpy.sinh", "numpy.cosh", "numpy.tanh",
     "numpy.deg2rad", "numpy.rad2deg", "numpy.radians", "numpy.degrees", "numpy.reciprocal", "numpy.cbrt", "numpy.real", "numpy.imag", "numpy.real_if_close",
     "numpy.angle", "numpy.hypot", "numpy.logaddexp", "numpy.i0", "math.sin", "math.cos", "math.pow", "math.hypot", "math.degrees", "math.radians")
def f_elem(cx):
    xs = [cx.load(a) for a in cx.args]
    nm = cx.name.split(".")[-1]
    if nm == "reciprocal":
        return cx.out(cx.I.numop("div", const(1.0), cx.masked(xs[0]), cx.st, cx.node))
    if nm in ("real", "real_if_close", "imag"):
        return cx.out(realpart(xs[0], nm))
    return cx.out(elem(cx, nm, xs))


def realpart(x, nm="real"):
    if nm != "imag" and x.dt in ("f", "i", "b"):
        return x
    return mk("fn", "real" if nm != "imag" else "imag", (x,), shape=x.shape, dt="f" if x.dt == "c" else x.dt)


@lib("numpy.square")
def f_square(cx):
    x = cx.n(0)
    return cx.out(mk("mul", x, x))


@lib("numpy.isnan", "numpy.isinf", "numpy.isfinite", "numpy.isneginf", "numpy.isposinf", "numpy.iscomplex", "numpy.isreal", "numpy.signbit", "math.isnan", "math.isinf", "math.isfinite")
def f_isnan(cx):
    return cx.out(elem(cx, cx.name.split(".")[-1], [cx.n(0)], dt="b"))


@lib("numpy.logical_and", "numpy.logical_or", "numpy.logical_xor", "numpy.bitwise_and", "numpy.bitwise_or", "numpy.bitwise_xor")
def f_logic(cx):
    op = cx.name.split("_")[-1]
    x, y = cx.n(0), cx.n(1)
    sh, bad = N.bshape(x.shape, y.shape)
    if bad:
        cx.ev("bmis", dims=bad, shapes=(x.shape, y.shape), a=x, b=y)
    return cx.out(mk(op, x, y))


@lib("numpy.maximum", "numpy.minimum", "numpy.fmax", "numpy.fmin")
def f_max2(cx):
    op = "max2" if "max" in cx.name else "min2"
    x, y = cx.n(0), cx.n(1)
    sh, bad = N.bshape(x.shape, y.shape)
    if bad:
        cx.ev("bmis", dims=bad, shapes=(x.shape, y.shape), a=x, b=y)
    return cx.out(mk(op, x, y))


@lib("numpy.clip", "ndarray.clip")
def f_clip(cx):
    i = 0 if cx.selfv is not None else 1
    x = cx.load(cx.selfv) if cx.selfv is not None else cx.n(0, "a")
    lo, hi = cx.n(i, "a_min", "min"), cx.n(i + 1, "a_max", "max")
    if lo is not None and not (lo.op == "const" and lo.args[0] is None):
        x = mk("max2", x, lo)
    if hi is not None and not (hi.op == "const" and hi.args[0] is None):
        x = mk("min2", x, hi)
    return cx.arr(x)


@lib("numpy.floor", "numpy.ceil", "numpy.rint", "numpy.trunc", "numpy.fix", "numpy.round", "numpy.around", "numpy.round_", "ndarray.round", "math.floor", "math.ceil", "math.trunc", "builtins.round")
def f_round(cx):
    x = cx.load(cx.selfv) if cx.selfv is not None else cx.n(0)
    nm = cx.name.split(".")[-1]
    dec = cx.c(0 if cx.selfv is not None else 1, "decimals", "ndigits") if nm.startswith(("round", "around")) else None
    if x.integral and dec in (None, 0):
        return cx.out(x)
    lo, _, hi, _ = x.bounds()
    isint = cx.name.startswith("math.") or (cx.name == "builtins.round" and dec is None)
    fx = {"dt": "i" if isint else "f"}
    if dec in (None, 0):
        fx["integral"] = True
    if lo is not None and lo.const() is not None:
        fx["lo"] = S.num(math.floor(lo.const()))
    elif lo is not None and S.ge0(lo):
        fx["lo"] = S.ZERO
    if hi is not None and hi.const() is not None:
        fx["hi"] = S.num(math.ceil(hi.const()))
    return cx.out(elem(cx, nm, [x] + ([const(dec)] if isinstance(dec, int) else []), **fx))


@lib("numpy.nan_to_num")
def f_nan2num(cx):
    x = cx.n(0, "x")
    f = {"dt": x.dt if x.dt in ("i", "b") else "f", "integral": x.integral}
    if cx.c(1, "copy", default=True) in (False, 0) and isinstance(cx.a(0), Ref):
        cx.I.mutate(cx.a(0), cx.st, "nan_to_num", cx.node)
        return cx.a(0)
    return cx.out(elem(cx, "nan_to_num", [x], **f))


@lib("numpy.arctan2", "math.atan2")
def f_atan2(cx):
    x, y = cx.n(0), cx.n(1)
    sh, bad = N.bshape(x.shape, y.shape)
    if bad:
        cx.ev("bmis", dims=bad, shapes=(x.shape, y.shape), a=x, b=y)
    return cx.out(mk("arctan2", x, y))


@lib("numpy.where")
def f_where(cx):
    m = cx.n(0, "condition")
    if len(cx.args) < 2:
        r = m.rank or 1
        return Tup([cx.arr(mk("nonzero", m, i)) for i in range(r)])
    a, b = cx.load(cx.args[1]), cx.load(cx.args[2])
    sh = m.shape
    for z in (a, b):
        sh, bad = N.bshape(sh, z.shape)
        if bad:
            cx.ev("bmis", dims=bad, shapes=(m.shape, a.shape, b.shape), a=m, b=z)
    if m.dt not in ("b", None):
        m = mk("cmp", "ne", m, const(0))
    return cx.arr(N.select(m, a, b))


@lib("numpy.nonzero", "ndarray.nonzero")
def f_nonzero(cx):
    m = cx.load(cx.selfv) if cx.selfv is not None else cx.n(0)
    return Tup([cx.arr(mk("nonzero", m, i)) for i in range(m.rank or 1)])


@lib("numpy.flatnonzero")
def f_flatnonzero(cx):
    m = cx.n(0)
    if m.rank not in (1, None):
        m = mk("reshape", m, (size(m.shape),))
    return cx.arr(mk("nonzero", m, 0))


@lib("numpy.argwhere")
def f_argwhere(cx):
    m = cx.n(0)
    r = m.rank or 1
    if r == 1:
        z = mk("nonzero", m, 0)
        return cx.arr(mk("reshape", z, (z.shape[0], S.ONE)))
    z = [mk("nonzero", m, i) for i in range(r)]
    return cx.arr(mk("T", mk("stack", tuple(z)), None))


# ------------------------------------------------------------------ reductions
def reduce_(cx, op, x, axis, known, keep=False):
    if not known:
        return cx.arr(mk("new", "reduce?", op, x, shape=None, dt="f" if op in ("mean", "std", "var") else x.dt))
    if isinstance(axis, tuple):
        r = x.rank
        if r is not None and op in ("sum", "any", "all", "min", "max", "mean", "prod"):
            n = x
            for a in sorted((a + r if a < 0 else a for a in axis), reverse=True):
                n = one_reduce(op, n, a)
            if keep:
                return cx.arr(cx.unk(taint=False))
            return cx.arr(n)
        return cx.arr(cx.unk())
    if axis is not None and x.rank is not None and not (-x.rank <= axis < x.rank):
        cx.ev("badaxis", axis=axis, shape=x.shape)
        return cx.arr(cx.unk(taint=False))
    n = one_reduce(op, x, axis)
    if keep and axis is not None and n.shape is not None:
        ax = N.norm_axis(axis, x.rank)
        n = mk("ix", n, (FULL,) * ax + (("n",),))
    return cx.arr(n)


def one_reduce(op, x, axis):
    ax = N.norm_axis(axis, x.rank)
    if op == "sum":
        return mk("sum", x, ax)
    if op in ("mean", "std", "var", "any", "all", "min", "max"):
        if op in ("any", "all") and x.dt not in ("b", None):
            x = mk("cmp", "ne", x, const(0))
        return mk(op, x, ax)
    sh = N.FAC["sum"](x, ax)["shape"]
    if op == "prod":
        return mk("fn", "prod", (x,), str(ax), shape=sh, dt=x.dt, integral=x.integral, nz=x.nz)
    if op in ("argmin", "argmax"):
        n = None
        if x.shape is not None:
            n = size(x.shape) if ax is None else x.shape[ax]
        d = N.ordinal(x.deps, {x.pure}) if x.pure else x.deps
        return mk("fn", op, (x,), str(ax), shape=sh, dt="i", lo=S.ZERO, hi=S.sub(n, S.ONE) if n is not None else None, deps=d, tags=frozenset({"pos"}))
    if op == "median":
        f = N.carry(x)
        return mk("fn", op, (x,), str(ax), shape=sh, dt="f", lo=f.get("lo"), hi=f.get("hi"))
    return mk("fn", op, (x,), str(ax), shape=sh, dt="f")


def _red(op):
    def f(cx):
        if cx.selfv is not None:
            x = cx.load(cx.selfv)
            i = 0
        else:
            x = cx.n(0, "a", "x")
            i = 1
        axis, known = axisarg(cx, i, "axis")
        keep = cx.c(None, "keepdims", default=False) is True
        if op in ("sum", "mean") and cx.kw.get("dtype") is not None:
            dt = dtype(cx, cx.kw["dtype"])
            if dt not in (None, NOCONST):
                x = cast(cx, x, dt)
        if "where" in cx.kw and op in ("sum", "any"):
            m = cx.load(cx.kw["where"])
            x = N.select(m, x, const(0))
        if op == "mean" and x.shape is not None and known and not isinstance(axis, tuple):
            n = size(x.shape) if axis is None else x.shape[N.norm_axis(axis, x.rank)] if -x.rank <= axis < x.rank else None
            if n is not None:
                cx.ev("div", num=x, den=exn(n), op="mean")
        r = reduce_(cx, op, x, axis, known, keep)
        if cx.kw.get("out") is not None:
            return cx.out(cx.load(r))
        return r
    return f


for _np, _op in (("sum", "sum"), ("mean", "mean"), ("std", "std"), ("var", "var"), ("any", "any"), ("all", "all"), ("min", "min"), ("max", "max"),
                 ("amin", "min"), ("amax", "max"), ("prod", "prod"), ("product", "prod"), ("argmin", "argmin"), ("argmax", "argmax"),
                 ("median", "median"), ("nansum", "sum"), ("nanmean", "mean"), ("nanmax", "max"), ("nanmin", "min"), ("ptp", "ptp"), ("average", "mean")):
    REG["numpy." + _np] = _red(_op)
    REG["ndarray." + _np] = _red(_op)


@lib("numpy.count_nonzero")
def f_countnz(cx):
    x = cx.n(0)
    axis, known = axisarg(cx, 1, "axis")
    m = x if x.dt == "b" else mk("cmp", "ne", x, const(0))
    return reduce_(cx, "sum", m, axis, known)


@lib("numpy.cumsum", "ndarray.cumsum")
def f_cumsum(cx):
    x = cx.load(cx.selfv) if cx.selfv is not None else cx.n(0)
    axis, known = axisarg(cx, 0 if cx.selfv is not None else 1, "axis")
    if axis is None and x.rank not in (1, None):
        x = mk("reshape", x, (size(x.shape),))
    return cx.out(mk("cumsum", x, N.norm_axis(axis, x.rank) if known else None))


@lib("numpy.diff", "numpy.ediff1d")
def f_diff(cx):
    x = cx.n(0)
    axis = cx.c(2, "axis", default=-1)
    if x.rank is None or not isinstance(axis, int) or cx.has(1, "n"):
        return cx.arr(cx.unk(taint=False, dt=x.dt))
    ax = N.norm_axis(axis, x.rank)
    a = mk("ix", x, (FULL,) * ax + (("s", S.ONE, None, 1),))
    b = mk("ix", x, (FULL,) * ax + (("s", None, S.num(-1), 1),))
    return cx.arr(mk("sub", a, b))


@lib("numpy.trace", "ndarray.trace")
def f_trace(cx):
    x = cx.load(cx.selfv) if cx.selfv is not None else cx.n(0)
    return cx.arr(mk("sum", mk("diagm", x), None))


@lib("numpy.dot", "ndarray.dot", "numpy.inner", "numpy.vdot")
def f_dot(cx):
    if cx.selfv is not None:
        x, y = cx.load(cx.selfv), cx.n(0)
    else:
        x, y = cx.n(0), cx.n(1)
    cx.I.check_dot(x, y, cx.node, cx.st)
    return cx.out(N.dot(x, y))


@lib("numpy.outer")
def f_outer(cx):
    x, y = cx.n(0), cx.n(1)
    if x.rank == 1 and y.rank == 1:
        return cx.arr(mk("mul", mk("ix", x, (FULL, ("n",))), mk("ix", y, (("n",), FULL))))
    return cx.arr(cx.unk())


@lib("numpy.kron")
def f_kron(cx):
    return cx.arr(mk("kron", cx.n(0), cx.n(1)))


@lib("numpy.diag", "numpy.diagonal", "ndarray.diagonal", "numpy.diagflat")
def f_diag(cx):
    x = cx.load(cx.selfv) if cx.selfv is not None else cx.n(0, "v", "a")
    i = 0 if cx.selfv is not None else 1
    if cx.c(i, "k", "offset", default=0) != 0:
        return cx.arr(cx.unk(taint=False, dt=x.dt))
    if x.rank == 1:
        return cx.arr(mk("diagv", x))
    if x.rank == 2:
        return cx.arr(mk("diagm", x))
    return cx.arr(cx.unk(taint=False, dt=x.dt))


# ------------------------------------------------------------------ ordering and sets
@lib("numpy.sort")
def f_sort(cx):
    x = cx.n(0)
    axis, _ = axisarg(cx, 1, "axis")
    return cx.I.new(cx.st, ArrCell(mk("sort", x, axis if axis is not None else -1)))


@lib("ndarray.sort")
def m_sort(cx):
    x = cx.load(cx.selfv)
    cx.I.mutate(cx.selfv, cx.st, "sort", cx.node)
    axis, _ = axisarg(cx, 0, "axis")
    if isinstance(cx.selfv, Ref):
        cx.I.write_arr(cx.selfv, mk("sort", x, axis if axis is not None else -1), cx.st, cx.node)


@lib("numpy.argsort", "ndarray.argsort")
def f_argsort(cx):
    x = cx.load(cx.selfv) if cx.selfv is not None else cx.n(0)
    axis, _ = axisarg(cx, 0 if cx.selfv is not None else 1, "axis")
    return cx.arr(mk("argsort", x, N.norm_axis(axis if axis is not None else -1, x.rank)))


@lib("numpy.lexsort")
def f_lexsort(cx):
    c = cx.I.cell(cx.a(0), cx.st)
    items = cx.a(0).items if isinstance(cx.a(0), Tup) else (c.items if isinstance(c, ListCell) and c.items else None)
    if items:
        xs = [cx.load(x) for x in items]
    else:
        xs = [cx.n(0)]
    d = ES
    for x in xs:
        d |= N.ordinal(x.deps, {x.pure}) if x.pure else x.deps
    sh = xs[0].shape
    n = sh[-1] if sh else None
    return cx.arr(mk("fn", "lexsort", tuple(xs), shape=(n,), dt="i", lo=S.ZERO, hi=S.sub(n, S.ONE) if n is not None else None, deps=d))


@lib("numpy.unique")
def f_unique(cx):
    x = cx.n(0, "ar")
    if cx.c(None, "axis") is not None and cx.has(None, "axis"):
        return cx.arr(cx.unk(taint=False, dt=x.dt))
    u = mk("unique", x)
    outs = [cx.arr(u)]
    tot = size(x.shape)
    for k, nm in ((1, "return_index"), (2, "return_inverse"), (3, "return_counts")):
        if cx.c(k, nm, default=False) is not False and cx.has(k, nm):
            if nm == "return_index":
                outs.append(cx.arr(mk("new", "uidx", x, shape=u.shape, dt="i", lo=S.ZERO, hi=S.sub(tot, S.ONE) if tot is not None else None, deps=N.ordinal(x.deps, {x.pure}) if x.pure else x.deps)))
            elif nm == "return_inverse":
                outs.append(cx.arr(mk("index_of", u, x if x.rank == 1 else mk("reshape", x, (tot,)))))
            else:
                outs.append(cx.arr(mk("new", "ucnt", x, shape=u.shape, dt="i", lo=S.ONE, hi=tot, nz=True, deps=N.ordinal(x.deps, {x.pure}) if x.pure else x.deps)))
    return outs[0] if len(outs) == 1 else Tup(outs)


@lib("numpy.searchsorted", "ndarray.searchsorted", "numpy.digitize")
def f_searchsorted(cx):
    if cx.selfv is not None:
        a, v = cx.load(cx.selfv), cx.n(0)
    elif cx.name.endswith("digitize"):
        v, a = cx.n(0), cx.n(1)
    else:
        a, v = cx.n(0, "a"), cx.n(1, "v")
    n = a.shape[0] if a.shape else None
    if a.op == "unique" and N.mentions and N.uroot(a) is N.uroot(v):
        return cx.arr(mk("index_of", a, v))
    d = a.deps | v.deps
    if a.pure and a.pure == v.pure:
        d = N.ordinal(d, {a.pure})
    f = {"shape": v.shape, "dt": "i", "lo": S.ZERO, "hi": n, "deps": d}
    return cx.arr(mk("fn", "searchsorted", (a, v), str(cx.c(2, "side", "right", default="left")), **f))


@lib("numpy.isin", "numpy.in1d")
def f_isin(cx):
    x = cx.n(0)
    y = cx.n(1)
    d = x.deps | y.deps
    return cx.arr(mk("fn", "isin", (x, y), shape=x.shape, dt="b", deps=d))


@lib("numpy.intersect1d", "numpy.union1d", "numpy.setdiff1d", "numpy.setxor1d")
def f_setop(cx):
    x, y = cx.n(0), cx.n(1)
    f = N.join_facets([x, y])
    f["shape"] = (None,)
    f["tags"] = f["tags"] - {"setord"}
    return cx.arr(mk("fn", cx.name.split(".")[-1], (x, y), **f))


@lib("numpy.histogram")
def f_histogram(cx):
    x, b = cx.n(0, "a"), cx.n(1, "bins")
    tot = size(x.shape)
    if b is None:
        b = const(10)
    cx.ev("hist", x=x, bins=b, rng=cx.n(2, "range"), density=cx.c(None, "density", default=False), weights=cx.a(None, "weights"))
    if b.rank == 1:
        n = S.sub(b.shape[0], S.ONE) if b.shape[0] is not None else None
        edges = cx.a(1, "bins")
    else:
        n = b._ex if b._ex is not None else None
        edges = cx.arr(mk("new", "edges", x, b, shape=(S.add(n, S.ONE) if n is not None else None,), dt="f"))
    return Tup([cx.arr(mk("fn", "histogram", (x, b), shape=(n,), dt="i", lo=S.ZERO, hi=tot, att0=True)), edges])


@lib("numpy.bincount")
def f_bincount(cx):
    x = cx.n(0, "x")
    w = cx.n(1, "weights")
    mn = cx.n(2, "minlength")
    d = x.deps | (w.deps if w is not None else ES)
    hi = x.bounds()[2]
    n = None
    if mn is not None and hi is not None and mn._ex is not None and S.ge0(S.sub(S.sub(mn._ex, hi), S.ONE)):
        n = mn._ex
    return cx.arr(mk("fn", "bincount", (x,) + ((w,) if w is not None else ()), shape=(n,), dt="i" if w is None else "f", lo=S.ZERO, integral=w is None or w.integral, att0=True, deps=d, tags=frozenset({"cnt"})))


# ------------------------------------------------------------------ layout
def view(cx, v, spec):
    n = cx.load(v)
    r = mk("ix", n, spec)
    if isinstance(v, Ref) and isinstance(cx.st.heap.get(v.addr), ArrCell):
        nr = cx.I.new(cx.st, ArrCell(r, v.addr, lambda b, sp=spec: mk("ix", b, sp)))
        cx.st.heap[nr.addr].vspec = spec
        return nr
    return cx.arr(r)


def layout(cx, v, node, fn, vT=False):
    if isinstance(v, Ref) and isinstance(cx.st.heap.get(v.addr), ArrCell):
        nr = cx.I.new(cx.st, ArrCell(node, v.addr, fn))
        if vT:
            cx.st.heap[nr.addr].vT = True
        return nr
    return cx.arr(node)


def transpose(cx, v, perm=None):
    n = cx.load(v)
    if n.rank is not None and perm is not None:
        perm = tuple(p + n.rank if p < 0 else p for p in perm)
        if perm == tuple(range(n.rank)):
            return v
        if n.rank == 2 and perm == (1, 0) or perm == tuple(reversed(range(n.rank))):
            perm = None
    return layout(cx, v, mk("T", n, perm), lambda b, p=perm: mk("T", b, p), perm is None)


@lib("numpy.transpose", "ndarray.transpose")
def f_transpose(cx):
    if cx.selfv is not None:
        v, ax = cx.selfv, cx.args
    else:
        v, ax = cx.a(0), cx.args[1:]
    if "axes" in cx.kw:
        ax = [cx.kw["axes"]]
    perm = None
    if len(ax) == 1 and (isinstance(ax[0], Tup) or isinstance(cx.I.cell(ax[0], cx.st), ListCell)):
        its = ax[0].items if isinstance(ax[0], Tup) else cx.I.cell(ax[0], cx.st).items
        perm = tuple(constof(x) for x in its)
    elif len(ax) > 1:
        perm = tuple(constof(x) for x in ax)
    if not (isinstance(v, Ref) and isinstance(cx.st.heap.get(v.addr), ArrCell)):
        v = cx.I.new(cx.st, ArrCell(cx.load(v)))
    if perm is not None and any(not isinstance(p, int) for p in perm):
        return cx.arr(cx.unk(taint=False))
    return transpose(cx, v, perm)


@lib("numpy.swapaxes", "ndarray.swapaxes", "numpy.moveaxis")
def f_swapaxes(cx):
    v = cx.selfv if cx.selfv is not None else cx.a(0)
    i = 0 if cx.selfv is not None else 1
    n = cx.load(v)
    a, b = cx.c(i), cx.c(i + 1)
    if n.rank is None or not isinstance(a, int) or not isinstance(b, int):
        return cx.arr(cx.unk(taint=False, dt=n.dt))
    a, b = N.norm_axis(a, n.rank), N.norm_axis(b, n.rank)
    p = list(range(n.rank))
    if cx.name.endswith("swapaxes"):
        p[a], p[b] = p[b], p[a]
    else:
        p.remove(a)
        p.insert(b, a)
    return transpose(cx, v, tuple(p))


@lib("numpy.reshape", "ndarray.reshape")
def f_reshape(cx):
    if cx.selfv is not None:
        v, sh = cx.selfv, cx.args
    else:
        v, sh = cx.a(0), cx.args[1:] or ([cx.kw["newshape"]] if "newshape" in cx.kw else [cx.kw["shape"]] if "shape" in cx.kw else [])
    n = cx.load(v)
    arg = sh[0] if len(sh) == 1 else Tup(sh)
    new = toshape(cx.I, cx.st, arg, n)
    t, m = size(n.shape), size(new)
    if t is not None and m is not None and t != m:
        cx.ev("bmis", dims=(t, m), shapes=(n.shape, new), a=n, b=n, how="reshape")
    if cx.c(None, "order") == "F" and n.rank is not None and new is not None:
        r = mk("reshape", n if n.rank < 2 else mk("T", n, None), tuple(reversed(new)))
        return cx.arr(r if len(new) < 2 else mk("T", r, None))
    cx.ev("reshape", a=n, new=new)
    return layout(cx, v, mk("reshape", n, new), lambda b, s=new: mk("reshape", b, s))


@lib("ndarray.resize", "numpy.resize")
def f_resize(cx):
    if cx.selfv is not None:
        cx.I.mutate(cx.selfv, cx.st, "resize", cx.node)
        return N.NONE
    return cx.arr(cx.unk())


@lib("numpy.ravel", "ndarray.ravel")
def f_ravel(cx):
    v = cx.selfv if cx.selfv is not None else cx.a(0)
    n = cx.load(v)
    if n.rank == 1:
        return v if isinstance(v, Ref) else cx.arr(n)
    new = (size(n.shape),)
    if cx.c(0 if cx.selfv is not None else 1, "order") == "F":
        return cx.arr(mk("reshape", mk("T", n, None), new))
    return layout(cx, v, mk("reshape", n, new), lambda b, s=new: mk("reshape", b, s))


@lib("ndarray.flatten")
def f_flatten(cx):
    n = cx.load(cx.selfv)
    if cx.c(0, "order") == "F" and n.rank != 1:
        return cx.arr(mk("reshape", mk("T", n, None), (size(n.shape),)))
    return cx.I.new(cx.st, ArrCell(n if n.rank == 1 else mk("reshape", n, (size(n.shape),))))


@lib("numpy.squeeze", "ndarray.squeeze")
def f_squeeze(cx):
    v = cx.selfv if cx.selfv is not None else cx.a(0)
    n = cx.load(v)
    if n.shape is None or any(d is None for d in n.shape):
        return layout(cx, v, mk("new", "squeeze", n, **dict(N.carry(n), shape=None)), lambda b: mk("new", "squeeze", b, **dict(N.carry(b), shape=None)))
    new = tuple(d for d in n.shape if d.const() != 1)
    return layout(cx, v, mk("reshape", n, new), lambda b, s=new: mk("reshape", b, s))


@lib("numpy.expand_dims")
def f_expand(cx):
    n = cx.n(0)
    ax = cx.c(1, "axis")
    if n.rank is None or not isinstance(ax, int):
        return cx.arr(cx.unk(taint=False))
    ax = ax + n.rank + 1 if ax < 0 else ax
    return view(cx, cx.a(0), (FULL,) * ax + (("n",),))


def partlist(cx, v):
    """Nodes of a sequence of arrays."""
    if isinstance(v, Tup):
        return [cx.load(x) for x in v.items]
    c = cx.I.cell(v, cx.st)
    if isinstance(c, ListCell) and c.summ is None and c.items is not None:
        return [cx.load(x) for x in c.items]
    return None


@lib("numpy.concatenate", "numpy.hstack", "numpy.vstack", "numpy.row_stack", "numpy.column_stack", "numpy.stack", "numpy.dstack", "numpy.append", "numpy.r_", "numpy.c_")
def f_concat(cx):
    nm = cx.name.split(".")[-1]
    if nm == "append":
        ps = [cx.n(0), cx.n(1)]
    else:
        v = cx.a(0)
        ps = partlist(cx, v)
        if ps is None:
            c = cx.I.cell(v, cx.st)
            n = cx.load(v)
            if isinstance(c, LibInst):
                return cx.arr(cx.unk())
            if nm == "stack" and not cx.c(1, "axis", default=0):
                return newarr(cx, n)
            if nm in ("vstack", "row_stack") and n.rank == 2:
                return newarr(cx, n)
            if nm == "column_stack" and n.rank == 2:
                return newarr(cx, mk("T", n, None))
            if nm == "stack" and n.rank == 2 and cx.c(1, "axis") in (1, -1):
                return newarr(cx, mk("T", n, None))
            if n.shape is not None and len(n.shape) >= 2:
                sh = n.shape
                ax = cx.c(1, "axis", default=0)
                tot = S.mul(sh[0], sh[1]) if sh[0] is not None and sh[1] is not None else None
                if ax == 0 and nm in ("concatenate", "hstack", "vstack") and n.rank == 2 or nm == "vstack" and n.rank == 3 or (nm == "concatenate" and ax == 0):
                    return newarr(cx, mk("reshape", n, (tot,) + sh[2:]))
            f = N.carry(n)
            return newarr(cx, mk("new", nm, n, **dict(f, shape=None)))
    ax = cx.c(1 if nm != "append" else 2, "axis", default=0 if nm != "append" else None)
    if not ps:
        return cx.arr(cx.unk(taint=False))
    if nm == "append" and ax is None:
        ps = [p if p.rank == 1 else mk("reshape", p, (size(p.shape),)) for p in ps]
        ax = 0
    if nm == "stack":
        r = ps[0].rank
        s = mk("stack", tuple(ps))
        if ax in (0, None):
            return newarr(cx, s)
        if r == 1 and ax in (1, -1):
            return newarr(cx, mk("T", s, None))
        if r is not None and isinstance(ax, int):
            a = ax + r + 1 if ax < 0 else ax
            p = list(range(1, r + 1))
            p.insert(a, 0)
            return newarr(cx, mk("T", s, tuple(p)))
        return cx.arr(cx.unk(taint=False))
    if nm in ("vstack", "row_stack"):
        if all(p.rank == 1 for p in ps):
            return newarr(cx, mk("stack", tuple(ps)))
        ps = [mk("ix", p, (("n",), FULL)) if p.rank == 1 else p for p in ps]
        ax = 0
    elif nm == "hstack":
        if any(p.rank is None for p in ps):
            ax = None
        else:
            ps = [mk("reshape", p, (S.ONE,)) if p.rank == 0 else p for p in ps]
            ax = 0 if ps[0].rank == 1 else 1
    elif nm == "column_stack":
        if all(p.rank == 1 for p in ps):
            return newarr(cx, mk("T", mk("stack", tuple(ps)), None))
        ps = [mk("ix", p, (FULL, ("n",))) if p.rank == 1 else p for p in ps]
        ax = 1
    ps = [mk("reshape", p, (S.ONE,)) if p.rank == 0 else p for p in ps]
    if not isinstance(ax, int) or any(p.rank is None for p in ps):
        j = N.join_facets(list(ps))
        j["shape"] = None
        return newarr(cx, mk("new", "concat?", tuple(ps), **j))
    ax = N.norm_axis(ax, ps[0].rank)
    for p in ps[1:]:
        if p.rank == ps[0].rank:
            for i in range(p.rank):
                if i != ax and p.shape[i] is not None and ps[0].shape[i] is not None and p.shape[i] != ps[0].shape[i]:
                    cx.ev("bmis", dims=(ps[0].shape[i], p.shape[i]), shapes=tuple(q.shape for q in ps), a=ps[0], b=p)
    return newarr(cx, mk("concat", tuple(ps), ax))


@lib("numpy.tile")
def f_tile(cx):
    x = cx.n(0)
    reps = shapearg(cx.I, cx.st, cx.a(1, "reps"))
    return cx.arr(mk("tile", x, reps if reps is not None else (None,)))


@lib("numpy.repeat", "ndarray.repeat")
def f_repeat(cx):
    x = cx.load(cx.selfv) if cx.selfv is not None else cx.n(0)
    i = 0 if cx.selfv is not None else 1
    r = cx.n(i, "repeats")
    f = N.carry(x)
    ax = cx.c(i + 1, "axis")
    sh = None
    xc, rc = constof(x), constof(r)
    if isinstance(rc, int) and rc >= 0 and isinstance(xc, tuple) and len(xc) * rc <= 64 and x.rank == 1:
        return cx.I.call(Lib("numpy.array"), [Tup([const(v) for v in xc for _ in range(rc)])], {}, cx.node, cx.st)
    if r.shape == () and r._ex is not None and x.shape is not None:
        if ax is None:
            t = size(x.shape)
            sh = (S.mul(t, r._ex) if t is not None else None,)
        elif isinstance(ax, int):
            a = N.norm_axis(ax, x.rank)
            sh = tuple(S.mul(d, r._ex) if j == a and d is not None else d for j, d in enumerate(x.shape))
    f["shape"] = sh
    return cx.arr(mk("fn", "repeat", (x, r), str(ax), **f))


@lib("numpy.broadcast_to")
def f_bto(cx):
    x = cx.n(0)
    sh = shapearg(cx.I, cx.st, cx.a(1, "shape"))
    if x.shape == () and sh is not None:
        return cx.arr(mk("full", sh, x))
    f = N.carry(x)
    f["shape"] = sh
    return cx.arr(mk("fn", "broadcast", (x,), **f))


@lib("numpy.roll", "numpy.flip", "numpy.fliplr", "numpy.flipud", "numpy.rot90")
def f_roll(cx):
    x = cx.n(0)
    nm = cx.name.split(".")[-1]
    if nm in ("flip", "flipud") and (nm == "flipud" or cx.c(1, "axis", default=0) == 0 and (cx.has(1, "axis") or x.rank == 1)):
        return view(cx, cx.a(0), (("s", None, None, -1),))
    f = N.carry(x)
    f["shape"] = x.shape if nm != "rot90" else None
    return cx.arr(mk("fn", nm, tuple(cx.load(a) for a in cx.args), **f))


@lib("numpy.delete")
def f_delete(cx):
    x, i = cx.n(0), cx.n(1)
    ax = cx.c(2, "axis")
    return cx.arr(mk("delete", x, i, ax if isinstance(ax, int) else None))


@lib("numpy.insert")
def f_insert(cx):
    x, i, v = cx.n(0), cx.n(1), cx.n(2)
    ax = cx.c(3, "axis")
    cx.I.check_trunc(x, v, cx.node, cx.st, "insert")
    return cx.arr(mk("insert", x, i, v, ax if isinstance(ax, int) else None))


@lib("numpy.tril", "numpy.triu")
def f_tril(cx):
    x = cx.n(0)
    f = N.join_facets([x, const(0)])
    f["shape"], f["dt"] = x.shape, x.dt
    return cx.arr(mk("fn", cx.name.split(".")[-1], (x,), str(cx.c(1, "k", default=0)), **f))


@lib("numpy.tril_indices", "numpy.triu_indices", "numpy.tril_indices_from", "numpy.triu_indices_from", "numpy.diag_indices", "numpy.diag_indices_from")
def f_trilidx(cx):
    v = cx.n(0)
    n = (v.shape[0] if v.shape else None) if cx.name.endswith("_from") else (v._ex if v._ex is not None else None)
    hi = S.sub(n, S.ONE) if n is not None else None
    if "diag" in cx.name:
        a = mk("arange", S.ZERO, n, 1) if n is not None else cx.unk(taint=False, shape=(None,), dt="i")
        return Tup([cx.arr(a), cx.arr(a)])
    k = cx.c(1, "k", default=0)
    cnt = None
    if n is not None and isinstance(k, int):
        # sum over rows of the triangle
        if k == 0:
            cnt = S.div(S.mul(n, S.add(n, S.ONE)), S.num(2))
        elif k in (1, -1) and (k == 1) == ("triu" in cx.name):
            cnt = S.div(S.mul(n, S.sub(n, S.ONE)), S.num(2))
    nm = cx.name.split(".")[-1].replace("_from", "")
    mkix = lambda w: mk("fn", nm, (exn(n) if n is not None else v,), str(k), w, shape=(cnt,), dt="i", lo=S.ZERO, hi=hi)
    return Tup([cx.arr(mkix("row")), cx.arr(mkix("col"))])


@lib("numpy.fill_diagonal")
def f_filldiag(cx):
    v = cx.a(0)
    x, val = cx.n(0), cx.n(1, "val")
    cx.I.mutate(v, cx.st, "fill_diagonal", cx.node)
    cx.I.check_trunc(x, val, cx.node, cx.st, "fill_diagonal")
    if val.op == "const" and val.shape == ():
        f = N.join_facets([x, val])
    else:
        f = N.join_facets([x, val])
    f["shape"], f["dt"] = x.shape, x.dt
    f["deps"] = x.deps | val.deps
    if N.is_zero(val):
        f["tags"] = (f["tags"] | {"hollow"}) | (x.tags & {"symm"})
    new = mk("new", "filldiag", x, val, **f)
    if isinstance(v, Ref):
        cx.I.write_arr(v, new, cx.st, cx.node)


@lib("numpy.put", "ndarray.put", "numpy.place", "numpy.copyto", "numpy.putmask", "ndarray.fill", "ndarray.partition", "ndarray.setfield", "ndarray.byteswap", "ndarray.itemset", "ndarray.setflags")
def f_put(cx):
    v = cx.selfv if cx.selfv is not None else cx.a(0)
    if cx.name == "ndarray.setflags":
        c = cx.I.cell(v, cx.st)
        if isinstance(c, ArrCell) and c.base is None:
            cx.I.mutate(v, cx.st, "setflags", cx.node)
        return N.NONE
    cx.I.mutate(v, cx.st, cx.name.split(".")[-1], cx.node)
    x = cx.load(v)
    if not isinstance(v, Ref):
        return N.NONE
    if cx.name == "ndarray.fill":
        val = cx.n(0)
        cx.I.check_trunc(x, val, cx.node, cx.st, "fill")
        cx.I.write_arr(v, mk("upd", x, (FULL,) * (x.rank or 1), val), cx.st, cx.node)
    elif cx.name == "numpy.copyto":
        val = cx.n(1)
        cx.I.check_trunc(x, val, cx.node, cx.st, "copyto")
        if "where" in cx.kw:
            cx.I.write_arr(v, mk("upd", x, (("m", cx.load(cx.kw["where"])),), val), cx.st, cx.node)
        else:
            cx.I.write_arr(v, mk("upd", x, (FULL,) * (x.rank or 1), val), cx.st, cx.node)
    elif cx.name in ("numpy.putmask", "numpy.place"):
        val = cx.n(2)
        cx.I.check_trunc(x, val, cx.node, cx.st, "putmask")
        cx.I.write_arr(v, mk("upd", x, (("m", cx.n(1)),), val), cx.st, cx.node)
    else:
        vals = [cx.load(a) for a in cx.args[0 if cx.selfv is not None else 1:]]
        f = N.join_facets([x] + vals)
        f.update(shape=x.shape, dt=x.dt)
        cx.I.write_arr(v, mk("new", "put", x, tuple(vals), **f), cx.st, cx.node)


@lib("numpy.add.at", "numpy.subtract.at", "numpy.multiply.at", "numpy.maximum.at", "numpy.minimum.at")
def f_addat(cx):
    from .evalx import Ix
    v = cx.a(0)
    x = cx.load(v)
    cx.I.mutate(v, cx.st, "add.at", cx.node)
    ix = Ix(cx.a(1), None)
    spec = cx.I.tospec(ix, cx.st)
    val = cx.n(2)
    cx.I.check_index(x, spec, cx.st, cx.node, "store")
    cx.I.check_trunc(x, val, cx.node, cx.st, "store")
    op = cx.name.split(".")[1]
    cx.ev("store", arr=x, spec=spec, val=mk({"add": "add", "subtract": "sub", "multiply": "mul"}.get(op, "max2"), mk("ix", x, spec), val), aug="at." + op, addr=v.addr if isinstance(v, Ref) else None)
    if not isinstance(v, Ref):
        return
    new = mk({"add": "add", "subtract": "sub", "multiply": "mul", "maximum": "max2", "minimum": "min2"}[op], mk("ix", x, spec), val)
    f = N.join_facets([x, val])
    f.update(shape=x.shape, dt=x.dt)
    lo = None
    if op == "add" and N.is_zero(x) or "cnt" in x.tags:
        b = val.bounds()[0]
        if b is not None and S.ge0(b):
            f["lo"], f["lop"] = S.ZERO, False
            f["tags"] = f.get("tags", ES) | {"cnt"}
            f["att0"] = True
    f.pop("ex", None)
    if "lo" not in f or f["lo"] is None or not N.is_zero(x):
        pass
    f["hi"] = None
    f["nz"] = False
    d = x.deps | val.deps
    for n in N.nodes_in(spec):
        d |= n.deps
    f["deps"] = d
    if not (f.get("tags", ES) & {"cnt"}):
        f["lo"] = None
    cx.I.write_arr(v, mk("new", "scatter", op, x, spec, val, **f), cx.st, cx.node)


@lib("numpy.take", "ndarray.take")
def f_take(cx):
    from .evalx import Ix
    v = cx.selfv if cx.selfv is not None else cx.a(0)
    i = 0 if cx.selfv is not None else 1
    x = cx.load(v)
    idx = cx.n(i, "indices")
    ax = cx.c(i + 1, "axis")
    if ax is None:
        if x.rank == 1:
            ax = 0
        else:
            x = mk("reshape", x, (size(x.shape),))
            ax = 0
    if not isinstance(ax, int) or x.rank is None:
        return cx.arr(cx.unk(taint=False))
    ax = N.norm_axis(ax, x.rank)
    it = ("p", idx) if idx.shape == () else ("a", idx)
    spec = (FULL,) * ax + (it,)
    cx.I.check_index(x, spec, cx.st, cx.node, "load")
    return cx.arr(mk("ix", x, spec))


@lib("numpy.ix_")
def f_ix(cx):
    xs = [cx.load(a) for a in cx.args]
    out = []
    for i, x in enumerate(xs):
        spec = tuple(FULL if j == i else ("n",) for j in range(len(xs)))
        out.append(cx.arr(mk("ix", x, spec)))
    return Tup(out)


@lib("numpy.split", "numpy.array_split", "numpy.hsplit", "numpy.vsplit")
def f_split(cx):
    x = cx.n(0)
    k = cx.c(1)
    if isinstance(k, int) and k <= 8:
        f = N.carry(x)
        f["shape"] = (None,) + (x.shape[1:] if x.shape else ())
        return cx.I.new(cx.st, ListCell([cx.arr(mk("fn", "split", (x,), i, k, **f)) for i in range(k)]))
    return cx.arr(cx.unk(taint=False))


@lib("numpy.allclose", "numpy.array_equal", "numpy.array_equiv", "math.isclose")
def f_allclose(cx):
    return cx.unk(taint=False, shape=(), dt="b")


@lib("numpy.isclose")
def f_isclose(cx):
    return cx.arr(elem(cx, "isclose", [cx.n(0), cx.n(1)], dt="b"))


@lib("numpy.ndim")
def f_ndim(cx):
    n = cx.n(0)
    return const(n.rank) if n.rank is not None else cx.unk(taint=False, shape=(), dt="i")


@lib("numpy.shape")
def f_shape(cx):
    return shapeval(cx.I, cx.st, cx.n(0))


@lib("numpy.size")
def f_size(cx):
    n = cx.n(0)
    if cx.has(1, "axis"):
        a = cx.c(1, "axis")
        return exn(n.shape[a]) if n.shape and isinstance(a, int) and n.shape[a] is not None else cx.unk(taint=False, shape=(), dt="i")
    e = size(n.shape)
    return exn(e) if e is not None else cx.unk(taint=False, shape=(), dt="i", lo=S.ZERO)


@lib("numpy.einsum")
def f_einsum(cx):
    return cx.arr(cx.unk(dt="f"))


@lib("numpy.vectorize", "numpy.frompyfunc")
def f_vectorize(cx):
    return cx.I.new(cx.st, LibInst("vectorized", {"fn": cx.a(0)}))


@lib("numpy.apply_along_axis")
def f_aaa(cx):
    fn, ax, x = cx.a(0), cx.c(1), cx.n(2)
    if x.rank == 2 and isinstance(ax, int):
        ax = N.norm_axis(ax, 2)
        y = x if ax == 1 else mk("T", x, None)
        at = freshatom(cx.I, cx.st, cx.node, "aaa", y.shape[0])
        row = cx.arr(mk("ix", y, (("p", mk("atom", at)),)))
        r = cx.load(cx.I.call(fn, [row] + cx.args[3:], {}, cx.node, cx.st))
        s = mk("seq", 0, at, y.shape[0], r)
        if r.rank == 1 and ax == 0:
            s = mk("T", s, None)
        return cx.arr(s)
    return cx.arr(cx.unk())


@lib("numpy.errstate", "numpy.printoptions")
def f_errstate(cx):
    return cx.I.new(cx.st, LibInst("ctx", {"what": const(cx.name)}))


@lib("numpy.ndenumerate", "numpy.ndindex", "numpy.nditer")
def f_nditer(cx):
    if cx.name.endswith("ndindex"):
        sh = shapearg(cx.I, cx.st, cx.args[0] if len(cx.args) == 1 else Tup(cx.args))
        if sh and all(d is not None for d in sh):
            ats = [freshatom(cx.I, cx.st, cx.node, "nd%d" % i, d) for i, d in enumerate(sh)]
            return cx.I.new(cx.st, ListCell(None, (None, Tup([mk("atom", a) for a in ats]), exn(size(sh)))))
    if cx.name.endswith("ndenumerate"):
        x = cx.n(0)
        if x.shape and all(d is not None for d in x.shape):
            ats = [mk("atom", freshatom(cx.I, cx.st, cx.node, "nd%d" % i, d)) for i, d in enumerate(x.shape)]
            return cx.I.new(cx.st, ListCell(None, (None, Tup([Tup(ats), mk("ix", x, tuple(("p", a) for a in ats))]), exn(size(x.shape)))))
    return cx.unk(taint=False)


def freshatom(I, st, node, tag, trip):
    fr = I.frames[-1] if I.frames else None
    key = (fr.mod if fr else "", fr.qual if fr else "", getattr(node, "lineno", 0), getattr(node, "col_offset", 0), tag, trip)
    nm = I.uidmap.get(key)
    if nm is None:
        nm = I.uidmap[key] = "i%d" % (len(I.uidmap) + 1)
        S.atom(nm, S.ZERO, S.sub(trip, S.ONE) if trip is not None else None, integral=True)
    return nm


# ------------------------------------------------------------------ linear algebra
@lib("numpy.linalg.inv", "numpy.linalg.pinv", "numpy.linalg.matrix_power", "numpy.linalg.cholesky")
def f_inv(cx):
    x = cx.n(0)
    return cx.arr(mk("fn", cx.name.split(".")[-1], tuple(cx.load(a) for a in cx.args), shape=x.shape, dt="f"))


@lib("numpy.linalg.solve")
def f_solve(cx):
    a, b = cx.n(0), cx.n(1)
    if a.rank == 2 and b.rank in (1, 2) and a.shape[0] is not None and b.shape[0] is not None and a.shape[0] != b.shape[0]:
        cx.ev("bmis", dims=(a.shape[0], b.shape[0]), shapes=(a.shape, b.shape), a=a, b=b)
    return cx.arr(mk("fn", "solve", (a, b), shape=b.shape, dt="f"))


@lib("numpy.linalg.lstsq")
def f_lstsq(cx):
    a, b = cx.n(0), cx.n(1)
    x = mk("fn", "lstsq", (a, b), shape=b.shape, dt="f")
    return Tup([cx.arr(x), cx.arr(mk("fn", "resid", (a, b), shape=(None,), dt="f")), mk("fn", "lrank", (a,), shape=(), dt="i"), cx.arr(mk("fn", "lsv", (a,), shape=(None,), dt="f"))])


@lib("numpy.linalg.det", "numpy.linalg.norm", "numpy.linalg.cond", "numpy.linalg.slogdet")
def f_det(cx):
    x = cx.n(0)
    return cx.arr(mk("fn", cx.name.split(".")[-1], (x,), shape=x.shape[:-2] if x.shape and cx.name.endswith("det") else (), dt="f"))


@lib("numpy.linalg.matrix_rank")
def f_mrank(cx):
    return mk("fn", "matrix_rank", (cx.n(0),), shape=(), dt="i", lo=S.ZERO)


@lib("numpy.linalg.eig", "numpy.linalg.eigh")
def f_eig(cx):
    x = cx.n(0)
    w = mk("fn", "eigvals", (x,), shape=x.shape[:-1] if x.shape else None, dt="c" if cx.name.endswith("eig") else "f")
    v = mk("fn", "eigvecs", (x,), shape=x.shape, dt=w.dt)
    return Tup([cx.arr(w), cx.arr(v)])


@lib("numpy.linalg.eigvals", "numpy.linalg.eigvalsh")
def f_eigvals(cx):
    x = cx.n(0)
    return cx.arr(mk("fn", "eigvals", (x,), shape=x.shape[:-1] if x.shape else None, dt="c"))


# ------------------------------------------------------------------ random numbers
def rngnode(cx, kind, n, **fx):
    """One fresh draw; distinct per call site, call path and loop iteration."""
    I, st = cx.I, cx.st
    path = tuple(getattr(getattr(f, "callnode", None), "lineno", 0) for f in I.frames) + (I.frames[-1].mod if I.frames else "", getattr(cx.node, "lineno", 0), getattr(cx.node, "col_offset", 0))
    gen = None
    if cx.selfv is not None:
        c = I.cell(cx.selfv, st)
        gen = c.attrs.get("seed") if isinstance(c, LibInst) else None
    uid = I.rngcount.setdefault((path, cx.name), "g%d" % (len(I.rngcount) + 1))
    loops = tuple(mk("atom", l[0]) for l in I.loopstack)
    tok = st.glob.get("rng", "start")
    I.ev("rng", cx.node, st, rk=kind, uid=uid, n=n, lib=cx.name, token=tok, gen=gen)
    if gen is None:
        st.glob["rng"] = "after %s from %s" % (uid, tok if isinstance(tok, str) else "mixed") if len(str(tok)) < 200 else "after " + uid
    if gen is not None and I.cell(cx.selfv, st).attrs.get("fixed") is not None:
        loops = I.cell(cx.selfv, st).attrs["loops"].items
    fx.setdefault("deps", frozenset({("rng", uid)}) | (n.deps if isinstance(n, Node) else ES))
    return mk("rng", kind, uid, loops, **fx)


def permindex(cx, kind, ln):
    return rngnode(cx, kind, exn(ln) if ln is not None else None, shape=(ln,), dt="i", lo=S.ZERO, hi=S.sub(ln, S.ONE) if ln is not None else None)


@lib("numpy.random.permutation", "rng.permutation", "rng.permuted")
def f_permutation(cx):
    n = cx.n(0)
    if n.shape == ():
        return cx.I.new(cx.st, ArrCell(permindex(cx, "perm", dimof(cx.I, cx.st, n))))
    ln = n.shape[0] if n.shape else None
    if cx.name.endswith("permuted"):
        r = rngnode(cx, "permuted", n, **dict(N.carry(n), shape=n.shape))
        return cx.I.new(cx.st, ArrCell(r))
    p = permindex(cx, "perm", ln)
    return cx.I.new(cx.st, ArrCell(mk("ix", n, (("a", p),))))


@lib("numpy.random.shuffle", "rng.shuffle", "random.shuffle")
def f_shuffle(cx):
    v = cx.a(0)
    n = cx.load(v)
    ln = n.shape[0] if n.shape else None
    cx.I.mutate(v, cx.st, "shuffle", cx.node)
    p = permindex(cx, "perm", ln)
    new = mk("ix", n, (("a", p),))
    c = cx.I.cell(v, cx.st)
    if isinstance(c, ArrCell):
        cx.I.write_arr(v, new, cx.st, cx.node)
    elif isinstance(c, ListCell):
        at = freshatom(cx.I, cx.st, cx.node, "shuffle", ln)
        el = None
        for x in (c.items or []):
            el = x if el is None else cx.I.joinv(el, x)
        if c.summ is not None:
            el = c.summ[1] if el is None else cx.I.joinv(el, c.summ[1])
        if el is None:
            return
        if isinstance(el, Node) and new.rank is not None:
            el = mk("ix", new, (("p", mk("atom", at)),)) if new.rank >= 1 else el
            cx.st.heap[v.addr] = c.clone(items=None, summ=(at, el, exn(ln)), log=())
        else:
            cx.st.heap[v.addr] = c.clone(items=None, summ=(None, cx.I.adddeps(el, p.deps, cx.st), exn(ln) if ln is not None else const(len(c.items or []))), log=())


@lib("numpy.random.choice", "rng.choice", "random.choice", "random.sample", "random.choices")
def f_choice(cx):
    n = cx.n(0)
    size_ = cx.a(1, "size", "k")
    rep = cx.c(2, "replace", default=True)
    ln = n.shape[0] if n.shape else dimof(cx.I, cx.st, n)
    sh = shapearg(cx.I, cx.st, size_) if size_ is not None and not cx.I.isnone(size_, cx.st) else ()
    kind = "resample"
    if (rep is False or cx.name == "random.sample") and sh and len(sh) == 1:
        kind = "perm" if sh[0] == ln else "subsample"
    if sh == ():
        kind = "other"
    p = rngnode(cx, kind, exn(ln) if ln is not None else None, shape=sh, dt="i", lo=S.ZERO, hi=S.sub(ln, S.ONE) if ln is not None else None)
    if n.shape == ():
        return cx.arr(p)
    return cx.arr(mk("ix", n, (("a" if sh != () else "p", p),)))


@lib("numpy.random.randint", "rng.integers", "numpy.random.random_integers")
def f_randint(cx):
    sz = cx.a(2, "size")
    sh = shapearg(cx.I, cx.st, sz) if sz is not None else ()
    lo, hi = cx.n(0, "low"), cx.n(1, "high")
    if hi is None or (hi.op == "const" and hi.args[0] is None):
        lo, hi = const(0), lo
    h = hi.ex if hi._ex is None else hi._ex
    return cx.arr(rngnode(cx, "resample", None, shape=sh, dt="i", lo=lo.bounds()[0], hi=S.sub(h, S.ONE) if hi.bounds()[2] is not None else None))


@lib("numpy.random.rand", "numpy.random.random", "numpy.random.random_sample", "numpy.random.uniform", "numpy.random.normal", "numpy.random.randn", "numpy.random.standard_normal",
     "numpy.random.binomial", "numpy.random.multinomial", "numpy.random.poisson", "numpy.random.beta", "numpy.random.dirichlet", "numpy.random.exponential", "numpy.random.sample",
     "rng.random", "rng.uniform", "rng.normal", "rng.standard_normal", "random.random", "random.randint", "random.uniform")
def f_rand(cx):
    nm = cx.name.split(".")[-1]
    sh = None
    if nm in ("rand", "randn"):
        sh = tuple(dimof(cx.I, cx.st, a) for a in cx.args)
    elif nm in ("random", "random_sample", "sample", "standard_normal"):
        sh = shapearg(cx.I, cx.st, cx.a(0, "size")) if cx.has(0, "size") else ()
    elif "size" in cx.kw:
        sh = shapearg(cx.I, cx.st, cx.kw["size"])
    fx = {"lo": S.ZERO, "hi": S.ONE, "hop": True} if nm in ("rand", "random", "random_sample", "sample") else {}
    return cx.arr(rngnode(cx, "other", None, shape=sh, dt="f", **fx))


@lib("numpy.random.seed", "random.seed", "numpy.random.set_state", "numpy.random.bit_generator")
def f_seed(cx):
    if cx.name.endswith("set_state"):
        v = cx.a(0)
        c = cx.I.cell(v, cx.st)
        tok = c.attrs.get("token") if isinstance(c, LibInst) and c.cls == "rngstate" else None
        if isinstance(tok, Node):
            tok = tok.args[0]
            cx.st.glob["rng"] = tok
            cx.ev("setstate", token=tok)
            return
        if isinstance(v, Alt) or tok is None:
            cx.ev("setstate", token=None)
            cx.st.glob["rng"] = "set"
            return
    cx.ev("seed", what=cx.name, arg=cx.a(0))
    cx.st.glob["rng"] = "seeded"


@lib("numpy.random.get_state", "random.getstate")
def f_getstate(cx):
    tok = cx.st.glob.get("rng", "start")
    return cx.I.new(cx.st, LibInst("rngstate", {"token": const(tok if isinstance(tok, str) else "mixed")}))


@lib("numpy.random.default_rng", "numpy.random.RandomState", "numpy.random.Generator", "random.Random", "numpy.random.PCG64", "numpy.random.MT19937")
def f_defrng(cx):
    v = cx.a(0, "seed")
    n = cx.n(0, "seed")
    if n is None or (n.op == "const" and n.args[0] is None):
        cx.ev("rng", rk="entropy", uid="entropy", n=None, lib=cx.name, token="", gen="entropy")
        cx.ev("entropy", what=cx.name)
        return cx.I.new(cx.st, LibInst("rng", {"seed": const("entropy")}))
    loops = Tup([mk("atom", l[0]) for l in cx.I.loopstack])
    if n.op == "const" or not any(d[0] == "rng" for d in n.deps):
        cx.ev("rng", rk="fixedseed", uid="fixed", n=None, lib=cx.name, token="", gen="fixed")
        return cx.I.new(cx.st, LibInst("rng", {"seed": n, "fixed": const(True), "loops": Tup([l for l in loops.items if N.mentions(n, l.args[0])])}))
    return cx.I.new(cx.st, LibInst("rng", {"seed": n}))


def _rng_other(cx):
    cx.I.gap("random " + cx.name, cx.node)
    return cx.arr(rngnode(cx, "other", None, shape=None))


PREFIX.append(("numpy.random.", _rng_other))
PREFIX.append(("rng.", _rng_other))


# ------------------------------------------------------------------ global switches
@lib("numpy.seterr", "numpy.set_printoptions", "numpy.seterrcall", "numpy.setbufsize", "sys.setrecursionlimit", "warnings.filterwarnings", "warnings.simplefilter",
     "warnings.resetwarnings", "os.putenv", "os.chdir", "os.environ.update", "os.environ.setdefault", "locale.setlocale", "gc.disable", "logging.basicConfig", "logging.disable",
     "pandas.set_option", "matplotlib.use", "matplotlib.rc", "matplotlib.rcdefaults", "matplotlib.pyplot.rc", "matplotlib.style.use", "matplotlib.pyplot.style.use",
     "matplotlib.pyplot.rcdefaults", "matplotlib.pyplot.switch_backend", "matplotlib.pyplot.ion", "matplotlib.pyplot.ioff",
     "seaborn.set", "seaborn.set_theme", "seaborn.set_style", "seaborn.set_context", "seaborn.set_palette", "seaborn.reset_defaults", "seaborn.set_color_codes",
     "scipy.special.seterr", "decimal.setcontext", "sys.settrace", "sys.setswitchinterval", "matplotlib.pyplot.set_cmap", "matplotlib.pyplot.rcParams.update",
     "matplotlib.rcParams.update", "matplotlib.pyplot.xkcd", "atexit.register", "signal.signal")
def f_globalset(cx):
    nm = cx.name
    if nm.startswith("warnings.") and cx.st.glob.get("catch", 0):
        return N.NONE
    fam = "rc" if nm.startswith(("matplotlib", "seaborn")) else nm
    saved = [v for v in list(cx.args) + list(cx.kw.values()) for c in [cx.I.cell(v, cx.st)] if isinstance(c, LibInst) and c.cls == "saved"]
    if saved and saved[0] is not None and cx.I.cell(saved[0], cx.st).attrs["what"].args[0] == fam:
        cx.st.glob[fam] = None if cx.I.cell(saved[0], cx.st).attrs["clean"].args[0] else cx.st.glob.get(fam)
        return cx.unk(taint=False)
    clean = cx.st.glob.get(fam) is None
    if fam == "rc" and cx.st.glob.get("rcctx", 0):
        return N.NONE
    keys = None
    if nm.endswith("rcParams.update"):
        cs = [cx.I.cell(v, cx.st) for v in cx.args]
        if len(cs) == 1 and isinstance(cs[0], DictCell) and cs[0].entries and cs[0].summ is None and not cx.kw:
            keys = frozenset(cs[0].entries)
            if all(rcsaved(cx.I, v, cx.st) for v in cs[0].entries.values()):
                rcrestore(cx.st, keys)
                return N.NONE
        elif not cx.args and cx.kw and "**" not in cx.kw:
            keys = frozenset(cx.kw)
    cx.ev("globalcall", what=nm, fam=fam)
    if fam == "rc":
        rcchange(cx.st, keys)
    cx.st.glob[fam] = "dirty"
    if nm in ("numpy.seterr",):
        return cx.I.new(cx.st, LibInst("saved", {"what": const(fam), "clean": const(clean)}))
    return cx.unk(taint=False)


def rcsaved(I, v, st):
    """A matplotlib setting read before anything was changed."""
    c = I.cell(v, st)
    return isinstance(c, LibInst) and c.cls == "saved" and c.attrs["what"].args[0] == "rc" and bool(c.attrs["clean"].args[0])


def rcchange(st, keys):
    have = st.glob.get("rckeys", frozenset())
    st.glob["rckeys"] = have | keys if keys is not None and isinstance(have, frozenset) else None


def rcrestore(st, keys):
    have = st.glob.get("rckeys", frozenset())
    if isinstance(have, frozenset):
        st.glob["rckeys"] = have - keys
        if have <= keys:
            st.glob["rc"] = None


@lib("sys.getrecursionlimit", "numpy.geterr", "numpy.get_printoptions", "os.getcwd")
def f_globalget(cx):
    fam = {"sys.getrecursionlimit": "sys.setrecursionlimit", "numpy.geterr": "numpy.seterr", "numpy.get_printoptions": "numpy.set_printoptions", "os.getcwd": "os.chdir"}[cx.name]
    return cx.I.new(cx.st, LibInst("saved", {"what": const(fam), "clean": const(cx.st.glob.get(fam) is None)}))


# ------------------------------------------------------------------ array attributes
def shapeval(I, st, n):
    if n.shape is None:
        return I.new(st, LibInst("shape", {"of": n, "dims": None}))
    return Tup([exn(d) if d is not None else mk("new", "dim", n, i, shape=(), dt="i", lo=S.ZERO, deps=ES) for i, d in enumerate(n.shape)])


def arrattr(I, st, v, name, node):
    n = I.load(v, st)
    cx = Cx(I, st, "ndarray." + name, [], {}, node, v)
    if name == "shape":
        return shapeval(I, st, n)
    if name == "T":
        if not isinstance(v, Ref):
            return v
        return transpose(cx, v)
    if name == "ndim":
        return const(n.rank) if n.rank is not None else mk("new", "ndim", n, shape=(), dt="i", lo=S.ZERO, deps=ES)
    if name == "size":
        e = size(n.shape)
        return exn(e) if e is not None else mk("new", "size", n, shape=(), dt="i", lo=S.ZERO, deps=ES)
    if name == "dtype":
        return Lib("dtype:" + str(n.dt))
    if name in ("real", "imag"):
        return I.arr(st, realpart(n, name))
    if name == "flat":
        return f_ravel(cx)
    if name in ("itemsize", "nbytes", "strides", "flags", "base", "data", "kind", "denominator", "numerator"):
        return I.unk(name, [v], st=st, taint=False)
    if "ndarray." + name in REG or name in ("astype", "tolist", "item", "view", "tobytes", "tostring", "fill"):
        return Lib("ndarray." + name, v)
    if n.op == "unk" or n.dt in (None, "O"):
        if name in KNOWNMETH:
            return Lib(KNOWNMETH[name] + "." + name, v)
        return I.unk("attr:" + name, [v], st=st)
    if name in ("__class__",):
        return Lib("numpy.ndarray")
    I.ev("noattr", node, st, cls="ndarray", name=name)
    return I.unk("attr:" + name, [v], st=st)


KNOWNMETH = {"append": "list", "extend": "list", "keys": "dict", "items": "dict", "values": "dict", "get": "dict", "lower": "str", "upper": "str", "join": "str",
             "replace": "str", "startswith": "str", "endswith": "str", "format": "str", "index": "list", "strip": "str", "split": "str"}


@lib("ndarray.astype")
def m_astype(cx):
    n = cx.load(cx.selfv)
    dt = dtype(cx, cx.a(0, "dtype"))
    if cx.c(None, "copy", default=True) is False and dt == n.dt:
        return cx.selfv
    return newarr(cx, n, dt)


@lib("ndarray.tolist")
def m_tolist(cx):
    n = cx.load(cx.selfv)
    if n.shape == ():
        return n
    if n.shape is None:
        return cx.unk(taint=False)
    if n.shape[0] is None:
        r = freshatom(cx.I, cx.st, cx.node, "tolist", None)
        L = mk("new", "len", n, shape=(), dt="i", lo=S.ZERO, deps=n.deps)
        e = mk("ix", n, (("p", mk("atom", r)),))
        return cx.I.new(cx.st, ListCell(None, (None, cx.arr(e), L)))
    return tolist(cx.I, cx.st, cx.arr(n), cx.node, deep=True)


@lib("ndarray.item")
def m_item(cx):
    n = cx.load(cx.selfv)
    if n.shape == ():
        return n
    if cx.args and n.rank == 1:
        return mk("ix", n, (("p", cx.n(0)),))
    f = N.carry(n)
    return mk("reshape", n, ())


@lib("ndarray.view")
def m_view(cx):
    return cx.selfv


@lib("ndarray.tobytes", "ndarray.tostring")
def m_tobytes(cx):
    return cx.unk(taint=False, shape=(), dt="s")


def tolist(I, st, v, node, deep=False):
    """list(v) as a fresh list."""
    c = I.cell(v, st)
    if isinstance(c, ListCell):
        return I.new(st, c.clone(owners=ES, log=()))
    m = I.itermodel(v, st, node)
    if m[0] == "concrete":
        return I.new(st, ListCell(list(m[1])))
    trip = m[1]
    at = freshatom(I, st, node, "list", trip)
    e = m[2](mk("atom", at), st)
    if deep and isinstance(e, Ref) and isinstance(I.cell(e, st), ArrCell):
        e = tolist(I, st, e, node, True) if I.load(e, st).rank else e
    if trip is None:
        L = mk("new", "len", tuple(I.flatnodes(v, st))[:4], shape=(), dt="i", lo=S.ZERO)
        return I.new(st, ListCell(None, (None, e, L)))
    return I.new(st, ListCell(None, (at, e, exn(trip))))


from . import models2  # noqa: E402
from .models2 import (init, libname, builtin, list_extend, list_append, enter, iterlib, to_set, libattr, instattr,  # noqa: E402,F401
                      libitem, libsetitem, liblookup, libset, callinst, namedtuple_fields)

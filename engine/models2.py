"""Behaviour of builtins, containers and the other libraries giddy uses."""
import builtins as _b
from . import sym as S
from . import node as N
from .node import mk, const, constof, NOCONST, exn, Node, FULL
from .interp import (Ref, Tup, Alt, Func, Cls, Mod, Lib, Slice, Partial, ArrCell, ListCell, DictCell, SetCell,
                     InstCell, LibInst, ModCell, Exc, Abrupt, ES, litstr)
from . import models as M
from .models import lib, REG, PREFIX, ITER, freshatom, tolist, dimof, shapearg, size

CANON = {
    "numpy.lib.stride_tricks.": None,
    "scipy.stats.stats.": "scipy.stats.",
}
FORBIDDEN = ("matplotlib", "seaborn", "splot", "ipywidgets", "geopandas", "IPython", "notebook")


def init(I):
    S.ATOMS.setdefault("pi", None)


CONSTS = {"numpy.pi": None, "math.pi": None}


def libname(q):
    if q.startswith("scipy.stats.mstats"):
        pass
    if q in ("numpy.pi", "math.pi"):
        return mk("exn", S.sym("pi"), dt="f", integral=False)
    if q in ("numpy.inf", "math.inf", "numpy.Inf", "numpy.PINF", "numpy.infty", "numpy.Infinity"):
        return const(float("inf"))
    if q in ("numpy.NINF",):
        return const(float("-inf"))
    if q in ("numpy.nan", "math.nan", "numpy.NaN", "numpy.NAN"):
        return const(float("nan"))
    if q in ("numpy.e", "math.e"):
        return const(2.718281828459045)
    if q == "numpy.newaxis":
        return N.NONE
    if q in ("matplotlib.pyplot.rcParams",):
        q = "matplotlib.rcParams"
    if q.startswith("matplotlib.pyplot.rcParams."):
        q = "matplotlib.rcParams." + q[len("matplotlib.pyplot.rcParams."):]
    if q.startswith("numpy.core.") or q.startswith("numpy.lib."):
        q = "numpy." + q.split(".")[-1]
    if q.startswith("collections.abc"):
        pass
    return Lib(q)


TYPES = ("int", "float", "bool", "str", "list", "tuple", "dict", "set", "frozenset", "complex", "object", "type", "bytes", "slice", "range")
BUILTINS = set(dir(_b))


def builtin(name):
    if name == "None":
        return N.NONE
    if name in ("True", "False"):
        return const(name == "True")
    if name in ("Ellipsis",):
        return Lib("Ellipsis")
    if name in ("__name__", "__file__", "__doc__"):
        return mk("unk", name, shape=(), dt="s", deps=ES)
    if name in BUILTINS:
        return Lib("builtins." + name)
    return None


def is_exc(name):
    o = getattr(_b, name.split(".")[-1], None)
    return isinstance(o, type) and issubclass(o, BaseException) or name.split(".")[-1] in ("LinAlgError",)


def _builtin_default(cx):
    nm = cx.name.split(".")[-1]
    if is_exc(nm):
        return cx.I.new(cx.st, LibInst("builtins." + nm, {"args": Tup(cx.args)}))
    cx.I.gap("call " + cx.name, cx.node)
    return cx.unk()


PREFIX.append(("builtins.", _builtin_default))


@lib("numpy.linalg.LinAlgError")
def f_linalgerr(cx):
    return cx.I.new(cx.st, LibInst("numpy.linalg.LinAlgError", {"args": Tup(cx.args)}))


# ------------------------------------------------------------------ numbers
@lib("builtins.range")
def f_range(cx):
    n = M.mkrange(cx)
    for a in cx.args:
        x = cx.load(a)
        if x.dt == "f":
            cx.ev("badtype", why="range of a float", value=x)
    return n


@lib("builtins.len")
def f_len(cx):
    return length(cx.I, cx.st, cx.a(0), cx.node)


def length(I, st, v, node=None):
    if isinstance(v, Tup):
        return const(len(v.items))
    if isinstance(v, Alt):
        rs = [length(I, st, x, node) for x in v.vals if not I.isnone(x, st)]
        out = rs[0]
        for r in rs[1:]:
            out = I.joinv(out, r, v.cond if len(rs) == 2 else None)
        return out
    c = I.cell(v, st)
    if isinstance(c, ListCell):
        k = len(c.items or [])
        if c.summ is None:
            return const(k)
        L = c.summ[2]
        return mk("add", L, const(k)) if k else L
    if isinstance(c, DictCell):
        if c.summ is None:
            return const(len(c.entries))
        if isinstance(c.length, Node) and not c.entries:
            return c.length
        return I.unk("len", [v], st=st, taint=False, shape=(), dt="i", lo=S.ZERO)
    if isinstance(c, SetCell):
        if c.elem is None:
            return const(0)
        e = I.load(c.elem, st) if isinstance(c.elem, (Node, Ref)) else None
        src = getattr(c, "src", None)
        if src is not None:
            u = mk("unique", src)
            if u.shape and u.shape[0] is not None:
                return exn(u.shape[0])
        return mk("new", "setlen", *( (e,) if e is not None else ()), shape=(), dt="i", lo=S.ONE if src is not None else S.ZERO, deps=I.depsof(v, st))
    if isinstance(c, InstCell):
        f = I.findattr(c.cls, "__len__", st)
        if f is not None:
            return I.call(f[0].bind(v), [], {}, node, st)
    if isinstance(c, LibInst):
        if c.cls == "W":
            return c.attrs["n"]
        m = I.itermodel(v, st, node) if c.cls in ITER else None
        if m is not None:
            return const(len(m[1])) if m[0] == "concrete" else exn(m[1]) if m[1] is not None else I.unk("len", [v], st=st, taint=False, shape=(), dt="i", lo=S.ZERO)
        if c.cls == "shape":
            return mk("new", "ndim", c.attrs["of"], shape=(), dt="i", lo=S.ZERO, deps=ES)
        return I.unk("len", [v], st=st, taint=False, shape=(), dt="i", lo=S.ZERO)
    n = I.load(v, st)
    k = constof(n)
    if isinstance(k, (str, tuple)):
        return const(len(k))
    if n.shape:
        return exn(n.shape[0]) if n.shape[0] is not None else mk("new", "dim", n, 0, shape=(), dt="i", lo=S.ZERO, deps=ES)
    return mk("new", "len", n, shape=(), dt="i", lo=S.ZERO, deps=n.deps if n.dt == "s" else ES)


@lib("builtins.int", "builtins.float", "builtins.bool", "numpy.int64", "numpy.float64", "numpy.int32", "numpy.int_", "numpy.float_", "numpy.float32", "numpy.bool_", "builtins.complex", "numpy.intp", "numpy.uint8", "numpy.int8", "numpy.int16")
def f_int(cx):
    nm = cx.name.split(".")[-1]
    dt = "i" if "int" in nm else "b" if "bool" in nm else "c" if "complex" in nm else "f"
    if not cx.args:
        return const({"i": 0, "f": 0.0, "b": False, "c": 0j}[dt])
    v = cx.a(0)
    if dt == "b":
        t, c = cx.I.truth(v, cx.st)
        if t is not None:
            return const(t)
        return c if isinstance(c, Node) and c.dt == "b" else mk("cmp", "ne", c, const(0)) if isinstance(c, Node) and c.dt in ("i", "f") else cx.unk(taint=False, shape=(), dt="b")
    n = cx.load(v)
    k = constof(n)
    if isinstance(k, str):
        try:
            return const({"i": int, "f": float, "c": complex}[dt](k))
        except ValueError:
            raise Abrupt([(cx.st, Exc("ValueError", site=cx.I.site(cx.node)))])
    if n.dt == "s":
        return mk("fn", "parse", (n,), shape=(), dt=dt, integral=dt == "i")
    if dt == "i" and n.dt != "i" and not n.integral:
        cx.ev("trunc", arr=None, val=n, how="int()", to="i")
    if n.shape != () and n.shape is not None and size(n.shape) is not None and size(n.shape).const() == 1:
        n = mk("reshape", n, ())
    if nm == "float32":
        return mk("fn", "narrow", (n,), **dict(cx.I.facets(n), dt="f", shape=n.shape, pure=None))
    return M.cast(cx, n, dt) if not (dt == "i") else mk("cast", n, "i")


@lib("builtins.abs")
def f_abs(cx):
    return cx.arr(mk("abs", cx.n(0)))


@lib("builtins.pow")
def f_pow(cx):
    return cx.arr(cx.I.numop("pow", cx.n(0), cx.n(1), cx.st, cx.node))


@lib("builtins.divmod")
def f_divmod(cx):
    a, b = cx.n(0), cx.n(1)
    return Tup([cx.arr(cx.I.numop("floordiv", a, b, cx.st, cx.node)), cx.arr(cx.I.numop("mod", a, b, cx.st, cx.node))])


@lib("builtins.sum", "math.fsum")
def f_sum(cx):
    v = cx.a(0)
    start = cx.a(1, "start")
    m = cx.I.itermodel(v, cx.st, cx.node)
    if m[0] == "concrete":
        acc = start if start is not None else const(0)
        for x in m[1]:
            acc = cx.I.binop("add", acc, x, cx.st, cx.node)
        return acc
    c = cx.I.cell(v, cx.st)
    if start is not None and isinstance(cx.I.cell(start, cx.st), ListCell):
        lst = cx.I.cell(tolist(cx.I, cx.st, v, cx.node), cx.st)
        return chain_list(cx, [lst])
    if isinstance(c, ArrCell) or isinstance(v, Node):
        n = cx.load(v)
    else:
        lst = tolist(cx.I, cx.st, v, cx.node)
        n = cx.I.load(lst, cx.st)
    r = mk("sum", n, 0) if n.shape != () and n.rank != 0 else cx.unk()
    if start is not None:
        r = mk("add", r, cx.load(start))
    return cx.arr(r)


@lib("builtins.min", "builtins.max")
def f_minmax(cx):
    op = cx.name.split(".")[-1]
    if len(cx.args) > 1:
        xs = list(cx.args)
    else:
        m = cx.I.itermodel(cx.a(0), cx.st, cx.node)
        if m[0] == "concrete":
            xs = m[1]
        else:
            n = cx.load(cx.a(0))
            if "key" in cx.kw:
                return cx.arr(cx.unk(taint=False))
            if n.rank in (1,):
                return mk(op, n, 0)
            return cx.arr(cx.unk(taint=False, dt=n.dt))
    if not xs:
        if "default" in cx.kw:
            return cx.kw["default"]
        raise Abrupt([(cx.st, Exc("ValueError", site=cx.I.site(cx.node)))])
    if any(not isinstance(x, (Node, Ref)) for x in xs) or "key" in cx.kw:
        return cx.I.joinalt(xs)
    ns = [cx.load(x) for x in xs]
    ks = [constof(n) for n in ns]
    if all(isinstance(k, (int, float, str)) for k in ks):
        return const(getattr(_b, op)(ks))
    out = ns[0]
    for n in ns[1:]:
        out = mk(op + "2", out, n)
    return out


@lib("builtins.any", "builtins.all")
def f_any(cx):
    op = cx.name.split(".")[-1]
    m = cx.I.itermodel(cx.a(0), cx.st, cx.node)
    if m[0] == "concrete":
        conds = []
        for x in m[1]:
            t, c = cx.I.truth(x, cx.st)
            if t is (op == "any"):
                return const(t)
            if t is None:
                conds.append(c)
        if not conds:
            return const(op == "all")
        out = conds[0]
        for c in conds[1:]:
            out = mk("or" if op == "any" else "and", out, c)
        return out
    n = cx.load(cx.a(0))
    return mk(op, n if n.dt == "b" else mk("cmp", "ne", n, const(0)), None) if n.dt != "s" else cx.unk(taint=False, shape=(), dt="b")


# ------------------------------------------------------------------ types and objects
@lib("builtins.isinstance", "builtins.issubclass")
def f_isinstance(cx):
    v, t = cx.a(0), cx.a(1)
    ts = list(t.items) if isinstance(t, Tup) else [t]
    rs = [isinst(cx, v, x) for x in ts]
    if any(r is True for r in rs):
        return N.TRUE
    if all(r is False for r in rs):
        return N.FALSE
    return cx.unk(taint=False, shape=(), dt="b")


def isinst(cx, v, t):
    if isinstance(v, Alt):
        rs = {isinst(cx, x, t) for x in v.vals}
        return rs.pop() if len(rs) == 1 else None
    c = cx.I.cell(v, cx.st)
    nm = t.name if isinstance(t, Lib) else None
    if isinstance(t, Cls):
        if isinstance(c, InstCell):
            return any(k.addr == t.addr for k in c.cls.mro())
        return False
    if nm is None:
        return None
    s = nm.split(".")[-1]
    if isinstance(c, ArrCell):
        if c.node.op == "unk":
            return None
        return s in ("ndarray", "object")
    if isinstance(c, ListCell):
        return s in ("list", "Sequence", "MutableSequence", "Iterable", "Sized", "Collection", "object")
    if isinstance(v, Tup):
        return s in ("tuple", "Sequence", "Iterable", "Sized", "Collection", "object")
    if isinstance(c, DictCell):
        return s in ("dict", "Mapping", "MutableMapping", "Iterable", "object", "defaultdict", "OrderedDict")
    if isinstance(c, SetCell):
        return s in ("set", "Set", "frozenset", "Iterable", "object")
    if isinstance(v, Node):
        if v.op == "const" and v.args[0] is None:
            return s in ("NoneType", "object")
        if v.dt == "s":
            return s in ("str", "Iterable", "Sequence", "object")
        if v.op in ("unk",) or v.dt is None or v.dt == "O":
            return None
        if v.shape == ():
            if s in ("str", "list", "tuple", "dict", "set", "ndarray"):
                return False
            if v.dt == "b":
                return s in ("bool", "int", "bool_") if v.op == "const" else None
            if v.dt == "i":
                return True if s in ("Integral", "Number", "Real") else (s == "int" if v.op == "const" else None)
            if v.dt == "f":
                return True if s in ("Number", "Real") else (s == "float" if v.op == "const" else None)
        return None
    if isinstance(c, LibInst):
        if c.cls == "W":
            return s in ("W", "object")
        return None
    if isinstance(c, InstCell):
        return False if nm.startswith(("numpy", "builtins", "libpysal", "pandas")) and s != "object" else None
    if isinstance(v, Func):
        return s in ("Callable", "FunctionType")
    return None


@lib("builtins.callable")
def f_callable(cx):
    v = cx.a(0)
    if isinstance(v, (Func, Cls, Partial)):
        return N.TRUE
    if isinstance(v, Lib) and v.bound is None and not v.name.startswith("builtins.") is False:
        return N.TRUE
    return cx.unk(taint=False, shape=(), dt="b")


@lib("builtins.hasattr")
def f_hasattr(cx):
    v = cx.a(0)
    nm = cx.c(1)
    if isinstance(v, Alt) and isinstance(nm, str):
        rs = [hasattr1(cx, x, nm) for x in v.vals]
        if all(r is True for r in rs):
            return N.TRUE
        if all(r is False for r in rs):
            return N.FALSE
        if len(rs) == 2 and v.cond is not None and None not in rs:
            return v.cond if rs[0] else mk("not", v.cond)
        return cx.unk(taint=False, shape=(), dt="b")
    r = hasattr1(cx, v, nm) if isinstance(nm, str) else None
    return const(r) if r is not None else cx.unk(taint=False, shape=(), dt="b")


def hasattr1(cx, v, nm):
    c = cx.I.cell(v, cx.st)
    if isinstance(c, InstCell):
        if nm in c.attrs:
            return None if nm in c.maybe else True
        f = cx.I.findattr(c.cls, nm, cx.st)
        if f is not None:
            # a property may itself raise AttributeError
            return True
        return False if not cx.I.libbases(c.cls) and cx.I.findattr(c.cls, "__getattr__", cx.st) is None else None
    if isinstance(v, Mod):
        return nm in cx.st.heap[v.addr].env
    if isinstance(v, Cls):
        return cx.I.findattr(v, nm, cx.st) is not None
    if isinstance(v, Func):
        return ("__fattr__" + v.mod + "." + v.qual + "." + nm) in cx.st.glob or None
    if isinstance(c, LibInst) and c.cls == "W":
        return nm in c.attrs
    if isinstance(c, (ListCell,)):
        return nm in dir([])
    if isinstance(c, DictCell):
        return nm in dir({})
    if isinstance(v, Tup):
        return nm in dir(())
    return None


@lib("builtins.getattr")
def f_getattr(cx):
    v, nm = cx.a(0), cx.c(1)
    if not isinstance(nm, str):
        # dynamic attribute name: possible results of every attribute
        c = cx.I.cell(v, cx.st)
        return cx.unk()
    if cx.has(2):
        r = hasattr1(cx, v, nm)
        if r is False:
            return cx.a(2)
        if r is None:
            c = cx.I.cell(v, cx.st)
            if isinstance(c, InstCell) and nm in c.attrs:
                return cx.I.joinv(c.attrs[nm], cx.a(2))
    return cx.I.getattr(v, nm, cx.st, cx.node)


@lib("builtins.setattr", "object.__setattr__")
def f_setattr(cx):
    vals = ([cx.selfv] if cx.selfv is not None else []) + cx.args
    nm = constof(cx.I.load(vals[1], cx.st))
    if isinstance(nm, str):
        cx.I.setattr(vals[0], nm, vals[2], cx.st, cx.node)
    else:
        cx.I.gap("setattr with a computed name", cx.node)


@lib("builtins.delattr")
def f_delattr(cx):
    nm = cx.c(1)
    c = cx.I.cell(cx.a(0), cx.st)
    if isinstance(c, InstCell) and isinstance(nm, str):
        cx.st.heap[cx.a(0).addr] = c.clone(attrs={k: v for k, v in c.attrs.items() if k != nm})


@lib("builtins.type")
def f_type(cx):
    v = cx.a(0)
    c = cx.I.cell(v, cx.st)
    if isinstance(c, InstCell):
        return c.cls
    if isinstance(c, ListCell):
        return Lib("builtins.list")
    if isinstance(c, DictCell):
        return Lib("builtins.dict")
    if isinstance(c, ArrCell):
        return Lib("numpy.ndarray")
    if isinstance(v, Tup):
        return Lib("builtins.tuple")
    if isinstance(v, Node) and v.op == "const" and v.shape == () and v.args[0] is not None:
        return Lib("builtins." + type(v.args[0]).__name__)
    return cx.unk(taint=False)


@lib("builtins.id", "builtins.hash")
def f_id(cx):
    d = cx.I.depsof(cx.a(0), cx.st)
    n = cx.I.load(cx.a(0), cx.st) if isinstance(cx.a(0), Node) else None
    hashy = cx.name.endswith("id") or n is None or n.dt in ("s", "O", None) or "id" in n.tags
    cx.ev("identity", what=cx.name)
    return mk("fn", cx.name, (), cx.I.site(cx.node)[1], shape=(), dt="i", deps=d | (frozenset({("identity", cx.name)}) if hashy else ES))


@lib("builtins.vars")
def f_vars(cx):
    return cx.I.getattr(cx.a(0), "__dict__", cx.st, cx.node) if cx.args else cx.unk()


@lib("builtins.dir", "builtins.globals", "builtins.locals", "builtins.eval", "builtins.exec", "builtins.compile", "builtins.__import__", "importlib.import_module")
def f_reflect(cx):
    if cx.name.endswith("import_module") or cx.name.endswith("__import__"):
        nm = cx.c(0)
        if isinstance(nm, str):
            if nm.startswith(".") or nm.split(".")[0] == cx.I.package:
                if nm.startswith("."):
                    nm = cx.I.package + nm if nm != "." else cx.I.package
                m = cx.I.import_module(nm, cx.st)
                if m is not None:
                    return m
            else:
                cx.ev("import", name=nm)
                return Lib(nm)
    cx.I.gap("reflection " + cx.name, cx.node)
    return cx.unk()


@lib("builtins.slice")
def f_slice(cx):
    a = cx.args
    if len(a) == 1:
        return Slice(N.NONE, a[0], N.NONE)
    return Slice(a[0], a[1], a[2] if len(a) > 2 else N.NONE)


@lib("builtins.object")
def f_object(cx):
    return cx.I.new(cx.st, LibInst("object", {}))


@lib("object.__init__", "object.__init_subclass__", "noop", "object.__new__")
def f_noop(cx):
    return N.NONE


@lib("builtins.print", "builtins.input", "sys.stdout.write", "sys.stderr.write", "sys.stdout.flush", "pprint.pprint", "warnings.showwarning", "logging.info", "logging.warning")
def f_print(cx):
    c = cx.I.cell(cx.kw.get("file"), cx.st) if "file" in cx.kw else None
    if isinstance(c, LibInst) and c.cls == "file":
        cx.ev("write", path=c.attrs["path"], args=cx.args)
        return N.NONE
    if cx.name.startswith(("sys.stdout", "sys.stderr")) or cx.name in ("builtins.print", "pprint.pprint", "builtins.input"):
        cx.ev("print", args=cx.args)
    return N.NONE


# ------------------------------------------------------------------ strings
@lib("builtins.str", "builtins.repr", "builtins.format", "builtins.ascii", "builtins.chr", "builtins.bin", "builtins.hex")
def f_str(cx):
    nm = cx.name.split(".")[-1]
    if not cx.args:
        return const("")
    v = cx.a(0)
    k = constof(v) if isinstance(v, Node) else NOCONST
    if k is not NOCONST and nm in ("str", "repr") and not isinstance(k, tuple):
        return const(str(k) if nm == "str" else repr(k))
    n = cx.I.load(v, cx.st) if isinstance(v, Node) or isinstance(cx.I.cell(v, cx.st), ArrCell) else None
    if nm == "str" and n is not None and n.dt == "s" and n.shape == ():
        return n
    d = cx.I.depsof(v, cx.st)
    return mk("fn", nm, tuple(cx.I.flatnodes(v, cx.st)), shape=(), dt="s", deps=d)


@lib("builtins.ord")
def f_ord(cx):
    return mk("fn", "ord", (cx.n(0),), shape=(), dt="i", lo=S.ZERO)


def _str_method(cx):
    s = cx.I.load(cx.selfv, cx.st) if cx.selfv is not None else cx.n(0)
    nm = cx.name.split(".")[-1]
    ks = [constof(s)] + [cx.c(i) for i in range(len(cx.args))]
    if nm == "join":
        return str_join(cx, s)
    if nm == "format":
        vals = list(cx.args) + list(cx.kw.values())
        cs = [constof(v) if isinstance(v, Node) else NOCONST for v in cx.args]
        if isinstance(ks[0], str) and not cx.kw and all(c is not NOCONST for c in cs):
            try:
                return const(ks[0].format(*cs))
            except Exception:
                pass
        ns = [n for v in vals for n in cx.I.flatnodes(v, cx.st)]
        return mk("fn", "format", (s,) + tuple(ns), shape=(), dt="s")
    if all(isinstance(k, (str, int, tuple)) for k in ks) and not cx.kw and hasattr(str, nm):
        try:
            r = getattr(ks[0], nm)(*ks[1:])
            if isinstance(r, list):
                return cx.I.new(cx.st, ListCell([const(x) for x in r]))
            if isinstance(r, (str, bool, int)):
                return const(r)
        except Exception:
            pass
    ns = (s,) + tuple(n for v in cx.args for n in cx.I.flatnodes(v, cx.st))
    if nm in ("split", "rsplit", "splitlines"):
        e = mk("fn", nm, ns, shape=(), dt="s")
        L = mk("fn", "nsplit", ns, shape=(), dt="i", lo=S.ONE)
        return cx.I.new(cx.st, ListCell(None, (None, e, L)))
    if nm in ("startswith", "endswith", "isdigit", "isalpha", "isnumeric", "isupper", "islower", "isspace", "isalnum"):
        return mk("fn", nm, ns, shape=(), dt="b")
    if nm in ("index", "find", "count", "rfind", "rindex"):
        return mk("fn", nm, ns, shape=(), dt="i")
    if nm in ("partition", "rpartition"):
        return Tup([mk("fn", nm + str(i), ns, shape=(), dt="s") for i in range(3)])
    return mk("fn", nm, ns, shape=(), dt="s")


PREFIX.append(("str.", _str_method))
PREFIX.append(("builtins.str.", _str_method))


def str_join(cx, s):
    v = cx.a(0) if cx.selfv is not None else cx.a(1)
    m = cx.I.itermodel(v, cx.st, cx.node)
    if m[0] == "concrete":
        cs = [constof(x) if isinstance(x, Node) else NOCONST for x in m[1]]
        if isinstance(constof(s), str) and all(isinstance(c, str) for c in cs):
            return const(constof(s).join(cs))
        ns = [n for x in m[1] for n in cx.I.flatnodes(x, cx.st)]
        cx.ev("strjoin", sep=constof(s), elem=m[1][0] if m[1] else None, concrete=True)
        return mk("fn", "join", (s,) + tuple(ns), shape=(), dt="s")
    at = freshatom(cx.I, cx.st, cx.node, "join", m[1])
    e = m[2](mk("atom", at), cx.st)
    cx.ev("strjoin", sep=constof(s), elem=e, concrete=False)
    n = cx.I.load(tolist(cx.I, cx.st, v, cx.node), cx.st)
    return mk("fn", "join", (s, n), shape=(), dt="s")


# ------------------------------------------------------------------ lists
def cap(items):
    return len(items) > 80


def list_append(I, st, r, v, node):
    c = st.heap[r.addr]
    if not isinstance(c, ListCell):
        I.gap("append to " + type(c).__name__, node)
        return
    I.mutate(r, st, "append", node)
    log = c.log + (("append", v, len(st.pc)),)
    if c.summ is None:
        items = list(c.items or []) + [v]
        if cap(items):
            b = I.list_blur([ListCell(items)], c.owners)
            st.heap[r.addr] = b
            b.log = log
            return
        st.heap[r.addr] = c.clone(items=items, log=log)
    else:
        b = I.list_blur([c, ], c.owners)
        a, el, L = b.summ
        el = I.joinv(el, v)
        lo, _, hi, _ = L.bounds()
        L2 = mk("add", L, const(1))
        st.heap[r.addr] = ListCell(items=None, summ=(None, el, L2), owners=c.owners, log=log)


def list_extend(I, st, r, v, node):
    c = st.heap[r.addr]
    I.mutate(r, st, "extend", node)
    m = I.itermodel(v, st, node)
    if m[0] == "concrete":
        st.heap[r.addr] = c
        for x in m[1]:
            own = st.heap[r.addr]
            st.heap[r.addr] = own.clone(owners=ES)
            list_append(I, st, r, x, node)
            st.heap[r.addr] = st.heap[r.addr].clone(owners=own.owners)
        return
    src = I.cell(tolist(I, st, v, node), st)
    log = c.log + (("extend", v, len(st.pc)),)
    if c.summ is None and src.summ is not None and not src.items:
        st.heap[r.addr] = ListCell(items=list(c.items) if c.items else None, summ=src.summ, owners=c.owners, log=log)
        return
    b = I.list_blur([c], ES)
    b2 = I.list_blur([src], ES)
    if b.summ is None:
        b2.owners = c.owners
        b2.log = log
        st.heap[r.addr] = b2
        return
    el = I.joinv(b.summ[1], b2.summ[1])
    st.heap[r.addr] = ListCell(items=None, summ=(None, el, mk("add", b.summ[2], b2.summ[2])), owners=c.owners, log=log)


@lib("list.append")
def m_append(cx):
    c = cx.I.cell(cx.selfv, cx.st)
    if not isinstance(c, ListCell):
        return
    list_append(cx.I, cx.st, cx.selfv, cx.a(0), cx.node)


@lib("list.extend")
def m_extend(cx):
    if isinstance(cx.I.cell(cx.selfv, cx.st), ListCell):
        list_extend(cx.I, cx.st, cx.selfv, cx.a(0), cx.node)


@lib("list.insert")
def m_insert(cx):
    c = cx.I.cell(cx.selfv, cx.st)
    if not isinstance(c, ListCell):
        return
    cx.I.mutate(cx.selfv, cx.st, "insert", cx.node)
    i = cx.c(0)
    if c.summ is None and isinstance(i, int):
        it = list(c.items)
        it.insert(i, cx.a(1))
        cx.st.heap[cx.selfv.addr] = c.clone(items=it, log=c.log + (("insert", None, 0),))
        return
    own = c.owners
    list_append(cx.I, cx.st, cx.selfv, cx.a(1), cx.node)
    cx.st.heap[cx.selfv.addr] = cx.I.list_blur([cx.st.heap[cx.selfv.addr]], own)


@lib("list.pop")
def m_pop(cx):
    c = cx.I.cell(cx.selfv, cx.st)
    if not isinstance(c, ListCell):
        return cx.unk()
    cx.I.mutate(cx.selfv, cx.st, "pop", cx.node)
    i = cx.c(0, default=-1)
    if c.summ is None and c.items and isinstance(i, int) and -len(c.items) <= i < len(c.items):
        it = list(c.items)
        v = it.pop(i)
        cx.st.heap[cx.selfv.addr] = c.clone(items=it, log=c.log + (("pop", None, 0),))
        return v
    if c.summ is None and not c.items:
        cx.ev("keymiss", key="pop of an empty list")
        raise Abrupt([(cx.st, Exc("IndexError", site=cx.I.site(cx.node)))])
    b = cx.I.list_blur([c], c.owners)
    a, el, L = b.summ
    cx.st.heap[cx.selfv.addr] = ListCell(None, (None, el, mk("max2", mk("sub", L, const(1)), const(0))), c.owners, c.log + (("pop", None, 0),))
    return el


@lib("list.remove")
def m_remove(cx):
    c = cx.I.cell(cx.selfv, cx.st)
    if not isinstance(c, ListCell):
        return
    cx.I.mutate(cx.selfv, cx.st, "remove", cx.node)
    log = c.log + (("remove", None, 0),)
    if c.summ is None and c.items:
        for i, x in enumerate(c.items):
            t, _ = cx.I.truth(cx.I.relcmp("eq", x, cx.a(0), cx.st, cx.node), cx.st)
            if t is True:
                cx.st.heap[cx.selfv.addr] = c.clone(items=c.items[:i] + c.items[i + 1:], log=log)
                return
            if t is None:
                break
    atom = c.summ[0] if c.summ is not None else None
    if c.summ is not None and not c.items and atom is not None:
        # one element less, the rest in order
        _, el, L = c.summ
        lo = L.bounds()[0]
        cx.st.heap[cx.selfv.addr] = ListCell(None, (None, el, mk("sub", L, const(1))), c.owners, log)
        return
    b = cx.I.list_blur([c], c.owners)
    if b.summ is not None:
        _, el, L = b.summ
        b = ListCell(None, (None, el, mk("sub", L, const(1))), c.owners, log)
    cx.st.heap[cx.selfv.addr] = b


@lib("list.clear", "dict.clear", "set.clear")
def m_clear(cx):
    c = cx.I.cell(cx.selfv, cx.st)
    cx.I.mutate(cx.selfv, cx.st, "clear", cx.node)
    if isinstance(c, ListCell):
        cx.st.heap[cx.selfv.addr] = ListCell([], None, c.owners, c.log + (("clear", None, 0),))
    elif isinstance(c, DictCell):
        cx.st.heap[cx.selfv.addr] = DictCell({}, None, c.owners)
    elif isinstance(c, SetCell):
        cx.st.heap[cx.selfv.addr] = SetCell(None, [], c.owners)


def untag(I, st, v, key=ES):
    """Order made definite by sorting."""
    if isinstance(v, Node):
        if key - v.deps or v.op not in ("const", "exn"):
            f = I.facets(v)
            f["tags"] = v.tags - {"setord"}
            f["deps"] = frozenset(d for d in v.deps | key if d[0] != "setorder")
            lo, lop, hi, hop = v.bounds()
            return mk("new", "sorted", v, **dict(f, lo=lo, lop=lop, hi=hi, hop=hop))
        if "setord" in v.tags or any(d[0] == "setorder" for d in v.deps):
            f = I.facets(v)
            f["tags"] = v.tags - {"setord"}
            f["deps"] = frozenset(d for d in v.deps if d[0] != "setorder")
            lo, lop, hi, hop = v.bounds()
            return mk("new", "sorted", v, **dict(f, lo=lo, lop=lop, hi=hi, hop=hop))
        return v
    if isinstance(v, Tup):
        return Tup([untag(I, st, x, key) for x in v.items])
    return v


def keydeps(cx, el):
    """What the sort key looks at."""
    k = cx.kw.get("key")
    if k is None or isinstance(k, Node):
        return ES
    st = cx.st.fork()
    n0 = len(cx.I.events)
    try:
        r = cx.I.call(k, [el], {}, cx.node, st)
    except Abrupt:
        return ES
    finally:
        del cx.I.events[n0:]
    out = ES
    for n in cx.I.flatnodes(r, st):
        out |= N.ordinal(n.deps, {n.pure}) if n.pure else n.deps
    return out


@lib("list.sort", "list.reverse")
def m_lsort(cx):
    c = cx.I.cell(cx.selfv, cx.st)
    if not isinstance(c, ListCell):
        return
    nm = cx.name.split(".")[-1]
    cx.I.mutate(cx.selfv, cx.st, nm, cx.node)
    cx.st.heap[cx.selfv.addr] = sortedcell(cx, c, nm)


def sortedcell(cx, c, nm="sort"):
    log = c.log + ((nm, None, 0),)
    if c.summ is None:
        ks = [constof(x) if isinstance(x, Node) else NOCONST for x in c.items]
        if nm == "reverse":
            return c.clone(items=list(reversed(c.items)), log=log)
        if all(k is not NOCONST for k in ks) and "key" not in cx.kw:
            try:
                return c.clone(items=[const(k) for k in sorted(ks, reverse=cx.c(None, "reverse", default=False) is True)], log=log)
            except TypeError:
                pass
        if len(c.items) <= 1:
            return c.clone(log=log)
        b = cx.I.list_blur([c], c.owners)
        return ListCell(None, (None, untag(cx.I, cx.st, b.summ[1], keydeps(cx, b.summ[1])), const(len(c.items))), c.owners, log)
    if not c.items and nm != "reverse" and "key" not in cx.kw and (isinstance(c.summ[1], Node) and c.summ[1].shape == () or isinstance(c.summ[1], Ref) and isinstance(cx.I.cell(c.summ[1], cx.st), ArrCell)):
        n = cx.I.list_node(c, cx.st)
        if isinstance(n, Node) and n.rank == 1 and n.shape[0] is not None:
            s = n if n.op == "unique" and "sorted" in n.tags else mk("sort", n, 0)
            at = freshatom(cx.I, cx.st, cx.node, "sorted", n.shape[0])
            return ListCell(None, (at, mk("ix", s, (("p", mk("atom", at)),)), c.summ[2]), c.owners, log)
    b = cx.I.list_blur([c], c.owners)
    return ListCell(None, (None, untag(cx.I, cx.st, b.summ[1], keydeps(cx, b.summ[1]) if nm != "reverse" else ES), c.summ[2] if not c.items else b.summ[2]), c.owners, log)


@lib("builtins.sorted")
def f_sorted(cx):
    r = tolist(cx.I, cx.st, cx.a(0), cx.node)
    c = cx.I.cell(r, cx.st)
    src = cx.I.cell(cx.a(0), cx.st)
    if isinstance(src, SetCell) and getattr(src, "src", None) is not None and "key" not in cx.kw:
        u = mk("unique", src.src)
        if u.shape[0] is not None:
            at = freshatom(cx.I, cx.st, cx.node, "sortedset", u.shape[0])
            return cx.I.new(cx.st, ListCell(None, (at, mk("ix", u, (("p", mk("atom", at)),)), exn(u.shape[0]))))
    cx.st.heap[r.addr] = sortedcell(cx, c)
    return r


@lib("builtins.reversed")
def f_reversed(cx):
    r = tolist(cx.I, cx.st, cx.a(0), cx.node)
    c = cx.I.cell(r, cx.st)
    if c.summ is not None and c.summ[0] is not None and not c.items and c.summ[2]._ex is not None:
        a, el, L = c.summ
        at = freshatom(cx.I, cx.st, cx.node, "rev", L._ex)
        el2 = cx.I.at(el, a, S.sub(S.sub(L._ex, S.ONE), S.sym(at)), cx.st)
        cx.st.heap[r.addr] = ListCell(None, (at, el2, L))
        return r
    cx.st.heap[r.addr] = sortedcell(cx, c, "reverse")
    return r


@lib("list.index", "tuple.index")
def m_index(cx):
    v = cx.a(0)
    c = cx.I.cell(cx.selfv, cx.st)
    items = cx.selfv.items if isinstance(cx.selfv, Tup) else (c.items if isinstance(c, ListCell) and c.summ is None else None)
    if items is not None:
        for i, x in enumerate(items):
            t, _ = cx.I.truth(cx.I.relcmp("eq", x, v, cx.st, cx.node), cx.st)
            if t is True:
                return const(i)
            if t is None:
                break
        else:
            if items is not None and all(isinstance(x, Node) for x in items):
                raise Abrupt([(cx.st, Exc("ValueError", site=cx.I.site(cx.node)))])
    n = cx.I.load(cx.selfv, cx.st)
    x = cx.I.load(v, cx.st)
    cx.ev("lookupindex", list=n, key=x)
    if isinstance(v, Node) and n.rank == 1:
        r = mk("index_of", n, x)
        return r
    return mk("fn", "index", tuple(cx.I.flatnodes(cx.selfv, cx.st)) + tuple(cx.I.flatnodes(v, cx.st)), shape=(), dt="i", lo=S.ZERO, hi=S.sub(n.shape[0], S.ONE) if n.shape and n.shape[0] is not None else None)


@lib("list.count", "tuple.count")
def m_count(cx):
    n = cx.I.load(cx.selfv, cx.st)
    L = size(n.shape)
    x = cx.load(cx.a(0))
    if n.rank == 1 and x.shape == ():
        return mk("sum", mk("cmp", "eq", n, x), 0)
    return mk("fn", "count", (n, x), shape=(), dt="i", lo=S.ZERO, hi=L)


@lib("list.copy")
def m_lcopy(cx):
    return tolist(cx.I, cx.st, cx.selfv, cx.node)


@lib("builtins.list")
def f_list(cx):
    if not cx.args:
        return cx.I.new(cx.st, ListCell([]))
    return tolist(cx.I, cx.st, cx.a(0), cx.node)


@lib("builtins.tuple")
def f_tuple(cx):
    if not cx.args:
        return Tup([])
    v = cx.a(0)
    if isinstance(v, Tup):
        return v
    m = cx.I.itermodel(v, cx.st, cx.node)
    if m[0] == "concrete":
        return Tup(m[1])
    r = tolist(cx.I, cx.st, v, cx.node)
    return r


# ------------------------------------------------------------------ lazy sequences
@lib("builtins.zip", "builtins.enumerate", "builtins.map", "builtins.filter", "builtins.iter", "itertools.zip_longest", "itertools.islice", "itertools.chain", "itertools.chain.from_iterable",
     "itertools.product", "itertools.combinations", "itertools.permutations", "itertools.repeat", "itertools.count", "itertools.cycle", "itertools.starmap", "itertools.accumulate",
     "itertools.combinations_with_replacement", "itertools.pairwise", "itertools.takewhile", "itertools.dropwhile", "itertools.groupby")
def f_lazy(cx):
    nm = cx.name.split(".")[-1]
    I, st = cx.I, cx.st
    if nm == "iter":
        return cx.a(0)
    if nm in ("enumerate", "zip", "map"):
        if nm == "map":
            fn = cx.a(0)
            srcs = cx.args[1:]
            ms = [I.itermodel(v, st, cx.node) for v in srcs]
            if all(m[0] == "concrete" for m in ms):
                L = min(len(m[1]) for m in ms)
                return I.new(st, ListCell([I.call(fn, [m[1][i] for m in ms], {}, cx.node, st) for i in range(L)]))
            trip = next((m[1] for m in ms if m[0] == "sym"), None)
            at = freshatom(I, st, cx.node, "map", trip)
            it = mk("atom", at)
            I.loopstack.append((at, cx.node, trip))
            try:
                v = I.call(fn, [m[2](it, st) if m[0] == "sym" else I.joinalt(m[1]) for m in ms], {}, cx.node, st)
            finally:
                I.loopstack.pop()
            if trip is None:
                return I.new(st, ListCell(None, (None, v, mk("new", "len", it, shape=(), dt="i", lo=S.ZERO, deps=ES))))
            return I.new(st, ListCell(None, (at, v, exn(trip))))
        return I.new(st, LibInst(nm, {"srcs": Tup(cx.args), "start": cx.a(1, "start") if nm == "enumerate" and (len(cx.args) > 1 or "start" in cx.kw) else const(0),
                                      "node": cx.node, "strict": cx.kw.get("strict", N.FALSE)}))
    if nm == "filter":
        fn = cx.a(0)
        src = tolist(I, st, cx.a(1), cx.node)
        b = I.list_blur([I.cell(src, st)], ES)
        if b.summ is None:
            return I.new(st, ListCell([]))
        L = mk("new", "len", b.summ[2], cx.node.lineno, cx.node.col_offset, shape=(), dt="i", lo=S.ZERO, hi=b.summ[2].bounds()[2])
        return I.new(st, ListCell(None, (None, b.summ[1], L)))
    if nm in ("chain", "from_iterable"):
        if nm == "from_iterable":
            m = I.itermodel(cx.a(0), st, cx.node)
            if m[0] == "concrete":
                parts = m[1]
            else:
                at = freshatom(I, st, cx.node, "chain", m[1])
                e = m[2](mk("atom", at), st)
                lc = I.cell(tolist(I, st, e, cx.node), st)
                b = I.list_blur([lc], ES)
                if b.summ is None:
                    return I.new(st, ListCell([]))
                inner = b.summ[2]
                L = exn(S.mul(inner._ex, m[1])) if m[1] is not None and inner._ex is not None and at not in inner._ex.atoms() and not S.has_val(inner._ex) else mk("new", "len", inner, mk("atom", at), shape=(), dt="i", lo=S.ZERO)
                return I.new(st, ListCell(None, (None, b.summ[1], L)))
        else:
            parts = cx.args
        return chain_list(cx, [I.cell(tolist(I, st, p, cx.node), st) for p in parts])
    if nm in ("combinations", "permutations", "combinations_with_replacement", "product", "pairwise"):
        return combos(cx, nm)
    if nm == "repeat":
        if cx.has(1, "times"):
            n = cx.n(1, "times")
            return I.new(st, ListCell(None, (freshatom(I, st, cx.node, "rep", n.ex), cx.a(0), n)))
        return I.new(st, LibInst("repeat", {"v": cx.a(0)}))
    if nm == "count":
        return I.new(st, LibInst("count", {"start": cx.a(0, "start") if cx.args or cx.kw else const(0), "step": cx.a(1, "step") if len(cx.args) > 1 or "step" in cx.kw else const(1)}))
    if nm in ("zip_longest", "islice", "starmap", "accumulate", "groupby", "cycle", "takewhile", "dropwhile"):
        if nm == "starmap":
            src = tolist(I, st, cx.a(1), cx.node)
            c = I.cell(src, st)
            if c.summ is None:
                return I.new(st, ListCell([I.call(cx.a(0), I.unpack_all(x, st) or [x], {}, cx.node, st) for x in c.items]))
            a, el, L = c.summ
            its = I.unpack_all(el, st)
            if its is not None and not c.items:
                return I.new(st, ListCell(None, (a, I.call(cx.a(0), its, {}, cx.node, st), L)))
        I.gap("itertools." + nm, cx.node)
        e = cx.unk()
        return I.new(st, ListCell(None, (None, e, mk("new", "len", e, shape=(), dt="i", lo=S.ZERO))))


def chain_list(cx, cells):
    I, st = cx.I, cx.st
    if all(c.summ is None for c in cells):
        return I.new(st, ListCell([x for c in cells for x in c.items]))
    bs = [I.list_blur([c], ES) for c in cells if c.items or c.summ]
    el, L = None, None
    for b in bs:
        if b.summ is None:
            continue
        el = b.summ[1] if el is None else I.joinv(el, b.summ[1])
        L = b.summ[2] if L is None else mk("add", L, b.summ[2])
    if el is None:
        return I.new(st, ListCell([]))
    if len(cells) == 1 and cells[0].summ is not None:
        return I.new(st, cells[0].clone(owners=ES, log=()))
    return I.new(st, ListCell(None, (None, el, L)))


def combos(cx, nm):
    import itertools as it
    I, st = cx.I, cx.st
    if nm == "product":
        r = cx.c(None, "repeat", default=1)
        srcs = list(cx.args) * (r if isinstance(r, int) else 1)
    else:
        srcs = [cx.a(0)]
    ms = [I.itermodel(v, st, cx.node) for v in srcs]
    k = cx.c(1, "r", default=2 if nm == "pairwise" else None)
    if all(m[0] == "concrete" for m in ms) and sum(len(m[1]) for m in ms) <= 24:
        if nm == "product":
            out = list(it.product(*[m[1] for m in ms]))
        elif nm == "pairwise":
            out = list(zip(ms[0][1], ms[0][1][1:]))
        else:
            out = list(getattr(it, nm)(ms[0][1], *([k] if isinstance(k, int) else [])))
        if len(out) <= 300:
            return I.new(st, ListCell([Tup(x) for x in out]))
    trips = [m[1] if m[0] == "sym" else S.num(len(m[1])) for m in ms]
    if nm == "product":
        ats = [mk("atom", freshatom(I, st, cx.node, "prod%d" % i, t)) for i, t in enumerate(trips)]
        el = Tup([m[2](a, st) if m[0] == "sym" else I.joinalt(m[1]) for m, a in zip(ms, ats)])
        tot = S.ONE
        for t in trips:
            tot = S.mul(tot, t) if tot is not None and t is not None else None
        L = exn(tot) if tot is not None else mk("new", "len", ats[0], shape=(), dt="i", lo=S.ZERO)
        return I.new(st, LibInst("product", {"el": el, "len": L, "atoms": Tup(ats), "trips": tuple(trips)}))
    t = trips[0]
    a = freshatom(I, st, cx.node, "ca", t)
    key = ("comb", a)
    b = I.uidmap.get(key)
    if b is None:
        b = I.uidmap[key] = "i%d" % (len(I.uidmap) + 1)
        S.atom(b, S.add(S.sym(a), S.ONE) if nm == "combinations" else S.ZERO, S.sub(t, S.ONE) if t is not None else None, integral=True)
    m = ms[0]
    el = lambda x: m[2](mk("atom", x), st) if m[0] == "sym" else I.joinalt(m[1])
    L = exn(S.div(S.mul(t, S.sub(t, S.ONE)), S.num(2))) if t is not None and nm == "combinations" and k == 2 else mk("new", "len", mk("atom", a), shape=(), dt="i", lo=S.ZERO, deps=ES)
    if k == 2 or nm == "pairwise":
        return I.new(st, ListCell(None, (None, Tup([el(a), el(b)]), L)))
    return I.new(st, ListCell(None, (None, cx.unk(), L)))


def iterlib(I, st, v, c, s):
    """Iteration model of library objects."""
    k = c.cls
    if k in ("zip", "enumerate"):
        srcs = list(c.attrs["srcs"].items)
        if k == "enumerate":
            srcs = srcs[:1]
        ms = [I.itermodel(x, st, s) for x in srcs]
        if k == "enumerate":
            start = I.load(c.attrs["start"], st)
            m = ms[0]
            if m[0] == "concrete":
                return ("concrete", [Tup([mk("add", start, const(i)), x]) for i, x in enumerate(m[1])])
            return ("sym", m[1], lambda it, s_: Tup([mk("add", start, it) if not N.is_zero(start) else it, m[2](it, s_)]))
        if not ms:
            return ("concrete", [])
        if all(m[0] == "concrete" for m in ms):
            Ls = {len(m[1]) for m in ms}
            if len(Ls) > 1:
                I.ev("zipmis", c.attrs["node"], st, dims=tuple(S.num(x) for x in sorted(Ls)))
            return ("concrete", [Tup(x) for x in zip(*[m[1] for m in ms])])
        trips = [m[1] if m[0] == "sym" else S.num(len(m[1])) for m in ms]
        known = [t for t in trips if t is not None]
        trip = known[0] if known and all(t == known[0] for t in known) and len(known) == len(trips) else None
        if trip is None and known:
            for t in known:
                if all(S.le(t, u) for u in known) and len(known) == len(trips):
                    trip = t
            if len(set(known)) > 1:
                I.ev("zipmis", c.attrs["node"], st, dims=tuple(known))
        def el(it, s_):
            return Tup([m[2](it, s_) if m[0] == "sym" else (I.joinalt(m[1]) if m[1] else N.NONE) for m in ms])
        return ("sym", trip, el)
    if k == "repeat":
        return ("sym", None, lambda it, s_: c.attrs["v"])
    if k == "count":
        return ("sym", None, lambda it, s_: mk("add", I.load(c.attrs["start"], s_), mk("mul", it, I.load(c.attrs["step"], s_))))
    if k == "product":
        ats = [a.args[0] for a in c.attrs["atoms"].items]
        trips = c.attrs["trips"]
        L = c.attrs["len"]
        el = c.attrs["el"]
        return ("sym", L._ex if L._ex is not None else None, lambda it, s_: el)
    if k == "W":
        e = Tup([c.attrs["__ids"], I.new(st, ListCell(None, (None, c.attrs["__nbr"], c.attrs["__nn"])))])
        return ("sym", c.attrs["n"]._ex, lambda it, s_: Tup([mk("ix", c.attrs["__idlist"], (("p", it),)), I.new(s_, DictCell({}, (c.attrs["__nbrid"], c.attrs["__wgt"])))]))
    if k == "shape":
        return None
    if k in ("ext", "file"):
        return ("sym", None, lambda it, s_: I.new(s_, LibInst("ext", {"name": const("item of " + str(c.attrs.get("name"))), "deps": I.load(mk("unk", "x", shape=()), s_)})))
    if k == "dfcols":
        return ("sym", None, lambda it, s_: mk("unk", "column", shape=(), dt="s", deps=frozenset({("in", "gdf")})))
    if k == "kwargs":
        return ("sym", None, lambda it, s_: mk("unk", "kwkey", shape=(), dt="s", deps=frozenset({("in", "kwargs")})))
    return None


for _k in ("zip", "enumerate", "product", "repeat", "count", "dfcols"):
    ITER[_k] = True


@lib("builtins.next")
def f_next(cx):
    v = cx.a(0)
    m = cx.I.itermodel(v, cx.st, cx.node)
    if m[0] == "concrete":
        if m[1]:
            return cx.I.joinalt(m[1]) if len(m[1]) > 1 and isinstance(cx.I.cell(v, cx.st), SetCell) else m[1][0]
        if cx.has(1):
            return cx.a(1)
        raise Abrupt([(cx.st, Exc("StopIteration", site=cx.I.site(cx.node)))])
    e = m[2](const(0) if m[1] is not None else mk("atom", freshatom(cx.I, cx.st, cx.node, "next", None)), cx.st)
    return cx.I.joinv(e, cx.a(1)) if cx.has(1) else e


# ------------------------------------------------------------------ dicts and sets
@lib("builtins.dict", "collections.OrderedDict", "dict.fromkeys", "builtins.dict.fromkeys")
def f_dict(cx):
    I, st = cx.I, cx.st
    if cx.name.endswith("fromkeys"):
        val = cx.a(1) if cx.has(1) else N.NONE
        m = I.itermodel(cx.a(0), st, cx.node)
        r = I.new(st, DictCell({}))
        if m[0] == "concrete":
            for k in m[1]:
                I.dict_set(r, k, val, st, cx.node)
            return r
        k = m[2](mk("atom", freshatom(I, st, cx.node, "fk", m[1])), st)
        src = I.load(cx.a(0), st) if not isinstance(I.cell(cx.a(0), st), (SetCell, LibInst)) else None
        if isinstance(src, Node) and src.rank == 1 and src.shape[0] is not None:
            u = mk("unique", src)
            at = freshatom(I, st, cx.node, "fku", u.shape[0])
            e = mk("ix", u, (("p", mk("atom", at)),))
            f = I.facets(e)
            st.heap[r.addr] = DictCell({}, (k, val), length=exn(u.shape[0]))
        else:
            st.heap[r.addr] = DictCell({}, (k, val))
        return r
    r = I.new(st, DictCell({}))
    if cx.args:
        c = I.cell(cx.a(0), st)
        if isinstance(c, DictCell):
            st.heap[r.addr] = c.clone(owners=ES)
        elif isinstance(c, LibInst) and c.cls == "kwargs":
            cx.I.kwmerge(r, cx.a(0), st)
        elif isinstance(c, LibInst) and c.cls not in ITER:
            st.heap[r.addr] = DictCell({}, (cx.unk(shape=(), dt="s", taint=False), cx.unk(taint=False)))
        else:
            m = I.itermodel(cx.a(0), st, cx.node)
            if m[0] == "concrete":
                for x in m[1]:
                    its = I.unpack_all(x, st)
                    if its is not None and len(its) == 2:
                        I.dict_set(r, its[0], its[1], st, cx.node)
            else:
                at = freshatom(I, st, cx.node, "dict", m[1])
                e = m[2](mk("atom", at), st)
                its = I.unpack_all(e, st)
                if its is not None and len(its) == 2:
                    st.heap[r.addr] = DictCell({}, (its[0], its[1]), order=at if m[1] is not None else None, length=exn(m[1]) if m[1] is not None else None)
    for k, v in cx.kw.items():
        if k != "**":
            I.dict_set(r, const(k), v, st, cx.node)
        elif isinstance(I.cell(v, st), LibInst):
            I.kwmerge(r, v, st)
    return r


@lib("collections.defaultdict")
def f_defaultdict(cx):
    r = cx.I.new(cx.st, DictCell({}))
    cx.st.heap[r.addr].factory = cx.a(0)
    return r


@lib("collections.Counter")
def f_counter(cx):
    e = cx.I.list_blur([cx.I.cell(tolist(cx.I, cx.st, cx.a(0), cx.node), cx.st)], ES) if cx.args else None
    v = mk("new", "count", *( [cx.I.load(e.summ[1], cx.st)] if e is not None and e.summ is not None else []), shape=(), dt="i", lo=S.ZERO, att0=True)
    if e is None or e.summ is None:
        return cx.I.new(cx.st, DictCell({}))
    r = cx.I.new(cx.st, DictCell({}, (e.summ[1], v)))
    return r


def dictcell(cx):
    c = cx.I.cell(cx.selfv, cx.st)
    return c if isinstance(c, DictCell) else None


@lib("dict.keys", "dict.values", "dict.items")
def m_items(cx):
    c = dictcell(cx)
    I, st = cx.I, cx.st
    if c is None:
        return cx.unk()
    nm = cx.name.split(".")[-1]
    pick = lambda k, v: k if nm == "keys" else v if nm == "values" else Tup([k, v])
    if c.summ is None:
        return I.new(st, ListCell([pick(I.unkey(k), v) for k, v in c.entries.items()]))
    k, v = c.summ
    el = pick(k, v)
    for q, x in c.entries.items():
        el = I.joinv(el, pick(I.unkey(q), x))
    L = length(I, st, cx.selfv, cx.node)
    return I.new(st, ListCell(None, (c.order if not c.entries else None, el, L)))


@lib("dict.get", "dict.pop", "dict.setdefault")
def m_get(cx):
    c = dictcell(cx)
    nm = cx.name.split(".")[-1]
    if c is None:
        cc = cx.I.cell(cx.selfv, cx.st)
        return cx.unk()
    d = cx.a(1) if cx.has(1, "default") else None
    if nm == "pop":
        cx.I.mutate(cx.selfv, cx.st, "pop", cx.node)
        v = cx.I.dictitem(cx.selfv, c, cx.a(0), cx.st, cx.node, default=d)
        k = cx.I.tokey(cx.a(0))
        if k is not None and k[1] in c.entries:
            cx.st.heap[cx.selfv.addr] = c.clone(entries={q: x for q, x in c.entries.items() if q != k[1]})
        return v
    if nm == "get":
        return cx.I.dictitem(cx.selfv, c, cx.a(0), cx.st, cx.node, default=d if d is not None else N.NONE)
    d = d if d is not None else N.NONE
    k = cx.I.tokey(cx.a(0))
    if k is not None and k[1] in c.entries:
        return c.entries[k[1]]
    cx.I.mutate(cx.selfv, cx.st, "setdefault", cx.node)
    if c.summ is None and not c.entries or k is not None and c.summ is None:
        cx.I.dict_set(cx.selfv, cx.a(0), d, cx.st, cx.node)
        return d
    cx.I.dict_set(cx.selfv, cx.a(0), d, cx.st, cx.node)
    c2 = cx.I.cell(cx.selfv, cx.st)
    v = cx.I.dictitem(cx.selfv, c2, cx.a(0), cx.st, cx.node)
    return v


@lib("dict.update")
def m_update(cx):
    c = dictcell(cx)
    if c is None:
        return
    cx.I.mutate(cx.selfv, cx.st, "update", cx.node)
    for a in cx.args:
        o = cx.I.cell(a, cx.st)
        if isinstance(o, DictCell):
            cur = cx.st.heap[cx.selfv.addr]
            sm = cur.summ
            if o.summ is not None:
                sm = o.summ if sm is None else (cx.I.joinv(sm[0], o.summ[0]), cx.I.joinv(sm[1], o.summ[1]))
            cx.st.heap[cx.selfv.addr] = cur.clone(entries={**cur.entries, **o.entries}, summ=sm)
        elif isinstance(o, LibInst) and o.cls == "kwargs":
            cx.I.kwmerge(cx.selfv, a, cx.st)
        else:
            m = cx.I.itermodel(a, cx.st, cx.node)
            if m[0] == "concrete":
                for x in m[1]:
                    its = cx.I.unpack_all(x, cx.st)
                    if its and len(its) == 2:
                        cx.I.dict_set(cx.selfv, its[0], its[1], cx.st, cx.node)
            else:
                its = cx.I.unpack_all(m[2](mk("atom", freshatom(cx.I, cx.st, cx.node, "upd", m[1])), cx.st), cx.st)
                if its and len(its) == 2:
                    cx.I.dict_set(cx.selfv, its[0], its[1], cx.st, cx.node)
    for k, v in cx.kw.items():
        cx.I.dict_set(cx.selfv, const(k), v, cx.st, cx.node)


@lib("dict.copy", "set.copy")
def m_dcopy(cx):
    c = cx.I.cell(cx.selfv, cx.st)
    return cx.I.new(cx.st, c.clone(owners=ES))


@lib("dict.popitem", "set.pop")
def m_popitem(cx):
    c = cx.I.cell(cx.selfv, cx.st)
    cx.I.mutate(cx.selfv, cx.st, "pop", cx.node)
    if isinstance(c, SetCell) and c.elem is not None:
        if cx.I.hashy(c, cx.st):
            cx.I.ev("setiter", cx.node, cx.st, ids=True, elem=c.elem)
            return cx.I.addtag(c.elem, cx.st, "setord", ("setorder", cx.I.site(cx.node)))
        return c.elem
    if isinstance(c, DictCell):
        if c.summ is not None:
            return Tup(list(c.summ))
        if c.entries:
            k, v = list(c.entries.items())[-1]
            cx.st.heap[cx.selfv.addr] = c.clone(entries={q: x for q, x in c.entries.items() if q != k})
            return Tup([cx.I.unkey(k), v])
    return cx.unk()


def to_set(I, st, v, node):
    c = I.cell(v, st)
    if isinstance(c, SetCell):
        return I.new(st, c.clone(owners=ES))
    m = I.itermodel(v, st, node)
    if m[0] == "concrete":
        if not m[1]:
            return I.new(st, SetCell(None, []))
        r = I.new(st, SetCell(I.joinalt(m[1]), list(m[1])))
        return r
    at = freshatom(I, st, node, "set", m[1])
    e = m[2](mk("atom", at), st)
    r = I.new(st, SetCell(e))
    if not (isinstance(c, LibInst)):
        n = I.load(v, st)
        if n.rank == 1 and n.op != "unk":
            st.heap[r.addr].src = n
    return r


@lib("builtins.set", "builtins.frozenset")
def f_set(cx):
    if not cx.args:
        return cx.I.new(cx.st, SetCell(None, []))
    return to_set(cx.I, cx.st, cx.a(0), cx.node)


@lib("set.add", "set.discard", "set.remove", "set.update", "set.difference_update", "set.intersection_update")
def m_setadd(cx):
    c = cx.I.cell(cx.selfv, cx.st)
    nm = cx.name.split(".")[-1]
    if not isinstance(c, SetCell):
        return
    cx.I.mutate(cx.selfv, cx.st, nm, cx.node)
    if nm == "add":
        e = cx.a(0)
        items = c.items + [e] if c.items is not None and len(c.items) < 40 else None
        cx.st.heap[cx.selfv.addr] = SetCell(e if c.elem is None else cx.I.joinv(c.elem, e), items, c.owners)
    elif nm == "update":
        for a in cx.args:
            o = cx.I.cell(to_set(cx.I, cx.st, a, cx.node), cx.st)
            c = cx.st.heap[cx.selfv.addr]
            if o.elem is not None:
                items = c.items + o.items if c.items is not None and o.items is not None else None
                cx.st.heap[cx.selfv.addr] = SetCell(o.elem if c.elem is None else cx.I.joinv(c.elem, o.elem), items, c.owners)
    else:
        cx.st.heap[cx.selfv.addr] = SetCell(c.elem, None, c.owners)


@lib("set.union", "set.intersection", "set.difference", "set.symmetric_difference")
def m_setop(cx):
    c = cx.I.cell(cx.selfv, cx.st)
    nm = cx.name.split(".")[-1]
    os_ = [cx.I.cell(to_set(cx.I, cx.st, a, cx.node), cx.st) for a in cx.args]
    if nm in ("difference", "intersection"):
        r = cx.I.new(cx.st, SetCell(c.elem, None))
        d = ES
        for o in os_:
            if o.elem is not None:
                d |= cx.I.depsof(o.elem, cx.st)
        if c.elem is not None:
            cx.st.heap[r.addr].elem = cx.I.adddeps(c.elem, d, cx.st)
        return r
    el = c.elem
    for o in os_:
        if o.elem is not None:
            el = o.elem if el is None else cx.I.joinv(el, o.elem)
    return cx.I.new(cx.st, SetCell(el, None))


@lib("set.issubset", "set.issuperset", "set.isdisjoint")
def m_setrel(cx):
    return cx.unk(taint=False, shape=(), dt="b")


# ------------------------------------------------------------------ small stdlib
@lib("copy.copy", "copy.deepcopy")
def f_copycopy(cx):
    v = cx.a(0)
    return docopy(cx.I, cx.st, v, cx.name.endswith("deepcopy"), {})


def docopy(I, st, v, deep, memo):
    if isinstance(v, Alt):
        return Alt([docopy(I, st, x, deep, memo) for x in v.vals], v.cond)
    if isinstance(v, Tup):
        return Tup([docopy(I, st, x, deep, memo) for x in v.items]) if deep else v
    if not isinstance(v, Ref):
        return v
    if v.addr in memo:
        return memo[v.addr]
    c = st.heap[v.addr]
    if isinstance(c, ArrCell):
        r = I.new(st, ArrCell(I.load(v, st)))
        memo[v.addr] = r
        return r
    r = I.new(st, c.clone(owners=ES))
    memo[v.addr] = r
    if isinstance(c, ListCell):
        if deep:
            st.heap[r.addr] = ListCell([docopy(I, st, x, deep, memo) for x in c.items] if c.items is not None else None,
                                       (c.summ[0], docopy(I, st, c.summ[1], deep, memo), c.summ[2]) if c.summ is not None else None)
        else:
            st.heap[r.addr] = c.clone(owners=ES, log=())
    elif deep and isinstance(c, DictCell):
        st.heap[r.addr] = c.clone(owners=ES, entries={k: docopy(I, st, x, deep, memo) for k, x in c.entries.items()},
                                  summ=(c.summ[0], docopy(I, st, c.summ[1], deep, memo)) if c.summ is not None else None)
    elif deep and isinstance(c, (InstCell, LibInst)):
        st.heap[r.addr] = c.clone(owners=ES, attrs={k: docopy(I, st, x, deep, memo) for k, x in c.attrs.items()})
    return r


OPS = {"lt": "lt", "le": "le", "gt": "gt", "ge": "ge", "eq": "eq", "ne": "ne"}


def _operator(cx):
    nm = cx.name.split(".")[-1].strip("_")
    if nm in OPS:
        return cx.I.relcmp(OPS[nm], cx.a(0), cx.a(1), cx.st, cx.node)
    bins = {"add": "add", "sub": "sub", "mul": "mul", "truediv": "div", "floordiv": "floordiv", "mod": "mod", "pow": "pow", "matmul": "matmul", "and": "and", "or": "or", "iadd": "add"}
    if nm in bins:
        return cx.I.binop(bins[nm], cx.a(0), cx.a(1), cx.st, cx.node)
    if nm == "itemgetter":
        return Partial(Lib("operator.__getitem"), [cx.a(0)], {})
    if nm == "attrgetter":
        return Partial(Lib("operator.__getattr"), [cx.a(0)], {})
    if nm == "getitem":
        from .evalx import Ix
        if cx.name.endswith(".__getitem"):
            return cx.I.getitem(cx.a(1), Ix(cx.a(0), None), cx.st, cx.node)
        return cx.I.getitem(cx.a(0), Ix(cx.a(1), None), cx.st, cx.node)
    if nm == "getattr":
        return cx.I.getattr(cx.a(1), cx.c(0), cx.st, cx.node)
    if nm == "neg":
        return cx.arr(mk("neg", cx.n(0)))
    if nm in ("not", "not_"):
        t, c = cx.I.truth(cx.a(0), cx.st)
        return const(not t) if t is not None else mk("not", c)
    cx.I.gap("call " + cx.name, cx.node)
    return cx.unk()


PREFIX.append(("operator.", _operator))


@lib("functools.partial")
def f_partial(cx):
    return Partial(cx.a(0), cx.args[1:], cx.kw)


@lib("functools.reduce")
def f_reduce(cx):
    m = cx.I.itermodel(cx.a(1), cx.st, cx.node)
    if m[0] == "concrete":
        xs = ([cx.a(2)] if cx.has(2) else []) + list(m[1])
        if xs:
            acc = xs[0]
            for x in xs[1:]:
                acc = cx.I.call(cx.a(0), [acc, x], {}, cx.node, cx.st)
            return acc
    return cx.unk()


@lib("functools.wraps", "functools.update_wrapper", "functools.lru_cache", "functools.cache")
def f_wraps(cx):
    if cx.name.endswith("cache"):
        return Partial("lru", [cx.a(0)], {}) if cx.args and isinstance(cx.a(0), Func) else Partial(Lib("functools.__lru"), [], {})
    return Partial(Lib("functools.__same"), [], {})


@lib("functools.__same")
def f_same(cx):
    return cx.a(0)


@lib("functools.__lru")
def f_lru(cx):
    return Partial("lru", [cx.a(0)], {})


@lib("math.gcd", "math.factorial", "math.comb", "math.perm", "math.isqrt")
def f_mathint(cx):
    return mk("fn", cx.name, tuple(cx.load(a) for a in cx.args), shape=(), dt="i", lo=S.ZERO)


@lib("math.exp", "math.erf", "math.erfc", "scipy.special.erfc", "scipy.special.erf", "scipy.special.ndtr", "scipy.special.gammaln", "scipy.special.comb", "scipy.special.factorial")
def f_erfc(cx):
    nm = cx.name.split(".")[-1]
    x = cx.n(0)
    fx = {}
    if nm == "erfc":
        fx = {"lo": S.ZERO, "hi": S.num(2)}
        if S.esign(x.ex) in ("+", "+0", "0"):
            fx["hi"] = S.ONE
    if nm == "ndtr":
        fx = {"lo": S.ZERO, "hi": S.ONE}
    return cx.arr(M.elem(cx, nm, [cx.load(a) for a in cx.args], **fx))


@lib("warnings.warn", "warnings.warn_explicit")
def f_warn(cx):
    cat = cx.a(1, "category")
    c0 = cx.I.cell(cx.a(0), cx.st)
    if cat is None and isinstance(c0, LibInst):
        cat = Lib(c0.cls)
    lvl = cx.c(2, "stacklevel", default=1)
    cx.ev("warn", category=cx.I.excname(cat, cx.st) if cat is not None and not cx.I.isnone(cat, cx.st) else "UserWarning", stacklevel=lvl, depth=len(cx.I.frames))
    return N.NONE


@lib("time.time", "time.perf_counter", "time.time_ns", "datetime.datetime.now", "datetime.date.today", "time.monotonic", "os.getpid", "uuid.uuid4", "os.urandom", "socket.gethostname",
     "datetime.datetime.utcnow", "time.process_time", "os.getenv", "os.environ.get", "time.clock", "secrets.token_hex", "random.SystemRandom", "os.cpu_count", "threading.get_ident", "tempfile.mktemp")
def f_env(cx):
    cx.ev("envread", what=cx.name)
    return mk("fn", cx.name, (), cx.I.site(cx.node)[1], shape=(), dt="f" if "time" in cx.name else None, deps=frozenset({("env", cx.name)}))


@lib("builtins.open", "io.open", "codecs.open", "pathlib.Path.open")
def f_open(cx):
    p = cx.I.load(cx.a(0, "file"), cx.st) if not isinstance(cx.a(0, "file"), (Lib,)) else cx.unk()
    mode = cx.c(1, "mode", default="r")
    cx.ev("open", path=p, mode=mode if isinstance(mode, str) else "?")
    uid = "file:%d:%d" % (getattr(cx.node, "lineno", 0), getattr(cx.node, "col_offset", 0))
    cx.st.glob[uid] = "open"
    return cx.I.new(cx.st, LibInst("file", {"path": p, "mode": const(str(mode)), "uid": const(uid)}))


@lib("numpy.savetxt", "numpy.save", "numpy.savez", "ndarray.tofile", "json.dump", "pickle.dump", "pathlib.Path.write_text", "os.remove", "os.unlink", "os.makedirs", "os.mkdir", "shutil.rmtree", "os.rename", "os.system", "subprocess.run", "tempfile.NamedTemporaryFile", "tempfile.mkstemp", "shutil.copy", "os.replace", "matplotlib.pyplot.savefig")
def f_write(cx):
    p = cx.a(0)
    c = cx.I.cell(p, cx.st)
    if isinstance(c, LibInst) and c.cls == "file":
        cx.ev("write", path=c.attrs["path"], args=cx.args)
    else:
        cx.ev("open", path=cx.I.load(p, cx.st) if p is not None else N.NONE, mode="w")
    return N.NONE


def _file_method(cx):
    c = cx.I.cell(cx.selfv, cx.st)
    nm = cx.name.split(".")[-1]
    if nm in ("write", "writelines"):
        cx.ev("write", path=c.attrs["path"], args=cx.args)
    if nm == "close":
        cx.st.glob[c.attrs["uid"].args[0]] = "closed"
    if nm in ("read", "readline"):
        return cx.unk(shape=(), dt="s")
    return N.NONE


PREFIX.append(("file.", _file_method))


@lib("packaging.version.Version", "packaging.version.parse")
def f_version(cx):
    return mk("fn", "Version", (cx.n(0),), shape=(), dt="O", deps=ES)


@lib("importlib.metadata.version", "importlib.metadata.PackageNotFoundError")
def f_pkgversion(cx):
    if cx.name.endswith("Error"):
        return cx.I.new(cx.st, LibInst("PackageNotFoundError", {}))
    return mk("fn", "pkgversion", (), shape=(), dt="s", deps=ES)


@lib("contextlib.suppress", "contextlib.nullcontext", "warnings.catch_warnings", "contextlib.redirect_stdout", "contextlib.ExitStack", "contextlib.closing")
def f_ctx(cx):
    nm = cx.name.split(".")[-1]
    names = []
    for a in cx.args:
        if isinstance(a, Lib):
            names.append(a.name.split(".")[-1])
        elif isinstance(a, Cls):
            names.append(a.name)
    return cx.I.new(cx.st, LibInst(nm, {"names": Tup([const(x) for x in names]), "v": cx.a(0) if cx.args else N.NONE}))


@lib("matplotlib.rc_context", "matplotlib.pyplot.rc_context", "matplotlib.style.context", "matplotlib.pyplot.style.context", "seaborn.axes_style", "seaborn.plotting_context", "seaborn.color_palette")
def f_rcctx(cx):
    cx.ev("extcall", name=cx.name, args=cx.args, kw=cx.kw)
    return cx.I.new(cx.st, LibInst("rcctx", {}))


def enter(I, st, v, item):
    c = I.cell(v, st)
    if isinstance(c, LibInst):
        k = c.cls
        if k == "rcctx":
            saved = st.glob.get("rc")
            st.glob["rcctx"] = st.glob.get("rcctx", 0) + 1 if isinstance(st.glob.get("rcctx", 0), int) else 1
            def ex(s):
                s.glob["rc"] = saved
                s.glob["rcctx"] = max(0, s.glob.get("rcctx", 1) - 1) if isinstance(s.glob.get("rcctx", 1), int) else 0
            return (v, ex)
        if k == "suppress":
            return (N.NONE, None, [x.args[0] for x in c.attrs["names"].items])
        if k == "catch_warnings":
            st.glob["catch"] = 1
            return (I.new(st, ListCell([])), lambda s: s.glob.__setitem__("catch", 0))
        if k == "nullcontext":
            return (c.attrs["v"], None)
        if k == "file":
            uid = c.attrs["uid"].args[0]
            st.glob[uid] = "with"
            return (v, lambda s: s.glob.__setitem__(uid, "closed"))
        if k == "ctx":
            return (N.NONE, None)
        return (v, None)
    if isinstance(c, InstCell):
        f = I.findattr(c.cls, "__enter__", st)
        g = I.findattr(c.cls, "__exit__", st)
        r = I.call(f[0].bind(v), [], {}, item.context_expr, st) if f else v
        def ex(s):
            if g:
                I.call(g[0].bind(v), [N.NONE, N.NONE, N.NONE], {}, item.context_expr, s)
        return (r, ex)
    if isinstance(c, ListCell):
        # generator-based context manager: its yielded value
        return (c.items[0] if c.items else N.NONE, None)
    return (I.unk("ctx", [v], st=st, taint=False), None)


def namedtuple_fields(I, st, cls):
    return None


@lib("collections.namedtuple")
def f_namedtuple(cx):
    f = cx.c(1)
    names = f.replace(",", " ").split() if isinstance(f, str) else list(f) if isinstance(f, tuple) else None
    if names is None:
        c = cx.I.cell(cx.a(1), cx.st)
        names = [constof(x) for x in c.items] if isinstance(c, ListCell) and c.items else []
    return Partial(Lib("collections.__nt"), [Tup([const(x) for x in names])], {})


@lib("collections.__nt")
def f_nt(cx):
    names = [x.args[0] for x in cx.a(0).items]
    attrs = dict(zip(names, cx.args[1:]))
    attrs.update(cx.kw)
    return cx.I.new(cx.st, LibInst("nt", {"names": Tup([const(x) for x in names]), **attrs}))


@lib("collections.deque")
def f_deque(cx):
    return tolist(cx.I, cx.st, cx.a(0), cx.node) if cx.args else cx.I.new(cx.st, ListCell([]))


@lib("list.popleft", "list.appendleft")
def m_popleft(cx):
    c = cx.I.cell(cx.selfv, cx.st)
    cx.args = [const(0)] + cx.args
    return m_pop(cx) if cx.name.endswith("popleft") else m_insert(cx)


# ------------------------------------------------------------------ scientific libraries
def chi2obj(cx, tail):
    x, dof = cx.n(0, "x", "q"), cx.n(1, "df")
    if cx.has(2, "loc") or cx.has(3, "scale"):
        return cx.arr(cx.unk())
    return cx.arr(mk("chi2" + tail, x, dof) if tail == "sf" else mk("chi2cdf", x, dof))


@lib("scipy.stats.chi2.cdf", "scipy.stats.distributions.chi2.cdf")
def f_chi2cdf(cx):
    return chi2obj(cx, "cdf")


@lib("scipy.stats.chi2.sf", "scipy.stats.distributions.chi2.sf")
def f_chi2sf(cx):
    return chi2obj(cx, "sf")


@lib("scipy.special.chdtrc", "scipy.special.chdtr")
def f_chdtr(cx):
    dof, x = cx.n(0), cx.n(1)
    return cx.arr(mk("chi2sf" if cx.name.endswith("c") else "chi2cdf", x, dof))


@lib("scipy.special.gammaincc", "scipy.special.gammainc")
def f_gammainc(cx):
    a, x = cx.n(0), cx.n(1)
    two = const(2)
    return cx.arr(mk("chi2sf" if cx.name.endswith("cc") else "chi2cdf", mk("mul", x, two), mk("mul", a, two)))


@lib("scipy.stats.chi2")
def f_chi2frozen(cx):
    return cx.I.new(cx.st, LibInst("chi2frozen", {"df": cx.a(0, "df")}))


@lib("scipy.stats.rankdata", "scipy.stats.mstats.rankdata", "scipy.stats.stats.rankdata")
def f_rankdata(cx):
    x = cx.n(0, "a", "data")
    meth = cx.c(1, "method", default="average") if "mstats" not in cx.name else "average"
    axis = cx.c(None, "axis") if "mstats" not in cx.name else cx.c(1, "axis")
    if axis is None and x.rank not in (1, None):
        x = mk("reshape", x, (size(x.shape),))
    return cx.arr(mk("rank", x, axis if isinstance(axis, int) else None, meth == "ordinal"))


@lib("scipy.spatial.distance.pdist")
def f_pdist(cx):
    x = cx.n(0)
    met = cx.a(1, "metric")
    n = x.shape[0] if x.shape else None
    cnt = S.div(S.mul(n, S.sub(n, S.ONE)), S.num(2)) if n is not None else None
    d = x.deps
    if isinstance(met, Func) and x.rank == 2:
        a = freshatom(cx.I, cx.st, cx.node, "pa", n)
        b = freshatom(cx.I, cx.st, cx.node, "pb", n)
        u, v = (cx.arr(mk("ix", x, (("p", mk("atom", q)),))) for q in (a, b))
        r = cx.I.load(cx.I.call(met, [u, v], {}, cx.node, cx.st), cx.st)
        d = d | r.deps
    return cx.arr(mk("fn", "pdist", (x,), cx.c(1, "metric") if isinstance(cx.c(1, "metric"), str) else "callable", shape=(cnt,), dt="f", lo=S.ZERO, deps=d, tags=frozenset({"pairs"})))


@lib("scipy.spatial.distance.squareform")
def f_squareform(cx):
    x = cx.n(0)
    n = None
    if x.op == "fn" and x.args[0] == "pdist":
        n = x.args[1][0].shape[0] if x.args[1][0].shape else None
    lo, lop, hi, hop = x.bounds()
    if x.rank == 2:
        return cx.arr(cx.unk(taint=False, dt=x.dt))
    return cx.arr(mk("fn", "squareform", (x,), shape=(n, n), dt=x.dt, lo=S.ZERO if lo is not None and S.ge0(lo) else None, hi=hi, integral=x.integral, tags=frozenset({"symm", "hollow"})))


@lib("scipy.spatial.distance.cdist")
def f_cdist(cx):
    a, b = cx.n(0), cx.n(1)
    return cx.arr(mk("fn", "cdist", (a, b), shape=(a.shape[0] if a.shape else None, b.shape[0] if b.shape else None), dt="f", lo=S.ZERO))


@lib("quantecon.MarkovChain", "quantecon.markov.MarkovChain", "quantecon.markov.core.MarkovChain")
def f_mc(cx):
    P = cx.n(0, "P")
    k = P.shape[0] if P.shape else None
    r = S.atom("rc%d" % P.id, S.ONE, k, integral=True)
    ul = lambda nm: cx.I.new(cx.st, ListCell(None, (None, cx.arr(mk("fn", nm, (P,), shape=(None,), dt="i", lo=S.ZERO, hi=S.sub(k, S.ONE) if k is not None else None)), exn(r))))
    attrs = {"P": cx.a(0, "P"), "n": exn(k) if k is not None else cx.unk(taint=False, shape=(), dt="i"),
             "is_irreducible": mk("fn", "irreducible", (P,), shape=(), dt="b"), "is_aperiodic": mk("fn", "aperiodic", (P,), shape=(), dt="b"),
             "num_recurrent_classes": exn(r), "num_communication_classes": mk("fn", "ncc", (P,), shape=(), dt="i", lo=S.ONE, hi=k),
             "period": mk("fn", "period", (P,), shape=(), dt="i", lo=S.ONE),
             "stationary_distributions": cx.arr(mk("fn", "stationary", (P,), shape=(r, k), dt="f", lo=S.ZERO, hi=S.ONE)),
             "recurrent_classes": ul("recur"), "recurrent_classes_indices": ul("recur"), "communication_classes": ul("commu"), "communication_classes_indices": ul("commu"),
             "cyclic_classes_indices": ul("cyc")}
    return cx.I.new(cx.st, LibInst("MarkovChain", attrs))


@lib("esda.moran.Moran_Local", "esda.Moran_Local")
def f_moranlocal(cx):
    y = cx.n(0, "y")
    w = cx.a(1, "w")
    perms = cx.n(3, "permutations")
    if perms is None:
        perms = const(999)
    geoda = cx.n(4, "geoda_quads")
    wn = wdeps(cx, w)
    t, _ = cx.I.truth(perms, cx.st)
    # standardising the weights: the library sets w.transform unless told otherwise
    tr = cx.a(2, "transformation")
    cx.ev("extcall", name=cx.name, args=cx.args, kw=cx.kw)
    n = y.shape[0] if y.shape else None
    base = (y, wn) + ((geoda,) if geoda is not None else ())
    q = mk("fn", "lisa_q", base, shape=(n,), dt="i", lo=S.ONE, hi=S.num(4), tags=frozenset({"quad"}))
    attrs = {"q": cx.arr(q), "y": cx.a(0), "w": w, "permutations": perms, "Is": cx.arr(mk("fn", "lisa_I", base, shape=(n,), dt="f")), "z": cx.arr(mk("fn", "lisa_z", (y,), shape=(n,), dt="f")),
             "n": exn(n) if n is not None else cx.unk(taint=False)}
    if t is not False:
        seed = cx.a(None, "seed")
        r = M.rngnode(cx, "lisa", exn(n) if n is not None else None, shape=(n,), dt="f")
        for nm in ("p_sim", "p_z_sim", "z_sim"):
            fx = {"lo": S.ZERO, "hi": S.ONE} if nm != "z_sim" else {}
            if nm == "p_sim":
                fx["lop"] = True
            attrs[nm] = cx.arr(mk("fn", nm, base + (perms, r), shape=(n,), dt="f", **fx))
    return cx.I.new(cx.st, LibInst("Moran_Local", attrs))


def wdeps(cx, w):
    """A node standing for the weights object."""
    if isinstance(w, Alt):
        w = w.vals[0]
    c = cx.I.cell(w, cx.st)
    if isinstance(c, LibInst) and c.cls == "W":
        base = c.attrs["__w"]
        t = c.attrs.get("transform")
        if isinstance(t, Node) and t.op == "const":
            return mk("fn", "wtrans", (base, t), shape=base.shape, dt="f")
        return base
    return cx.I.unk("weights", [w], st=cx.st, taint=not isinstance(c, InstCell))


@lib("libpysal.weights.lag_spatial", "libpysal.weights.spatial_lag.lag_spatial", "libpysal.weights.spatial_lag")
def f_lag(cx):
    w, y = wdeps(cx, cx.a(0, "w")), cx.n(1, "y")
    if w.shape and y.shape and w.shape[0] is not None and y.shape[0] is not None and w.shape[0] != y.shape[0]:
        cx.ev("bmis", dims=(w.shape[0], y.shape[0]), shapes=(w.shape, y.shape), a=w, b=y)
    return cx.arr(mk("lag", w, y))


@lib("libpysal.weights.lag_categorical", "libpysal.weights.spatial_lag.lag_categorical")
def f_lagcat(cx):
    w, y = wdeps(cx, cx.a(0, "w")), cx.n(1, "y")
    if w.shape and y.shape and w.shape[0] is not None and y.shape[0] is not None and w.shape[0] != y.shape[0]:
        cx.ev("bmis", dims=(w.shape[0], y.shape[0]), shapes=(w.shape, y.shape), a=w, b=y)
    ties = cx.c(2, "ties", default="tryself")
    r = None
    if ties in ("random", "tryself", NOCONST):
        r = M.rngnode(cx, "ties", exn(y.shape[0]) if y.shape and y.shape[0] is not None else None, shape=(), dt="f")
    return cx.arr(mk("lagcat", w, y, *([r] if r is not None else [])))


def mkw(I, st, name, n, idref=None):
    """A libpysal weights object with n units and arbitrary ids."""
    d = frozenset({("in", name)})
    wn = mk("in", name, shape=(n, n), dt="f", deps=d)
    idlist = mk("in", name + ".ids", shape=(n,), dt="O", deps=d, tags=frozenset({"id"}))
    at = "wi_" + name
    S.atom(at, S.ZERO, S.sub(n, S.ONE), integral=True)
    i = mk("atom", at)
    idi = mk("ix", idlist, (("p", i),))
    nbr = mk("in", name + ".nbr", i, shape=(), dt="O", deps=d, tags=frozenset({"id"}))
    nn = mk("in", name + ".card", i, shape=(), dt="i", lo=S.ZERO, hi=S.sub(n, S.ONE), deps=d)
    wg = mk("in", name + ".wij", i, shape=(), dt="f", deps=d)
    order = I.new(st, ListCell(None, (at, idi, exn(n))))
    nl = I.new(st, ListCell(None, (None, nbr, nn)))
    wl = I.new(st, ListCell(None, (None, wg, nn)))
    # the tables of neighbours are kept in the order they were given in, which need not be id_order
    ak = "wk_" + name
    S.atom(ak, S.ZERO, S.sub(n, S.ONE), integral=True)
    k = mk("atom", ak)
    kid = mk("ix", mk("in", name + ".nkeys", shape=(n,), dt="O", deps=d, tags=frozenset({"id"})), (("p", k),))
    attrs = {"n": exn(n), "__w": wn, "__idlist": idlist, "__ids": idi, "__nbr": nbr, "__nbrid": nbr, "__nn": nn, "__wgt": wg,
             "id_order": order, "neighbors": I.new(st, DictCell({}, (kid, nl), order=ak, length=exn(n))),
             "weights": I.new(st, DictCell({}, (kid, wl), order=ak, length=exn(n))),
             "id2i": I.new(st, DictCell({}, (idi, i), order=at, length=exn(n))),
             "cardinalities": I.new(st, DictCell({}, (kid, nn), order=ak, length=exn(n))),
             "transform": mk("in", name + ".transform", shape=(), dt="s", deps=d),
             "id_order_set": mk("unk", "idset", shape=(), dt="b", deps=d),
             "islands": I.new(st, ListCell(None, (None, idi, mk("in", name + ".nislands", shape=(), dt="i", lo=S.ZERO, deps=d)))),
             "s0": mk("in", name + ".s0", shape=(), dt="f", deps=d, lo=S.ZERO), "transformations": I.new(st, DictCell({}, (idi, wl))),
             "sparse": I.new(st, LibInst("sparse", {"n": wn})), "nonzero": mk("in", name + ".nnz", shape=(), dt="i", lo=S.ZERO, deps=d),
             "max_neighbors": mk("in", name + ".maxn", shape=(), dt="i", lo=S.ZERO, deps=d), "pct_nonzero": mk("in", name + ".pct", shape=(), dt="f", deps=d)}
    return I.new(st, LibInst("W", attrs))


@lib("libpysal.weights.block_weights", "libpysal.weights.util.block_weights")
def f_block(cx):
    reg = cx.n(0, "regimes")
    n = reg.shape[0] if reg.shape else None
    d = reg.deps
    nm = "bw%d" % reg.id
    wn = mk("fn", "blockw", (reg,), shape=(n, n), dt="f", lo=S.ZERO, deps=d)
    r = mkw(cx.I, cx.st, nm, n if n is not None else S.atom("nbw", S.ONE, integral=True))
    c = cx.st.heap[r.addr]
    at = dict(c.attrs)
    at["__w"] = wn
    cx.st.heap[r.addr] = c.clone(attrs=at)
    return r


@lib("libpysal.weights.full", "libpysal.weights.util.full", "W.full")
def f_wfull(cx):
    w = cx.selfv if cx.selfv is not None else cx.a(0)
    n = wdeps(cx, w)
    c = cx.I.cell(w, cx.st)
    ids = docopy(cx.I, cx.st, c.attrs["id_order"], False, {}) if isinstance(c, LibInst) and c.cls == "W" else cx.unk()
    return Tup([cx.I.new(cx.st, ArrCell(mk("fn", "wfull", (n,), shape=n.shape, dt="f"))), ids])


@lib("libpysal.weights.W", "libpysal.weights.weights.W")
def f_W(cx):
    return cx.I.new(cx.st, LibInst("W?", {}))


@lib("W.get_transform")
def f_wgt(cx):
    return cx.I.cell(cx.selfv, cx.st).attrs["transform"]


@lib("W.set_transform", "W.set_shapefile", "W.set_diagonal")
def f_wst(cx):
    cx.I.mutate(cx.selfv, cx.st, "set_transform", cx.node)


@lib("W.copy")
def f_wcopy(cx):
    return docopy(cx.I, cx.st, cx.selfv, True, {})


@lib("mapclassify.Quantiles", "mapclassify.classifiers.Quantiles", "mapclassify.EqualInterval", "mapclassify.FisherJenks", "mapclassify.NaturalBreaks", "mapclassify.Percentiles", "mapclassify.StdMean", "mapclassify.MaximumBreaks")
def f_quantiles(cx):
    y, k = cx.n(0, "y"), cx.n(1, "k")
    if k is None:
        k = const(5)
    nb = S.atom("nb%d_%d" % (y.id, k.id), S.ONE, k._ex if k._ex is not None else None, integral=True, kind="val")
    ke = k._ex
    bins = mk("fn", "qbins", (y, k), shape=(ke,), dt="f")
    n = size(y.shape)
    yb = mk("fn", "qyb", (y, k), shape=(n,), dt="i", lo=S.ZERO, hi=S.sub(ke, S.ONE) if ke is not None else None, deps=N.ordinal(y.deps | k.deps, {y.pure} if y.pure else set()), tags=frozenset({"cls"}))
    return cx.I.new(cx.st, LibInst("Classifier", {"yb": cx.arr(yb), "bins": cx.arr(bins), "counts": cx.arr(mk("fn", "qcounts", (y, k), shape=(ke,), dt="i", lo=S.ZERO)), "k": exn(ke) if ke is not None else k, "y": cx.a(0)}))


@lib("mapclassify.UserDefined", "mapclassify.User_Defined", "mapclassify.classifiers.UserDefined")
def f_userdef(cx):
    y, b = cx.n(0, "y"), cx.n(1, "bins")
    nb = b.shape[0] if b.shape else None
    n = size(y.shape)
    # a missing upper bound is added by the library
    inf = b.op == "concat" and any(N.is_const(p) or p.op in ("const", "stack", "full") for p in b.args[0])
    yb = mk("fn", "udyb", (y, b), shape=(n,), dt="i", lo=S.ZERO, hi=S.sub(nb, S.ONE) if nb is not None else None, deps=y.deps | b.deps, tags=frozenset({"cls"}))
    return cx.I.new(cx.st, LibInst("Classifier", {"yb": cx.arr(yb), "bins": cx.arr(b), "k": exn(nb) if nb is not None else cx.unk(taint=False, shape=(), dt="i"), "y": cx.a(0)}))


# ------------------------------------------------------------------ plotting and other opaque libraries
EXTERNAL = ("matplotlib.", "seaborn.", "splot.", "ipywidgets.", "geopandas.", "pandas.", "IPython.", "esda.", "libpysal.", "scipy.", "mapclassify.", "quantecon.", "statsmodels.", "networkx.", "sklearn.", "tqdm.")


def _ext(cx):
    if cx.name.startswith(("esda.", "libpysal.", "scipy.", "mapclassify.", "quantecon.")):
        cx.I.gap("call " + cx.name, cx.node)
        cx.ev("extcall", name=cx.name, args=cx.args, kw=cx.kw)
        return cx.unk()
    cx.ev("extcall", name=cx.name, args=cx.args, kw=cx.kw)
    return cx.I.new(cx.st, LibInst("ext", {"name": const(cx.name), "__a": Tup(list(cx.args) + [v for v in cx.kw.values()])}))


for _p in EXTERNAL:
    PREFIX.append((_p, _ext))


@lib("matplotlib.rcParams.copy", "matplotlib.rcParams.items")
def f_rccopy(cx):
    return cx.I.new(cx.st, LibInst("saved", {"what": const("rc"), "clean": const(cx.st.glob.get("rc") is None)}))


def libattr(I, st, v, name, node):
    if v.name == "matplotlib.pyplot" and name == "rcParams":
        return Lib("matplotlib.rcParams")
    if v.name == "numpy.ndarray" or v.name.startswith("builtins."):
        if name == "__name__":
            return const(v.name.split(".")[-1])
        if v.name in ("builtins.str", "builtins.list", "builtins.dict", "builtins.set"):
            return Lib(v.name[9:] + "." + name)
    if name == "__version__":
        return mk("fn", "version", (), v.name, shape=(), dt="s", deps=ES)
    if v.name.startswith("dtype:"):
        if name == "kind":
            d = v.name[6:]
            return const({"i": "i", "f": "f", "b": "b", "s": "U", "O": "O", "c": "c"}[d]) if d in "ifbsOc" and len(d) == 1 else mk("unk", "kind", v.name, shape=(), dt="s", deps=ES)
        if name == "type":
            return v
        return I.unk("dtypeattr", [], taint=False)
    if v.name == "os.environ":
        pass
    return None


def instattr(I, st, v, c, name, node):
    k = c.cls
    if name in c.attrs and not name.startswith("__"):
        return c.attrs[name]
    if k == "rng":
        return Lib("rng." + name, v)
    if k == "file":
        return Lib("file." + name, v)
    if k == "W":
        if name == "asymmetries":
            return I.unk("asym", [], st=st, taint=False)
        if "W." + name in REG:
            return Lib("W." + name, v)
        return I.unk("W." + name, [c.attrs["__w"]], st=st)
    if k == "sparse":
        return I.unk("sparse." + name, [c.attrs["n"]], st=st)
    if k == "chi2frozen":
        return Lib("chi2frozen." + name, v)
    if k == "nt" and name in c.attrs:
        return c.attrs[name]
    if k == "instdict":
        return Lib("instdict." + name, v)
    if k == "kwargs":
        return Lib("kwargs." + name, v)
    if k in ("Moran_Local", "MarkovChain"):
        if k == "Moran_Local" and name in ("p_sim", "p_z_sim", "z_sim", "sim", "rlisas"):
            I.ev("noattr", node, st, cls=k, name=name)
            raise Abrupt([(st, Exc("AttributeError", site=I.site(node)))])
        if k == "Moran_Local" and name in ("plot", "plot_scatter", "explore"):
            return Lib("ext.Moran_Local." + name, v)
        return I.unk(k + "." + name, [v], st=st)
    if k == "Classifier":
        return I.unk(k + "." + name, [v], st=st)
    if k == "shape":
        return I.unk("shape." + name, [], st=st, taint=False)
    if k == "df":
        if name == "columns":
            return I.new(st, LibInst("dfcols", {}))
        if name in ("values", "to_numpy"):
            return I.arr(st, c.attrs["__v"])
        return Lib("df." + name, v)
    if k == "column":
        if name == "values":
            return c.attrs["__v"]
        return Lib("column." + name, v)
    if k.startswith("builtins.") or k.endswith("Error"):
        return c.attrs.get("args", N.NONE) if name == "args" else I.unk("exc." + name, [], st=st, taint=False)
    if k == "saved":
        return Lib("saved." + name, v)
    # opaque library object
    return I.new(st, LibInst("ext", {"name": const(str(constof(c.attrs["name"]) if "name" in c.attrs else k) + "." + name), "of": v}))


def callinst(I, st, fn, c, args, kw, node):
    if c.cls == "vectorized":
        # element by element
        ns = [I.load(a, st) for a in args]
        els = [mk("new", "elem", n, **dict(N.carry(n), shape=())) if n.shape != () else n for n in ns]
        r = I.load(I.call(c.attrs["fn"], els, kw, node, st), st)
        sh = ()
        for n in ns:
            sh, _ = N.bshape(sh, n.shape) if sh is not None and n.shape is not None else (None, None)
        f = N.carry(r)
        return I.arr(st, mk("fn", "vectorized", (r,) + tuple(ns), **dict(f, shape=sh)))
    I.ev("extcall", node, st, name=str(constof(c.attrs["name"])) if "name" in c.attrs else c.cls, args=args, kw=kw)
    return I.new(st, LibInst("ext", {"name": const(str(constof(c.attrs["name"]) if "name" in c.attrs else c.cls) + "()")}))


def _extbound(cx):
    cx.ev("extcall", name=cx.name, args=cx.args, kw=cx.kw)
    return cx.I.new(cx.st, LibInst("ext", {"name": const(cx.name)}))


PREFIX.append(("ext.", _extbound))


def _chi2frozen(cx):
    df = cx.I.load(cx.I.cell(cx.selfv, cx.st).attrs["df"], cx.st)
    nm = cx.name.split(".")[-1]
    if nm in ("cdf", "sf"):
        return cx.arr(mk("chi2" + nm, cx.n(0), df))
    return cx.unk()


PREFIX.append(("chi2frozen.", _chi2frozen))


def _kwargs(cx):
    nm = cx.name.split(".")[-1]
    d = frozenset({("in", "kwargs")})
    c = cx.I.cell(cx.selfv, cx.st)
    if nm == "update" and isinstance(c, LibInst):
        at = dict(c.attrs)
        for o in [cx.I.cell(a, cx.st) for a in cx.args]:
            if isinstance(o, DictCell):
                at.update({k: v for k, v in o.entries.items() if isinstance(k, str)})
        at.update({k: v for k, v in cx.kw.items() if k != "**"})
        cx.st.heap[cx.selfv.addr] = LibInst("kwargs", at, c.owners)
        return N.NONE
    if nm in ("pop", "get", "setdefault"):
        key = cx.c(0)
        if isinstance(c, LibInst) and key in c.attrs:
            if nm == "pop":
                cx.st.heap[cx.selfv.addr] = LibInst("kwargs", {k: v for k, v in c.attrs.items() if k != key}, c.owners)
            return c.attrs[key]
        v = mk("unk", "kw:" + str(key), shape=None, deps=frozenset({("in", "kwargs"), ("opt", "kw:" + str(key))}))
        if nm == "pop":
            cx.ev("kwpop", key=key, default=cx.a(1) if len(cx.args) > 1 else None)
        if nm == "setdefault" and isinstance(c, LibInst) and isinstance(key, str) and len(cx.args) > 1:
            cx.st.heap[cx.selfv.addr] = LibInst("kwargs", {**c.attrs, key: cx.I.joinv(v, cx.a(1))}, c.owners)
        return cx.I.joinv(v, cx.a(1)) if len(cx.args) > 1 else v
    if nm == "copy":
        return cx.selfv
    return mk("unk", "kwargs." + nm, shape=None, deps=d)


PREFIX.append(("kwargs.", _kwargs))


def _instdict(cx):
    of = cx.I.cell(cx.selfv, cx.st).attrs["of"]
    nm = cx.name.split(".")[-1]
    c = cx.I.cell(of, cx.st)
    if nm == "update":
        for k, v in cx.kw.items():
            cx.I.setattr(of, k, v, cx.st, cx.node)
        for a in cx.args:
            o = cx.I.cell(a, cx.st)
            if isinstance(o, DictCell):
                for k, v in o.entries.items():
                    if isinstance(k, str):
                        cx.I.setattr(of, k, v, cx.st, cx.node)
        return N.NONE
    if nm in ("get", "pop") and isinstance(c, InstCell):
        k = cx.c(0)
        if isinstance(k, str):
            if k in c.attrs and k not in c.maybe:
                return c.attrs[k]
            if k not in c.attrs:
                return cx.a(1) if len(cx.args) > 1 else N.NONE
            return cx.I.joinv(c.attrs[k], cx.a(1) if len(cx.args) > 1 else N.NONE)
    if nm in ("keys", "items", "values") and isinstance(c, InstCell):
        pick = {"keys": lambda k, v: const(k), "values": lambda k, v: v, "items": lambda k, v: Tup([const(k), v])}[nm]
        return cx.I.new(cx.st, ListCell([pick(k, v) for k, v in c.attrs.items()]))
    return cx.unk()


PREFIX.append(("instdict.", _instdict))


def _df(cx):
    return cx.unk(deps=frozenset({("in", "gdf")}))


PREFIX.append(("df.", _df))
PREFIX.append(("column.", _df))
PREFIX.append(("saved.", lambda cx: cx.selfv))
PREFIX.append(("shape.", lambda cx: cx.unk(taint=False)))


def libitem(I, st, o, c, raw, node):
    k = c.cls
    if k == "shape":
        i = constof(I.load(raw, st)) if not isinstance(raw, Slice) else None
        return mk("new", "dim", c.attrs["of"], i if isinstance(i, int) else -99, shape=(), dt="i", lo=S.ZERO, deps=ES)
    if k == "W":
        idn = I.load(raw, st)
        I.ev("dictget", node, st, keys=[idn], dkeys=c.attrs["__ids"], owners=c.owners)
        return I.new(st, DictCell({}, (c.attrs["__nbr"], c.attrs["__wgt"])))
    if k == "instdict":
        of = c.attrs["of"]
        key = constof(I.load(raw, st))
        ic = I.cell(of, st)
        if isinstance(key, str) and isinstance(ic, InstCell):
            if key in ic.attrs:
                return ic.attrs[key]
            raise Abrupt([(st, Exc("KeyError", site=I.site(node)))])
        return None
    if k == "df":
        v = I.load(c.attrs["__v"], st)
        return I.new(st, LibInst("column", {"__v": I.arr(st, mk("ix", v, (FULL, ("p", mk("fn", "col", (I.load(raw, st),), shape=(), dt="i")))))}))
    if k == "kwargs":
        key = constof(I.load(raw, st))
        if key in c.attrs:
            return c.attrs[key]
        I.ev("kwpop", node, st, key=key, default=None)
        return mk("unk", "kw:" + str(key), shape=None, deps=frozenset({("in", "kwargs"), ("opt", "kw:" + str(key))}))
    if k in ("ext",):
        return I.new(st, LibInst("ext", {"name": const(str(constof(c.attrs["name"])) + "[]"), "of": o}))
    if k in ITER:
        r = tolist(I, st, o, node)
        from .evalx import Ix
        return I.getitem(r, Ix(raw, None), st, node)
    if k == "saved":
        return I.new(st, LibInst("saved", dict(c.attrs)))
    return None


def libsetitem(I, st, o, c, raw, v, node):
    if c.cls == "kwargs":
        key = constof(I.load(raw, st))
        at = dict(c.attrs)
        if isinstance(key, str):
            at[key] = v
        st.heap[o.addr] = LibInst("kwargs", at, c.owners)
        return True
    if c.cls == "instdict":
        key = constof(I.load(raw, st))
        if isinstance(key, str):
            I.setattr(c.attrs["of"], key, v, st, node)
            return True
    return False


def liblookup(I, st, o, raw, node):
    if isinstance(o, Lib) and o.name == "matplotlib.rcParams":
        return I.new(st, LibInst("saved", {"what": const("rc"), "clean": const(st.glob.get("rc") is None)}))
    if isinstance(o, Lib) and o.name == "os.environ":
        I.ev("envread", node, st, what="os.environ")
        return mk("fn", "environ", (), I.site(node)[1], shape=(), dt="s", deps=frozenset({("env", "os.environ")}))
    if isinstance(o, Lib) and o.name in ("numpy.r_", "numpy.c_"):
        its = raw.items if isinstance(raw, Tup) else (raw,)
        if any(isinstance(x, Slice) for x in its):
            return None
        cx = M.Cx(I, st, "numpy.hstack" if o.name.endswith("r_") else "numpy.column_stack", [Tup(list(its))], {}, node)
        return M.f_concat(cx)
    if isinstance(o, Lib) and o.name in ("numpy.s_", "numpy.index_exp"):
        return raw
    if isinstance(o, Lib) and o.name in ("typing.Optional", "typing.Union", "builtins.list", "builtins.dict", "builtins.tuple"):
        return o
    return None


def libset(I, st, o, raw, v, node):
    if isinstance(o, Lib) and o.name == "matplotlib.rcParams":
        if st.glob.get("rcctx", 0):
            return
        c = I.cell(v, st)
        key = constof(raw) if isinstance(raw, Node) else NOCONST
        if isinstance(c, LibInst) and c.cls == "saved" and c.attrs["what"].args[0] == "rc":
            if c.attrs["clean"].args[0]:
                if isinstance(key, str):
                    M.rcrestore(st, frozenset({key}))
                else:  # the settings saved are put back one by one
                    st.glob["rc"] = None
                    st.glob["rckeys"] = frozenset()
            return
        I.ev("globalcall", node, st, what="matplotlib.rcParams[...] =", fam="rc")
        M.rcchange(st, frozenset({key}) if isinstance(key, str) else None)
        st.glob["rc"] = "dirty"
        return
    if isinstance(o, Lib):
        I.ev("global", node, st, what="item of %s" % o.name, lib=o.name, attr="[]")


@lib("numpy.finfo")
def f_finfo(cx):
    import sys
    f = sys.float_info
    return cx.I.new(cx.st, LibInst("finfo", {"max": const(f.max), "min": const(-f.max), "eps": const(f.epsilon), "tiny": const(f.min), "smallest_normal": const(f.min), "resolution": const(1e-15)}))


@lib("numpy.iinfo")
def f_iinfo(cx):
    return cx.I.new(cx.st, LibInst("iinfo", {"max": const(2 ** 63 - 1), "min": const(-2 ** 63)}))

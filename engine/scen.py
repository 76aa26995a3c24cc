"""Entry-point scenarios: every public way into the package over symbolic inputs."""
import os
from . import sym as S
from . import node as N
from . import interp as IP
from . import models as _models
from . import models2 as M2
from .interp import (Interp, State, Frame, Abrupt, Tup, Ref, ArrCell, ListCell, DictCell, InstCell, LibInst, Func, Cls, Mod, Exc)
from .node import mk, const, exn


class Timeout(Exception):
    """The time of the check is up."""


class Missing(Exception):
    """A public anchor is not where the documentation says it is."""


def dim(name, lo=1, hi=None):
    return S.atom(name, S.num(lo), S.num(hi) if hi is not None else None, integral=True, kind="dim")


n_ = dim("n", 2)       # units
t_ = dim("t", 2)       # periods
k_ = dim("k", 2)       # classes
m_ = dim("m", 2)       # lag classes / regimes
P_ = dim("P", 1)       # permutations
R_ = dim("R", 2)       # regimes of units
s_ = dim("s", 2)       # sectors


class Run:
    def __init__(self, name, st, val, excs, events, start=None):
        self.name, self.st, self.val, self.excs, self.events, self.start = name, st, val, excs, events, start
        self.parent = None
        self.crashed = False

    @property
    def ok(self):
        return self.st is not None

    def exc_names(self):
        return sorted({x.name for _, x in self.excs})

    def __repr__(self):
        return "<Run %s %s>" % (self.name, "ok" if self.ok else "raises")


class Sess:
    def __init__(self, root):
        self.I = Interp(root)
        self.I.load_package()
        st = State({}, {})
        self.fr = Frame(None, "<caller>", "<user>")
        self.load_excs = []
        self.crashed = []
        for m in self.I.trees:
            self.I.import_module(m, st)
        self.base = st
        self.load_events = list(self.I.events)
        self.runs = {}

    def fork(self, st=None):
        st = st or self.base
        return State(dict(st.heap), {}, (), dict(st.glob))

    # ---------------------------------------------------------- inputs
    def arr(self, st, name, shape, dt="in", own=True, **fx):
        d = "in:" + name if dt == "in" else dt
        nd = mk("in", name, shape=tuple(shape), dt=d, deps=frozenset({("in", name)}), pure=name, **fx)
        r = self.I.new(st, ArrCell(nd))
        if own:
            self.I.own(r, "param:" + name, st)
        return r

    def scal(self, name, dt="i", ex=None, **fx):
        return mk("in", name, shape=(), dt=dt, deps=frozenset({("opt", name)}), **(dict(ex=ex, **fx) if ex is not None else fx))

    def size(self, name, ex):
        """An option that is a size, e.g. permutations=P."""
        return mk("in", "opt:" + name, shape=(), dt="i", integral=True, ex=ex, deps=frozenset({("opt", name)}))

    def string(self, name):
        return mk("in", "str:" + name, shape=(), dt="s", nz=True, deps=frozenset({("opt", name)}))

    def w(self, st, name="w", n=n_):
        r = M2.mkw(self.I, st, name, n)
        self.I.own(r, "param:" + name, st)
        return r

    def list(self, st, name, shape_len, elem):
        r = self.I.new(st, ListCell(None, (None, elem, exn(shape_len) if not isinstance(shape_len, N.Node) else shape_len)))
        self.I.own(r, "param:" + name, st)
        return r

    def kwargs(self, st):
        r = self.I.new(st, LibInst("kwargs", {}))
        self.I.own(r, "param:kwargs", st)
        return r

    def df(self, st):
        v = self.I.new(st, ArrCell(mk("in", "gdf", shape=(n_, dim("cols", 1)), dt="f", deps=frozenset({("in", "gdf")}), pure="gdf")))
        r = self.I.new(st, LibInst("df", {"__v": v}))
        self.I.own(r, "param:gdf", st)
        return r

    # ---------------------------------------------------------- calling
    def func(self, path):
        mod, _, rest = path.partition(":")
        m = self.I.modules.get(mod)
        if m is None:
            raise Missing(path)
        c = self.base.heap[m.addr]
        names = rest.split(".")
        v = c.env.get(names[0])
        if v is None:
            raise Missing(path)
        for nm in names[1:]:
            f = self.I.findattr(v, nm, self.base) if isinstance(v, Cls) else None
            if f is None:
                raise Missing(path)
            v = f[0]
        return v

    def call(self, name, fn, args, kw, st):
        """Call over the abstract state; fn is a path or a value."""
        if isinstance(fn, str):
            fn = self.func(fn)
        return self._do(name, lambda s: self.I.call(fn, list(args), dict(kw), None, s), st)

    def _do(self, name, thunk, st):
        I = self.I
        start = len(I.events)
        I.steps = 0
        s0 = self.fork(st)
        s = self.fork(st)
        depth = len(I.frames)
        crashed = False
        I.frames.append(Frame(None, "<caller>", "<user>"))
        I.loopstack = []
        try:
            v = thunk(s)
            excs = I.frames[-1].excs
        except Abrupt as a:
            v, excs = None, I.frames[-1].excs + a.excs
            s = None
        except Exception as e:      # a limit of the analysis, never of the code
            if os.environ.get("VERIF_DEBUG") or isinstance(e, Timeout):
                raise
            I.gap("analysis of %s: %s" % (name, type(e).__name__), None)
            del I.frames[depth + 1:]
            v, excs, s, crashed = None, [], None, True
        finally:
            I.frames.pop()
        r = Run(name, s, v, excs, I.events[start:], s0)
        r.crashed = crashed
        return r

    def method(self, name, run, meth, args=(), kw=None):
        r = self._do(name, lambda s: self.I.call(self.I.getattr(run.val, meth, s, None), list(args), dict(kw or {}), None, s), run.st)
        r.parent = run
        return r

    def read(self, name, run, attr, obj=None):
        r = self._do(name, lambda s: self.I.getattr(obj if obj is not None else run.val, attr, s, None), run.st)
        r.parent = run
        return r

    def ownresult(self, run, label="result"):
        if run.st is not None and run.val is not None:
            self.I.own(run.val, "result:" + label, run.st)

    def attrs(self, run, val=None):
        c = run.st.heap.get((val or run.val).addr) if isinstance(val or run.val, Ref) else None
        if isinstance(c, InstCell):
            return c.attrs
        return {}

    def node(self, run, v):
        return self.I.load(v, run.st)

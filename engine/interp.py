"""Abstract interpreter for the package under analysis (AST based, interprocedural).

It never imports or runs the analysed code.  Every function reachable from an
entry-point scenario is walked over abstract values (engine.node) and an
abstract heap with ownership; loops are summarised by header hypotheses that are
checked to be inductive.  Facts of interest are recorded as events.
"""
import ast
import os
from . import sym as S
from . import node as N
from .node import Node, mk, const, constof, NOCONST, exn, FULL, ES

UNROLL = 16
MAXDEPTH = 30


class Val:
    pass


class Ref(Val):
    __slots__ = ("addr",)

    def __init__(self, addr):
        self.addr = addr

    def __eq__(self, o):
        return isinstance(o, Ref) and o.addr == self.addr

    def __hash__(self):
        return hash(("ref", self.addr))

    def __repr__(self):
        return "Ref(%s)" % self.addr


class Tup(Val):
    __slots__ = ("items",)

    def __init__(self, items):
        self.items = tuple(items)

    def __eq__(self, o):
        return isinstance(o, Tup) and o.items == self.items

    def __hash__(self):
        return hash(("tup", self.items))

    def __repr__(self):
        return "Tup%r" % (self.items,)


class Alt(Val):
    """One of several values (cond chooses the first)."""
    __slots__ = ("vals", "cond")

    def __init__(self, vals, cond=None):
        self.vals, self.cond = tuple(vals), cond

    def __eq__(self, o):
        return isinstance(o, Alt) and o.vals == self.vals

    def __hash__(self):
        return hash(("alt", self.vals))

    def __repr__(self):
        return "Alt%r" % (self.vals,)


class Func(Val):
    def __init__(self, node, mod, qual, env=None, cls=None, selfv=None, defaults=None, kwdefaults=None):
        self.node, self.mod, self.qual, self.env, self.cls = node, mod, qual, env, cls
        self.selfv, self.defaults, self.kwdefaults = selfv, defaults or [], kwdefaults or {}

    def bind(self, v):
        return Func(self.node, self.mod, self.qual, self.env, self.cls, v, self.defaults, self.kwdefaults)

    def __eq__(self, o):
        return isinstance(o, Func) and o.node is self.node and o.selfv == self.selfv

    def __hash__(self):
        return hash(id(self.node))

    def __repr__(self):
        return "Func(%s)" % self.qual


class Cls(Val):
    def __init__(self, name, mod, node, bases, addr):
        self.name, self.mod, self.node, self.bases, self.addr = name, mod, node, bases, addr

    def __repr__(self):
        return "Cls(%s)" % self.name

    def mro(self):
        out = [self]
        for b in self.bases:
            if isinstance(b, Cls):
                out += [x for x in b.mro() if x not in out]
        return out


class Super(Val):
    def __init__(self, cls, selfv):
        self.cls, self.selfv = cls, selfv


class Mod(Val):
    """A module of the package."""
    def __init__(self, name, addr):
        self.name, self.addr = name, addr

    def __repr__(self):
        return "Mod(%s)" % self.name


class Lib(Val):
    """Something from outside the package, by qualified name."""
    __slots__ = ("name", "bound")

    def __init__(self, name, bound=None):
        self.name, self.bound = name, bound

    def __eq__(self, o):
        return isinstance(o, Lib) and o.name == self.name and o.bound == self.bound

    def __hash__(self):
        return hash(("lib", self.name))

    def __repr__(self):
        return "Lib(%s)" % self.name


class Slice(Val):
    def __init__(self, a, b, c):
        self.a, self.b, self.c = a, b, c


class Partial(Val):
    def __init__(self, fn, args, kw):
        self.fn, self.args, self.kw = fn, args, kw


# ------------------------------------------------------------------ heap cells
class Cell:
    owners = ES

    def clone(self, **kw):
        c = object.__new__(type(self))
        c.__dict__.update(self.__dict__)
        c.__dict__.update(kw)
        return c


class ArrCell(Cell):
    def __init__(self, node, base=None, view=None, owners=ES):
        self.node, self.base, self.view, self.owners = node, base, view, owners


class ListCell(Cell):
    """items: concrete prefix (list) or None; summ: (atom, elem, length Node)."""
    def __init__(self, items=None, summ=None, owners=ES, log=()):
        self.items, self.summ, self.owners, self.log = items, summ, owners, log


class DictCell(Cell):
    def __init__(self, entries=None, summ=None, owners=ES, order=None, length=None):
        self.entries, self.summ, self.owners = entries if entries is not None else {}, summ, owners
        self.order, self.length = order, length


class SetCell(Cell):
    def __init__(self, elem=None, items=None, owners=ES, ids=False):
        self.elem, self.items, self.owners, self.ids = elem, items, owners, ids


# inputs that hold labels (possibly strings), so that a set of them is hash-ordered
LABELS = {"in:class_ids", "in:classes", "in:regime", "in:y"}


class InstCell(Cell):
    def __init__(self, cls, attrs=None, maybe=ES, owners=ES):
        self.cls, self.attrs, self.maybe, self.owners = cls, attrs if attrs is not None else {}, maybe, owners


class ModCell(Cell):
    def __init__(self, name, env, owners=ES):
        self.name, self.env, self.owners = name, env, owners


class ClsCell(Cell):
    def __init__(self, name, attrs, owners=ES):
        self.name, self.attrs, self.owners = name, attrs, owners


class LibInst(Cell):
    def __init__(self, cls, attrs, owners=ES):
        self.cls, self.attrs, self.owners = cls, attrs, owners


class State:
    __slots__ = ("heap", "env", "pc", "glob")

    def __init__(self, heap, env, pc=(), glob=None):
        self.heap, self.env, self.pc, self.glob = heap, env, pc, glob if glob is not None else {}

    def fork(self, cond=None, truth=None):
        return State(dict(self.heap), dict(self.env), self.pc + (((cond, truth),) if cond is not None else ()), dict(self.glob))

    def become(self, o):
        self.heap, self.env, self.pc, self.glob = o.heap, o.env, o.pc, o.glob


class Out:
    def __init__(self, st=None):
        self.st = st
        self.rets, self.brks, self.conts, self.excs = [], [], [], []

    def absorb(self, o):
        self.rets += o.rets
        self.brks += o.brks
        self.conts += o.conts
        self.excs += o.excs


class Exc:
    def __init__(self, name, val=None, site=None, args=()):
        self.name, self.val, self.site, self.args = name, val, site, args

    def __repr__(self):
        return "Exc(%s@%s)" % (self.name, self.site)


class Abrupt(Exception):
    def __init__(self, excs):
        self.excs = excs


class Event:
    def __init__(self, kind, site, func, info, stack, pc):
        self.kind, self.site, self.func, self.info, self.stack, self.pc = kind, site, func, info, stack, pc

    def __getattr__(self, k):
        try:
            return self.__dict__["info"][k]
        except KeyError:
            raise AttributeError(k)

    def where(self):
        return "%s:%s (%s)" % (self.site[0], self.site[1], self.func)

    def __repr__(self):
        return "<%s %s %s>" % (self.kind, self.where(), {k: v for k, v in self.info.items()})


class Frame:
    def __init__(self, func, qual, mod):
        self.func, self.qual, self.mod = func, qual, mod
        self.excs = []
        self.loops = []
        self.tries = []


def litstr(n):
    c = constof(n) if isinstance(n, Node) else NOCONST
    return c if isinstance(c, str) else None


class Interp:
    def __init__(self, root, package="giddy"):
        self.root, self.package = root, package
        self.sources, self.trees = {}, {}
        self.events = []
        self.addr = 0
        self.frames = []
        self.uidmap = {}
        self.rngcount = {}
        self.funcs_seen, self.calls_seen, self.gaps = set(), 0, {}
        self.sites = set()
        self.steps = 0
        self.loopstack = []
        self.hdrmode = 0
        self.unkcount = {}
        self.state0 = None
        self.modstate = State({}, {})
        self.modules = {}
        from . import models
        self.M = models
        models.init(self)

    # ---------------------------------------------------------------- utilities
    def new(self, st, cell):
        self.addr += 1
        st.heap[self.addr] = cell
        return Ref(self.addr)

    def arr(self, st, node, base=None, view=None):
        if not isinstance(node, Node):
            return node
        if base is None and (node.shape == () and node.dt != "O"):
            return node
        return self.new(st, ArrCell(node, base, view))

    def site(self, node=None):
        f = self.frames[-1] if self.frames else None
        ln = getattr(node, "lineno", None) if node is not None else None
        if ln is None:
            ln = getattr(self, "curline", 0)
        return (f.mod if f else "?", ln)

    def skey(self, node):
        """Key of a construct that does not depend on line numbers elsewhere."""
        f = self.frames[-1]
        return (f.mod, f.qual, getattr(node, "lineno", 0), getattr(node, "col_offset", 0))

    # the exception behind an event that reports a failing operation
    RAISES = {"noattr": "AttributeError", "badattr": "AttributeError", "undef": "NameError", "badcall": "TypeError", "ixconst": "IndexError",
              "unpackmis": "ValueError", "keymiss": "KeyError", "bmis": "ValueError"}

    def ev(self, kind, node=None, st=None, **info):
        f = self.frames[-1] if self.frames else None
        exn = self.RAISES.get(kind)
        if exn and any(self.catches(h, exn, st) for fr in self.frames for tr in fr.tries for h in tr["node"].handlers):
            kind = "caught " + kind  # an enclosing handler deals with it: not a failure
        e = Event(kind, self.site(node), f.qual if f else "?", info,
                  tuple(fr.qual for fr in self.frames), st.pc if st is not None else ())
        e.__dict__["loops"] = tuple(self.loopstack)
        e.__dict__["text"] = self.text(node)
        self.events.append(e)
        return e

    def text(self, node):
        try:
            return ast.unparse(node)[:120] if node is not None else ""
        except Exception:
            return ""

    def gap(self, what, node=None):
        self.gaps[what] = self.gaps.get(what, 0) + 1

    def unk(self, name, args=(), node=None, st=None, taint=True, **fx):
        """Result of something not modelled: depends on all its arguments."""
        nodes = []
        for a in args:
            nodes += self.flatnodes(a, st)
        d = ES
        for x in nodes:
            d |= x.deps
        if taint:
            d = d | frozenset({("unk", name)})
        fx.setdefault("shape", None)
        return mk("unk", name, tuple(nodes), deps=d, **fx)

    def flatnodes(self, v, st, depth=0, seen=None):
        if seen is None:
            seen = set()
        if isinstance(v, Node):
            return [v]
        if depth > 6 or st is None:
            return []
        if isinstance(v, Tup):
            return [n for x in v.items for n in self.flatnodes(x, st, depth + 1, seen)]
        if isinstance(v, Alt):
            return [n for x in v.vals for n in self.flatnodes(x, st, depth + 1, seen)]
        if isinstance(v, Slice):
            return [n for x in (v.a, v.b, v.c) for n in self.flatnodes(x, st, depth + 1, seen)]
        if isinstance(v, Ref):
            if v.addr in seen:
                return []
            seen.add(v.addr)
            c = st.heap.get(v.addr)
            if isinstance(c, ArrCell):
                return [self.load(v, st)]
            if isinstance(c, ListCell):
                out = []
                if c.items is not None:
                    for x in c.items:
                        out += self.flatnodes(x, st, depth + 1, seen)
                if c.summ is not None:
                    out += self.flatnodes(c.summ[1], st, depth + 1, seen)
                return out
            if isinstance(c, DictCell):
                out = []
                for k, x in c.entries.items():
                    out += self.flatnodes(x, st, depth + 1, seen)
                if c.summ is not None:
                    out += self.flatnodes(c.summ[0], st, depth + 1, seen) + self.flatnodes(c.summ[1], st, depth + 1, seen)
                return out
            if isinstance(c, SetCell):
                return self.flatnodes(c.elem, st, depth + 1, seen) if c.elem is not None else []
            if isinstance(c, (InstCell, LibInst)):
                return [n for x in c.attrs.values() for n in self.flatnodes(x, st, depth + 1, seen)]
        return []

    def depsof(self, v, st):
        d = ES
        for n in self.flatnodes(v, st):
            d |= n.deps
        return d

    # ---------------------------------------------------------------- loading values
    def cell(self, v, st):
        return st.heap.get(v.addr) if isinstance(v, Ref) else None

    def load(self, v, st):
        """Numeric Node of any value (lists become arrays)."""
        if isinstance(v, Node):
            return v
        if isinstance(v, Alt):
            ns = [self.load(x, st) for x in v.vals]
            ns = [n for n in ns if not (n.op == "const" and n.args[0] is None)] or ns
            if len(ns) == 1:
                return ns[0]
            if v.cond is not None and len(ns) == 2:
                return mk("sel", v.cond, ns[0], ns[1])
            return mk("join", *ns)
        if isinstance(v, Tup):
            return self.stacked([self.load(x, st) for x in v.items])
        if isinstance(v, Ref):
            c = st.heap.get(v.addr)
            if isinstance(c, ArrCell):
                if c.base is not None and c.base in st.heap:
                    b = self.load(Ref(c.base), st)
                    return c.view(b)
                return c.node
            if isinstance(c, ListCell):
                return self.list_node(c, st)
            if isinstance(c, (LibInst, InstCell)):
                return self.unk("object", [v], st=st, taint=False)
            if isinstance(c, SetCell):
                e = self.load(c.elem, st) if c.elem is not None else const(0)
                return mk("unk", "set", (e,), shape=(None,), deps=e.deps, tags=e.tags)
            if isinstance(c, DictCell):
                return self.unk("dict", [v], st=st, taint=False)
        if isinstance(v, (Lib, Func, Cls, Mod)):
            return self.unk(repr(v), [], taint=isinstance(v, Lib))
        return self.unk("value", [v], st=st)

    def stacked(self, ns):
        if ns and all(n.op == "ix" and n.args[1] and n.args[1][0][0] == "p" for n in ns):
            pass
        return mk("stack", tuple(ns))

    def list_node(self, c, st):
        if c.items is not None and c.summ is None:
            return self.stacked([self.load(x, st) for x in c.items])
        if c.summ is not None:
            atom, elem, length = c.summ
            e = self.load(elem, st)
            L = length._ex if isinstance(length, Node) and length._ex is not None else (length.ex if isinstance(length, Node) else None)
            if c.items:
                pre = [self.load(x, st) for x in c.items]
                if L is not None and atom is not None:
                    try:
                        return mk("concat", (self.stacked(pre), mk("seq", 0, atom, L, e)), 0)
                    except Exception:
                        pass
                j = mk("join", e, *pre)
                return mk("new", "list", j, **dict(N.carry(j), shape=((S.add(L, S.num(len(pre))) if L is not None else None),) + (j.shape or ()) if j.shape is not None else None, deps=j.deps))
            if atom is None:
                return mk("new", "list", e, length, **dict(N.carry(e), shape=(L,) + e.shape if e.shape is not None else None, deps=e.deps | length.deps))
            return mk("seq", 0, atom, L, e)
        return mk("unk", "list", (), shape=(None,))

    # ---------------------------------------------------------------- joins
    def joinv(self, a, b, cond=None, sts=None):
        if a is b:
            return a
        if type(a) is type(b) and not isinstance(a, Node) and a == b:
            return a
        if isinstance(a, Node) and isinstance(b, Node):
            na = a.op == "const" and a.args[0] is None
            nb = b.op == "const" and b.args[0] is None
            if na or nb:
                return Alt((a, b), cond)
            if (a.dt == "s") != (b.dt == "s"):
                return Alt((a, b), cond)
            if cond is not None:
                return mk("sel", cond, a, b)
            return mk("join", *sorted((a, b), key=lambda n: n.id))
        if isinstance(a, Tup) and isinstance(b, Tup) and len(a.items) == len(b.items):
            return Tup([self.joinv(x, y, cond) for x, y in zip(a.items, b.items)])
        va = a.vals if isinstance(a, Alt) else (a,)
        vb = b.vals if isinstance(b, Alt) else (b,)
        out = []
        for x in va + vb:
            if not any(x is y or (type(x) is type(y) and not isinstance(x, Node) and x == y) for y in out):
                out.append(x)
        # merge numeric alternatives
        nums = [x for x in out if isinstance(x, Node) and not (x.op == "const" and x.args[0] is None)]
        if len(nums) > 1:
            out = [x for x in out if not (isinstance(x, Node) and x in nums)] + [mk("join", *sorted(nums, key=lambda n: n.id))]
        if len(out) > 6:
            out = out[:6]
        if len(out) == 1:
            return out[0]
        return Alt(out, cond if not isinstance(a, Alt) and not isinstance(b, Alt) else None)

    def joincell(self, a, b, cond):
        if a is b:
            return a
        if type(a) is not type(b):
            return a
        ow = a.owners | b.owners
        if isinstance(a, ArrCell):
            if a.base is not None:
                return a
            return a.clone(node=self.joinv(a.node, b.node, cond), owners=ow)
        if isinstance(a, InstCell):
            attrs, maybe = {}, a.maybe | b.maybe
            for k in list(a.attrs) + [k for k in b.attrs if k not in a.attrs]:
                if k in a.attrs and k in b.attrs:
                    attrs[k] = self.joinv(a.attrs[k], b.attrs[k], cond)
                else:
                    attrs[k] = a.attrs.get(k, b.attrs.get(k))
                    maybe = maybe | {k}
            return a.clone(attrs=attrs, maybe=maybe, owners=ow)
        if isinstance(a, ListCell):
            if a.items is not None and b.items is not None and a.summ is None and b.summ is None:
                if len(a.items) == len(b.items):
                    return a.clone(items=[self.joinv(x, y, cond) for x, y in zip(a.items, b.items)], owners=ow, log=())
            return self.list_blur([a, b], ow)
        if isinstance(a, DictCell):
            ent = {}
            for k in list(a.entries) + [k for k in b.entries if k not in a.entries]:
                if k in a.entries and k in b.entries:
                    ent[k] = self.joinv(a.entries[k], b.entries[k], cond)
                else:
                    ent[k] = a.entries.get(k, b.entries.get(k))
            sm = a.summ
            if b.summ is not None:
                sm = b.summ if sm is None else tuple(self.joinv(x, y) for x, y in zip(sm, b.summ))
            return a.clone(entries=ent, summ=sm, owners=ow)
        if isinstance(a, SetCell):
            e = a.elem if b.elem is None else (b.elem if a.elem is None else self.joinv(a.elem, b.elem, cond))
            return a.clone(elem=e, items=None, owners=ow, ids=a.ids or b.ids)
        if isinstance(a, (ModCell,)):
            env = {k: (self.joinv(a.env[k], b.env[k], cond) if k in b.env and k in a.env else a.env.get(k, b.env.get(k)))
                   for k in set(a.env) | set(b.env)}
            return a.clone(env=env)
        if isinstance(a, (LibInst, ClsCell)):
            attrs = {k: (self.joinv(a.attrs[k], b.attrs[k], cond) if k in b.attrs and k in a.attrs else a.attrs.get(k, b.attrs.get(k)))
                     for k in list(a.attrs) + [k for k in b.attrs if k not in a.attrs]}
            return a.clone(attrs=attrs, owners=ow)
        return a

    def list_blur(self, cells, owners):
        elem, los, his = None, [], []
        for c in cells:
            n = len(c.items or [])
            for x in (c.items or []):
                elem = x if elem is None else self.joinv(elem, x)
            if c.summ is not None:
                elem = c.summ[1] if elem is None else self.joinv(elem, c.summ[1])
                L = c.summ[2]
                b = L.bounds()
                los.append(S.add(b[0], S.num(n)) if b[0] is not None else None)
                his.append(S.add(b[2], S.num(n)) if b[2] is not None else None)
            else:
                los.append(S.num(n))
                his.append(S.num(n))
        lo, hi = los[0], his[0]
        for x in los[1:]:
            lo = N.emin(lo, x)
        for x in his[1:]:
            hi = N.emax(hi, x)
        if lo is None:
            lo = S.ZERO
        L = mk("new", "len", tuple(c.summ[2] if c.summ else const(len(c.items or [])) for c in cells), shape=(), dt="i", lo=lo, hi=hi)
        if elem is None:
            return ListCell(items=[], owners=owners)
        return ListCell(items=None, summ=(None, elem, L), owners=owners)

    def splitcond(self, s1, s2):
        """Condition that separates two states (true for s1), if they split on one."""
        for (c1, t1), (c2, t2) in zip(s1.pc, s2.pc):
            if c1 is c2 and t1 == t2:
                continue
            if c1 is c2 and t1 is not t2 and isinstance(c1, Node):
                return c1 if t1 else mk("not", c1)
            return None
        return None

    def join(self, s1, s2):
        if s1 is None:
            return s2
        if s2 is None:
            return s1
        cond = self.splitcond(s1, s2)
        heap = {}
        h1, h2 = s1.heap, s2.heap
        for k, c in h1.items():
            d = h2.get(k)
            heap[k] = c if d is None or d is c else self.joincell(c, d, cond)
        for k, d in h2.items():
            if k not in h1:
                heap[k] = d
        env = {}
        for k, v in s1.env.items():
            if k in s2.env:
                env[k] = self.joinv(v, s2.env[k], cond)
            else:
                env[k] = v
        for k, v in s2.env.items():
            if k not in s1.env:
                env[k] = v
        pc = []
        for a, b in zip(s1.pc, s2.pc):
            if a[0] is b[0] and a[1] == b[1]:
                pc.append(a)
            else:
                break
        glob = dict(s1.glob)
        for k, v in s2.glob.items():
            if k not in glob:
                glob[k] = v
            elif glob[k] != v:
                glob[k] = ("mixed",) + tuple(sorted((repr(glob[k]), repr(v))))
        for k in s1.glob:
            if k not in s2.glob and s1.glob[k] is not None:
                glob[k] = s1.glob[k]
        return State(heap, env, tuple(pc), glob)

    def joinall(self, sts):
        out = None
        for s in sts:
            out = s if out is None else self.join(out, s)
        return out

    # ---------------------------------------------------------------- modules
    def load_package(self):
        base = os.path.join(self.root, self.package)
        for fn in sorted(os.listdir(base)):
            if fn.endswith(".py"):
                p = os.path.join(base, fn)
                src = open(p, encoding="utf-8").read()
                nm = self.package + ("." + fn[:-3] if fn != "__init__.py" else "")
                self.sources[nm] = src
                self.trees[nm] = ast.parse(src, p)

    def import_module(self, name, st):
        if name in self.modules:
            return self.modules[name]
        if name not in self.trees:
            return None
        ref = self.new(st, ModCell(name, {"__name__": const(name)}))
        m = Mod(name, ref.addr)
        self.modules[name] = m
        saved = st.env, st.pc, list(self.loopstack)
        st.env, st.pc, self.loopstack = {}, (), []
        fr = Frame(None, "<module>", name)
        fr.modaddr = ref.addr
        self.frames.append(fr)
        s2 = st
        s2.env = {"__modscope__": const(name)}
        self.curmod = name
        try:
            out = self.block(self.trees[name].body, s2)
            if out.st is not None:
                s2.become(out.st)
        except Abrupt:
            self.gap("module body raises: " + name)
        self.frames.pop()
        env = {k: v for k, v in s2.env.items() if k != "__modscope__"}
        mc = s2.heap[ref.addr]
        s2.heap[ref.addr] = mc.clone(env=dict(mc.env, **env))
        # ownership of module globals
        for k, v in env.items():
            self.own(v, "global:%s.%s" % (name, k), s2)
        st.env, st.pc, self.loopstack = saved[0], saved[1], saved[2]
        return m

    def own(self, v, owner, st, depth=0, seen=None):
        """Mark every object reachable from v as owned by someone outside the current call."""
        if seen is None:
            seen = set()
        if isinstance(v, (Tup, Alt)):
            for x in (v.items if isinstance(v, Tup) else v.vals):
                self.own(x, owner, st, depth + 1, seen)
            return
        if not isinstance(v, Ref) or v.addr in seen or depth > 8:
            return
        seen.add(v.addr)
        c = st.heap.get(v.addr)
        if c is None:
            return
        if isinstance(c, ArrCell) and c.base is not None:
            self.own(Ref(c.base), owner, st, depth + 1, seen)
        st.heap[v.addr] = c.clone(owners=c.owners | {owner})
        if isinstance(c, ListCell):
            for x in (c.items or []):
                self.own(x, owner, st, depth + 1, seen)
            if c.summ is not None:
                self.own(c.summ[1], owner, st, depth + 1, seen)
        elif isinstance(c, DictCell):
            for x in c.entries.values():
                self.own(x, owner, st, depth + 1, seen)
            if c.summ is not None:
                self.own(c.summ[1], owner, st, depth + 1, seen)
        elif isinstance(c, (LibInst,)):
            for x in c.attrs.values():
                self.own(x, owner, st, depth + 1, seen)

    def mutate(self, v, st, how, node=None, **info):
        """Record an in-place change of the object v refers to."""
        if isinstance(v, Alt):
            for x in v.vals:
                self.mutate(x, st, how, node, **info)
            return
        if not isinstance(v, Ref):
            return
        a, seen = v.addr, 0
        owners = ES
        while a in st.heap and seen < 10:
            c = st.heap[a]
            owners |= c.owners
            if isinstance(c, ArrCell) and c.base is not None:
                a = c.base
                seen += 1
            else:
                break
        if owners:
            self.ev("mutate", node, st, owners=owners, how=how, **info)

    # ---------------------------------------------------------------- statements
    def block(self, stmts, st):
        out = Out(st)
        for s in stmts:
            if out.st is None:
                break
            o = self.stmt(s, out.st)
            out.absorb(o)
            out.st = o.st
        return out

    def stmt(self, s, st):
        self.steps += 1
        if self.steps > 400000:
            raise RuntimeError("analysis budget exceeded")
        self.curline = getattr(s, "lineno", 0)
        m = getattr(self, "s_" + type(s).__name__, None)
        if m is None:
            self.gap("statement " + type(s).__name__)
            return Out(st)
        try:
            r = m(s, st)
            return r if r is not None else Out(st)
        except Abrupt as a:
            o = Out(None)
            o.excs = a.excs
            return o

    def s_Expr(self, s, st):
        if isinstance(s.value, ast.Constant):
            return
        self.eval(s.value, st)

    def s_Pass(self, s, st):
        return

    def s_Global(self, s, st):
        st.env.setdefault("__globals__", Tup([]))
        st.env["__globals__"] = Tup(st.env["__globals__"].items + tuple(const(n) for n in s.names))

    s_Nonlocal = s_Global

    def s_Import(self, s, st):
        for a in s.names:
            self.ev("import" if a.name.split(".")[0] != self.package else "intimport", s, st, name=a.name)
            top = a.name if a.asname else a.name.split(".")[0]
            v = self.import_module(a.name, st) if a.name.split(".")[0] == self.package else None
            if a.name.split(".")[0] == self.package and not a.asname:
                v = self.import_module(self.package, st)
            st.env[a.asname or top] = v or Lib(top)

    def s_ImportFrom(self, s, st):
        fr = self.frames[-1]
        if s.level:
            parts = fr.mod.split(".")
            if fr.mod != self.package:
                parts = parts[:-1]
            parts = parts[:len(parts) - (s.level - 1)]
            modname = ".".join(parts + ([s.module] if s.module else []))
        else:
            modname = s.module
        if modname == "__future__":
            return
        inner = modname.split(".")[0] == self.package
        if not inner:
            self.ev("import", s, st, name=modname)
        for a in s.names:
            if inner:
                self.ev("intimport", s, st, name=modname + "." + a.name if modname + "." + a.name in self.trees else modname)
                sub = self.import_module(modname + "." + a.name, st) if modname + "." + a.name in self.trees else None
                if sub is not None:
                    st.env[a.asname or a.name] = sub
                    continue
                m = self.import_module(modname, st)
                if m is None:
                    self.gap("import " + modname)
                    continue
                c = st.heap[m.addr]
                if a.name == "*":
                    for k, v in c.env.items():
                        if not k.startswith("_"):
                            st.env[k] = v
                    continue
                if a.name in c.env:
                    st.env[a.asname or a.name] = c.env[a.name]
                else:
                    self.ev("badimport", s, st, name=modname + "." + a.name)
                    st.env[a.asname or a.name] = Lib(modname + "." + a.name)
            else:
                st.env[a.asname or a.name] = self.M.libname(modname + "." + a.name)

    def s_FunctionDef(self, s, st):
        fr = self.frames[-1]
        q = s.name if fr.qual == "<module>" else fr.qual + "." + s.name
        f = Func(s, fr.mod, q, env=None if fr.qual == "<module>" else st.env, defaults=[self.default(d, st, q, i) for i, d in enumerate(s.args.defaults)],
                 kwdefaults={a.arg: self.default(d, st, q, a.arg) for a, d in zip(s.args.kwonlyargs, s.args.kw_defaults) if d is not None})
        v = f
        for d in reversed(s.decorator_list):
            v = self.decorate(d, v, st)
        self.setname(s.name, v, st)

    s_AsyncFunctionDef = s_FunctionDef

    def default(self, d, st, q, i):
        v = self.eval(d, st)
        self.own(v, "default:%s.%s" % (q, i), st)
        return v

    def decorate(self, d, f, st):
        nm = ast.unparse(d)
        base = nm.split("(")[0]
        if base in ("property", "functools.cached_property", "cached_property"):
            r = Partial("property", [f], {"cached": const(base != "property")})
            return r
        if base in ("staticmethod", "classmethod"):
            return Partial(base, [f], {})
        if base.endswith(".setter") or base.endswith(".deleter"):
            return f
        if base in ("functools.lru_cache", "lru_cache", "functools.cache", "cache"):
            return Partial("lru", [f], {})
        if base in ("functools.wraps", "wraps"):
            return f
        dv = self.eval(d, st)
        if isinstance(dv, (Func, Partial)):
            return self.call(dv, [f], {}, d, st)
        self.gap("decorator " + nm)
        return f

    def s_ClassDef(self, s, st):
        fr = self.frames[-1]
        bases = [self.eval(b, st) for b in s.bases]
        saved = st.env
        st.env = dict(saved)
        sub = Frame(None, s.name, fr.mod)
        sub.isclass = True
        before = set(st.env)
        sub.classdef = s.name
        ref = self.new(st, ClsCell(s.name, {}))
        cls = Cls(s.name, fr.mod, s, bases, ref.addr)
        st.env = {"__parent__": const(None)}
        st.env["__modscope__"] = saved.get("__modscope__", const(""))
        par = saved
        self.frames.append(sub)
        self.classenv = par
        st.env.update({k: v for k, v in saved.items() if k not in st.env})
        base_env = dict(st.env)
        out = self.block(s.body, st)
        if out.st is not None:
            st.become(out.st)
        self.frames.pop()
        attrs = {}
        for k, v in st.env.items():
            if k in ("__parent__", "__modscope__"):
                continue
            if k not in base_env or base_env[k] is not v:
                attrs[k] = v
        for n in s.body:
            nm = getattr(n, "name", None)
            if nm and nm in st.env:
                attrs[nm] = st.env[nm]
        for k, v in attrs.items():
            f = v.args[0] if isinstance(v, Partial) and v.args and isinstance(v.args[0], Func) else v
            if isinstance(f, Func):
                f.cls = cls
                f.qual = s.name + "." + k
                f.env = None if fr.qual == "<module>" else saved
            else:
                self.own(v, "class:%s.%s" % (s.name, k), st)
        st.heap[ref.addr] = ClsCell(s.name, attrs, frozenset({"class:" + s.name}))
        st.env = saved
        self.setname(s.name, cls, st)

    def setname(self, name, v, st):
        g = st.env.get("__globals__")
        if g is not None and any(constof(x) == name for x in g.items):
            m = self.modules.get(self.frames[-1].mod)
            if m is not None:
                self.ev("globalset", None, st, name=name)
                c = st.heap[m.addr]
                st.heap[m.addr] = c.clone(env=dict(c.env, **{name: v}))
                return
        st.env[name] = v

    def s_Return(self, s, st):
        v = self.eval(s.value, st) if s.value is not None else N.NONE
        o = Out(None)
        o.rets.append((st, v))
        return o

    def s_Break(self, s, st):
        o = Out(None)
        o.brks.append(st)
        return o

    def s_Continue(self, s, st):
        o = Out(None)
        o.conts.append(st)
        return o

    def s_Delete(self, s, st):
        for t in s.targets:
            if isinstance(t, ast.Name):
                st.env.pop(t.id, None)
            elif isinstance(t, ast.Attribute):
                v = self.eval(t.value, st)
                c = self.cell(v, st)
                if isinstance(c, InstCell):
                    st.heap[v.addr] = c.clone(attrs={k: x for k, x in c.attrs.items() if k != t.attr}, maybe=c.maybe - {t.attr})
                else:
                    self.mutate(v, st, "del ." + t.attr, s)
            elif isinstance(t, ast.Subscript):
                v = self.eval(t.value, st)
                self.eval_index(t.slice, st)
                self.mutate(v, st, "del item", s)
                c = self.cell(v, st)
                if isinstance(c, ListCell):
                    b = self.list_blur([c], c.owners)
                    if b.summ:
                        st.heap[v.addr] = b

    def s_Assert(self, s, st):
        c = self.eval(s.test, st)
        t, cond = self.truth(c, st)
        if t is False:
            raise Abrupt([(st, Exc("AssertionError", site=self.site(s)))])
        if t is None:
            self.frames[-1].excs.append((st.fork(cond, False), Exc("AssertionError", site=self.site(s))))
            self.assume(st, cond, True)

    def s_Raise(self, s, st):
        name, args = "Exception", ()
        if s.exc is not None:
            v = self.eval(s.exc, st)
            name = self.excname(v, st)
            if isinstance(s.exc, ast.Call):
                pass
        else:
            name = st.glob.get("handling") or "Exception"
        raise Abrupt([(st, Exc(name, site=self.site(s)))])

    def excname(self, v, st):
        c = self.cell(v, st)
        if isinstance(c, LibInst):
            return c.cls.split(".")[-1]
        if isinstance(c, InstCell):
            return c.cls.name
        if isinstance(v, Lib):
            return v.name.split(".")[-1]
        if isinstance(v, Cls):
            return v.name
        if isinstance(v, Alt):
            return self.excname(v.vals[0], st)
        return "Exception"

    def s_Assign(self, s, st):
        v = self.eval(s.value, st)
        for t in s.targets:
            self.assign(t, v, st, s)

    def s_AnnAssign(self, s, st):
        if s.value is not None:
            self.assign(s.target, self.eval(s.value, st), st, s)

    def assign(self, t, v, st, s):
        if isinstance(t, ast.Name):
            self.setname(t.id, v, st)
        elif isinstance(t, (ast.Tuple, ast.List)):
            star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            if star:
                i = star[0]
                post = len(t.elts) - i - 1
                items = self.unpack_all(v, st)
                if items is not None:
                    for e, x in zip(t.elts[:i], items[:i]):
                        self.assign(e, x, st, s)
                    mid = items[i:len(items) - post]
                    self.assign(t.elts[i].value, self.new(st, ListCell(items=list(mid))), st, s)
                    for e, x in zip(t.elts[i + 1:], items[len(items) - post:]):
                        self.assign(e, x, st, s)
                    return
                for e in t.elts:
                    self.assign(e.value if isinstance(e, ast.Starred) else e, self.unk("unpack", [v], st=st), st, s)
                return
            items = self.unpack(v, len(t.elts), st, s)
            for e, x in zip(t.elts, items):
                self.assign(e, x, st, s)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.eval(t.value, st), t.attr, v, st, s)
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value, st)
            ix = self.eval_index(t.slice, st)
            self.setitem(o, ix, v, st, s)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, st, s)

    def unpack_all(self, v, st):
        if isinstance(v, Tup):
            return list(v.items)
        c = self.cell(v, st)
        if isinstance(c, ListCell) and c.items is not None and c.summ is None:
            return list(c.items)
        return None

    def unpack(self, v, n, st, s=None):
        if isinstance(v, Alt):
            outs = [self.unpack(x, n, st, s) for x in v.vals]
            res = outs[0]
            for o in outs[1:]:
                res = [self.joinv(a, b, v.cond) for a, b in zip(res, o)]
            return res
        it = self.unpack_all(v, st)
        if it is not None:
            if len(it) != n:
                self.ev("unpackmis", s, st, got=len(it), want=n)
                raise Abrupt([(st, Exc("ValueError", site=self.site(s)))])
            return it
        if isinstance(v, (Node, Ref)):
            c = self.cell(v, st)
            if isinstance(v, Node) or isinstance(c, (ArrCell, ListCell)):
                x = self.load(v, st)
                if x.op == "shapeof":
                    sh = x.args[0]
                    return [exn(d) if d is not None else self.unk("dim", [], taint=False, shape=(), dt="i", integral=True, lo=S.ONE) for d in sh]
                return [self.getitem(v, (("p", const(i)),), st, s) for i in range(n)]
        if isinstance(c := self.cell(v, st), LibInst) and c.cls == "iter":
            return [c.attrs["elem"]] * n
        return [self.unk("unpack%d" % i, [v], st=st) for i in range(n)]

    def s_AugAssign(self, s, st):
        op = BINOPS[type(s.op)]
        t = s.target
        if isinstance(t, ast.Name):
            cur = self.lookup(t.id, st, t)
            r = self.eval(s.value, st)
            res = self.augment(cur, op, r, st, s)
            self.setname(t.id, res, st)
        elif isinstance(t, ast.Attribute):
            o = self.eval(t.value, st)
            cur = self.getattr(o, t.attr, st, t)
            r = self.eval(s.value, st)
            res = self.augment(cur, op, r, st, s)
            self.setattr(o, t.attr, res, st, s)
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value, st)
            ix = self.eval_index(t.slice, st)
            cur = self.getitem(o, ix, st, t)
            r = self.eval(s.value, st)
            oc = self.cell(cur, st)
            if isinstance(oc, (ListCell,)):
                self.augment(cur, op, r, st, s)
                return
            a, b = self.load(cur, st), self.load(r, st)
            res = self.binop(op, a, b, st, s)
            self.setitem(o, ix, self.load(res, st) if isinstance(res, Ref) and isinstance(self.cell(res, st), ArrCell) else res, st, s, aug=(op, b))

    def augment(self, cur, op, r, st, s):
        c = self.cell(cur, st)
        if isinstance(c, ListCell) and op == "add":
            self.mutate(cur, st, "+=", s)
            self.M.list_extend(self, st, cur, r, s)
            return cur
        if isinstance(c, ArrCell):
            self.mutate(cur, st, "in-place " + op, s)
            a, b = self.load(cur, st), self.load(r, st)
            res = self.load(self.binop(op, a, b, st, s), st)
            self.check_trunc(a, res, s, st, "in-place")
            if a.dt is not None and res.dt != a.dt:
                res = mk("cast", res, a.dt) if a.dt in ("i", "f", "b") else res
            self.write_arr(cur, res, st, s)
            return cur
        if isinstance(c, SetCell):
            self.mutate(cur, st, "in-place", s)
            return cur
        if isinstance(c, DictCell):
            self.mutate(cur, st, "|=", s)
            return cur
        return self.binop(op, cur, r, st, s)

    def s_If(self, s, st):
        t, cond = self.truth(self.eval(s.test, st), st)
        if t is True:
            return self.block(s.body, st)
        if t is False:
            return self.block(s.orelse, st)
        s1, s2 = st.fork(cond, True), st.fork(cond, False)
        self.assume(s1, cond, True, s.test)
        self.assume(s2, cond, False, s.test)
        o1 = self.block(s.body, s1)
        o2 = self.block(s.orelse, s2)
        o = Out(self.join(o1.st, o2.st))
        o.absorb(o1)
        o.absorb(o2)
        return o

    def assume(self, st, cond, truth, test=None):
        """Narrow variables by a condition."""
        if not isinstance(cond, Node):
            return
        mp = {}

        def coll(c, t):
            c = N.strip_one(c)
            if t:
                cs = N.conj(c)
                if len(cs) > 1:
                    for x in cs:
                        coll(x, True)
                    return
            if c.op == "not":
                coll(c.args[0], not t)
            elif c.op == "or" and not t:
                coll(c.args[0], False)
                coll(c.args[1], False)
            elif c.op == "cmp":
                rel, a, b = c.args
                if not t:
                    rel = N.NEGCMP[rel]
                if a.op not in ("const",):
                    mp[a.id] = mk("assume", a, rel, b)
                if b.op not in ("const",) and a.op == "const":
                    mp[b.id] = mk("assume", b, N.SWAP[rel], a)
            elif c.dt in ("i", "f") or (c.dt or "").startswith("in:"):
                if c.op != "const" and c.shape == ():
                    mp[c.id] = mk("assume", c, "ne" if t else "eq", const(0))
        coll(cond, truth)
        if mp:
            for k, v in list(st.env.items()):
                if isinstance(v, Node) and v.id in mp and v.shape == ():
                    st.env[k] = mp[v.id]
        # is None tests
        if test is not None:
            self.assume_none(st, test, truth)

    def assume_none(self, st, test, truth):
        if isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
            return self.assume_none(st, test.operand, not truth)
        if isinstance(test, ast.Compare) and len(test.ops) == 1 and isinstance(test.comparators[0], ast.Constant) and test.comparators[0].value is None:
            isnone = isinstance(test.ops[0], ast.Is) == truth
            t = test.left
            if isinstance(t, ast.Name):
                v = st.env.get(t.id)
                if isinstance(v, Alt):
                    vs = [x for x in v.vals if (isinstance(x, Node) and x.op == "const" and x.args[0] is None) == isnone]
                    if vs:
                        st.env[t.id] = vs[0] if len(vs) == 1 else Alt(vs)
        elif isinstance(test, ast.Name):
            v = st.env.get(test.id)
            if isinstance(v, Alt) and truth:
                vs = [x for x in v.vals if not (isinstance(x, Node) and x.op == "const" and x.args[0] is None)]
                if vs:
                    st.env[test.id] = vs[0] if len(vs) == 1 else Alt(vs)

    def truth(self, v, st):
        """(True/False/None, condition Node)"""
        if isinstance(v, Node):
            c = constof(v)
            if c is not NOCONST:
                if isinstance(c, tuple):
                    return None, v
                return bool(c), v
            if v.shape == ():
                if v.nz and v.dt not in ("b",):
                    return True, v
                if v.dt != "b" and v._ex is not None:
                    s = S.esign(v._ex)
                    if s in ("+", "-"):
                        return True, v
                    if s == "0":
                        return False, v
                elif v.dt != "b":
                    lo = v.bounds()[0]
                    if lo is not None and S.gt0(lo):
                        return True, v
                if v.op == "not":
                    t, _ = self.truth(v.args[0], st)
                    return (None if t is None else not t), v
                if v.op == "and":
                    t1, t2 = self.truth(v.args[0], st)[0], self.truth(v.args[1], st)[0]
                    if t1 is False or t2 is False:
                        return False, v
                    if t1 and t2:
                        return True, v
                if v.op == "or":
                    t1, t2 = self.truth(v.args[0], st)[0], self.truth(v.args[1], st)[0]
                    if t1 or t2:
                        return True, v
                    if t1 is False and t2 is False:
                        return False, v
            # a condition already decided on this path
            for c0, t0 in reversed(st.pc):
                if c0 is v:
                    return t0, v
                if isinstance(c0, Node) and c0.op == "not" and c0.args[0] is v:
                    return (not t0), v
                if v.op == "not" and v.args[0] is c0:
                    return (not t0), v
            return None, v
        if isinstance(v, Tup):
            return bool(v.items), N.const(bool(v.items))
        c = self.cell(v, st)
        if isinstance(c, ListCell):
            if c.summ is None:
                return bool(c.items), const(bool(c.items))
            if c.items:
                return True, N.TRUE
            L = c.summ[2]
            lo = L.bounds()[0]
            if lo is not None and S.gt0(lo):
                return True, N.TRUE
            return None, mk("cmp", "gt", L, const(0)) if L.shape == () else L
        if isinstance(c, DictCell):
            if c.entries:
                return True, N.TRUE
            if c.summ is None:
                return False, N.FALSE
            return None, self.unk("nonempty", [v], st=st, taint=False, shape=(), dt="b")
        if isinstance(c, ArrCell):
            n = self.load(v, st)
            r = self.truth(n, st)
            return r
        if isinstance(c, SetCell):
            return None, self.unk("nonempty", [v], st=st, taint=False, shape=(), dt="b")
        if isinstance(v, Alt):
            rs = [self.truth(x, st)[0] for x in v.vals]
            if all(r is True for r in rs):
                return True, N.TRUE
            if all(r is False for r in rs):
                return False, N.FALSE
            return None, v.cond if isinstance(v.cond, Node) and len(v.vals) == 2 and rs == [True, False] else self.unk("truth", [v], st=st, taint=False, shape=(), dt="b")
        if isinstance(v, (Func, Cls, Mod, Partial)):
            return True, N.TRUE
        if isinstance(c, (InstCell, LibInst)):
            return True, N.TRUE
        return None, self.unk("truth", [v], st=st, shape=(), dt="b")

    # ------------------------------------------------------------ try / with
    def s_Try(self, s, st):
        fr = self.frames[-1]
        start = st.fork()
        tr = {"maybe": [], "node": s}
        fr.tries.append(tr)
        saved = fr.excs
        fr.excs = []
        ev0 = len(self.events)
        o = self.block(s.body, st)
        inner = fr.excs + o.excs
        fr.excs = saved
        fr.tries.pop()
        o.excs = []
        out = Out(None)
        normal = o.st
        if normal is not None and s.orelse:
            oe = self.block(s.orelse, normal)
            normal = oe.st
            out.absorb(oe)
        out.absorb(o)
        # anything called in the body may raise: the handlers see a mix of before and after
        maycall = any(isinstance(n, (ast.Call, ast.Subscript, ast.BinOp, ast.Attribute, ast.Import, ast.ImportFrom)) for b in s.body for n in ast.walk(b))
        hstates = []
        if maycall and s.handlers:
            h0 = start
            if o.st is not None:
                h0 = self.join(start.fork(), o.st.fork())
            hstates.append((h0, None))
        remaining = []
        for est, exc in inner:
            caught = False
            for h in s.handlers:
                if self.catches(h, exc.name, est):
                    hstates.append((est, exc))
                    caught = True
                    break
            if not caught:
                remaining.append((est, exc))
        for h in s.handlers:
            hs = None
            for est, exc in hstates:
                if exc is None or self.catches(h, exc.name, est):
                    hs = est if hs is None else self.join(hs, est)
            if hs is None:
                continue
            names = self.handler_names(h, hs)
            hs = hs.fork()
            if h.name:
                hs.env[h.name] = self.new(hs, LibInst("exc." + (names[0] if names else "Exception"), {}))
            hs.glob["handling"] = names[0] if names else "Exception"
            fr.handler = getattr(fr, "handler", 0) + 1
            oh = self.block(h.body, hs)
            fr.handler -= 1
            swallow = oh.st is not None or oh.rets or oh.conts or oh.brks
            self.ev("except", h, hs, names=names, swallow=bool(swallow), body=s.body, normal=oh.st is not None,
                    rets=len(oh.rets), trybody="; ".join(self.text(b) for b in s.body)[:160],
                    importonly=all(isinstance(b, (ast.Import, ast.ImportFrom)) for b in s.body))
            if oh.st is not None:
                oh.st.glob.pop("handling", None)
            out.absorb(oh)
            normal = self.join(normal, oh.st)
        out.st = normal
        out.excs += remaining
        if s.finalbody:
            # may-raise points inside the body reach the finally block
            for est in tr["maybe"][:3]:
                of = self.block(s.finalbody, est.fork())
                if of.st is not None and of.st.glob.get("rc") == "dirty":
                    self.maydirty(of.st, s)
            fin = Out(None)
            if out.st is not None:
                of = self.block(s.finalbody, out.st)
                fin.st = of.st
                fin.absorb(of)
            for nm in ("brks", "conts"):
                for x in getattr(out, nm):
                    of = self.block(s.finalbody, x)
                    if of.st is not None:
                        getattr(fin, nm).append(of.st)
                    fin.rets += of.rets
            for x, v in out.rets:
                of = self.block(s.finalbody, x)
                if of.st is not None:
                    fin.rets.append((of.st, v))
                fin.rets += of.rets
            for x, e in out.excs:
                of = self.block(s.finalbody, x)
                if of.st is not None:
                    fin.excs.append((of.st, e))
                elif of.rets:
                    self.ev("except", s, x, names=["finally"], swallow=True, normal=False, rets=1, body=s.body,
                            trybody="return in finally", importonly=False)
                fin.rets += of.rets
                fin.excs += of.excs
            return fin
        else:
            # not restored by a finally: pass may-raise points outwards
            caught_all = any(h.type is None or "Exception" in self.handler_names(h, start) for h in s.handlers)
            if not caught_all:
                for est in tr["maybe"]:
                    self.maydirty(est, s)
        return out

    def handler_names(self, h, st):
        if h.type is None:
            return ["BaseException"]
        ts = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
        return [ast.unparse(t).split(".")[-1] for t in ts]

    SUPERS = {"ImportError": {"ImportError", "Exception", "BaseException"}, "ModuleNotFoundError": {"ModuleNotFoundError", "ImportError", "Exception", "BaseException"},
              "KeyError": {"KeyError", "LookupError", "Exception", "BaseException"}, "IndexError": {"IndexError", "LookupError", "Exception", "BaseException"},
              "LinAlgError": {"LinAlgError", "ValueError", "Exception", "BaseException"}, "NotImplementedError": {"NotImplementedError", "RuntimeError", "Exception", "BaseException"}}

    def catches(self, h, name, st):
        hn = self.handler_names(h, st)
        sup = self.SUPERS.get(name, {name, "Exception", "BaseException"})
        return bool(sup & set(hn))

    def mayraise(self, st, node=None):
        """A call that may raise happens here."""
        if st.glob.get("rc") == "dirty":
            for fr in reversed(self.frames):
                if fr.tries:
                    fr.tries[-1]["maybe"].append(st.fork())
                    return
            self.maydirty(st, node)

    def maydirty(self, st, node):
        for fr in reversed(self.frames):
            if fr.tries and fr.tries[-1].get("node") is not node:
                fr.tries[-1]["maybe"].append(st.fork())
                return
        self.ev("rcdirty", node, st, how="exception")

    def s_With(self, s, st):
        cms = []
        for it in s.items:
            v = self.eval(it.context_expr, st)
            ent = self.M.enter(self, st, v, it)
            cms.append((v, ent))
            if it.optional_vars is not None:
                self.assign(it.optional_vars, ent[0], st, s)
        fr = self.frames[-1]
        saved = fr.excs
        fr.excs = []
        o = self.block(s.body, st)
        o.excs += fr.excs
        fr.excs = saved
        for v, ent in reversed(cms):
            sup = ent[2] if len(ent) > 2 else None
            if sup:
                kept = []
                for est, e in o.excs:
                    if self.SUPERS.get(e.name, {e.name, "Exception", "BaseException"}) & set(sup):
                        o.st = self.join(o.st, est)
                    else:
                        kept.append((est, e))
                o.excs = kept
                self.ev("except", s, st, names=list(sup), swallow=True, normal=True, rets=0, body=s.body,
                        trybody="; ".join(self.text(b) for b in s.body)[:160],
                        importonly=all(isinstance(b, (ast.Import, ast.ImportFrom)) for b in s.body))
            if ent[1] is not None:
                for x in ([o.st] if o.st is not None else []) + [r[0] for r in o.rets] + o.brks + o.conts + [e[0] for e in o.excs]:
                    ent[1](x)
        return o

    # ------------------------------------------------------------ loops
    def s_While(self, s, st):
        t, cond = self.truth(self.eval(s.test, st.fork()), st)
        if t is False:
            return self.block(s.orelse, st)
        return self.loop(s, st, None, None, s.test)

    def s_For(self, s, st):
        itv = self.eval(s.iter, st)
        model = self.itermodel(itv, st, s)
        if model[0] == "concrete":
            return self.unrolled(s, st, model[1])
        _, trip, elem = model
        return self.loop(s, st, trip, elem, None)

    def unrolled(self, s, st, items):
        out = Out(st)
        cur = st
        brk = None
        for x in items:
            if cur is None:
                break
            self.assign(s.target, x, cur, s)
            o = self.block(s.body, cur)
            out.rets += o.rets
            out.excs += o.excs
            for b in o.brks:
                brk = b if brk is None else self.join(brk, b)
            cur = o.st
            for c in o.conts:
                cur = self.join(cur, c)
        if cur is not None and s.orelse:
            oo = self.block(s.orelse, cur)
            out.rets += oo.rets
            out.excs += oo.excs
            cur = oo.st
        out.st = self.join(cur, brk)
        out.brks, out.conts = [], []
        return out

    def loopatom(self, s, trip):
        key = (self.frames[-1].mod, self.frames[-1].qual, s.lineno, s.col_offset, sum(1 for l in self.loopstack if l[1] is s), trip)
        nm = self.uidmap.get(key)
        if nm is None:
            nm = self.uidmap[key] = "i%d" % (len(self.uidmap) + 1)
            hi = S.sub(trip, S.ONE) if trip is not None else None
            S.atom(nm, S.ZERO, hi, integral=True)
        return nm

    def loop(self, s, st, trip, elem, test):
        atom = self.loopatom(s, trip)
        it = mk("atom", atom)
        pre = st.fork()
        skipped = pre.fork()
        zero_ok = trip is None or not S.ge0(S.sub(trip, S.ONE))
        if test is not None:
            t0, _ = self.truth(self.eval(test, pre.fork()), pre)
            zero_ok = t0 is not True
        hyps, out = None, None
        base_events = len(self.events)
        hdr = None
        maxp = 7
        for p in range(maxp):
            del self.events[base_events:]
            hdr = self.header(pre, hyps, s, it, trip, p)
            self.loopstack.append((atom, s, trip))
            try:
                cur = hdr.fork()
                o = Out(None)
                go = True
                if test is not None:
                    tv = self.eval(test, cur)
                    t, cond = self.truth(tv, cur)
                    if t is None:
                        exit_state = cur.fork(cond, False)
                        self.assume(exit_state, cond, False, test)
                        self.assume(cur, cond, True, test)
                        cur.pc = cur.pc + ((cond, True),)
                    else:
                        exit_state = None
                else:
                    exit_state = None
                    self.assign(s.target, elem(it, cur), cur, s)
                o = self.block(s.body, cur)
            finally:
                self.loopstack.pop()
            end = o.st
            for c in o.conts:
                end = self.join(end, c)
            if end is None:
                break
            hyps, stable = self.nexthyps(pre, hdr, end, hyps, it, trip, p)
            if stable:
                break
        out = Out(None)
        out.rets, out.excs = o.rets, o.excs
        # value after the loop
        post = None
        if end is not None:
            post = self.finish(pre, hdr, end, hyps, s, it, trip, atom, zero_ok, bool(o.brks))
            if test is not None:
                post.pc = pre.pc
                tv = None
                n0 = len(self.events)
                try:
                    tv = self.eval(test, post)
                    t, cond = self.truth(tv, post)
                    if t is True and isinstance(tv, Node) and tv.op == "const":
                        post = None          # while True: leaves only through break/return
                    elif t is None:
                        self.assume(post, cond, False, test)
                except Abrupt:
                    pass
                del self.events[n0:]
            else:
                post.pc = pre.pc
        if zero_ok and not (test is not None and post is None):
            sk = skipped
            if post is not None:
                zc = mk("new", "ran", s.lineno, s.col_offset, shape=(), dt="b", deps=ES)
                post.pc = pre.pc + ((zc, True),)
                sk.pc = pre.pc + ((zc, False),)
                post = self.join(post, sk)
                post.pc = pre.pc
            else:
                post = sk
        if s.orelse and post is not None:
            oe = self.block(s.orelse, post)
            out.absorb(oe)
            post = oe.st
        for b in o.brks:
            b2 = b
            b2.pc = pre.pc
            post = self.join(post, b2) if post is not None else b2
        if post is not None:
            post.pc = pre.pc
        out.st = post
        out.brks, out.conts = [], []
        return out

    # a hypothesis: key -> dict(mode, ...) ; keys ('env', name) or ('heap', addr)
    def header(self, pre, hyps, s, it, trip, p):
        h = pre.fork()
        if not hyps:
            return h
        for key, hy in hyps.items():
            if key[0] == "env":
                v = self.hypval(hy, key, s, it, trip, h)
                if hy["kind"] == "num" and hy.get("fresh") and v.shape != ():
                    v = self.new(h, ArrCell(v, owners=hy["owners"]))
                if hy["kind"] == "val":
                    self.graft(v, hy.get("src"), h)
                if v is not None:
                    h.env[key[1]] = v
            else:
                c = hy["cell"] if "cell" in hy else None
                if hy["kind"] == "arr":
                    base = pre.heap[key[1]]
                    h.heap[key[1]] = base.clone(node=self.hypval(hy, key, s, it, trip, h))
                elif c is not None:
                    h.heap[key[1]] = c
                    self.graftcell(c, hy.get("src"), h)
        return h

    def graft(self, v, src, h, seen=None):
        """Bring the cells v refers to, created by an earlier pass, into the heap of h."""
        if src is None:
            return
        if isinstance(v, (Tup, Alt)):
            for x in (v.items if isinstance(v, Tup) else v.vals):
                self.graft(x, src, h)
            return
        if not isinstance(v, Ref) or v.addr in h.heap or v.addr not in src:
            return
        c = h.heap[v.addr] = src[v.addr]
        self.graftcell(c, src, h)

    def graftcell(self, c, src, h):
        if src is None:
            return
        if isinstance(c, ArrCell) and c.base is not None:
            self.graft(Ref(c.base), src, h)
        elif isinstance(c, ListCell):
            for x in (c.items or []):
                self.graft(x, src, h)
            if c.summ is not None:
                self.graft(c.summ[1], src, h)
        elif isinstance(c, DictCell):
            for x in list(c.entries.values()) + list(c.summ or ()):
                self.graft(x, src, h)
        elif isinstance(c, (InstCell, LibInst)):
            for x in c.attrs.values():
                self.graft(x, src, h)
        elif isinstance(c, SetCell) and c.elem is not None:
            self.graft(c.elem, src, h)

    def numval(self, v, st):
        """Node of a number or array value, else None."""
        if isinstance(v, Node):
            return None if v.dt == "s" or (v.op == "const" and v.args[0] is None) else v
        if isinstance(v, Ref):
            return self.load(v, st) if isinstance(st.heap.get(v.addr), ArrCell) else None
        if isinstance(v, Alt) and all(self.numval(x, st) is not None for x in v.vals):
            return self.load(v, st)
        return None

    def ownersof(self, v, st):
        if isinstance(v, Alt):
            out = ES
            for x in v.vals:
                out |= self.ownersof(x, st)
            return out
        c = st.heap.get(v.addr) if isinstance(v, Ref) else None
        out = ES
        while c is not None:
            out |= c.owners
            c = st.heap.get(c.base) if isinstance(c, ArrCell) and c.base is not None else None
        return out

    def hypval(self, hy, key, s, it, trip, h):
        if hy["kind"] == "val":
            return hy["val"]
        f = dict(hy["fac"])
        if hy["mode"] == "opaque":
            nm = "h%s_%s" % (key[1], it.args[0])
            S.ATOMS.pop(nm, None)
            S.atom(nm, None, None)
            f["ex"] = S.sym(nm)
            f.pop("lo", None)
            f.pop("hi", None)
        elif hy["mode"] == "delta":
            lo0, hi0 = hy["lo0"], hy["hi0"]
            dlo, dhi = hy["d"]
            f.pop("ex", None)
            e = it.ex if trip is not None else None
            f["lo"] = self.extrap(lo0, dlo, e, -1)
            f["hi"] = self.extrap(hi0, dhi, e, 1)
            if f["lo"] is not None and f["lo"] == f["hi"]:
                f["ex"] = f["lo"]
        key2 = key[1] if key[0] == "env" else "cell%d" % hy.get("ord", 0)
        return mk("hdr", s.lineno, s.col_offset, str(key2), hy["init"], **f)

    def extrap(self, x0, d, n, which):
        if x0 is None or d is None:
            return None
        if n is not None:
            return S.add(x0, S.mul(n, d))
        sg = S.sgn(d)
        if which < 0:
            return x0 if sg in ("+", "+0", "0") else None
        return x0 if sg in ("-", "-0", "0") else None

    def changed(self, a, b):
        """Keys whose value differs between two states."""
        ks = []
        for k, v in b.env.items():
            if k in a.env and a.env[k] is not v and not (type(a.env[k]) is type(v) and not isinstance(v, Node) and a.env[k] == v):
                ks.append(("env", k))
        for k, c in b.heap.items():
            if k in a.heap and a.heap[k] is not c:
                ks.append(("heap", k))
        return ks

    def facets(self, n):
        return dict(shape=n.shape, dt=n.dt, integral=n.integral, nz=n.nz, att0=n.att0, pure=n.pure, tags=n.tags, deps=n.deps)

    def nexthyps(self, pre, hdr, end, hyps, it, trip, p):
        """Update the hypotheses from one pass; second result: inductive."""
        hyps = dict(hyps or {})
        stable = True
        for n_, key in enumerate(self.changed(hdr, end)):
            if key[0] == "heap" and key[1] not in pre.heap or key[0] == "env" and key[1] not in pre.env:
                continue
            if key not in hyps:
                stable = False
                if key[0] == "env":
                    a, b = pre.env[key[1]], end.env[key[1]]
                    na, nb = self.numval(a, pre), self.numval(b, end)
                    if na is not None and nb is not None and not (isinstance(a, Node) and isinstance(b, Node)):
                        hyps[key] = dict(self.hyp0(na, nb, key, n_), fresh=True, owners=self.ownersof(a, pre) | self.ownersof(b, end))
                    else:
                        hyps[key] = dict(self.hyp0(a, b, key, n_), src=end.heap)
                else:
                    a, b = pre.heap[key[1]], end.heap[key[1]]
                    if isinstance(a, ArrCell) and a.base is None:
                        hyps[key] = dict(self.hyp0(a.node, b.node, key, n_), kind="arr", ord=n_)
                    elif isinstance(a, ArrCell):
                        hyps[key] = {"kind": "cell", "cell": b, "src": end.heap}
                    else:
                        hyps[key] = {"kind": "cell", "cell": self.hdrcell(a, b, None), "src": end.heap}
        for key, hy in list(hyps.items()):
            if key[0] == "env":
                hv, ov = hdr.env.get(key[1]), end.env.get(key[1])
                if hy["kind"] == "num":
                    hv = self.numval(hv, hdr) if self.numval(hv, hdr) is not None else hv
                    if self.numval(ov, end) is not None:
                        if not isinstance(ov, Node) and not hy.get("fresh"):
                            hy = hyps[key] = dict(hy, fresh=True, owners=ES)
                        if hy.get("fresh"):
                            hy["owners"] = hy["owners"] | self.ownersof(ov, end)
                        ov = self.numval(ov, end)
            else:
                hc, oc = hdr.heap.get(key[1]), end.heap.get(key[1])
                hv, ov = (getattr(hc, "node", None), getattr(oc, "node", None)) if hy["kind"] == "arr" else (hc, oc)
            if hy["kind"] == "val":
                if hv is ov:
                    continue
                j = self.joinv(hv, ov)
                if j is hv or (type(j) is type(hv) and not isinstance(j, Node) and j == hv):
                    continue
                if isinstance(j, Alt) and isinstance(hv, Alt) and len(j.vals) == len(hv.vals) and p >= 3:
                    continue
                if p >= 5:
                    continue
                hyps[key] = dict(hy, val=j, src={**(hy.get("src") or {}), **end.heap})
                stable = False
                continue
            if hy["kind"] == "cell":
                if hv is ov:
                    continue
                nc = self.hdrcell(hv, ov, hy)
                hy = dict(hy, src={**(hy.get("src") or {}), **end.heap})
                if self.samecell(nc, hv) or p >= 4:
                    if not self.samecell(nc, hv):
                        hyps[key] = dict(hy, cell=nc)
                    continue
                hyps[key] = dict(hy, cell=nc)
                stable = False
                continue
            # numeric
            if not isinstance(ov, Node) or not isinstance(hv, Node):
                hyps[key] = {"kind": "val", "src": end.heap,
                             "val": self.joinv(hv, ov) if hv is not None and ov is not None else (hv or ov)}
                stable = False
                continue
            if hy["mode"] == "new":
                # first sight: try linear growth with an opaque header
                hy = dict(hy, mode="opaque")
                hyps[key] = hy
                stable = False
                continue
            f = dict(hy["fac"])
            j = mk("join", hy["init"], ov) if hy["init"] is not ov else ov
            nf = self.facets(j)
            nf["shape"] = j.shape if j.shape is not None else (ov.shape if ov.shape == hv.shape else None)
            nf["deps"] = f["deps"] | ov.deps
            nf["pure"] = j.pure
            merged = dict(f)
            for k in ("shape", "dt", "pure"):
                merged[k] = nf[k] if f[k] == nf[k] or k == "dt" or k == "pure" else (nf[k] if p < 2 else None if f[k] != nf[k] else nf[k])
            if f["shape"] is not None and nf["shape"] is not None and len(f["shape"]) == len(nf["shape"]):
                merged["shape"] = tuple(x if x == y else None for x, y in zip(f["shape"], nf["shape"]))
            elif f["shape"] != nf["shape"]:
                merged["shape"] = None
            merged["integral"] = f["integral"] and ov.integral
            merged["nz"] = f["nz"] and ov.nz
            merged["att0"] = f["att0"] or ov.att0
            merged["tags"] = f["tags"] & ov.tags | ((f["tags"] | ov.tags) & frozenset({"id", "setord", "share"}))
            merged["deps"] = nf["deps"]
            if hy["mode"] == "opaque":
                nm = "h%s_%s" % (key[1], it.args[0])
                d = self.delta(ov, nm, it.args[0])
                if d is not None:
                    b = self.initb(hy["init"])
                    hyps[key] = dict(hy, mode="delta", d=d, lo0=b[0], hi0=b[1], fac=merged)
                else:
                    b = hy["init"].bounds()
                    merged.update(lo=b[0], hi=b[2], lop=b[1], hop=b[3])
                    hyps[key] = dict(hy, mode="iv", fac=merged)
                stable = False
                continue
            if hy["mode"] == "iv":
                lo, lop, hi, hop = ov.bounds()
                hl, hh = f.get("lo"), f.get("hi")
                if hl is not None:
                    if lo is None or not S.ge0(S.sub(lo, hl)):
                        # widen once to the joined bound when it is a constant, then drop
                        m = N.emin(lo, hl) if lo is not None else None
                        merged["lo"] = m if (m is not None and p < 3 and hy.get("wl", 0) < 1) else (S.ZERO if lo is not None and S.ge0(lo) and S.ge0(hl) else None)
                        hy = dict(hy, wl=hy.get("wl", 0) + 1)
                        merged["lop"] = False
                        stable = False
                    else:
                        merged["lop"] = f.get("lop", False) and (lop or S.gt0(S.sub(lo, hl)))
                if hh is not None:
                    if hi is None or not S.ge0(S.sub(hh, hi)):
                        m = N.emax(hi, hh) if hi is not None else None
                        merged["hi"] = m if (m is not None and p < 3 and hy.get("wh", 0) < 1) else None
                        hy = dict(hy, wh=hy.get("wh", 0) + 1)
                        merged["hop"] = False
                        stable = False
                    else:
                        merged["hop"] = f.get("hop", False) and (hop or S.gt0(S.sub(hh, hi)))
                if merged.get("lop") != f.get("lop") or merged.get("hop") != f.get("hop"):
                    stable = False
            if merged != f:
                same = all(merged.get(k) == f.get(k) for k in ("shape", "dt", "integral", "nz", "att0", "pure", "tags", "deps"))
                if not same:
                    stable = False
                hyps[key] = dict(hy, fac=merged)
        return hyps, stable

    def initb(self, n):
        if n._ex is not None:
            return (n._ex, n._ex) if not N.is_elem(n._ex) else (n.bounds()[0], n.bounds()[2])
        return (n.lo, n.hi)

    def delta(self, ov, nm, itn):
        e = ov._ex
        if e is None or nm not in e.atoms() and ov.lo is not None:
            if ov.lo is None or ov.hi is None:
                return None
            lo, hi = ov.lo, ov.hi
        else:
            lo = hi = e
        dl, dh = S.sub(lo, S.sym(nm)), S.sub(hi, S.sym(nm))
        if dl is None or dh is None or nm in dl.atoms() or nm in dh.atoms():
            return None
        a, b = S.bound(dl, -1), S.bound(dh, 1)
        if a is None or b is None:
            return None
        if nm in a[0].atoms() or nm in b[0].atoms():
            return None
        return a[0], b[0]

    def hyp0(self, a, b, key, n_):
        if isinstance(a, Node) and isinstance(b, Node) and a.dt != "s" and b.dt != "s" \
                and not (a.op == "const" and a.args[0] is None) and not (b.op == "const" and b.args[0] is None):
            return {"kind": "num", "mode": "new", "init": a, "fac": self.facets(a)}
        return {"kind": "val", "val": self.joinv(a, b)}

    def hdrcell(self, a, b, hy):
        """Header version of a non-array cell changed by the loop body."""
        if isinstance(a, ListCell):
            if a.items is not None and b.items is not None and a.summ is None and b.summ is None and len(a.items) == len(b.items):
                return a.clone(items=[self.joinv(x, y) for x, y in zip(a.items, b.items)], log=())
            blur = self.list_blur([a.clone(log=()), b], a.owners | b.owners)
            if blur.summ is not None:
                lo = blur.summ[2].bounds()[0]
                L = mk("new", "len*", shape=(), dt="i", lo=S.ZERO if not (lo is not None and S.gt0(lo) and (a.items or a.summ)) else S.ONE, deps=blur.summ[2].deps)
                return ListCell(items=None, summ=(None, blur.summ[1], L), owners=blur.owners, log=())
            return blur
        return self.joincell(a, b, None)

    def samecell(self, a, b):
        if a is b:
            return True
        if type(a) is not type(b):
            return False
        def eqv(x, y):
            return x is y or (type(x) is type(y) and not isinstance(x, Node) and x == y)
        if isinstance(a, ListCell):
            if (a.items is None) != (b.items is None) or (a.summ is None) != (b.summ is None):
                return False
            if a.items is not None and (len(a.items) != len(b.items) or not all(eqv(x, y) for x, y in zip(a.items, b.items))):
                return False
            return a.summ is None or (eqv(a.summ[1], b.summ[1]))
        if isinstance(a, (InstCell, LibInst, ClsCell)):
            return set(a.attrs) == set(b.attrs) and all(eqv(a.attrs[k], b.attrs[k]) for k in a.attrs) and getattr(a, "maybe", ES) == getattr(b, "maybe", ES)
        if isinstance(a, DictCell):
            return set(a.entries) == set(b.entries) and all(eqv(a.entries[k], b.entries[k]) for k in a.entries) and \
                ((a.summ is None) == (b.summ is None)) and (a.summ is None or all(eqv(x, y) for x, y in zip(a.summ, b.summ)))
        if isinstance(a, SetCell):
            return eqv(a.elem, b.elem)
        if isinstance(a, ModCell):
            return set(a.env) == set(b.env) and all(eqv(a.env[k], b.env[k]) for k in a.env)
        return False

    def finish(self, pre, hdr, end, hyps, s, it, trip, atom, zero_ok, hasbrk):
        """State after the last iteration."""
        post = end.fork()
        last = S.sub(trip, S.ONE) if trip is not None else None
        for key, hy in (hyps or {}).items():
            if key[0] == "env":
                hv, ov, iv = hdr.env.get(key[1]), end.env.get(key[1]), pre.env.get(key[1])
                if hy["kind"] == "num" and hy.get("fresh"):
                    hv, ov, iv = (self.numval(x, y) if x is not None else None for x, y in ((hv, hdr), (ov, end), (iv, pre)))
            elif hy["kind"] == "arr":
                hv, ov, iv = hdr.heap[key[1]].node, end.heap[key[1]].node, pre.heap[key[1]].node
            else:
                c = self.finish_cell(key[1], pre, hdr, end, trip, atom, hasbrk)
                if c is not None:
                    post.heap[key[1]] = c
                continue
            if not isinstance(ov, Node) or hy["kind"] == "val":
                continue
            r = None
            if key[0] == "heap" and not hasbrk and trip is not None:
                r = self.fillform(iv, hv, ov, atom, trip)
            if r is None:
                f = self.facets(ov)
                f["deps"] = ov.deps
                if hy.get("mode") == "delta":
                    n = trip
                    f["lo"] = self.extrap(hy["lo0"], hy["d"][0], n, -1)
                    f["hi"] = self.extrap(hy["hi0"], hy["d"][1], n, 1)
                    if f["lo"] is not None and f["lo"] == f["hi"]:
                        f["ex"] = f["lo"]
                    if hasbrk:
                        f.pop("ex", None)
                else:
                    b = ov.bounds()
                    f.update(lo=b[0], lop=b[1], hi=b[2], hop=b[3])
                    if ov._ex is not None and not S.has_val(ov._ex):
                        f["ex"] = ov._ex
                r = mk("loop", s.lineno, s.col_offset, str(key[1]) if key[0] == "env" else "cell", iv, ov, **f)
            if key[0] == "env":
                if hy.get("fresh") and r.shape != ():
                    r = self.new(post, ArrCell(r, owners=hy["owners"]))
                post.env[key[1]] = r
            else:
                post.heap[key[1]] = end.heap[key[1]].clone(node=r)
        return post

    def fillform(self, init, hv, ov, atom, trip):
        """ov = upd(header, [..it..], v): a fill of one axis."""
        if ov.op != "upd" or ov.args[0] is not hv:
            return None
        spec, v = ov.args[1], ov.args[2]
        if self.uses_hdr(v, hv):
            return None
        axis, start = None, None
        pos = 0
        full = []
        for i, x in enumerate(spec):
            if x[0] == "p" and x[1].shape == () and x[1]._ex is not None and atom in x[1]._ex.atoms():
                lc = S.lincoef(x[1]._ex.num, atom)
                if axis is not None or lc is None or S.Ex(lc[0]) != S.ONE or x[1]._ex.den != {(): 1}:
                    return None
                axis, start = i, S.Ex(lc[1])
                if any(a == atom for a in start.atoms()):
                    return None
            elif x[0] == "s" and not any(isinstance(e, S.Ex) and atom in e.atoms() for e in x[1:3]):
                if axis is None:
                    pos += 1
            elif x[0] == "p" and not N.mentions(x[1], atom):
                pass
            else:
                return None
            full.append(x)
        if axis is None:
            return None
        # the value must have the shape of the slot
        want, _ = N.spec_shape(hv.shape, spec)
        if v.shape != want:
            if v.shape == () and want is not None:
                v = mk("full", want, v)
            else:
                return None
        sq = mk("seq", pos, atom, trip, v)
        dim = hv.shape[axis] if hv.shape and axis < len(hv.shape) else None
        if start.const() == 0 and dim is not None and dim == trip:
            item = FULL
        else:
            item = ("s", start, S.add(start, trip), 1)
        spec2 = tuple(item if i == axis else x for i, x in enumerate(full))
        # storing into storage of another type
        if init.dt is not None and sq.dt != init.dt and init.dt in ("i", "b"):
            return None
        if init.dt is not None and init.dt.startswith("in:") and sq.dt != init.dt:
            return None
        return mk("upd", init, spec2, sq)

    def uses_hdr(self, v, hv):
        return any(x is hv for x in N.walk(v))

    def finish_cell(self, addr, pre, hdr, end, trip, atom, hasbrk):
        a, h, e = pre.heap.get(addr), hdr.heap.get(addr), end.heap.get(addr)
        if isinstance(e, ListCell) and not hasbrk and trip is not None:
            log = e.log
            if len(log) == 1 and log[0][0] == "append" and isinstance(a, ListCell) and a.items is not None and a.summ is None:
                v, depth = log[0][1], log[0][2]
                if depth == len(hdr.pc):
                    L = exn(trip)
                    return ListCell(items=list(a.items) if a.items else None, summ=(atom, v, L), owners=e.owners)
        if isinstance(e, ListCell) and e.summ is not None and trip is not None:
            # bounded number of appends per iteration
            n = len(e.log)
            if n and all(l[0] == "append" for l in e.log) and isinstance(a, ListCell) and a.summ is None:
                init = S.num(len(a.items or []))
                hi = S.add(init, S.mul(trip, S.num(n)))
                L = mk("new", "len+", shape=(), dt="i", lo=init, hi=hi, deps=e.summ[2].deps)
                return ListCell(items=None, summ=(None, e.summ[1], L), owners=e.owners)
        return None

    # ------------------------------------------------------------ iteration models
    def itermodel(self, v, st, s=None):
        """('concrete', values) or ('sym', trip, fn(it, st) -> value)"""
        if isinstance(v, Tup):
            return ("concrete", list(v.items))
        if isinstance(v, Alt):
            vs = [x for x in v.vals if not (isinstance(x, Node) and x.op == "const" and x.args[0] is None)]
            ms = [self.itermodel(x, st, s) for x in vs]
            if len(ms) == 1:
                return ms[0]
            if all(m[0] == "concrete" for m in ms):
                L = {len(m[1]) for m in ms}
                if len(L) == 1:
                    return ("concrete", [self.joinalt([m[1][i] for m in ms]) for i in range(L.pop())])
            def el(it, s_):
                out = None
                for m in ms:
                    x = m[2](it, s_) if m[0] == "sym" else (self.joinalt(m[1]) if m[1] else None)
                    if x is not None:
                        out = x if out is None else self.joinv(out, x)
                return out if out is not None else self.unk("iter", [v], st=s_)
            trips = {m[1] if m[0] == "sym" else S.num(len(m[1])) for m in ms}
            return ("sym", trips.pop() if len(trips) == 1 else None, el)
        c = self.cell(v, st)
        if isinstance(c, LibInst):
            r = self.M.iterlib(self, st, v, c, s)
            if r is not None:
                return r
        if isinstance(c, ListCell):
            if c.summ is None:
                if c.items is not None and len(c.items) <= 64:
                    return ("concrete", list(c.items))
                if c.items is not None:
                    return ("concrete", list(c.items[:64]))
            atom, elem, L = c.summ
            trip = L._ex if L._ex is not None else L.ex
            if c.items:
                def el0(it, s_):
                    x = self.joinalt(list(c.items))
                    return self.inst(self.joinv(x, self.at(elem, atom, None, s_)), it, s_)
                return ("sym", S.add(trip, S.num(len(c.items))), el0)
            if atom is None:
                return ("sym", trip, lambda it, s_: self.inst(elem, it, s_))
            return ("sym", trip, lambda it, s_: self.at(elem, atom, it.ex, s_))
        if isinstance(c, DictCell):
            if c.summ is None:
                return ("concrete", [self.unkey(k) for k in c.entries])
            L = c.length._ex if isinstance(c.length, Node) and c.length._ex is not None else None
            return ("sym", L, lambda it, s_: self.dictkey(c, it, s_))
        if isinstance(c, SetCell):
            if c.elem is None:
                return ("concrete", [])
            self.ev("setiter", s, st, ids=self.hashy(c, st), elem=c.elem)
            def els(it, s_):
                e = c.elem
                if self.hashy(c, s_):
                    return self.addtag(e, s_, "setord", ("setorder", self.site(s)))
                return e
            return ("sym", None, els)
        if isinstance(v, Node) or isinstance(c, ArrCell):
            n = self.load(v, st)
            if n.op == "const" and isinstance(n.args[0], tuple) and len(n.args[0]) <= UNROLL:
                return ("concrete", [const(x) if not isinstance(x, tuple) else self.arr(st, const(x)) for x in n.args[0]])
            if n.op == "const" and isinstance(n.args[0], str):
                return ("concrete", [const(x) for x in n.args[0]])
            if n.op == "stack" and len(n.args[0]) <= UNROLL:
                return ("concrete", [self.arr(st, x) for x in n.args[0]])
            if n.op == "arange":
                L = n.shape[0].const() if n.shape[0] is not None else None
                if L is not None and L.denominator == 1 and L <= UNROLL:
                    st0, step = n.args[0].const(), n.args[2]
                    if st0 is not None:
                        return ("concrete", [const(int(st0 + i * step)) for i in range(max(0, int(L)))])
                def ela(it, s_):
                    return exn(S.add(n.args[0], S.mul(S.num(n.args[2]), it.ex)))
                return ("sym", n.shape[0], ela)
            trip = n.shape[0] if n.shape else None
            if n.shape == ():
                trip = None
            base = v.addr if isinstance(v, Ref) else None
            def elr(it, s_):
                sp = (("p", it),)
                if n.shape is not None and len(n.shape) > 1 and base is not None and isinstance(s_.heap.get(base), ArrCell):
                    return self.new(s_, ArrCell(mk("ix", n, sp), base, lambda b, sp=sp: mk("ix", b, sp)))
                e = mk("ix", n, sp) if n.shape != () else self.unk("iter", [n], shape=None)
                return self.arr(s_, e)
            return ("sym", trip, elr)
        if isinstance(v, Lib):
            return ("sym", None, lambda it, s_: self.unk("iter:" + v.name, [], shape=None))
        return ("sym", None, lambda it, s_: self.unk("iter", [v], st=s_))

    def joinalt(self, vs):
        out = vs[0]
        for x in vs[1:]:
            out = self.joinv(out, x)
        return out

    def dictkey(self, c, it, st):
        k = c.summ[0]
        if c.order is not None:
            return self.at(k, c.order, it.ex, st)
        return k

    def unkey(self, k):
        if isinstance(k, tuple):
            return Tup([self.unkey(x) for x in k])
        if isinstance(k, Node):
            return k
        return const(k) if isinstance(k, (str, int, float, bool)) or k is None else k

    def hashy(self, c, st):
        """Does the iteration order of this set vary between processes (strings, ids, objects)?"""
        e = c.elem
        def h(v):
            if isinstance(v, Node):
                return v.dt == "s" or "id" in v.tags or "strs" in v.tags or v.dt in LABELS
            if isinstance(v, Tup):
                return any(h(x) for x in v.items)
            if isinstance(v, Alt):
                return any(h(x) for x in v.vals)
            return False
        return h(e)

    def addtag(self, v, st, tag, dep=None):
        if isinstance(v, Node):
            f = self.facets(v)
            f["tags"] = v.tags | {tag}
            if dep is not None:
                f["deps"] = v.deps | {dep}
            lo, lop, hi, hop = v.bounds()
            return mk("new", "tag:" + tag, v, **dict(f, lo=lo, lop=lop, hi=hi, hop=hop))
        if isinstance(v, Tup):
            return Tup([self.addtag(x, st, tag, dep) for x in v.items])
        if isinstance(v, Ref):
            c = st.heap.get(v.addr)
            if isinstance(c, ArrCell):
                return self.arr(st, self.addtag(self.load(v, st), st, tag, dep))
        return v

    def at(self, v, atom, ex, st, memo=None):
        """Instance of a per-index value at index ex."""
        if atom is None or ex is None:
            return v
        if ex == S.sym(atom):
            return v
        if memo is None:
            memo = {}
        if isinstance(v, Node):
            return N.rebuild(v, {}, {atom: ex})
        if isinstance(v, Tup):
            return Tup([self.at(x, atom, ex, st, memo) for x in v.items])
        if isinstance(v, Alt):
            return Alt([self.at(x, atom, ex, st, memo) for x in v.vals], N.rebuild(v.cond, {}, {atom: ex}) if isinstance(v.cond, Node) else None)
        if isinstance(v, Ref):
            if v.addr in memo:
                return memo[v.addr]
            c = st.heap.get(v.addr)
            if c is None:
                return v
            if isinstance(c, ArrCell):
                n = self.load(v, st)
                if not N.mentions(n, atom):
                    return v
                r = self.new(st, ArrCell(N.rebuild(n, {}, {atom: ex}), owners=c.owners))
                memo[v.addr] = r
                return r
            if isinstance(c, (InstCell, LibInst)):
                if not any(N.mentions(n, atom) for n in self.flatnodes(v, st)):
                    return v
                r = self.new(st, c)
                memo[v.addr] = r
                st.heap[r.addr] = c.clone(attrs={k: self.at(x, atom, ex, st, memo) for k, x in c.attrs.items()})
                return r
            if isinstance(c, ListCell):
                if not any(N.mentions(n, atom) for n in self.flatnodes(v, st)):
                    return v
                r = self.new(st, c)
                memo[v.addr] = r
                sm = c.summ
                if sm is not None and sm[0] != atom:
                    sm = (sm[0], self.at(sm[1], atom, ex, st, memo), self.at(sm[2], atom, ex, st, memo))
                st.heap[r.addr] = c.clone(items=[self.at(x, atom, ex, st, memo) for x in c.items] if c.items is not None else None, summ=sm)
                return r
        return v


BINOPS = {ast.Add: "add", ast.Sub: "sub", ast.Mult: "mul", ast.Div: "div", ast.FloorDiv: "floordiv", ast.Mod: "mod",
          ast.Pow: "pow", ast.MatMult: "matmul", ast.BitAnd: "and", ast.BitOr: "or", ast.BitXor: "xor",
          ast.LShift: "lshift", ast.RShift: "rshift"}
CMPOPS = {ast.Lt: "lt", ast.LtE: "le", ast.Gt: "gt", ast.GtE: "ge", ast.Eq: "eq", ast.NotEq: "ne"}

from . import evalx  # noqa: E402  (adds expression evaluation to Interp)
evalx.install(Interp)

"""Expression evaluation, attribute access, indexing and calls."""
import ast
from builtins import getattr as bgetattr, setattr as bsetattr
from . import sym as S
from . import node as N
from .node import Node, mk, const, constof, NOCONST, exn, FULL, ES


class Ix:
    """An index: raw value (for mappings) and per-axis items (for arrays)."""
    __slots__ = ("raw", "spec")

    def __init__(self, raw, spec):
        self.raw, self.spec = raw, spec


def install(Interp):
    from . import interp as I_
    Ref, Tup, Alt, Func, Cls, Super, Mod, Lib, Slice, Partial = (I_.Ref, I_.Tup, I_.Alt, I_.Func, I_.Cls, I_.Super, I_.Mod, I_.Lib, I_.Slice, I_.Partial)
    ArrCell, ListCell, DictCell, SetCell, InstCell, ModCell, ClsCell, LibInst = (I_.ArrCell, I_.ListCell, I_.DictCell, I_.SetCell, I_.InstCell, I_.ModCell, I_.ClsCell, I_.LibInst)
    State, Out, Exc, Abrupt, Frame = I_.State, I_.Out, I_.Exc, I_.Abrupt, I_.Frame
    BINOPS, CMPOPS = I_.BINOPS, I_.CMPOPS

    def meth(f):
        bsetattr(Interp, f.__name__, f)
        return f

    @meth
    def eval(self, e, st):
        self.steps += 1
        if hasattr(e, "lineno"):
            self.curline = e.lineno
        m = bgetattr(self, "e_" + type(e).__name__, None)
        if m is None:
            self.gap("expression " + type(e).__name__)
            return self.unk("expr:" + type(e).__name__, [])
        return m(e, st)

    @meth
    def e_Constant(self, e, st):
        if e.value is Ellipsis:
            return Lib("Ellipsis")
        if isinstance(e.value, (bytes, complex)):
            return mk("unk", "const", repr(e.value), shape=(), dt="c" if isinstance(e.value, complex) else "O", deps=ES)
        return const(e.value)

    @meth
    def lookup(self, name, st, node=None):
        if name in st.env:
            return st.env[name]
        fr = self.frames[-1]
        env = fr.func.env if fr.func is not None else None
        seen = 0
        while env is not None and seen < 6:
            if name in env:
                return env[name]
            env = env.get("__closure__") if isinstance(env.get("__closure__"), dict) else None
            seen += 1
        m = self.modules.get(fr.mod)
        if m is not None:
            c = st.heap.get(m.addr)
            if c is not None and name in c.env:
                return c.env[name]
        b = self.M.builtin(name)
        if b is not None:
            return b
        self.ev("undef", node, st, name=name)
        raise Abrupt([(st, Exc("UnboundLocalError", site=self.site(node)))])

    @meth
    def e_Name(self, e, st):
        return self.lookup(e.id, st, e)

    @meth
    def e_NamedExpr(self, e, st):
        v = self.eval(e.value, st)
        self.assign(e.target, v, st, e)
        return v

    @meth
    def e_Attribute(self, e, st):
        return self.getattr(self.eval(e.value, st), e.attr, st, e)

    @meth
    def e_Subscript(self, e, st):
        o = self.eval(e.value, st)
        ix = self.eval_index(e.slice, st)
        return self.getitem(o, ix, st, e)

    @meth
    def e_Tuple(self, e, st):
        return Tup(self.eval_elts(e.elts, st))

    @meth
    def eval_elts(self, elts, st):
        out = []
        for x in elts:
            if isinstance(x, ast.Starred):
                v = self.eval(x.value, st)
                it = self.unpack_all(v, st)
                if it is None:
                    m = self.itermodel(v, st, x)
                    it = m[1] if m[0] == "concrete" else [self.unk("starred", [v], st=st)]
                out += it
            else:
                out.append(self.eval(x, st))
        return out

    @meth
    def e_List(self, e, st):
        star = [x for x in e.elts if isinstance(x, ast.Starred)]
        if len(e.elts) >= 1 and star:
            r = self.new(st, ListCell(items=[]))
            for x in e.elts:
                if isinstance(x, ast.Starred):
                    self.M.list_extend(self, st, r, self.eval(x.value, st), x)
                else:
                    self.M.list_append(self, st, r, self.eval(x, st), x)
            return r
        return self.new(st, ListCell(items=self.eval_elts(e.elts, st)))

    @meth
    def e_Set(self, e, st):
        items = self.eval_elts(e.elts, st)
        return self.new(st, SetCell(elem=self.joinalt(items), items=items))

    @meth
    def tokey(self, v):
        """Hashable Python key for constants, else None."""
        if isinstance(v, Node):
            c = constof(v)
            if c is NOCONST:
                return None
            return ("k", c)
        if isinstance(v, Tup):
            ks = [self.tokey(x) for x in v.items]
            if any(k is None for k in ks):
                return None
            return ("k", tuple(k[1] for k in ks))
        return None

    @meth
    def e_Dict(self, e, st):
        r = self.new(st, DictCell({}))
        for k, v in zip(e.keys, e.values):
            if k is None:
                x = self.eval(v, st)
                c = self.cell(x, st)
                if isinstance(c, DictCell):
                    d = st.heap[r.addr]
                    st.heap[r.addr] = d.clone(entries=dict(d.entries, **c.entries) if all(isinstance(q, str) for q in c.entries) else {**d.entries, **c.entries}, summ=c.summ or d.summ)
                elif isinstance(c, LibInst):
                    self.kwmerge(r, x, st)
                continue
            kv = self.eval(k, st)
            vv = self.eval(v, st)
            self.dict_set(r, kv, vv, st)
        return r

    @meth
    def kwmerge(self, ref, src, st, over=True):
        """A mapping whose keys are not known (keyword options) is written over a dict."""
        d = st.heap[ref.addr]
        kws = self.cell(src, st).cls == "kwargs"
        ent = dict(d.entries)
        if over and kws:
            for k, v in ent.items():
                o = mk("unk", "kw:" + str(k), shape=None, deps=frozenset({("in", "kwargs"), ("opt", "kw:" + str(k))}))
                ent[k] = self.joinv(v, o)
        val = mk("unk", "kw:*", shape=None, deps=frozenset({("in", "kwargs")})) if kws else self.unk("val", [src], st=st)
        if d.summ is not None:
            val = self.joinv(d.summ[1], val)
        st.heap[ref.addr] = d.clone(entries=ent, summ=(self.unk("key", [src], st=st, shape=(), dt="s", taint=False), val))

    @meth
    def dict_set(self, ref, k, v, st, node=None):
        c = st.heap[ref.addr]
        key = self.tokey(k)
        if key is not None:
            st.heap[ref.addr] = c.clone(entries={**c.entries, key[1]: v})
        else:
            if c.summ is None:
                sm = (k, v)
            else:
                sm = (self.joinv(c.summ[0], k), self.joinv(c.summ[1], v))
            atom = None
            if self.loopstack and self.loopstack[-1][2] is not None:
                atom = self.loopstack[-1]
            st.heap[ref.addr] = c.clone(summ=sm)

    @meth
    def e_Lambda(self, e, st):
        fr = self.frames[-1]
        return Func(e, fr.mod, fr.qual + ".<lambda>", env=self.closure(st), defaults=[self.eval(d, st) for d in e.args.defaults])

    @meth
    def closure(self, st):
        fr = self.frames[-1]
        env = st.env
        if fr.func is not None and fr.func.env is not None:
            env = dict(fr.func.env, **st.env)
        return env

    @meth
    def e_IfExp(self, e, st):
        t, cond = self.truth(self.eval(e.test, st), st)
        if t is True:
            return self.eval(e.body, st)
        if t is False:
            return self.eval(e.orelse, st)
        s1, s2 = st.fork(cond, True), st.fork(cond, False)
        self.assume(s1, cond, True, e.test)
        self.assume(s2, cond, False, e.test)
        a = b = None
        excs = []
        try:
            a = self.eval(e.body, s1)
        except Abrupt as x:
            excs += x.excs
            s1 = None
        try:
            b = self.eval(e.orelse, s2)
        except Abrupt as x:
            excs += x.excs
            s2 = None
        if s1 is None and s2 is None:
            raise Abrupt(excs)
        self.frames[-1].excs += excs
        pc, env = st.pc, None
        if s1 is None or s2 is None:
            s = s1 or s2
            # keep un-narrowed variables
            st.heap, st.glob = s.heap, s.glob
            return a if s1 is not None else b
        saved = dict(st.env)
        j = self.join(s1, s2)
        st.heap, st.glob = j.heap, j.glob
        st.env = saved
        for k, v in j.env.items():
            if k not in st.env:
                st.env[k] = v
        st.pc = pc
        return self.joinv(a, b, cond)

    @meth
    def e_BoolOp(self, e, st):
        isand = isinstance(e.op, ast.And)
        acc = None
        for i, x in enumerate(e.values):
            if acc is None:
                v = self.eval(x, st)
            else:
                s2 = st.fork()
                self.assume(s2, acc[1] if acc[1] is not None else N.TRUE, isand)
                try:
                    v = self.eval(x, s2)
                    st.heap, st.glob = s2.heap, s2.glob
                except Abrupt as a:
                    self.frames[-1].excs += a.excs
                    continue
            t, c = self.truth(v, st)
            if acc is None:
                if t is (not isand):
                    return v
                if t is isand:
                    if i == len(e.values) - 1:
                        return v
                    acc = None
                    last = v
                    continue
                acc = (v, c)
            else:
                if t is isand:
                    continue
                if t is (not isand):
                    # decided here, or earlier
                    r = self.joinv(acc[0], v) if not (isinstance(acc[0], Node) and acc[0].dt == "b") else const(not isand)
                    return r
                if all(isinstance(q, Node) and q.shape == () for q in (acc[1], c)):
                    n = mk("and" if isand else "or", acc[1], c)
                    acc = (n, n)
                else:
                    n = self.unk("boolop", [acc[1], c], st=st, taint=False, shape=(), dt="b")
                    acc = (n, n)
        return acc[0] if acc is not None else v

    @meth
    def e_UnaryOp(self, e, st):
        v = self.eval(e.operand, st)
        if isinstance(e.op, ast.Not):
            t, c = self.truth(v, st)
            if t is not None:
                return const(not t)
            return mk("not", c)
        n = self.load(v, st)
        if isinstance(e.op, ast.USub):
            return self.arr(st, mk("neg", n))
        if isinstance(e.op, ast.UAdd):
            return v
        return self.arr(st, mk("not", n) if n.dt == "b" else self.unk("invert", [n], shape=n.shape, dt=n.dt, taint=n.dt is None))

    @meth
    def e_BinOp(self, e, st):
        a = self.eval(e.left, st)
        b = self.eval(e.right, st)
        return self.binop(BINOPS[type(e.op)], a, b, st, e)

    @meth
    def isstr(self, v):
        return isinstance(v, Node) and v.dt == "s"

    @meth
    def binop(self, op, a, b, st, node=None):
        ca, cb = self.cell(a, st), self.cell(b, st)
        if op == "or" and isinstance(ca, DictCell) and (isinstance(cb, DictCell) or isinstance(cb, LibInst) and cb.cls == "kwargs"):
            r = self.new(st, ca.clone(owners=ES))
            if isinstance(cb, DictCell):
                st.heap[r.addr] = st.heap[r.addr].clone(entries={**ca.entries, **cb.entries}, summ=cb.summ or ca.summ)
            else:
                self.kwmerge(r, b, st)
            return r
        if isinstance(a, Alt) or isinstance(b, Alt):
            for v, side in ((a, 0), (b, 1)):
                if isinstance(v, Alt):
                    vs = [x for x in v.vals if not (isinstance(x, Node) and x.op == "const" and x.args[0] is None)]
                    if vs and not all(isinstance(x, (Node,)) or isinstance(self.cell(x, st), ArrCell) for x in vs):
                        rs = [self.binop(op, x, b, st, node) if side == 0 else self.binop(op, a, x, st, node) for x in vs]
                        return self.joinalt(rs)
        if self.isstr(a) or self.isstr(b):
            x, y = constof(a) if isinstance(a, Node) else NOCONST, constof(b) if isinstance(b, Node) else NOCONST
            if op == "add" and isinstance(x, str) and isinstance(y, str):
                return const(x + y)
            if op == "mul" and isinstance(x, str) and isinstance(y, int):
                return const(x * y)
            if op == "mod" and isinstance(x, str):
                if y is not NOCONST and not isinstance(y, tuple):
                    try:
                        return const(x % y)
                    except Exception:
                        pass
                if isinstance(b, Tup):
                    k = self.tokey(b)
                    if k is not None:
                        try:
                            return const(x % k[1])
                        except Exception:
                            pass
            return mk("unk", "str" + op, tuple(self.flatnodes(a, st) + self.flatnodes(b, st)), shape=(), dt="s", nz=True,
                      tags=frozenset({"strs"}))
        if isinstance(ca, ListCell) or isinstance(cb, ListCell):
            if op == "add" and isinstance(ca, ListCell) and isinstance(cb, ListCell):
                r = self.new(st, ListCell(items=[]))
                self.M.list_extend(self, st, r, a, node)
                self.M.list_extend(self, st, r, b, node)
                return r
            if op == "mul" and isinstance(ca, ListCell) != isinstance(cb, ListCell):
                l, n = (ca, b) if isinstance(ca, ListCell) else (cb, a)
                if isinstance(n, Node) and n.shape == ():
                    c = constof(n)
                    if isinstance(c, int) and l.items is not None and l.summ is None and c * len(l.items) <= 64:
                        return self.new(st, ListCell(items=list(l.items) * max(c, 0)))
                    if l.items is not None and l.items and l.summ is None:
                        L = mk("mul", n, const(len(l.items)))
                        return self.new(st, ListCell(items=None, summ=(None, self.joinalt(l.items), L)))
        if isinstance(ca, SetCell) and isinstance(cb, SetCell) or isinstance(ca, SetCell) and op in ("sub", "and", "or", "xor"):
            el = ca.elem
            if op in ("or", "xor") and isinstance(cb, SetCell) and cb.elem is not None:
                el = cb.elem if el is None else self.joinv(el, cb.elem)
            if el is not None:
                dd = self.depsof(a, st) | self.depsof(b, st)
            return self.new(st, SetCell(elem=el))
        if isinstance(a, Tup) and isinstance(b, Tup) and op == "add":
            return Tup(a.items + b.items)
        if isinstance(a, Tup) and op == "mul" and isinstance(b, Node) and isinstance(constof(b), int):
            return Tup(a.items * constof(b))
        if isinstance(ca, InstCell) or isinstance(cb, InstCell):
            nm = {"add": "__add__", "sub": "__sub__", "mul": "__mul__", "div": "__truediv__", "mod": "__mod__"}.get(op)
            if isinstance(ca, InstCell) and nm and self.findattr(ca.cls, nm, st) is not None:
                return self.call(self.getattr(a, nm, st, node), [b], {}, node, st)
        x, y = self.load(a, st), self.load(b, st)
        return self.arr(st, self.numop(op, x, y, st, node))

    @meth
    def numop(self, op, x, y, st, node=None):
        if op == "matmul":
            self.check_dot(x, y, node, st)
            return N.dot(x, y)
        if op in ("lshift", "rshift"):
            return self.unk(op, [x, y], shape=(), dt="i", integral=True)
        sh, bad = N.bshape(x.shape, y.shape)
        if bad:
            self.ev("bmis", node, st, dims=bad, shapes=(x.shape, y.shape), a=x, b=y)
        if op in ("div", "floordiv", "mod") and x.dt != "s":
            self.ev("div", node, st, num=x, den=y, op=op)
        return mk(op, x, y)

    @meth
    def check_dot(self, x, y, node, st):
        if x.rank and y.rank and x.rank <= 2 and y.rank <= 2:
            a, b = x.shape[-1], y.shape[0] if y.rank == 1 else y.shape[-2]
            if a is not None and b is not None and a != b:
                self.ev("bmis", node, st, dims=(a, b), shapes=(x.shape, y.shape), a=x, b=y)

    @meth
    def e_Compare(self, e, st):
        left = self.eval(e.left, st)
        res = None
        for op, rx in zip(e.ops, e.comparators):
            right = self.eval(rx, st)
            r = self.compare(op, left, right, st, e)
            if res is None:
                res = r
            else:
                t, _ = self.truth(res, st)
                if t is False:
                    return res
                if t is True:
                    res = r
                else:
                    t2, _ = self.truth(r, st)
                    if t2 is False:
                        res = r
                    elif t2 is None:
                        res = mk("and", self.load(res, st), self.load(r, st))
            left = right
        return res

    @meth
    def isnone(self, v, st):
        if isinstance(v, Node):
            if v.op == "const":
                return v.args[0] is None
            if v.op == "unk" and v.shape is None and v.dt is None:
                return None
            return False
        if isinstance(v, Alt):
            rs = [self.isnone(x, st) for x in v.vals]
            if all(r is True for r in rs):
                return True
            if all(r is False for r in rs):
                return False
            return None
        return False

    @meth
    def compare(self, op, a, b, st, node=None):
        if isinstance(op, (ast.Is, ast.IsNot)):
            pos = isinstance(op, ast.Is)
            for x, y in ((a, b), (b, a)):
                if isinstance(y, Node) and y.op == "const" and y.args[0] is None:
                    r = self.isnone(x, st)
                    if r is not None:
                        return const(r == pos)
                    if isinstance(x, Alt) and isinstance(x.cond, Node) and len(x.vals) == 2:
                        first = self.isnone(x.vals[0], st)
                        second = self.isnone(x.vals[1], st)
                        if first is not None and second is not None:
                            c = x.cond if first == pos else mk("not", x.cond)
                            return c
                    n = self.unk("isnone", [x], st=st, taint=False, shape=(), dt="b")
                    return n if pos else mk("not", n)
            if isinstance(a, Node) and isinstance(b, Node):
                x, y = constof(a), constof(b)
                if x is not NOCONST and y is not NOCONST:
                    return const((x is y or (type(x) is type(y) and x == y)) == pos)
            if isinstance(a, Ref) and isinstance(b, Ref) and a.addr == b.addr:
                return const(pos)
            if isinstance(a, (Lib, Func, Cls)) and isinstance(b, (Lib, Func, Cls)):
                return const((a == b) == pos)
            n = self.unk("is", [a, b], st=st, taint=False, shape=(), dt="b")
            self.ev("is", node, st)
            return n if pos else mk("not", n)
        if isinstance(op, (ast.In, ast.NotIn)):
            r = self.contains(a, b, st, node)
            if isinstance(op, ast.In):
                return r
            t, c = self.truth(r, st)
            return const(not t) if t is not None else mk("not", c)
        rel = CMPOPS[type(op)]
        return self.relcmp(rel, a, b, st, node)

    @meth
    def relcmp(self, rel, a, b, st, node=None):
        if isinstance(a, Tup) and isinstance(b, Tup):
            if rel in ("eq", "ne"):
                if len(a.items) != len(b.items):
                    return const(rel == "ne")
                acc = N.TRUE
                for x, y in zip(a.items, b.items):
                    r = self.load(self.relcmp("eq", x, y, st, node), st)
                    t, _ = self.truth(r, st)
                    if t is False:
                        return const(rel == "ne")
                    if t is None:
                        acc = r if acc is N.TRUE else mk("and", acc, r)
                return acc if rel == "eq" else (const(False) if acc is N.TRUE else mk("not", acc))
            xs, ys = [self.load(x, st) for x in a.items], [self.load(y, st) for y in b.items]
            r = ES
            for x, y in zip(xs, ys):
                r |= mk("cmp", rel, x, y).deps
            return mk("unk", "tupcmp", rel, tuple(xs + ys), shape=(), dt="b", deps=r)
        if isinstance(a, Alt) or isinstance(b, Alt):
            # compare the numeric alternatives
            for v, o, side in ((a, b, 0), (b, a, 1)):
                if isinstance(v, Alt):
                    rs = [self.relcmp(rel, x, o, st, node) if side == 0 else self.relcmp(rel, o, x, st, node) for x in v.vals if not self.isnone(x, st)]
                    if not rs:
                        return N.FALSE
                    if len(rs) == len(v.vals):
                        return self.joinv(rs[0], rs[1], v.cond) if len(rs) == 2 else self.joinalt(rs)
                    if rel in ("eq", "ne"):
                        n = self.load(self.joinalt(rs), st)
                        return self.unk("altcmp", [n], st=st, taint=False, shape=(), dt="b")
                    return self.joinalt(rs)
        ca, cb = self.cell(a, st), self.cell(b, st)
        for x, y in ((a, b), (b, a)):
            if isinstance(y, Node) and y.op == "const" and y.args[0] is None and rel in ("eq", "ne"):
                if self.isnone(x, st) is False:
                    return const(rel == "ne")
        if isinstance(ca, (ListCell,)) and isinstance(cb, ListCell) and ca.items is not None and cb.items is not None and ca.summ is None and cb.summ is None:
            return self.relcmp(rel, Tup(ca.items), Tup(cb.items), st, node)
        if self.isstr(a) != self.isstr(b) and isinstance(a, Node) and isinstance(b, Node) and rel in ("eq", "ne") and a.dt is not None and b.dt is not None and a.dt != "O" and b.dt != "O" and not a.dt.startswith("in:") and not b.dt.startswith("in:"):
            if a.shape == () and b.shape == ():
                return const(rel == "ne")
        if isinstance(a, (Lib, Func, Cls)) or isinstance(b, (Lib, Func, Cls)):
            return self.unk("cmp", [a, b], st=st, taint=False, shape=(), dt="b") if a != b or rel not in ("eq", "ne") else const(rel == "eq")
        if isinstance(ca, (SetCell, DictCell)) or isinstance(cb, (SetCell, DictCell)):
            return self.unk("cmp", [a, b], st=st, taint=False, shape=(), dt="b")
        x, y = self.load(a, st), self.load(b, st)
        sh, bad = N.bshape(x.shape, y.shape)
        if bad:
            self.ev("bmis", node, st, dims=bad, shapes=(x.shape, y.shape), a=x, b=y)
        self.ev("cmp", node, st, rel=rel, a=x, b=y)
        return self.arr(st, mk("cmp", rel, x, y))

    @meth
    def contains(self, a, b, st, node=None):
        if isinstance(b, Tup):
            return self.anyeq(a, b.items, st, node)
        cb = self.cell(b, st)
        if isinstance(cb, ListCell) and cb.summ is None:
            return self.anyeq(a, cb.items, st, node)
        if isinstance(cb, SetCell) and cb.items is not None:
            return self.anyeq(a, cb.items, st, node)
        if isinstance(cb, SetCell) and cb.elem is None:
            return N.FALSE
        if isinstance(cb, DictCell):
            k = self.tokey(a)
            if k is not None and k[1] in cb.entries:
                return N.TRUE
            if k is not None and cb.summ is None:
                return N.FALSE
            if not cb.entries and cb.summ is None:
                return N.FALSE
            d = self.depsof(a, st)
            ks = [cb.summ[0]] if cb.summ is not None else []
            return self.unk("in", [a] + ks, st=st, taint=False, shape=(), dt="b")
        if isinstance(a, Node) and isinstance(b, Node):
            x, y = constof(a), constof(b)
            if isinstance(x, str) and isinstance(y, str):
                return const(x in y)
        if isinstance(cb, LibInst) and cb.cls == "kwargs":
            return self.unk("in", [a, b], st=st, taint=False, shape=(), dt="b")
        n = self.unk("in", [a, b], st=st, taint=False, shape=(), dt="b")
        return n

    @meth
    def anyeq(self, a, items, st, node):
        if not items:
            return N.FALSE
        unknown = []
        for x in items:
            r = self.relcmp("eq", a, x, st, node)
            t, c = self.truth(r, st)
            if t is True:
                return N.TRUE
            if t is None:
                unknown.append(c)
        if not unknown:
            return N.FALSE
        acc = unknown[0]
        for c in unknown[1:]:
            acc = mk("or", acc, c) if acc.shape == () and c.shape == () else self.unk("in", [acc, c], st=st, taint=False, shape=(), dt="b")
        return acc

    @meth
    def e_JoinedStr(self, e, st):
        parts, allc = [], True
        for v in e.values:
            if isinstance(v, ast.Constant):
                parts.append(str(v.value))
            else:
                x = self.eval(v.value, st)
                c = constof(x) if isinstance(x, Node) else NOCONST
                if c is NOCONST or v.format_spec is not None or v.conversion not in (-1, 115):
                    allc = False
                    parts.append(x)
                else:
                    parts.append(str(c))
        if allc:
            return const("".join(parts))
        ns = [n for p in parts if not isinstance(p, str) for n in self.flatnodes(p, st)]
        return mk("unk", "fstr", tuple(p if isinstance(p, str) else "{}" for p in parts), tuple(ns), shape=(), dt="s", nz=True,
                  tags=frozenset({"strs"}))

    @meth
    def e_FormattedValue(self, e, st):
        return self.eval(e.value, st)

    @meth
    def e_Starred(self, e, st):
        return self.eval(e.value, st)

    @meth
    def e_Yield(self, e, st):
        v = self.eval(e.value, st) if e.value is not None else N.NONE
        y = st.env.get("__yield__")
        if y is not None:
            self.M.list_append(self, st, y, v, e)
        return N.NONE

    @meth
    def e_YieldFrom(self, e, st):
        v = self.eval(e.value, st)
        y = st.env.get("__yield__")
        if y is not None:
            self.M.list_extend(self, st, y, v, e)
        return N.NONE

    @meth
    def e_Await(self, e, st):
        return self.eval(e.value, st)

    # -------------------------------------------------------- comprehensions
    @meth
    def e_ListComp(self, e, st):
        return self.comp(e, e.elt, st)

    @meth
    def e_GeneratorExp(self, e, st):
        return self.comp(e, e.elt, st)

    @meth
    def e_SetComp(self, e, st):
        r = self.comp(e, e.elt, st)
        return self.M.to_set(self, st, r, e)

    @meth
    def e_DictComp(self, e, st):
        r = self.comp(e, (e.key, e.value), st)
        c = st.heap[r.addr]
        d = self.new(st, DictCell({}))
        for x in (c.items or []):
            self.dict_set(d, x.items[0], x.items[1], st)
        if c.summ is not None:
            atom, el, L = c.summ
            dc = st.heap[d.addr]
            st.heap[d.addr] = dc.clone(summ=(el.items[0], el.items[1]), order=atom, length=L)
        return d

    @meth
    def comp(self, e, elt, st):
        saved = dict(st.env)
        r = self.new(st, ListCell(items=[]))
        self.compgen(e, elt, e.generators, 0, st, r)
        # comprehension variables are local
        names = set()
        for g in e.generators:
            for n in ast.walk(g.target):
                if isinstance(n, ast.Name):
                    names.add(n.id)
        env = st.env
        for nm in names:
            if nm in saved:
                env[nm] = saved[nm]
            else:
                env.pop(nm, None)
        return r

    @meth
    def compgen(self, e, elt, gens, i, st, r):
        if i == len(gens):
            v = Tup([self.eval(x, st) for x in elt]) if isinstance(elt, tuple) else self.eval(elt, st)
            self.M.list_append(self, st, r, v, e)
            return
        g = gens[i]
        itv = self.eval(g.iter, st)
        model = self.itermodel(itv, st, g.iter)
        if model[0] == "concrete":
            for x in model[1]:
                self.assign(g.target, x, st, e)
                skip, cond = False, None
                for f in g.ifs:
                    t, c = self.truth(self.eval(f, st), st)
                    if t is False:
                        skip = True
                        break
                    if t is None:
                        cond = c
                if skip:
                    continue
                if cond is not None:
                    s2 = st.fork(cond, True)
                    self.assume(s2, cond, True)
                    env = dict(st.env)
                    self.compgen(e, elt, gens, i + 1, s2, r)
                    j = self.join(s2, st.fork(cond, False))
                    st.heap, st.glob = j.heap, j.glob
                else:
                    self.compgen(e, elt, gens, i + 1, st, r)
            return
        _, trip, elem = model
        node = g.iter
        key = type("K", (), {})()
        atom = self.compatom(g, trip)
        it = mk("atom", atom)
        self.loopstack.append((atom, g, trip))
        pre = st.heap[r.addr]
        try:
            st.heap[r.addr] = ListCell(items=[])
            pc = st.pc
            self.assign(g.target, elem(it, st), st, e)
            cond = None
            skip = False
            for f in g.ifs:
                t, c = self.truth(self.eval(f, st), st)
                if t is False:
                    skip = True
                if t is None:
                    cond = c if cond is None else mk("and", cond, c) if cond.shape == () and c.shape == () else c
                    self.assume(st, c, True, f)
            if not skip:
                self.compgen(e, elt, gens, i + 1, st, r)
            got = st.heap[r.addr]
        finally:
            self.loopstack.pop()
        L = exn(trip) if trip is not None else mk("new", "len", e.lineno, e.col_offset, self.load(itv, st) if isinstance(itv, (Node, Ref)) and not isinstance(self.cell(itv, st), (LibInst, DictCell)) else it, shape=(), dt="i", lo=S.ZERO)
        if got.items is not None and len(got.items) == 0 and got.summ is None:
            st.heap[r.addr] = pre
            return
        if got.items is not None and len(got.items) == 1 and got.summ is None:
            el = got.items[0]
            if cond is None:
                new = ListCell(items=list(pre.items) if pre.items else None, summ=(atom if trip is not None else None, el, L)) if pre.summ is None else None
            else:
                hi = trip
                cnt = mk("new", "len", e.lineno, e.col_offset, cond, shape=(), dt="i", lo=S.ZERO, hi=hi, deps=cond.deps)
                el2 = self.adddeps(el, cond.deps, st)
                new = ListCell(items=list(pre.items) if pre.items else None, summ=(None, el2, cnt)) if pre.summ is None else None
        else:
            b = self.list_blur([got], ES)
            el = b.summ[1]
            inner = b.summ[2]
            lo, hi = S.ZERO, None
            if cond is None and trip is not None and inner._ex is not None and not S.has_val(inner._ex):
                Ln = exn(S.mul(inner._ex, trip))
            else:
                Ln = mk("new", "len", e.lineno, e.col_offset, inner, it, shape=(), dt="i", lo=S.ZERO)
            if cond is not None:
                el = self.adddeps(el, cond.deps, st)
            new = ListCell(items=list(pre.items) if pre.items else None, summ=(None, el, Ln)) if pre.summ is None else None
        if new is None:
            new = self.list_blur([pre, st.heap[r.addr]], ES)
        st.heap[r.addr] = new

    @meth
    def compatom(self, g, trip):
        fr = self.frames[-1]
        key = (fr.mod, fr.qual, g.iter.lineno, g.iter.col_offset, "c", sum(1 for l in self.loopstack if l[1] is g), trip)
        nm = self.uidmap.get(key)
        if nm is None:
            nm = self.uidmap[key] = "i%d" % (len(self.uidmap) + 1)
            S.atom(nm, S.ZERO, S.sub(trip, S.ONE) if trip is not None else None, integral=True)
        return nm

    @meth
    def adddeps(self, v, deps, st):
        if not deps:
            return v
        if isinstance(v, Node):
            if deps <= v.deps or v.op == "const" and v.args[0] is None:
                return v
            f = self.facets(v)
            lo, lop, hi, hop = v.bounds()
            f.update(lo=lo, hi=hi, lop=lop, hop=hop, deps=v.deps | deps)
            if v._ex is not None and not N.is_elem(v._ex):
                f["ex"] = v._ex
            return mk("new", "dep", v, **f)
        if isinstance(v, Tup):
            return Tup([self.adddeps(x, deps, st) for x in v.items])
        return v

    # -------------------------------------------------------- attributes
    @meth
    def findattr(self, cls, name, st):
        for c in cls.mro():
            a = st.heap[c.addr].attrs
            if name in a:
                return a[name], c
        return None

    @meth
    def libbases(self, cls):
        return [b for c in cls.mro() for b in c.bases if not isinstance(b, Cls)]

    @meth
    def getattr(self, v, name, st, node=None, quiet=False):
        if isinstance(v, Alt):
            vs = [x for x in v.vals if not self.isnone(x, st)]
            rs = [self.getattr(x, name, st, node) for x in vs]
            if not rs:
                raise Abrupt([(st, Exc("AttributeError", site=self.site(node)))])
            if len(rs) == 2 and len(v.vals) == 2:
                return self.joinv(rs[0], rs[1], v.cond)
            return self.joinalt(rs)
        if isinstance(v, Mod):
            c = st.heap[v.addr]
            if name in c.env:
                return c.env[name]
            m = self.import_module(v.name + "." + name, st) if v.name + "." + name in self.trees else None
            if m is not None:
                return m
            self.ev("badattr", node, st, name=v.name + "." + name)
            return self.unk("attr:" + name, [])
        if isinstance(v, Lib):
            if v.bound is None:
                r = self.M.libattr(self, st, v, name, node)
                if r is not None:
                    return r
                return self.M.libname(v.name + "." + name)
            return Lib(v.name + "." + name, v.bound)
        if isinstance(v, Cls):
            if name == "__name__":
                return const(v.name)
            f = self.findattr(v, name, st)
            if f is not None:
                a = f[0]
                if isinstance(a, Partial) and a.fn == "staticmethod":
                    return a.args[0]
                if isinstance(a, Partial) and a.fn == "classmethod":
                    return a.args[0].bind(v)
                return a
            if name in ("__doc__", "__module__"):
                return mk("unk", "doc", shape=(), dt="s", deps=ES)
            return self.unk("classattr:" + name, [])
        if isinstance(v, Super):
            for c in v.cls.mro()[1:]:
                a = st.heap[c.addr].attrs
                if name in a:
                    return self.bindattr(a[name], v.selfv, c, st, node)
            return Lib("object." + name, v.selfv)
        if isinstance(v, Func):
            if name in ("__name__", "__qualname__"):
                return const(v.qual.split(".")[-1])
            if name == "__doc__":
                return mk("unk", "doc", shape=(), dt="s", deps=ES)
            key = "__fattr__" + v.mod + "." + v.qual + "." + name
            if key in st.glob:
                self.ev("fattrread", node, st, name=key)
                return st.glob[key]
            return self.unk("funcattr:" + name, [])
        if isinstance(v, Partial):
            if name in ("cache_clear", "cache_info"):
                return Lib("noop")
            return self.unk("attr:" + name, [])
        c = self.cell(v, st)
        if isinstance(c, InstCell):
            if name in c.attrs:
                return c.attrs[name]
            f = self.findattr(c.cls, name, st)
            if f is not None:
                return self.bindattr(f[0], v, f[1], st, node)
            if name == "__class__":
                return c.cls
            if name == "__dict__":
                return self.new(st, LibInst("instdict", {"of": v}))
            g = self.findattr(c.cls, "__getattr__", st)
            if g is not None:
                return self.call(g[0].bind(v), [const(name)], {}, node, st)
            if self.libbases(c.cls):
                return self.unk("attr:" + name, [v], st=st)
            self.ev("noattr", node, st, cls=c.cls.name, name=name)
            raise Abrupt([(st, Exc("AttributeError", site=self.site(node)))])
        if isinstance(c, LibInst):
            return self.M.instattr(self, st, v, c, name, node)
        if isinstance(c, ListCell):
            return Lib("list." + name, v)
        if isinstance(c, DictCell):
            return Lib("dict." + name, v)
        if isinstance(c, SetCell):
            return Lib("set." + name, v)
        if isinstance(v, Tup):
            return Lib("tuple." + name, v)
        if isinstance(v, Slice):
            return {"start": v.a, "stop": v.b, "step": v.c}.get(name, N.NONE)
        if isinstance(v, Node) and v.op == "const" and v.args[0] is None:
            raise Abrupt([(st, Exc("AttributeError", site=self.site(node)))])
        if self.isstr(v) and v.shape == ():
            return Lib("str." + name, v)
        return self.M.arrattr(self, st, v, name, node)

    @meth
    def bindattr(self, a, selfv, cls, st, node):
        if isinstance(a, Func):
            return a.bind(selfv)
        if isinstance(a, Partial) and a.fn == "property":
            r = self.call(a.args[0].bind(selfv), [], {}, node, st)
            if constof(a.kw["cached"]) is True:
                c = st.heap[selfv.addr]
                st.heap[selfv.addr] = c.clone(attrs=dict(c.attrs, **{a.args[0].qual.split(".")[-1]: r}))
            return r
        if isinstance(a, Partial) and a.fn == "staticmethod":
            return a.args[0]
        if isinstance(a, Partial) and a.fn == "classmethod":
            return a.args[0].bind(st.heap[selfv.addr].cls)
        if isinstance(a, Partial) and a.fn == "lru":
            return Partial("lru", [a.args[0].bind(selfv)], {})
        return a

    @meth
    def setattr(self, o, name, v, st, node=None):
        if isinstance(o, Alt):
            for x in o.vals:
                self.setattr(x, name, v, st, node)
            return
        c = self.cell(o, st)
        if isinstance(c, InstCell):
            ext = frozenset(x for x in c.owners)
            if ext:
                self.ev("mutate", node, st, owners=ext, how="." + name + " =", attr=name)
            d = self.findattr(c.cls, name, st)
            st.heap[o.addr] = c.clone(attrs=dict(c.attrs, **{name: v}), maybe=c.maybe - {name})
            self.ev("setattr", node, st, cls=c.cls.name, name=name, value=v, inst=o.addr)
        elif isinstance(c, LibInst):
            self.mutate(o, st, "." + name + " =", node, attr=name)
            st.heap[o.addr] = c.clone(attrs=dict(c.attrs, **{name: v}))
        elif isinstance(c, ArrCell):
            self.mutate(o, st, "." + name + " =", node, attr=name)
            n = self.load(o, st)
            if name == "shape":
                sh = self.M.toshape(self, st, v, n)
                self.write_arr(o, mk("reshape", n, sh), st, node)
        elif isinstance(o, (Lib, Mod)):
            self.ev("global", node, st, what="attribute %s of %s" % (name, o.name), lib=o.name, attr=name)
            if isinstance(o, Mod):
                mc = st.heap[o.addr]
                st.heap[o.addr] = mc.clone(env=dict(mc.env, **{name: v}))
        elif isinstance(o, Cls):
            self.ev("classset", node, st, cls=o.name, name=name)
            cc = st.heap[o.addr]
            st.heap[o.addr] = cc.clone(attrs=dict(cc.attrs, **{name: v}))
        elif isinstance(o, Func):
            self.ev("classset", node, st, cls=o.qual, name=name)
            st.glob["__fattr__" + o.mod + "." + o.qual + "." + name] = v
        else:
            self.gap("setattr on " + type(o).__name__)

    # -------------------------------------------------------- indexing
    @meth
    def eval_index(self, e, st):
        if isinstance(e, ast.Tuple):
            raws = []
            for x in e.elts:
                if isinstance(x, ast.Slice):
                    raws.append(self.e_Slice(x, st))
                elif isinstance(x, ast.Starred):
                    raws += self.eval_elts([x], st)
                else:
                    raws.append(self.eval(x, st))
            return Ix(Tup(raws), None)
        if isinstance(e, ast.Slice):
            return Ix(self.e_Slice(e, st), None)
        return Ix(self.eval(e, st), None)

    @meth
    def e_Slice(self, e, st):
        f = lambda x: self.eval(x, st) if x is not None else N.NONE
        return Slice(f(e.lower), f(e.upper), f(e.step))

    @meth
    def item(self, r, st):
        if isinstance(r, Slice):
            def ex(v):
                n = self.load(v, st)
                if n.op == "const" and n.args[0] is None:
                    return None, True
                if n._ex is not None:
                    return n._ex, True
                return n.ex, True
            a, _ = ex(r.a)
            b, _ = ex(r.b)
            c = constof(self.load(r.c, st))
            step = 1 if c is None else (c if isinstance(c, int) else None)
            return ("s", a, b, step)
        if isinstance(r, Lib):
            if r.name == "Ellipsis":
                return ("e",)
            if r.name == "numpy.newaxis":
                return ("n",)
        n = self.load(r, st)
        if n.op == "const" and n.args[0] is None:
            return ("n",)
        if isinstance(self.cell(r, st), ListCell) and n.shape is not None and n.shape != () and n.dt == "b":
            return ("m", n)
        if n.shape == ():
            return ("p", n)
        if n.dt == "b":
            return ("m", n)
        return ("a", n)

    @meth
    def tospec(self, ix, st):
        if isinstance(ix, tuple):
            return ix
        if ix.spec is None:
            r = ix.raw
            if isinstance(r, Tup):
                ix.spec = tuple(self.item(x, st) for x in r.items)
            else:
                c = self.cell(r, st)
                if isinstance(c, LibInst) and c.cls == "ixtuple":
                    ix.spec = tuple(c.attrs["spec"])
                else:
                    ix.spec = (self.item(r, st),)
        return ix.spec

    @meth
    def getitem(self, o, ix, st, node=None):
        raw = ix.raw if isinstance(ix, Ix) else (ix[0][1] if len(ix) == 1 else Tup([s[1] for s in ix]))
        if isinstance(o, Alt):
            rs = [self.getitem(x, ix, st, node) for x in o.vals if not self.isnone(x, st)]
            if not rs:
                raise Abrupt([(st, Exc("TypeError", site=self.site(node)))])
            if len(rs) == 2 and len(o.vals) == 2:
                return self.joinv(rs[0], rs[1], o.cond)
            return self.joinalt(rs)
        if isinstance(o, Tup):
            return self.seqitem(list(o.items), raw, st, node, Tup, o)
        c = self.cell(o, st)
        if isinstance(c, ListCell):
            return self.listitem(o, c, raw, st, node)
        if isinstance(c, DictCell):
            return self.dictitem(o, c, raw, st, node)
        if isinstance(c, LibInst):
            r = self.M.libitem(self, st, o, c, raw, node)
            if r is not None:
                return r
            return self.unk("item", [o, raw], st=st)
        if isinstance(c, InstCell):
            f = self.findattr(c.cls, "__getitem__", st)
            if f is not None:
                return self.call(f[0].bind(o), [raw], {}, node, st)
            return self.unk("item", [o], st=st)
        if isinstance(o, (Lib, Cls, Func, Mod, Partial)):
            r = self.M.liblookup(self, st, o, raw, node)
            return r if r is not None else self.unk("item", [raw], st=st)
        n = self.load(o, st)
        if self.isstr(n) and n.shape == ():
            cn = constof(n)
            if isinstance(cn, str):
                if isinstance(raw, Slice):
                    q = [constof(self.load(x, st)) for x in (raw.a, raw.b, raw.c)]
                    if all(x is None or isinstance(x, int) for x in q):
                        return const(cn[slice(*q)])
                k = constof(raw) if isinstance(raw, Node) else NOCONST
                if isinstance(k, int) and -len(cn) <= k < len(cn):
                    return const(cn[k])
            return mk("unk", "substr", n, tuple(self.flatnodes(raw, st)), shape=(), dt="s")
        spec = self.tospec(ix, st)
        self.check_index(n, spec, st, node, "load")
        r = mk("ix", n, spec)
        view = all(s[0] in ("p", "s", "n", "e") for s in spec)
        if view and r.shape != () and isinstance(o, Ref) and isinstance(c, ArrCell):
            nr = self.new(st, ArrCell(r, o.addr, lambda b, sp=spec: mk("ix", b, sp)))
            st.heap[nr.addr].vspec = spec
            return nr
        return self.arr(st, r)

    @meth
    def check_index(self, n, spec, st, node, how):
        if n.shape is None:
            return
        if n.dt == "s":
            return
        used = sum((max(1, s[1].rank or 1) if s[0] == "m" else 1) for s in spec if s[0] not in "ne")
        if used > len(n.shape):
            self.ev("ixrank", node, st, shape=n.shape, spec=spec)
            return
        _, pairs = N.spec_shape(n.shape, spec)
        for ax, s in pairs:
            if s[0] == "m" and s[1].rank == 1 and s[1].shape[0] is not None and n.shape[ax] is not None and s[1].shape[0] != n.shape[ax]:
                self.ev("bmis", node, st, dims=(s[1].shape[0], n.shape[ax]), shapes=(s[1].shape, n.shape), a=n, b=s[1])
        self.ev("index", node, st, arr=n, pairs=pairs, how=how, spec=spec)

    @meth
    def seqitem(self, items, raw, st, node, kind, o):
        if isinstance(raw, Slice):
            q = [constof(self.load(x, st)) for x in (raw.a, raw.b, raw.c)]
            if all(x is None or isinstance(x, int) for x in q):
                return kind(items[slice(*q)])
            return self.unk("slice", [o], st=st)
        n = self.load(raw, st)
        k = constof(n)
        if isinstance(k, bool):
            k = int(k)
        if isinstance(k, int):
            if -len(items) <= k < len(items):
                return items[k]
            self.ev("ixconst", node, st, n=len(items), k=k)
            raise Abrupt([(st, Exc("IndexError", site=self.site(node)))])
        if not items:
            return self.unk("item", [o], st=st)
        return self.inst(self.joinalt(items), n, st)

    @meth
    def inst(self, el, k, st):
        """The element at position k of a sequence whose elements are only known as el."""
        if isinstance(el, Node):
            if el.op in ("const", "exn") and k.deps <= el.deps:
                return el
            f = self.facets(el)
            lo, lop, hi, hop = el.bounds()
            f.update(lo=lo, hi=hi, lop=lop, hop=hop, deps=el.deps | k.deps)
            if el.op == "const":
                f["ex"] = el.ex if el.dt in "if" and el.shape == () else None
                if f["ex"] is None:
                    del f["ex"]
                return mk("new", "dep", el, **f)
            return mk("new", "item", el, k, **f)
        if isinstance(el, Tup):
            return Tup([self.inst(x, k, st) for x in el.items])
        if isinstance(el, Alt):
            return Alt([self.inst(x, k, st) for x in el.vals], el.cond)
        if isinstance(el, Ref) and isinstance(self.cell(el, st), ArrCell):
            n = self.load(el, st)
            if n.shape == ():
                return self.inst(n, k, st)
        return el

    @meth
    def listitem(self, o, c, raw, st, node):
        if c.summ is None:
            if isinstance(raw, Slice):
                return self.seqitem(list(c.items), raw, st, node, lambda xs: self.new(st, ListCell(items=list(xs))), o)
            n0 = self.load(raw, st)
            if n0.shape == ():
                if not c.items:
                    self.ev("ixconst", node, st, n=0, k="?")
                    return self.unk("item", [o], st=st)
                lst = None
                r = self.seqitem(list(c.items), raw, st, node, lambda xs: self.new(st, ListCell(items=list(xs))), o)
                return r
            return self.unk("item", [o, raw], st=st)
        atom, el, L = c.summ
        if isinstance(raw, Slice):
            sp = self.item(raw, st)
            hi = L.bounds()[2]
            ln = N.slice_len(L.ex, sp) if L._ex is not None and not c.items else None
            n0 = N.slice_start(L.ex, sp) if L._ex is not None else None
            if ln is not None and n0 is not None and not S.has_val(ln) or ln is not None and sp[1] is None:
                if atom is not None:
                    return self.new(st, ListCell(items=None, summ=(atom, self.at(el, atom, S.add(S.sym(atom), n0), st), mk("exn", ln))))
                # may be clipped by the length
                return self.new(st, ListCell(items=None, summ=(None, el, mk("exn", ln))))
            lb = L.bounds()[0]
            ll = mk("new", "slen", L, tuple(self.flatnodes(raw, st)), shape=(), dt="i", lo=S.ZERO, hi=hi)
            return self.new(st, ListCell(items=None, summ=(None, el, ll)))
        n = self.load(raw, st)
        if n.shape == ():
            k = constof(n)
            if c.items and isinstance(k, int):
                if 0 <= k < len(c.items):
                    return c.items[k]
                if k >= 0 and atom is not None:
                    return self.at(el, atom, S.num(k - len(c.items)), st)
                if k < 0 and atom is not None and L._ex is not None:
                    return self.at(el, atom, S.add(L._ex, S.num(k)), st)
            if c.items and not isinstance(k, int):
                return self.inst(self.joinv(self.joinalt(c.items), el), n, st)
            self.ev("lindex", node, st, length=L, idx=n)
            if atom is not None:
                e = n._ex if n._ex is not None else n.ex
                if isinstance(k, int) and k < 0 and L._ex is not None:
                    e = S.add(L._ex, S.num(k))
                r = self.at(el, atom, e, st)
                return self.adddeps(r, n.deps, st) if isinstance(r, Node) else r
            return self.inst(el, n, st)
        return self.arr(st, mk("ix", self.load(o, st), (("m" if n.dt == "b" else "a", n),)))

    @meth
    def dictitem(self, o, c, raw, st, node, default=None):
        k = self.tokey(raw)
        if k is not None:
            try:
                if k[1] in c.entries:
                    return c.entries[k[1]]
            except TypeError:
                pass
            if c.summ is None:
                if bgetattr(c, "factory", None) is not None:
                    v = self.call(c.factory, [], {}, node, st)
                    self.dict_set(o, raw, v, st)
                    return v
                if default is not None:
                    return default
                self.ev("keymiss", node, st, key=k[1])
                raise Abrupt([(st, Exc("KeyError", site=self.site(node)))])
            if default is not None:
                return self.joinv(c.summ[1], default)
            return c.summ[1]
        kn = self.flatnodes(raw, st)
        self.ev("dictget", node, st, keys=kn, dkeys=c.summ[0] if c.summ is not None else None, owners=c.owners,
                kinds=tuple(type(self.cell(z, st)).__name__ if isinstance(z, Ref) else None for z in (raw, c.summ[0] if c.summ is not None else None)),
                dkn=self.flatnodes(c.summ[0], st) if c.summ is not None else [])
        if c.entries and c.summ is None:
            ent = []
            for q, v in c.entries.items():
                cv = constof(v) if isinstance(v, Node) else NOCONST
                if cv is NOCONST or isinstance(cv, (str, tuple)) or cv is None:
                    ent = None
                    break
                ent.append((q, cv))
            if ent and kn and default is None:
                if isinstance(raw, Node) or isinstance(raw, Tup) and all(isinstance(x, Node) for x in raw.items):
                    keys = raw.items if isinstance(raw, Tup) else (raw,)
                    return mk("lookup", N.Table(ent), tuple(keys))
            v = self.joinalt(list(c.entries.values()))
        elif c.summ is not None:
            v = c.summ[1]
            if c.order is not None and isinstance(raw, Node) and isinstance(c.summ[0], Node):
                # {key_i: value_i}: the value belonging to the key
                kf = c.summ[0]
                if isinstance(v, Node) and v.op == "atom" and v.args[0] == c.order:
                    base = self.keybase(kf, c.order)
                    if base is not None:
                        r = mk("index_of", base, raw)
                        return r if default is None else self.joinv(r, default)
            if isinstance(v, Node) and isinstance(c.summ[0], Node):
                v = self.dictval(c, v, kn)
            if c.entries:
                for x in c.entries.values():
                    v = self.joinv(v, x)
        else:
            if bgetattr(c, "factory", None) is not None:
                v = self.call(c.factory, [], {}, node, st)
                self.dict_set(o, raw, v, st)
                return v
            if default is not None:
                return default
            self.ev("keymiss", node, st, key="?")
            return self.unk("item", [o, raw], st=st)
        if bgetattr(c, "factory", None) is not None:
            v = self.joinv(v, self.call(c.factory, [], {}, node, st))
        if default is not None:
            v = self.joinv(v, default)
        d = ES
        for n in kn:
            d |= n.deps
        return self.adddeps(v, d, st) if isinstance(v, (Node, Tup)) else v

    @meth
    def dictval(self, c, v, kn):
        f = self.facets(v)
        lo, lop, hi, hop = v.bounds()
        f.update(lo=lo, hi=hi, lop=lop, hop=hop, shape=v.shape)
        d = v.deps
        for n in kn:
            d |= n.deps
        f["deps"] = d
        return mk("new", "dictval", c.summ[0], v, tuple(kn), **f)

    @meth
    def keybase(self, kf, atom):
        if kf.op == "ix" and len(kf.args[1]) == 1 and kf.args[1][0][0] == "p" and kf.args[1][0][1].op == "atom" and kf.args[1][0][1].args[0] == atom:
            return kf.args[0]
        return None

    @meth
    def setitem(self, o, ix, v, st, node=None, aug=None):
        raw = ix.raw if isinstance(ix, Ix) else (ix[0][1] if len(ix) == 1 else Tup([s[1] for s in ix]))
        if isinstance(o, Alt):
            for x in o.vals:
                if not self.isnone(x, st):
                    self.setitem(x, ix, v, st, node, aug)
            return
        c = self.cell(o, st)
        if isinstance(c, ListCell):
            self.mutate(o, st, "item =", node)
            if c.summ is None:
                k = constof(self.load(raw, st)) if not isinstance(raw, Slice) else NOCONST
                items = list(c.items)
                if isinstance(k, int) and not isinstance(k, bool) and -len(items) <= k < len(items):
                    items[k] = v
                elif isinstance(raw, Slice):
                    st.heap[o.addr] = self.list_blur([c], c.owners)
                    return
                else:
                    items = [self.joinv(x, v) for x in items]
                st.heap[o.addr] = c.clone(items=items)
            else:
                a, el, L = c.summ
                st.heap[o.addr] = c.clone(items=[self.joinv(x, v) for x in c.items] if c.items else None, summ=(None, self.joinv(el, v), L))
            return
        if isinstance(c, DictCell):
            self.mutate(o, st, "item =", node)
            self.dict_set(o, raw, v, st, node)
            return
        if isinstance(c, LibInst):
            if not self.M.libsetitem(self, st, o, c, raw, v, node):
                self.mutate(o, st, "item =", node)
            return
        if isinstance(c, InstCell):
            f = self.findattr(c.cls, "__setitem__", st)
            if f is not None:
                self.call(f[0].bind(o), [raw, v], {}, node, st)
            return
        if isinstance(o, (Lib, Mod)):
            self.M.libset(self, st, o, raw, v, node)
            return
        if not isinstance(c, ArrCell):
            self.gap("setitem on " + type(o).__name__, node)
            return
        self.mutate(o, st, "item =", node)
        x = self.load(o, st)
        spec = self.tospec(ix, st)
        val = self.load(v, st)
        self.check_index(x, spec, st, node, "store")
        self.check_trunc(x, val, node, st, "store")
        want, _ = N.spec_shape(x.shape, spec)
        if want is not None and val.shape is not None:
            sh, bad = N.bshape(want, val.shape)
            if bad:
                self.ev("bmis", node, st, dims=bad, shapes=(want, val.shape), a=x, b=val)
        self.ev("store", node, st, arr=x, spec=spec, val=val, aug=aug, addr=o.addr)
        self.write_arr(o, mk("upd", x, spec, val), st, node)

    @meth
    def check_trunc(self, x, val, node, st, how):
        while x.op == "hdr" and isinstance(x.args[3], N.Node) and x.args[3].dt is not None and x.args[3].dt != x.dt:
            x = x.args[3]       # the type the table has before the first turn
        if x.dt is None or val.dt is None:
            return
        if x.dt in ("i", "b") or x.dt.startswith("in:"):
            if val.dt in ("f", "c") and not val.integral or (val.dt.startswith("in:") and val.dt != x.dt and not val.integral):
                self.ev("trunc", node, st, arr=x, val=val, how=how)

    @meth
    def write_arr(self, ref, node, st, src=None):
        c = st.heap[ref.addr]
        if c.base is None:
            st.heap[ref.addr] = c.clone(node=node)
            return
        b = st.heap.get(c.base)
        if b is None:
            return
        bn = self.load(Ref(c.base), st)
        vs = bgetattr(c, "vspec", None)
        if vs is not None:
            new = mk("upd", bn, vs, node)
        elif node.op == "upd" and bgetattr(c, "vT", False):
            sp = node.args[1] + (FULL,) * ((node.rank or 0) - len(node.args[1]))
            new = mk("upd", bn, tuple(reversed(sp)), mk("T", node.args[2], None)) if len(sp) == bn.rank and all(s[0] in "ps" for s in sp) else None
        else:
            new = None
        if new is None:
            j = N.join_facets([bn, node])
            j["shape"], j["dt"] = bn.shape, bn.dt
            j["deps"] = bn.deps | node.deps
            new = mk("new", "viewwrite", bn, node, **j)
        self.write_arr(Ref(c.base), new, st, src)

    # -------------------------------------------------------- calls
    @meth
    def e_Call(self, e, st):
        self.calls_seen += 1
        if isinstance(e.func, ast.Name) and e.func.id == "super" and not e.args:
            fr = self.frames[-1]
            return Super(fr.func.cls, fr.selfv)
        fn = self.eval(e.func, st)
        args, kw = [], {}
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.eval(a.value, st)
                it = self.unpack_all(v, st)
                if it is None:
                    m = self.itermodel(v, st, a)
                    if m[0] == "concrete":
                        it = m[1]
                    else:
                        args.append(self.new(st, LibInst("starargs", {"of": v})))
                        continue
                args += it
            else:
                args.append(self.eval(a, st))
        for k in e.keywords:
            v = self.eval(k.value, st)
            if k.arg is None:
                c = self.cell(v, st)
                if isinstance(c, DictCell):
                    for q, x in c.entries.items():
                        kw[q] = x
                    if c.summ is not None:
                        kw["**"] = v
                else:
                    if isinstance(c, LibInst) and c.cls == "kwargs":
                        kw.update({q: x for q, x in c.attrs.items() if q not in kw})
                    kw["**"] = v
            else:
                kw[k.arg] = v
        self.curline = e.lineno
        return self.call(fn, args, kw, e, st)

    @meth
    def call(self, fn, args, kw, node, st):
        if isinstance(fn, Func):
            return self.call_func(fn, args, kw, node, st)
        if isinstance(fn, Cls):
            return self.instantiate(fn, args, kw, node, st)
        if isinstance(fn, Lib):
            if not fn.name.startswith(("matplotlib.rcParams", "matplotlib.pyplot.rcParams")):
                self.mayraise(st, node)
            return self.M.call(self, st, fn, args, kw, node)
        if isinstance(fn, Partial):
            if fn.fn == "lru":
                self.ev("lru", node, st, name=bgetattr(fn.args[0], "qual", "?"))
                r = self.call(fn.args[0], args, kw, node, st)
                self.own(r, "global:cache of " + bgetattr(fn.args[0], "qual", "?"), st)
                return r
            if fn.fn in ("property", "staticmethod", "classmethod"):
                return self.call(fn.args[0], args, kw, node, st)
            return self.call(fn.fn, list(fn.args) + list(args), {**fn.kw, **kw}, node, st)
        if isinstance(fn, Alt):
            fs = [x for x in fn.vals if not self.isnone(x, st)]
            if len(fs) == 1:
                return self.call(fs[0], args, kw, node, st)
            vals, sts = [], []
            for f in fs:
                s2 = st.fork()
                vals.append(self.call(f, args, kw, node, s2))
                sts.append(s2)
            j = self.joinall(sts)
            st.heap, st.glob = j.heap, j.glob
            return self.joinv(vals[0], vals[1], fn.cond) if len(vals) == 2 else self.joinalt(vals)
        c = self.cell(fn, st)
        if isinstance(c, InstCell):
            f = self.findattr(c.cls, "__call__", st)
            if f is not None:
                return self.call(f[0].bind(fn), args, kw, node, st)
        if isinstance(c, LibInst):
            self.mayraise(st, node)
            return self.M.callinst(self, st, fn, c, args, kw, node)
        self.gap("call of unknown value " + self.text(node) + repr(fn)[:200], node)
        self.mayraise(st, node)
        return self.unk("call", list(args) + list(kw.values()) + [fn], st=st)

    @meth
    def bind(self, f, args, kw, node, st):
        a = f.node.args
        env = {}
        pos = [x.arg for x in a.posonlyargs + a.args]
        vals = ([f.selfv] if f.selfv is not None else []) + list(args)
        kw = dict(kw)
        star = None
        for v in vals:
            c = self.cell(v, st)
            if isinstance(c, LibInst) and c.cls == "starargs":
                star = c.attrs["of"]
        vals = [v for v in vals if not (isinstance(self.cell(v, st), LibInst) and self.cell(v, st).cls == "starargs")]
        for nm, v in zip(pos, vals):
            env[nm] = v
        if len(vals) > len(pos):
            if a.vararg is not None:
                env[a.vararg.arg] = Tup(vals[len(pos):])
            else:
                self.ev("badcall", node, st, fn=f.qual, why="too many arguments")
                raise Abrupt([(st, Exc("TypeError", site=self.site(node)))])
        elif a.vararg is not None:
            env[a.vararg.arg] = Tup([])
        for nm in list(kw):
            if nm == "**":
                continue
            if nm in pos and nm not in env or nm in [x.arg for x in a.kwonlyargs]:
                env[nm] = kw.pop(nm)
            elif nm in env and nm in pos:
                self.ev("badcall", node, st, fn=f.qual, why="repeated argument " + nm)
                raise Abrupt([(st, Exc("TypeError", site=self.site(node)))])
        rest = kw.pop("**", None)
        if a.kwarg is not None:
            if rest is not None and not kw and isinstance(self.cell(rest, st), LibInst):
                env[a.kwarg.arg] = rest
            else:
                d = self.new(st, DictCell({k: v for k, v in kw.items()}))
                rc = self.cell(rest, st) if rest is not None else None
                if rest is not None and not kw:
                    env[a.kwarg.arg] = rest
                else:
                    if isinstance(rc, LibInst):
                        self.kwmerge(d, rest, st, over=False)
                    elif isinstance(rc, DictCell) and rc.summ is not None:
                        st.heap[d.addr] = st.heap[d.addr].clone(summ=rc.summ)
                    env[a.kwarg.arg] = d
        elif kw:
            self.ev("badcall", node, st, fn=f.qual, why="unexpected argument " + ",".join(sorted(kw)))
            raise Abrupt([(st, Exc("TypeError", site=self.site(node)))])
        nd = len(f.defaults)
        for nm, d in zip(pos[len(pos) - nd:], f.defaults):
            env.setdefault(nm, d)
        for nm, d in f.kwdefaults.items():
            env.setdefault(nm, d)
        missing = [nm for nm in pos + [x.arg for x in a.kwonlyargs] if nm not in env]
        if missing:
            if star is not None or rest is not None:
                for nm in missing:
                    env[nm] = self.unk("stararg", [star if star is not None else rest], st=st)
            else:
                self.ev("badcall", node, st, fn=f.qual, why="missing argument " + ",".join(missing))
                raise Abrupt([(st, Exc("TypeError", site=self.site(node)))])
        return env

    @meth
    def call_func(self, f, args, kw, node, st):
        if self.frames and self.frames[-1].qual == "<module>":
            m = self.modules.get(self.frames[-1].mod)
            if m is not None and f.mod == self.frames[-1].mod:
                c = st.heap[m.addr]
                st.heap[m.addr] = c.clone(env=dict(c.env, **{k: v for k, v in st.env.items() if k != "__modscope__"}))
        same = sum(1 for fr in self.frames if fr.func is not None and fr.func.node is f.node)
        if same >= 1 and not isinstance(f.node, ast.Lambda):
            self.ev("recursion", node, st, fn=f.qual, mod=f.mod)
            if same >= 2:
                return self.unk("recursion", list(args) + ([f.selfv] if f.selfv is not None else []), st=st)
        if len(self.frames) > 40:
            return self.unk("depth", list(args), st=st)
        env = self.bind(f, args, kw, node, st)
        fr = Frame(f, f.qual, f.mod)
        fr.selfv = f.selfv if f.selfv is not None else (env.get(f.node.args.args[0].arg) if f.node.args.args else None)
        fr.callnode = node
        self.funcs_seen.add((f.mod, f.qual))
        if self.frames:
            self.ev("call", node, st, fn=f.qual, mod=f.mod, args=args, kw=kw)
        self.frames.append(fr)
        saved_env, saved_pc, line = st.env, st.pc, bgetattr(self, "curline", 0)
        s = State(st.heap, env, st.pc, st.glob)
        gen = not isinstance(f.node, ast.Lambda) and self.isgen(f.node)
        if gen:
            y = self.new(s, ListCell(items=[]))
            s.env["__yield__"] = y
        try:
            if isinstance(f.node, ast.Lambda):
                try:
                    v = self.eval(f.node.body, s)
                    rets, excs = [(s, v)], fr.excs
                except Abrupt as a:
                    rets, excs = [], fr.excs + a.excs
            else:
                o = self.block(f.node.body, s)
                rets = list(o.rets)
                if o.st is not None:
                    rets.append((o.st, N.NONE))
                excs = fr.excs + o.excs
        finally:
            self.frames.pop()
        for es, x in excs:
            es.env = saved_env
        if not rets:
            if not excs:
                excs = [(st.fork(), Exc("NoReturn", site=self.site(node)))]
            raise Abrupt(excs)
        if self.frames:
            self.frames[-1].excs += excs
        acc = None
        for rs, v in rets:
            if gen:
                v = rs.env.get("__yield__", v)
            rs.env = {"__ret__": v}
            acc = rs if acc is None else self.join(acc, rs)
        st.heap, st.glob = acc.heap, acc.glob
        st.env, st.pc = saved_env, saved_pc
        self.curline = line
        return acc.env["__ret__"]

    @meth
    def isgen(self, fnode):
        r = bgetattr(fnode, "_isgen", None)
        if r is None:
            r = False
            stack = list(fnode.body)
            while stack:
                x = stack.pop()
                if isinstance(x, (ast.Yield, ast.YieldFrom)):
                    r = True
                    break
                if isinstance(x, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
                    continue
                stack.extend(ast.iter_child_nodes(x))
            fnode._isgen = r
        return r

    @meth
    def instantiate(self, cls, args, kw, node, st):
        if any(isinstance(b, Lib) and b.name.split(".")[-1] in EXCS for b in self.libbases(cls)):
            return self.new(st, InstCell(cls, {"args": Tup(args)}))
        r = self.new(st, InstCell(cls, {}))
        f = self.findattr(cls, "__init__", st)
        if f is not None:
            self.call(f[0].bind(r), args, kw, node, st)
        elif any(ast.unparse(d).split("(")[0].endswith("dataclass") for d in cls.node.decorator_list):
            names = []
            for c in reversed(cls.mro()):
                names += [(s.target.id, s.value) for s in c.node.body if isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name)]
            c = st.heap[r.addr]
            attrs = {}
            for i, (nm, d) in enumerate(names):
                if i < len(args):
                    attrs[nm] = args[i]
                elif nm in kw:
                    attrs[nm] = kw[nm]
                elif d is not None:
                    attrs[nm] = self.eval(d, st)
            st.heap[r.addr] = c.clone(attrs=attrs)
        elif args or kw:
            if self.libbases(cls):
                c = st.heap[r.addr]
                tup = self.M.namedtuple_fields(self, st, cls)
                if tup:
                    attrs = dict(zip(tup, args))
                    attrs.update(kw)
                    st.heap[r.addr] = c.clone(attrs=attrs)
            else:
                self.ev("badcall", node, st, fn=cls.name, why="takes no arguments")
                raise Abrupt([(st, Exc("TypeError", site=self.site(node)))])
        return r


EXCS = {"Exception", "ValueError", "TypeError", "RuntimeError", "KeyError", "IndexError", "Warning", "UserWarning", "BaseException", "LinAlgError",
        "NotImplementedError", "AttributeError", "ArithmeticError", "ZeroDivisionError", "LookupError", "OSError", "ImportError",
        "ModuleNotFoundError", "DeprecationWarning", "FutureWarning", "RuntimeWarning", "StopIteration", "AssertionError", "FileNotFoundError",
        "FloatingPointError", "OverflowError", "PendingDeprecationWarning"}

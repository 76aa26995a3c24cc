"""Rules on pairing units and periods."""
from . import sym as S
from . import node as N
from .node import Node, constof, NOCONST, walk
from .interp import ArrCell, ListCell, DictCell, InstCell, Ref, Alt, Tup  # noqa: F401
from .rulelib import prop, entry, opts, tainted, rngs, ins  # noqa: F401
from .rules_val import attr_items, where_of, strip_lead, firm  # noqa: F401
from .rules_inf import the_node

n_, t_ = S.sym("n"), S.sym("t")
NT = {n_: "unit", t_: "period"}


def axes_of(b):
    """{axis: 'unit'|'period'} of a table with one row per unit and one column per period (or the other way round)."""
    if b.shape is None or len(b.shape) < 2:
        return {}
    out = {i: NT[d] for i, d in enumerate(b.shape) if d in NT}
    return out if sorted(out.values()) == ["period", "unit"] else {}


def seqpos(n):
    """i -> i + c for i in range(L): (c, L)."""
    if n.op == "seq" and n.args[0] == 0 and isinstance(n.args[3], Node) and n.args[3]._ex is not None:
        a = n.args[1] if isinstance(n.args[1], str) else None
        d = S.sub(n.args[3]._ex, S.sym(a)) if a else None
        if d is not None and a not in d.atoms():
            return d, n.args[2]
    if n.op == "arange":
        return None
    return None


def sliced(s, D):
    st, en, step = (x._ex if isinstance(x, Node) else x for x in (list(s[1:]) + [None] * 3)[:3])
    if step not in (None, 1) and not (isinstance(step, S.Ex) and step == S.ONE):
        return None
    def end(v, d):
        if v is None:
            return d
        v = S.num(v) if isinstance(v, int) else v
        if not isinstance(v, S.Ex):
            return None
        c = v.const()
        return S.add(D, v) if c is not None and c < 0 else v
    a, b = end(st, S.ZERO), end(en, D)
    if a is None or b is None:
        return None
    return a, S.sub(b, a)


def place(z):
    """Position as a size; the smaller or larger of two sizes is kept as one opaque size."""
    return z.ex if z._ex is None and (z.op in ("min2", "max2") and not tainted(z) or turns(z)) else z._ex


def bare(z):
    while z.op in ("assume", "cast", "copy"):
        z = z.args[0]
    return z


def turns(z):
    """Two sizes of which a loop counter chooses, each on some turn: (first, second)."""
    if z.op != "sel" or tainted(z) or not all(isinstance(q, Node) and bare(q)._ex is not None for q in z.args[1:]):
        return None
    c = bare(z.args[0])
    rel, a, b = c.args[:3] if c.op == "cmp" else ("ne", c, None)
    k = 0 if b is None else constof(b)
    a = bare(a)
    m = 0
    if a.op == "mod" and isinstance(constof(a.args[1]), int):
        m, a = constof(a.args[1]), bare(a.args[0])
    if a._ex is None or not isinstance(k, (int, float)) or rel not in RELOF or m < 0:
        return None
    at = a._ex.atoms()
    i = next(iter(at), "")
    if len(at) != 1 or i[:1] != "i" or not i[1:].isdigit() or S.ATOMS[i].lo != 0 and getattr(S.ATOMS[i].lo, "const", lambda: None)() != 0:
        return None
    off = S.sub(a._ex, S.sym(i)).const()
    h = S.ATOMS[i].hi
    h = h.const() if isinstance(h, S.Ex) else h
    if off is None or off.denominator != 1 or k > 1e6 or h is not None and isinstance(S.ATOMS[i].hi, int):
        return None
    vals = {RELOF[rel]((v + off) % m if m else v + off, k) for v in range(0, int(abs(k)) + int(abs(off)) + m + 3)}
    return (bare(z.args[1])._ex, bare(z.args[2])._ex) if len(vals) == 2 else None


RELOF = {"lt": lambda a, b: a < b, "le": lambda a, b: a <= b, "gt": lambda a, b: a > b, "ge": lambda a, b: a >= b, "eq": lambda a, b: a == b, "ne": lambda a, b: a != b}


class Acc:
    """One access of a table by unit and period: {'unit': pos, 'period': pos}."""
    def __init__(self, node, base, pos, other, masks):
        self.node, self.base, self.pos, self.other, self.masks = node, base, pos, other, masks


def one(n):
    ax = axes_of(n.args[0])
    pos, other, masks, a = {}, [], [], 0
    for s in n.args[1]:
        if s[0] == "n":
            continue
        if s[0] == "m":
            m = s[1]
            w = m.rank if isinstance(m, Node) and m.rank else 1
            masks.append((a, m))
            if a in ax:
                pos[ax[a]] = ("m", m)
            a += w
            continue
        if a in ax:
            D = n.args[0].shape[a]
            if s[0] == "p":
                pos[ax[a]] = ("p", place(s[1]), s[1])
            elif s[0] == "s":
                q = sliced(s, D)
                pos[ax[a]] = ("s",) + q if q else ("?",)
            elif s[0] == "a":
                q = seqpos(s[1])
                pos[ax[a]] = ("s",) + q if q else ("?",)
        a += 1
    for k in ax:
        if k >= a:
            pos[ax[k]] = ("s", S.ZERO, n.args[0].shape[k])
    for v in ("unit", "period"):
        pos.setdefault(v, ("?",))
    return Acc(n, n.args[0], pos, other, masks)


def access(n):
    """Accesses that give the value n (not those inside masks or in the list a position is looked up in)."""
    out, seen, todo = [], set(), [n]
    while todo:
        q = todo.pop()
        if not isinstance(q, Node) or q.id in seen:
            continue
        seen.add(q.id)
        if q.op == "ix":
            if axes_of(q.args[0]):
                out.append(one(q))
            elif q.args[0].shape in ((n_,), (t_,)) and len(q.args[1]) == 1 and through(q, out):
                continue
            else:
                todo.append(q.args[0])
                for s in q.args[1]:
                    if s[0] in "pa":
                        todo.append(s[1])
        elif q.op == "index_of":
            todo.append(q.args[1])
        elif q.op == "new" and q.args[0] == "dictval":
            todo += list(N.nodes_in(q.args[-1:]))
        elif q.op in ("hdr", "loop", "upd"):
            continue
        else:
            todo += list(N.nodes_in(q.args))
    return out


def through(q, out):
    """An element of a row or column taken from a table."""
    v = NT[q.args[0].shape[0]]
    D, s = q.args[0].shape[0], q.args[1][0]
    got = access(q.args[0])
    for g in got:
        p = g.pos[v]
        if p[0] == "s" and p[1:] == (S.ZERO, D):
            if s[0] == "p":
                p = ("p", place(s[1]), s[1])
            elif s[0] == "s":
                w = sliced(s, D)
                p = ("s",) + w if w else ("?",)
            elif s[0] == "m":
                p = ("m", s[1])
            else:
                w = seqpos(s[1]) if s[0] == "a" else None
                p = ("s",) + w if w else ("?",)
        else:
            p = ("?",)
        out.append(Acc(q, g.base, dict(g.pos, **{v: p}), g.other, g.masks))
    return bool(got)


def start(p):
    """Where along an axis the access begins, or None."""
    return p[1] if p[0] in "ps" and p[1] is not None else None


def span(p, D):
    """(first, last) position the access ever reads, None when unknown."""
    if any(q in N.ATOMNODE for v in p[1:3] if isinstance(v, S.Ex) for q in v.atoms()):
        return None
    if p[0] == "p" and p[1] is not None:
        a, b = S.bound(p[1], -1), S.bound(p[1], 1)
        return (a[0], b[0]) if a is not None and b is not None and not a[1] and not b[1] else None
    if p[0] == "s" and p[2] is not None:
        a, b = S.bound(p[1], -1), S.bound(S.sub(S.add(p[1], p[2]), S.ONE), 1)
        return (a[0], b[0]) if a is not None and b is not None else None
    return None


def diff(p, q):
    """Constant distance from access p to access q along an axis."""
    if p[0] != q[0] or start(p) is None or start(q) is None:
        return None
    return S.sub(q[1], p[1]).const()


def can(d):
    """d > 0 for some sizes and turns."""
    h = S.bound(d, 1)
    return h is not None and firm(h[0]) and not S.le(h[0], S.ZERO) and (h[0].const() is None or h[0].const() > 0)


def pieces(e):
    """The values a position takes where it is the smaller or larger of two: [(Ex, when)], each one taken by some sizes."""
    at = [a for a in e.atoms() if a in N.ATOMNODE]
    if len(at) != 1:
        return []
    z = N.ATOMNODE[at[0]]
    if z.op == "sel":
        p = turns(z)
        return [(S.subst(e, {at[0]: v}), "") for v in p] if p and not any(q in N.ATOMNODE for v in p for q in v.atoms()) else []
    if z.op not in ("min2", "max2") or tainted(z):
        return []
    a, b = z.args[0].ex, z.args[1].ex
    if any(q in N.ATOMNODE for v in (a, b) for q in v.atoms()):
        return []
    d = S.sub(b, a) if z.op == "min2" else S.sub(a, b)
    return [(S.subst(e, {at[0]: v}), why) for v, gap, why in ((a, d, b), (b, S.neg(d), a)) if can(gap)]


def odd(p, q, want):
    """A constant distance from access p to access q, other than the wanted one, that some turn has."""
    if p[0] != q[0] or p[0] not in "ps" or start(p) is None or start(q) is None:
        return None
    for v, _ in pieces(S.sub(q[1], p[1])):
        c = v.const()
        if c is not None and c != want:
            return c
    return None


def capped(e):
    """A loop counter in e stops at a fixed number however many there are."""
    for a in e.atoms():
        h = S.ATOMS[a].hi if a[:1] == "i" and a in S.ATOMS else None
        for q in (h.atoms() if isinstance(h, S.Ex) else ()):
            z = N.ATOMNODE.get(q)
            if z is not None and z.op == "min2" and not tainted(z):
                for u, v in ((z.args[0], z.args[1]), (z.args[1], z.args[0])):
                    if constof(u) is not NOCONST and v._ex is not None and v._ex.const() is None and can(S.sub(v._ex, u.ex)):
                        return constof(u)
    return None


def unstore(n):
    """upd(h, spec, h[spec] + v) -> (h, spec, v)."""
    h, spec, v = n.args[:3]
    if not isinstance(v, Node):
        return None
    if v.op == "add":
        for a, b in ((v.args[0], v.args[1]), (v.args[1], v.args[0])):
            if isinstance(a, Node) and a.op == "ix" and a.args[0] is h and samespec(a.args[1], spec):
                return h, spec, b
    return h, spec, None, v


def samespec(a, b):
    return len(a) == len(b) and all(x[0] == y[0] and all(u is v or (not isinstance(u, Node) and u == v) for u, v in zip(x[1:], y[1:])) for x, y in zip(a, b))


def init_of(h):
    while h.op in ("hdr", "loop", "upd"):
        h = h.args[3] if h.op in ("hdr", "loop") else h.args[0]
    return h


def pairset(x, key, where, what, row, col, lag=None):
    """row, col, lag: accesses of origin class, destination class and lag class.  True / False / None."""
    if not row or not col or any(tainted(a.node) for a in row + col):
        return None
    res = True
    for a in row:
        for b in col:
            du, dp = diff(a.pos["unit"], b.pos["unit"]), diff(a.pos["period"], b.pos["period"])
            x.count("origin and destination accesses compared")
            if a.pos["period"][0] == "m" or b.pos["period"][0] == "m":
                dp = 0 if du == 1 else None
            if a.pos["unit"][0] == "m" or b.pos["unit"][0] == "m":
                du = 0 if a.pos["unit"][0] != "p" and b.pos["unit"][0] != "p" else None
            if dp == 1 and du == 0:
                continue
            if du == 1 and dp in (0, None):
                x.bad(key + "|units paired", where, "%s pairs each unit with the next unit of the same period" % what)
                return False
            if dp is not None and dp != 1:
                x.bad(key + "|periods", where, "%s: the destination is read %d period(s) after the origin" % (what, dp))
                return False
            if du is not None and du != 0:
                x.bad(key + "|units", where, "%s: origin and destination are classes of different units" % what)
                return False
            for v, w, why in (("period", 1, "the destination is sometimes read %d period(s) after the origin"), ("unit", 0, "the destination is sometimes the unit %+d further")):
                o = odd(a.pos[v], b.pos[v], w)
                if o is not None:
                    x.bad(key + "|%ss" % v, where, "%s: %s" % (what, why % o))
                    return False
            if a.pos["unit"][0] == "p" and b.pos["unit"][0] == "p" and None not in (start(a.pos["unit"]), start(b.pos["unit"])) \
                    and firm_diff(start(a.pos["unit"]), start(b.pos["unit"])):
                x.bad(key + "|units", where, "%s: origin and destination are classes of different units" % what)
                return False
            pa, pb = a.pos["period"], b.pos["period"]
            if dp is None and pa[0] == pb[0] == "p" and None not in (start(pa), start(pb)):
                d = S.sub(pb[1], pa[1])
                lo, hi = S.bound(d, -1), S.bound(d, 1)
                if lo is not None and hi is not None and firm(lo[0]) and firm(hi[0]) and S.sub(hi[0], lo[0]).const() is None:
                    x.bad(key + "|periods", where, "%s: the destination is read %s to %s periods after the origin" % (what, lo[0], hi[0]))
                    return False
            res = None
    for a in row:
        for v, nm in (("period", "span"), ("unit", "units left out")):
            if a.pos[v][0] == "s" and isinstance(a.pos[v][2], S.Ex):
                c = [constof(u) for q in a.pos[v][2].atoms() for z in [N.ATOMNODE.get(q)] if z is not None and z.op == "min2" and not tainted(z)
                     for u, w in (z.args, z.args[::-1]) if constof(u) is not NOCONST and w._ex is not None and w._ex.const() is None and can(S.sub(w._ex, u.ex))]
                if c:
                    x.bad(key + "|" + nm, where, "%s: at most the first %s %ss are counted" % (what, c[0], v))
                    return False
            c = capped(a.pos[v][1]) if a.pos[v][0] == "p" and a.pos[v][1] is not None else None
            if c is not None:
                x.bad(key + "|" + nm, where, "%s: only the first %s %ss are counted" % (what, c, v))
                return False
        D = S.sub(t_, S.num(2))
        sp = span(a.pos["period"], t_)
        if sp is None or not (firm(sp[0]) and firm(sp[1])):
            res = None
        elif sp[0] != S.ZERO or sp[1] != D:
            x.bad(key + "|span", where, "%s: origins are read in periods %s to %s, not 0 to t-2" % (what, sp[0], sp[1]))
            return False
        if a.pos["unit"][0] == "m":
            continue
        sp = span(a.pos["unit"], n_)
        if sp is None or not (firm(sp[0]) and firm(sp[1])):
            res = None
        elif sp[0] != S.ZERO or sp[1] != S.sub(n_, S.ONE):
            x.bad(key + "|units left out", where, "%s: units %s to %s are counted, not 0 to n-1" % (what, sp[0], sp[1]))
            return False
    for c in lag or []:
        for a in row:
            x.count("lag class accesses compared")
            du, dp = diff(a.pos["unit"], c.pos["unit"]), diff(a.pos["period"], c.pos["period"])
            if dp is not None and dp != 0:
                x.bad(key + "|lag period", where, "%s: the lag class is read %+d period(s) from the origin period" % (what, dp))
                return False
            if du is not None and du != 0:
                x.bad(key + "|lag unit", where, "%s: the lag class is another unit's" % what)
                return False
            for v in ("period", "unit"):
                o = odd(a.pos[v], c.pos[v], 0)
                if o is not None:
                    x.bad(key + "|lag " + v, where, "%s: the lag class is sometimes read %+d %s(s) from the origin" % (what, o, v))
                    return False
            if du is None or dp is None:
                res = None
    return res


def firm_diff(a, b):
    """Two positions that come from different loops."""
    return bool(a.atoms() ^ b.atoms()) and all(q[:1] == "i" for q in a.atoms() | b.atoms())


def astray(x, key, where, what, sp):
    """The lag is taken of units in another order, or not every class is visited."""
    if len(sp) == 3:
        for q in walk(sp[0][1]):
            if q.op in ("lag", "lagcat") and len(q.args) > 1 and isinstance(q.args[1], Node) and not tainted(q):
                z = q.args[1]
                while z.op == "cast" or z.op == "seq" or z.op == "ix":
                    if z.op == "ix" and z.args[1] and z.args[1][0][0] == "s" and axes_of(z.args[0]).get(0) == "unit":
                        st = z.args[1][0][3] if len(z.args[1][0]) > 3 else None
                        if (constof(st) if isinstance(st, Node) else st) in (-1, S.num(-1)):
                            x.bad(key + "|lag unit", where, "%s: the lag is computed of the units in reversed order" % what)
                            return True
                    z = z.args[3] if z.op == "seq" else z.args[0]
                    if not isinstance(z, Node):
                        break
    for s in sp[-2:]:
        v = s[1].args[1] if s[1].op == "index_of" else s[1]
        if not isinstance(v, Node) or v.op != "ix" or len(v.args[1]) != 1 or v.args[1][0][0] != "p" or tainted(v):
            continue
        i = v.args[1][0][1]
        if i._ex is None or not any(a[:1] == "i" for a in i._ex.atoms()):
            continue
        l = v.args[0]
        if l.op == "ix" and l.args[0].op == "unique" and len(l.args[1]) == 1:
            e = l.args[1][0]
            if e[0] == "s" and e != N.FULL and (e[1] not in (None, 0, S.ZERO) or e[2] is not None) and not (len(e) > 3 and e[3] not in (None, 1, S.ONE)):
                x.bad(key + "|classes left out", where, "%s: not all classes that occur are visited" % what, (N.show(l, 4),))
                return True
            if e[0] == "m" and isinstance(e[1], Node) and e[1].op == "cmp" and e[1].args[0] in ("ne", "gt", "lt") and any(q is l.args[0] for q in e[1].args[1:]):
                x.bad(key + "|classes left out", where, "%s: not all classes that occur are visited" % what, (N.show(l, 4),))
                return True
    return False


def count_table(x, r, key, name, n):
    """All accumulations that make up a table of counts."""
    found = False
    where = where_of(x, r, name)
    what = "%s.%s" % (r.name, name)
    for q in walk(n):
        if q.op == "sel" and isinstance(q.args[0], Node) and not tainted(q.args[0]) and any(w.op == "upd" for b in q.args[1:] if isinstance(b, Node) and b.op in ("upd", "loop") for w in walk(b)):
            # some moves are not counted
            for c in walk(q.args[0]):
                if c.op == "cmp" and c.args[0] in ("eq", "ne", "lt", "gt", "le", "ge"):
                    x.count("conditions on accumulations examined")
                    for a in access(c.args[1]):
                        for b in access(c.args[2]):
                            if a.base is b.base and diff(a.pos["period"], b.pos["period"]) not in (0, None):
                                x.bad(key + "|condition", where, "%s: whether a move is counted depends on how its origin compares with its destination" % what)
                                return True
        if q.op != "upd" or not isinstance(q.args[1], tuple) or init_of(q).shape is None:
            continue
        i0 = init_of(q)
        sp = [s for s in q.args[1]]
        if len(sp) not in (2, 3) or any(s[0] != "p" for s in sp):
            continue
        parts = [access(s[1]) for s in sp]
        if not parts[-1] or not parts[-2]:
            continue
        found = True
        x.count("accumulations analysed")
        u = unstore(q)
        res = pairset(x, key, where, what, parts[-2], parts[-1], parts[0] if len(sp) == 3 else None)
        if res is False or astray(x, key, where, what, sp):
            continue
        if i0.op == "full" and constof(i0.args[1] if len(i0.args) > 1 else None) not in (NOCONST, 0, 0.0):
            x.bad(key + "|start", where, "%s does not start from zero counts" % what)
            continue
        if u[2] is None:
            v = u[3]
            if loops_around(q) and not tainted(v) and v.op in ("sum", "const", "len", "count_nonzero"):
                x.bad(key + "|overwritten", where, "%s: a later period overwrites the count of an earlier one" % what)
                continue
            res = None
        else:
            res = weight(x, key, where, what, u[2], sp, parts, res)
        if res:
            x.ok(what)
        elif res is None:
            x.und(what, "not decided")
    return found


def loops_around(q):
    return q.args[0].op == "hdr"


def weight(x, key, where, what, v, sp, parts, res):
    """How much one accumulation adds."""
    a, b = parts[-2][0], parts[-1][0]
    c = constof(v)
    if c is not NOCONST:
        if a.pos["unit"][0] == "p" and b.pos["unit"][0] == "p":
            if c != 1:
                x.bad(key + "|weight", where, "%s: a transition counts %s times" % (what, c))
                return False
            return res
        x.bad(key + "|weight", where, "%s: any number of units adds %s" % (what, c))
        return False
    if tainted(v):
        return None
    rowv, colv = [s[1].args[1] if s[1].op == "index_of" else s[1] for s in sp[-2:]]
    times = {"o": False, "d": False}
    for q in walk(v, {rowv.id, colv.id}):
        if q.op == "ix" and axes_of(q.args[0]):
            p = one(q).pos["period"]
            if diff(a.pos["period"], p) == 0:
                times["o"] = True
            elif diff(b.pos["period"], p) == 0:
                times["d"] = True
        if q.op == "cmp" and q.args[0] == "eq":
            for u, w in ((q.args[1], q.args[2]), (q.args[2], q.args[1])):
                for val, acc, nm in ((rowv, a, "origin"), (colv, b, "destination")):
                    if w is val and isinstance(u, Node) and u.rank:
                        for g in access(u):
                            d = diff(acc.pos["period"], g.pos["period"])
                            x.count("class comparisons examined")
                            if d is not None and d != 0:
                                x.bad(key + "|compared", where, "%s: classes of another period are compared with the %s class" % (what, nm))
                                return False
    if not all(times.values()):
        x.bad(key + "|one period", where, "%s: the number added does not depend on the classes of the %s period" % (what, "origin" if not times["o"] else "destination"))
        return False
    if any(q.op in ("any", "unique", "mean", "max", "min") for q in outer(v)):
        return None
    return res


def outer(v):
    """Operations applied to the comparisons themselves."""
    out = []
    while isinstance(v, Node) and v.op not in ("cmp", "ix"):
        out.append(v)
        ns = [q for q in N.nodes_in(v.args) if constof(q) is NOCONST]
        if len(ns) != 1:
            break
        v = ns[0]
    return out


def codes(x, r, key, name, n):
    """LISA codes: element [i, t] is looked up by the quadrants of unit i in periods t and t+1."""
    where, what = where_of(x, r, name), "%s.%s" % (r.name, name)
    out = None
    for q in walk(n):
        if q.op == "lookup":
            ks = q.args[-1]
        elif q.op == "ix" and len(q.args[1]) == 2 and q.args[0].shape in ((S.num(5), S.num(5)), (S.num(4), S.num(4))) and all(s[0] in "pa" for s in q.args[1]):
            ks = [s[1] for s in q.args[1]]
        else:
            continue
        if not isinstance(ks, (tuple, list)) or len(ks) not in (2, 4) or not all(isinstance(k, Node) for k in ks):
            continue
        acc = [access(k) for k in ks]
        if not all(acc):
            continue
        x.count("code look-ups analysed")
        res = pairset(x, key, where, what, acc[0], acc[1])
        if res is False:
            return False
        out = res if out is None or res is None else out
        if len(ks) == 4:
            for i, nm in ((2, "origin"), (3, "destination")):
                for g in acc[i]:
                    for a in acc[i - 2]:
                        d, du = diff(a.pos["period"], g.pos["period"]), diff(a.pos["unit"], g.pos["unit"])
                        if d is not None and d != 0:
                            x.bad(key + "|significance", where, "%s: the significance of the %s is read %+d period(s) away" % (what, nm, d))
                            return False
                        if du is not None and du != 0:
                            x.bad(key + "|significance", where, "%s: the significance of the %s is another unit's" % (what, nm))
                            return False
                        for v in ("period", "unit"):
                            o = odd(a.pos[v], g.pos[v], 0)
                            if o is not None:
                                x.bad(key + "|significance", where, "%s: the significance of the %s is sometimes read %+d %s(s) away" % (what, nm, o, v))
                                return False
                        if d is None or du is None:
                            out = None
        # stored at the unit and origin period it was looked up for
        for s in walk(n):
            if s.op == "seq" and q in list(walk(s.args[3])) and isinstance(s.args[1], str) and s.args[2] == S.sub(t_, S.ONE):
                for a in acc[0]:
                    st = start(a.pos["period"])
                    if a.pos["period"][0] == "p" and st is not None and s.args[1] in st.atoms():
                        d = S.sub(st, S.sym(s.args[1])).const()
                        if d is not None and d != 0:
                            x.bad(key + "|stored", where, "%s: a move is stored %+d period(s) from its origin" % (what, -d))
                            return False
    return out


TABLES = {"Markov": ("transitions",), "FullRank_Markov": ("transitions",), "GeoRank_Markov": ("transitions",), "Spatial_Markov": ("transitions", "T"),
          "LISA_Markov": ("transitions", "expected_t", "chi_2")}


@prop("C12", ["markov", "spatial", "lisa"], "in every accumulation that fills a table of counts the row is a class of a unit in one period, the column a class of that unit in the next, the lag class the "
      "origin period's, over all units and all consecutive periods, adding one per unit; look-ups of LISA codes take origin and destination in that order")
def c12(x):
    for r in x.runs.values():
        if r.parent is not None or not r.ok:
            continue
        base = entry(r.name)
        A = attr_items(x, r)
        for nm in TABLES.get(base, ()):
            if nm not in A:
                continue
            key = "%s.%s" % (base, nm)
            got = False
            for n in x.nodes(r, A[nm]):
                got = count_table(x, r, key, nm, n) or got
            if not got:
                x.und("%s.%s" % (r.name, nm), "no accumulation recognised")
        if base == "LISA_Markov":
            for nm in ("move_types", "significant_moves"):
                n = the_node(x, r, A[nm]) if nm in A else None
                if n is None:
                    continue
                res = codes(x, r, "%s.%s" % (base, nm), nm, n)
                if res:
                    x.ok("%s.%s" % (r.name, nm))
                elif res is None:
                    x.und("%s.%s" % (r.name, nm), "not decided")


def along(q):
    """(extent ranked along, is a whole table ranked at once)"""
    if q.op in ("rank", "argsort"):
        xx, ax = q.args[0], q.args[1]
        if xx.shape is None or not xx.shape:
            return None
        if ax is None:
            return xx.shape[0] if len(xx.shape) == 1 else "all"
        return xx.shape[ax] if isinstance(ax, int) and -len(xx.shape) <= ax < len(xx.shape) else None
    return None


@prop("C11", ["markov", "spatial", "rank", "lisa"], "ranks and per-period classes are formed among the units of one period; differences of ranks take consecutive periods and leave none out")
def c11_among(x):
    for r in x.runs.values():
        if r.parent is not None or not r.ok:
            continue
        base = entry(r.name)
        A = attr_items(x, r)
        names = {"FullRank_Markov": ("ranks", "transitions"), "GeoRank_Markov": ("transitions",), "Theta": ("ranks", "ranks_d"), "LISA_Markov": ("q",),
                 "Spatial_Markov": ("class_ids", "lclass_ids") if "nofix" in opts(r.name) else ()}.get(base, ())
        for nm in names:
            n = the_node(x, r, A[nm]) if nm in A else None
            if n is None:
                continue
            ok = True
            for q in walk(n):
                D = along(q)
                if q.op == "fn" and q.args[0] in ("qyb", "lisa_q") and isinstance(q.args[1], tuple):
                    D = q.args[1][0].shape[0] if q.args[1][0].shape and len(q.args[1][0].shape) == 1 else None
                    if D is None:
                        continue
                if D is None or tainted(q):
                    continue
                x.count("rankings and classifications examined")
                if D == t_ or D == "all" and axes_of(q.args[0]) or D == S.mul(n_, t_):
                    x.bad("%s.%s|among" % (base, nm), where_of(x, r, nm), "%s.%s: units are ranked or classified %s instead of among the units of one period" %
                          (r.name, nm, "over time" if D == t_ else "over all periods at once"))
                    ok = False
                    break
            if ok:
                x.ok("%s.%s" % (r.name, nm))
        n = the_node(x, r, A.get("ranks_d")) if base == "Theta" else None
        if n is not None and n.op == "sub":
            a, b = access(n.args[1]), access(n.args[0])
            res = pairset(x, "Theta.ranks_d", where_of(x, r, "ranks_d"), "%s.ranks_d" % r.name, a, b)
            if res:
                x.ok("%s.ranks_d pairs" % r.name)
            elif res is None:
                x.und("%s.ranks_d pairs" % r.name, "not decided")

"""Rules on extents, positions and what a loop runs over."""
from . import sym as S
from . import node as N
from .node import Node, constof, NOCONST, walk  # noqa: F401
from .interp import ArrCell, ListCell, DictCell, InstCell, Ref, Alt, Tup  # noqa: F401
from .rulelib import prop, entry, opts, tainted, rngs, ins  # noqa: F401
from .rules_val import attr_items, where_of, strip_lead, firm  # noqa: F401
from .rules_inf import the_node, same
from .rules_lazy import core
from .rules_time import capped

ALL = ["markov", "spatial", "lisa", "tests", "ergodic", "mobility", "rank", "rose", "sequence", "util", "plotting"]


def loop_atoms(e):
    return {l[0]: l for l in e.loops}


def mentions(cond, atoms):
    for q in walk(cond):
        if q.op == "atom" and q.args[0] in atoms:
            return True
        if q._ex is not None and atoms & set(q._ex.atoms()):
            return True
    return False


def trip_of(l):
    t = l[2]
    return t._ex if isinstance(t, Node) else t


def free(a):
    """A number of distinct values: any size from one up."""
    return a[:1] == "u" and a[1:].isdigit()


def attained(e, ex):
    """Every position ex denotes is really used: the access runs on every turn of the loops ex counts."""
    L = e.loops
    mine = [i for i, l in enumerate(L) if l[0] in ex.atoms()]
    if any(a not in {l[0] for l in L} and S.ATOMS[a].kind != "dim" and not free(a) for a in ex.atoms()):
        return False
    if mine:
        for l in L[min(mine):]:
            t = trip_of(l)
            if l[0] in ex.atoms() or t is None:
                if t is None:
                    return False
                continue
            if not S.gt0(t):
                return False
    at = set(ex.atoms()) & {l[0] for l in L}
    if at and any(mentions(c, at) for c, _ in e.pc if isinstance(c, Node)):
        return False
    return not any(isinstance(c, Node) and tainted(c) for c, _ in e.pc)


TIGHT = {"index_of", "arange", "argsort", "argmax", "argmin", "nonzero"}


def tight(n):
    """The bounds of n are attained by some input."""
    while n.op in ("ix", "reshape", "cast", "T", "seq"):
        n = n.args[0] if n.op != "seq" else n.args[3]
    return n.op in TIGHT or n.op == "fn" and n.args[0] in ("classify", "bin", "searchsorted", "yb", "qyb", "udyb")


def contradicts(d):
    """d >= 0 is required; True when some sizes make it negative."""
    if S.has_val(d):
        b = S.bound(d, 1) if all(free(a) or S.ATOMS[a].kind == "dim" for a in d.atoms()) else None
        return b is not None and b[0].const() is not None and b[0].const() < 0
    s = S.sgn(d)
    if s in ("+", "+0", "0"):
        return False
    return firm(d)


def position(x, r, e, key, D, n, what):
    """0 <= n < D (or a constant from the end)."""
    x.count("positions compared with extents")
    if n.dt == "b" or D is None:
        return None
    ex = n._ex
    lo, _, hi, _ = n.bounds()
    if ex is not None and S.ge0(S.sub(S.sub(D, S.ONE), ex)) or hi is not None and S.le(hi, S.sub(D, S.ONE)) or \
            n.hi is not None and S.ge0(S.sub(S.sub(D, S.ONE), n.hi)):
        up = True
    else:
        up = None
        h = S.bound(ex, 1) if ex is not None and not (set(ex.atoms()) - set(loop_atoms(e)) - {a for a in ex.atoms() if S.ATOMS[a].kind == "dim" or free(a)}) else None
        if h is not None and attained(e, ex):
            d = S.sub(S.sub(D, S.ONE), h[0])
            if contradicts(d) and not h[1]:
                up = False
        elif ex is None and hi is not None and firm(hi) and firm(D) and tight(n) and not tainted(n) and contradicts(S.sub(S.sub(D, S.ONE), hi)):
            up = False
    if up is False:
        x.badev(r, e, "range %s" % e.func.split(".")[-1], "%s of extent %s is read at positions up to %s" % (what, D, hi if hi is not None else ex))
        return False
    dn = True
    if ex is not None and not S.ge0(ex) and ex.const() is None:
        l = S.bound(ex, -1)
        if l is not None and l[0].const() is not None and l[0].const() < 0 and attained(e, ex) and hi is not None and S.ge0(hi):
            x.badev(r, e, "wraps %s" % e.func.split(".")[-1], "%s is read at position %s, that is from its other end" % (what, l[0]))
            return False
        dn = None
    if up and dn:
        return True
    return None


def affine(ex, atoms):
    """(atom, coefficient 1, offset) or None."""
    at = [a for a in ex.atoms() if a in atoms]
    if len(at) != 1:
        return None
    off = S.sub(ex, S.sym(at[0]))
    return (at[0], off) if at[0] not in off.atoms() else None


def skips(x, r, evs):
    """Axes that count classes, lag classes, regimes, sectors or replicates and are not visited at every position."""
    byf = {}
    for e in evs:
        byf.setdefault((e.stack, e.func), []).append(e)
    for (_, fn), es in byf.items():
        for e in es:
            at = loop_atoms(e)
            for ax, s in e.pairs:
                if s[0] != "p":
                    continue
                D, ex = e.arr.shape[ax], s[1]._ex
                if D is None or ex is None or not (kinds(D) or blank(e, D)):
                    continue
                af = affine(ex, at)
                if af is None or trip_of(at[af[0]]) is None:
                    continue
                x.count("loop extents compared with axes")
                a, off = af
                c = capped(ex)
                if c is not None and not any(covers(q, e, ax, D, a) for q in es):
                    x.badev(r, e, "skips %s" % fn.split(".")[-1], "the loop visits only the first %s positions of an axis of extent %s" % (c, D))
                    continue
                lo, hi = off, S.add(off, S.sub(trip_of(at[a]), S.ONE))
                miss0, miss1 = lo.const(), S.sub(S.sub(D, S.ONE), hi).const()
                if any(q is not None and q < 0 for q in (miss0, miss1)) or not (miss0 or miss1):
                    continue
                if (miss0 is None or miss1 is None) and any(S.ATOMS[q].kind != "dim" and not free(q) for v in (lo, hi) for q in v.atoms()):
                    continue
                if any(a in t.atoms() for l in e.loops for t in (trip_of(l),) if t is not None):
                    continue
                if not attained(e, ex):
                    continue
                if any(covers(q, e, ax, D, a) for q in es) or nothing_there(e, a, off, D, miss0, miss1):
                    continue
                x.badev(r, e, "skips %s" % fn.split(".")[-1], "the loop visits positions %s to %s of an axis of extent %s" % (lo, hi, D))


def blank(e, D):
    """A store into a table of zeros with one place per unit or period."""
    if e.how == "load" or not D.atoms() <= {"n", "t"}:
        return False
    a = e.arr
    while a.op in ("hdr", "loop", "upd"):
        a = a.args[3] if a.op != "upd" else a.args[0]
    return a.op == "full" and len(a.args) > 1 and constof(a.args[1]) in (0, 0.0)


def nothing_there(e, a, off, D, miss0, miss1):
    """At every position left out the access would cover no cell (the last row of a triangle)."""
    if miss0 is None or miss1 is None or miss0 + miss1 > 3:
        return False
    left = [S.num(i) for i in range(int(miss0))] + [S.sub(D, S.num(i + 1)) for i in range(int(miss1))]
    for p in left:
        at = {a: S.sub(p, off)}
        for bx, s in e.pairs:
            if s[0] == "s" and any(v is not None and hasattr(v, "atoms") and a in v.atoms() for v in s[1:]):
                c = S.subst(N.slice_len(e.arr.shape[bx], s), at)
                if c is not None and (c.const() is not None and c.const() <= 0):
                    break
        else:
            return False
    return True


def covers(q, e, ax, D, a):
    """Some other access of a like table reaches the positions this loop leaves out."""
    if q is e:
        return False
    for bx, s in q.pairs:
        if q.arr.shape[bx] != D:
            continue
        if s[0] == "a" or s[0] == "m":
            return True
        if s[0] != "p":
            continue
        f = s[1]._ex
        if f is None or S.sub(f, S.num(0)).const() is not None or not (set(f.atoms()) & {l[0] for l in q.loops}):
            return True
        if a in f.atoms() and f != e_ex(e, ax):
            return True
    return False


def e_ex(e, ax):
    for bx, s in e.pairs:
        if bx == ax:
            return s[1]._ex
    return None


def kinds(D):
    """The axis counts something else than units or periods."""
    at = D.atoms()
    return bool(at) and not (at & {"n", "t"}) and all(S.ATOMS[a].kind == "dim" or a[:1] == "u" for a in at)


def flat_source(n):
    """Shapes of the tables a flat vector was read from, position by position."""
    L = n.shape[0]
    out, todo, seen = set(), [n], set()
    while todo:
        q = todo.pop()
        if q.id in seen or q.shape is None or len(seen) > 400:
            continue
        seen.add(q.id)
        if q.op == "reshape" and q.args[0].shape is not None and len(q.args[0].shape) >= 2 and q.shape == (L,):
            out.add(q.args[0].shape)
            continue
        if q.rank == 1 and q.shape[0] == L and q.op not in ("sort", "argsort", "unique", "rng", "nonzero"):
            todo += [k for k in N.nodes_in(q.args) if k.rank is not None and k.rank >= 1]
        elif q.rank == 1 and q is n:
            return set()
    return out


def scramble(x, r, e):
    a, new = e.a, e.new
    if a.shape is None or new is None or any(d is None for d in a.shape) or any(d is None for d in new):
        return
    srcs = [a.shape] if len(a.shape) >= 2 else flat_source(a) if len(a.shape) == 1 else []
    b = [d for d in new if d.const() != 1]
    for s in srcs:
        s = [d for d in s if d.const() != 1]
        x.count("reshapes examined")
        if len(s) == len(b) >= 2 and s != b and all(firm(d) for d in s + b) and sorted(map(str, s)) == sorted(map(str, b)):
            x.badev(r, e, "reshape %s" % e.func.split(".")[-1], "a table of %s is cut into %s: rows and columns are mixed up" % (tuple(s), tuple(b)))


@prop("C11", ALL, "every position used on an axis is proved or refuted to lie in that axis from loop extents and value ranges; loops over class, lag, regime, sector and replicate axes "
      "reach every position; combined arrays have equal extents; tables are never re-cut into swapped extents; zipped sequences have equal lengths")
def c11(x):
    for r in x.runs.values():
        bad0 = len(x.findings)
        nund = 0
        evs = [e for e in r.events if e.kind == "index"]
        for e in r.events:
            if e.kind == "bmis":
                x.count("extent mismatches examined")
                if all(firm(d) for d in e.dims if d is not None) and None not in e.dims:
                    x.badev(r, e, "extents %s" % e.func.split(".")[-1], "combines extents %s" % " and ".join(map(str, e.dims)))
                else:
                    nund += 1
            elif e.kind == "zipmis":
                if all(d is not None and firm(d) for d in e.dims):
                    x.badev(r, e, "zip %s" % e.func.split(".")[-1], "runs over sequences of lengths %s side by side; the longer one is cut" % " and ".join(map(str, e.dims)))
                else:
                    nund += 1
            elif e.kind in ("ixrank", "ixconst"):
                x.badev(r, e, "%s %s" % (e.kind, e.func.split(".")[-1]), "indexes a table with more positions than it has axes" if e.kind == "ixrank" else "reads past the end of a sequence")
            elif e.kind == "lindex":
                D = e.length._ex
                if position(x, r, e, "list", D, e.idx, "a list") is None:
                    nund += 1
            elif e.kind == "reshape":
                scramble(x, r, e)
            elif e.kind == "index":
                for ax, s in e.pairs:
                    if s[0] in "pa" and position(x, r, e, "array", e.arr.shape[ax], s[1], "axis %d of a table" % ax) is None:
                        nund += 1
        skips(x, r, evs)
        if len(x.findings) > bad0:
            continue
        if nund:
            x.und(r.name, "%d accesses not bounded" % nund)
            x.count("accesses not bounded", nund)
        else:
            x.ok(r.name)
    # the degrees of freedom of the overall test count classes and lag classes
    for nm in ("Spatial_Markov()", "Spatial_Markov(nofix)"):
        r, d = x.run(nm), x.run(nm + ".x2_dof")
        if r is None or d is None or not d.ok:
            continue
        n = the_node(x, d, d.val)
        if n is None or n._ex is None or tainted(n):
            x.und(d.name, "not a size")
            continue
        miss = [b for a, b in (("k", "classes"), ("m", "lag classes")) if a not in n._ex.atoms()]
        if miss:
            x.bad("Spatial_Markov.x2_dof|%s" % miss[0], where_of(x, d), "x2_dof = %s does not count the %s" % (n._ex, miss[0]))
        else:
            x.ok(d.name + " counts classes and lag classes")

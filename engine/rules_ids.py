"""Rules on identifiers of units, their positions, and components."""
from fractions import Fraction
from . import sym as S
from . import node as N
from .node import Node, constof, NOCONST, walk
from .interp import ArrCell, ListCell, DictCell, InstCell, Ref, Alt, Tup  # noqa: F401
from .rulelib import prop, entry, opts, tainted, rngs, ins  # noqa: F401
from .rules_val import attr_items, where_of, strip_lead, firm  # noqa: F401
from .rules_dim import trip_of


def wids(n):
    return n.op == "in" and isinstance(n.args[0], str) and n.args[0].endswith((".ids", ".nkeys"))


def kind(n, d=0, memo=None):
    """What a key denotes: 'id', 'pos', 'mixed' or not known."""
    memo = {} if memo is None else memo
    if not isinstance(n, Node) or d > 40:
        return None
    if n.id in memo:
        return memo[n.id]
    memo[n.id] = None
    memo[n.id] = k = kind1(n, d, memo)
    return k


def merge(ks):
    ks = set(ks)
    if "mixed" in ks or {"id", "pos"} <= ks:
        return "mixed"
    ks.discard(None)
    return ks.pop() if len(ks) == 1 else None


def kind1(n, d, memo):
    o, A = n.op, n.args
    if wids(n):
        return "id"
    if o == "in":
        return "id" if isinstance(A[0], str) and A[0].endswith(".nbr") else None
    if o in ("assume", "cast", "copy", "sort", "unique"):
        return kind(A[0], d + 1, memo)
    if o == "index_of":
        ks = {q.args[0].rsplit(".", 1)[1] for q in walk(A[0]) if wids(q)}
        return "pos" if ks == {"ids"} else "npos" if ks == {"nkeys"} else None
    if o in ("nonzero", "argsort", "arange"):
        return "pos"
    if o == "exn":
        return "pos" if n._ex is not None and any(a[:1] == "i" and a[1:].isdigit() or a[:3] in ("wi_", "wk_") for a in n._ex.atoms()) else None
    if o == "atom":
        return "pos" if isinstance(A[0], str) and (A[0][:1] == "i" and A[0][1:].isdigit() or A[0][:3] in ("wi_", "wk_")) else None
    if o == "ix":
        return kind(A[0], d + 1, memo)
    if o == "join":
        return merge(kind(z, d + 1, memo) for z in N.nodes_in(A))
    if o == "sel":
        return merge(kind(z, d + 1, memo) for z in A[1:] if isinstance(z, Node))
    if o == "seq":
        return kind(A[3], d + 1, memo)
    if o in ("add", "sub"):
        ks = [kind(z, d + 1, memo) for z in A if isinstance(z, Node) and constof(z) is NOCONST]
        return "pos" if ks == ["pos"] else None
    if o == "new" and A:
        if A[0] == "item":
            return kind(A[1], d + 1, memo)
        if A[0] == "dictval":
            return kind(A[2], d + 1, memo)
        if A[0] == "dep":
            ns = list(N.nodes_in(A[1:]))
            return kind(ns[0], d + 1, memo) if len(ns) == 1 else None
    return None


def nkeyed(n):
    return n.op == "ix" and n.args[0].op == "in" and str(n.args[0].args[0]).endswith(".nkeys") and n.args[1][0][0] == "p"


def misordered(n):
    """An identifier found in the tables of neighbours at the position of a unit."""
    for q in walk(n):
        if q.op == "new" and q.args[0] == "dictval" and isinstance(q.args[2], Node) and nkeyed(q.args[2]):
            kp, ip = q.args[1], q.args[2].args[1][0][1]
            if isinstance(kp, Node) and (kp is ip or kp._ex is not None and kp._ex == ip._ex) and any(isinstance(z, Node) and (kind(z) == "pos" and data_row(z)) for z in q.args[3]):
                return q
        if nkeyed(q) and data_row(q.args[1][0][1]):
            return q
    return None


def data_row(n):
    while n.op in ("ix", "cast", "assume") or n.op == "new" and n.args[0] == "item":
        n = n.args[0] if n.op != "new" else n.args[1]
        if not isinstance(n, Node):
            return False
    return n.op == "nonzero"


def columns(n):
    """Columns of the table of flags that the units of a term come from."""
    out = set()
    for q in walk(n):
        if q.op == "nonzero":
            for z in walk(q.args[0]):
                if z.op == "ix" and len(z.args[1]) == 2 and z.args[1][0][0] == "s" and z.args[1][1][0] == "p" and z.args[0].rank == 2 and any(y.op == "fn" and y.args[0] in ("lisa_q", "p_z_sim", "p_sim") for y in walk(z.args[0])):
                    out.add(z.args[1][1][1])
                    break
    return out


def clean(n, loops):
    """Column position without the conditions known about it."""
    while n.op in ("assume", "cast"):
        n = n.args[0]
    if n.op in ("add", "sub") and all(isinstance(z, Node) for z in n.args):
        a, b = clean(n.args[0], loops), clean(n.args[1], loops)
        if a is None or b is None:
            return None
        return S.add(a, b) if n.op == "add" else S.sub(a, b)
    if n._ex is None:
        return None
    e = n._ex
    for a in e.atoms():
        if a[:1] == "o" and a[1:].isdigit():
            b = ALIAS.get(a)
            if b is None:
                return None
            e = S.subst(e, {a: b})
    return e


ALIAS = {}


def aliases(x, r):
    """Atoms that stand for a loop counter under a condition."""
    ALIAS.clear()
    for _, e in x.events([r], "lindex", "index"):
        for i in [e.idx] if e.kind == "lindex" else [s[1] for _, s in e.pairs if isinstance(s, tuple) and s[0] == "p"]:
            if not isinstance(i, Node):
                continue
            for q in walk(i):
                if q.op == "assume" and q._ex is not None and q.args[0]._ex is not None and q._ex != q.args[0]._ex:
                    a = q._ex.atoms()
                    if len(a) == 1 and q._ex == S.sym(next(iter(a))):
                        ALIAS[next(iter(a))] = q.args[0]._ex


SPILL = "LISA_Markov.spillover"


@prop("C19", ["lisa", "components"], "keys are classified as unit identifiers or positions where they index arrays, weights and lookups; result columns written are compared with the periods; "
      "recursion driven by the data is searched in the call paths; edges are stored both ways and pass the threshold")
def c19(x):
    rs = [r for r in x.runs.values() if entry(r.name) == SPILL]
    live = [r for r in rs if "P" in opts(r.name)]
    for r in live:
        for _, e in x.events([r], "index", "dictget"):
            if e.kind == "index":
                if not isinstance(e.arr, Node) or not e.arr.shape:
                    continue
                for axis, s in e.pairs:
                    if not isinstance(s, tuple) or s[0] not in "pa" or not isinstance(s[1], Node) or not isinstance(axis, int) or axis >= len(e.arr.shape):
                        continue
                    if e.arr.shape[axis] != S.sym("n"):
                        continue
                    x.count("unit positions examined")
                    k = kind(s[1])
                    if k in ("id", "mixed"):
                        x.badev(r, e, "id as position", "rows are found by the identifiers of the weights as if they were positions")
                    elif k == "npos":
                        x.badev(r, e, "order", "rows are found by the order of the tables of neighbours, which need not be the order of the units")
                    elif k == "pos":
                        x.ok("%s %s" % (r.name, e.where()))
                    else:
                        x.und("%s %s" % (r.name, e.where()), "kind of position not known")
            else:
                dk = e.dkeys if isinstance(e.dkeys, Node) else None
                ks = [q for q in (e.keys if isinstance(e.keys, (list, tuple)) else [e.keys]) if isinstance(q, Node)]
                a = kind(dk) if dk is not None else None
                for q in ks:
                    b = kind(q)
                    x.count("lookups examined")
                    if misordered(q) is not None:
                        x.badev(r, e, "order", "the identifier of a unit is taken from the order of the tables of neighbours, which need not be the order of the units")
                    elif "mixed" in (a, b):
                        x.badev(r, e, "mixed keys", "identifiers and positions are used as keys of one table")
                    elif a and b and a != b:
                        x.badev(r, e, "%s for %s" % (b, a), "a table with %s keys is asked for %s" % ({"id": "identifier", "pos": "position"}[a], {"id": "an identifier", "pos": "a position"}[b]))
                    elif a and b:
                        x.ok("%s %s" % (r.name, e.where()))
        periods(x, r)
    for r in [r for r in x.runs.values() if entry(r.name) == SPILL or entry(r.name).startswith("Graph") or entry(r.name) in ("is_component", "check_contiguity")]:
        for _, e in x.events([r], "cmp"):
            if "components" in str(e.where()) and e.rel in ("lt", "le", "gt", "ge"):
                for a, b in ((e.a, e.b), (e.b, e.a)):
                    if isinstance(a, Node) and a.op == "new" and a.args and str(a.args[0]).startswith("len"):
                        c = constof(b) if isinstance(b, Node) else b
                        if isinstance(c, (int, float)) and c >= 3:
                            x.badev(r, e, "limit", "the search for a component depends on a fixed number of units (%s), so larger clusters fall apart" % c)
                        else:
                            x.ok(r.name + " collected units")
        n = 0
        for _, e in x.events([r], "recursion"):
            n += 1
            x.badev(r, e, "recursion", "the call depth grows with the data")
        if not n:
            x.ok(r.name + " call depth")
        if entry(r.name) == SPILL:
            for _, e in x.events([r], "cmp"):
                if "components" in str(e.where()) and isinstance(e.a, Node) and isinstance(e.b, Node):
                    a, b = constof(e.a), constof(e.b)
                    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
                        v = {"gt": a > b, "ge": a >= b, "lt": a < b, "le": a <= b, "eq": a == b, "ne": a != b}.get(e.rel)
                        if v is False:
                            x.badev(r, e, "edges rejected", "no edge of the cluster passes the threshold, so every unit is a component of its own")
                        elif v:
                            x.ok(r.name + " threshold")
    for r in x.runs.values():
        if r.name == "Graph(True).add_edge" and r.ok:
            c = r.st.heap.get(r.parent.val.addr) if isinstance(r.parent.val, Ref) else None
            ed = c.attrs.get("edges") if isinstance(c, InstCell) else None
            dc = r.st.heap.get(ed.addr) if isinstance(ed, Ref) else None
            if isinstance(dc, DictCell) and dc.summ is not None and isinstance(dc.summ[0], Node) and not dc.entries:
                names = {q.args[0] for q in walk(dc.summ[0]) if q.op == "in"}
                if {"n1", "n2"} <= names or {"in:n1", "in:n2"} <= names:
                    x.ok(r.name)
                elif names & {"n1", "n2"} and not tainted(dc.summ[0]):
                    x.bad("Graph|one-way", where_graph(x, r), "an edge of an undirected graph is stored from one end only, so a cluster can fall apart")
                else:
                    x.und(r.name, "edges not recognised")
            else:
                x.und(r.name, "edges not recognised")


def where_graph(x, r):
    for e in r.events:
        if "components" in str(e.where()):
            return e.where()
    return "giddy/components.py"


def periods(x, r):
    """Columns of the results that are written, and the period of the units written there."""
    done = {}
    aliases(x, r)
    for _, e in x.events([r], "store"):
        if "spillover" not in e.func or not isinstance(e.arr, Node) or e.arr.rank != 2 or len(e.spec) != 2:
            continue
        col = e.spec[1]
        ext = e.arr.shape[1]
        key = str(ext)
        d = done.setdefault(key, dict(ext=ext, hi=None, lo=None, und=False, e=e))
        if col[0] == "s":
            if col[1] is None and col[2] is None:
                d["hi"], d["lo"] = S.sub(ext, S.ONE), S.ZERO
            else:
                d["und"] = True
            continue
        if col[0] != "p" or ext is None:
            d["und"] = True
            continue
        c = clean(col[1], e.loops)
        ats = [l for l in e.loops if c is not None and l[0] in c.atoms()]
        if c is None or len(ats) != 1:
            d["und"] = True
            continue
        off = S.sub(c, S.sym(ats[0][0]))
        if ats[0][0] in off.atoms():
            d["und"] = True
            continue
        t = trip_of(ats[0])
        if t is None:
            d["und"] = True
            continue
        hi = S.add(off, S.sub(t, S.ONE))
        d["hi"] = hi if d["hi"] is None or S.ge0(S.sub(hi, d["hi"])) else d["hi"]
        d["lo"] = off if d["lo"] is None or S.ge0(S.sub(d["lo"], off)) else d["lo"]
        # the value is one more than the number of the component
        v = e.val
        while isinstance(v, Node) and v.op in ("cast", "assume", "copy"):
            v = v.args[0]
        if isinstance(v, Node) and ext == S.sym("t") and v.op in ("min2", "max2", "mod", "floordiv") and any(isinstance(z, Node) and isinstance(constof(z), (int, float)) and abs(constof(z)) > 1 for z in v.args):
            x.badev(r, e, "component number", "components that differ bear one number (%s)" % N.show(v, 2))
            continue
        if isinstance(v, Node) and v._ex is not None and ext == S.sym("t"):
            x.count("component numbers examined")
            b = S.bound(v._ex, -1)
            if b is not None and b[0].const() is not None:
                if b[0].const() != 1:
                    x.badev(r, e, "component number", "components are numbered from %s" % b[0])
                elif v._ex.const() is not None:
                    x.badev(r, e, "component number", "all components bear the same number")
                else:
                    x.ok(r.name + " component numbers")
        # units come from the flags of the right period
        if e.spec[0][0] == "p":
            cols = {clean(z, e.loops) for z in columns(e.spec[0][1])}
            want = c if ext == S.sym("t") else S.add(c, S.ONE)
            x.count("periods of units examined")
            if len(cols) == 1 and None not in cols:
                g = cols.pop()
                q = S.sub(g, want)
                if q == S.ZERO:
                    x.ok(r.name + " period of column")
                elif q.const() is not None:
                    x.badev(r, e, "period", "units flagged in period %s are reported for %s" % (g, want))
            else:
                x.und(r.name + " period of column", "flags not traced")
    # loops that end at a fixed number
    for e in r.events:
        if "spillover" in e.func:
            for l in e.loops:
                c = trip_of(l)
                c = c.const() if isinstance(c, S.Ex) else c
                if isinstance(c, (int, Fraction)) and c >= 5:
                    x.badev(r, e, "limit", "only the first %s components or units of a cluster are processed" % c)
                    break
    # guards on the counter of the periods
    for _, e in x.events([r], "cmp"):
        if "spillover" not in e.func or e.rel not in ("lt", "le", "gt", "ge") or not isinstance(e.a, Node) or not isinstance(e.b, Node):
            continue
        a, b, rel = clean(e.a, e.loops), clean(e.b, e.loops), e.rel
        if a is None or b is None:
            continue
        if rel in ("gt", "ge"):
            a, b, rel = b, a, {"gt": "lt", "ge": "le"}[rel]
        d = S.sub(b, a) if rel == "lt" else S.add(S.sub(b, a), S.ONE)       # holds where d > 0
        for l in e.loops:
            off = S.add(d, S.sym(l[0]))
            t = trip_of(l)
            if l[0] not in off.atoms() and l[0] in d.atoms() and t is not None:
                for q in done.values():
                    if q["ext"] is not None and S.sub(t, q["ext"]).const() == 1 and S.sub(q["ext"], off).const() is not None:
                        x.count("guards on the period examined")
                        if S.sub(q["ext"], off).const() > 0 and not q["und"]:
                            x.badev(r, e, "guard", "the last of %s periods has no units to compare with" % q["ext"])
    for d in done.values():
        what = "%s columns of %s" % (r.name, d["ext"])
        x.count("result columns compared with periods")
        if d["und"] or d["hi"] is None:
            x.und(what, "columns not affine")
            continue
        miss = S.sub(S.sub(d["ext"], S.ONE), d["hi"])
        if miss.const() is not None and miss.const() > 0:
            x.badev(r, d["e"], "periods", "the last of %s periods is never processed" % d["ext"])
        elif d["lo"].const() is not None and d["lo"].const() > 0:
            x.badev(r, d["e"], "periods", "the first of %s periods is never processed" % d["ext"])
        else:
            x.ok(what)

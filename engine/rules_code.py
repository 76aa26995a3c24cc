"""Rules on LISA codes and labels."""
from . import sym as S
from . import node as N
from .node import Node, constof, NOCONST, walk, strip_one
from .interp import ArrCell, ListCell, DictCell, InstCell, Ref, Alt, Tup  # noqa: F401
from .rulelib import prop, entry, opts, tainted, rngs, ins  # noqa: F401
from .rules_val import attr_items, where_of, strip_lead, firm  # noqa: F401
from .rules_inf import the_node
from .rules_time import access, diff

RELS = {"lt": lambda a, b: a < b, "le": lambda a, b: a <= b, "gt": lambda a, b: a > b, "ge": lambda a, b: a >= b, "eq": lambda a, b: a == b, "ne": lambda a, b: a != b}


class Unknown(Exception):
    pass


def item(t, idx):
    for i in idx:
        t = t[int(i)]
    return t


def fold(n, env, depth=0):
    """Value of one element of a term when some of its leaves are known constants (constant folding over a finite domain)."""
    if not isinstance(n, Node):
        return n
    if n.id in env:
        return env[n.id]
    c = constof(n)
    if c is not NOCONST:
        return c
    if depth > 200:
        raise Unknown
    def go(q):
        return fold(q, env, depth + 1)
    op, a = n.op, n.args
    if op == "full":
        return go(a[1])
    if op in ("cast", "assume", "copy", "pos"):
        return go(a[0])
    if op == "seq":
        return go(a[3])
    if op in ("add", "sub", "mul", "fdiv", "mod", "div", "and", "or", "max2", "min2", "pow"):
        x, y = go(a[0]), go(a[1])
        if isinstance(x, tuple) or isinstance(y, tuple):
            raise Unknown
        try:
            return {"add": lambda: x or y if isinstance(x, bool) and isinstance(y, bool) else x + y, "sub": lambda: x - y,
                    "mul": lambda: x and y if isinstance(x, bool) and isinstance(y, bool) else x * y, "fdiv": lambda: x // y, "mod": lambda: x % y,
                    "div": lambda: x / y, "and": lambda: bool(x) and bool(y), "or": lambda: bool(x) or bool(y), "max2": lambda: max(x, y), "min2": lambda: min(x, y),
                    "pow": lambda: x ** y}[op]()
        except (TypeError, ZeroDivisionError):
            raise Unknown
    if op == "neg":
        return -go(a[0])
    if op == "abs":
        return abs(go(a[0]))
    if op == "not":
        return not go(a[0])
    if op == "cmp":
        x, y = go(a[1]), go(a[2])
        if isinstance(x, tuple) or isinstance(y, tuple):
            raise Unknown
        try:
            return RELS[a[0]](x, y)
        except (KeyError, TypeError):
            raise Unknown
    if op == "sel":
        return go(a[1]) if go(a[0]) else go(a[2])
    if op == "lookup":
        try:
            return a[0].map[tuple(go(k) for k in a[1]) if len(a[1]) > 1 else go(a[1][0])]
        except (KeyError, TypeError):
            raise Unknown
    if op == "ix":
        base, spec = a
        if all(s[0] in "sn" for s in spec):
            return go(base)
        if all(s[0] in "pa" for s in spec) and base.rank is not None and len(spec) == base.rank:
            idx = [go(s[1]) for s in spec]
            if any(isinstance(i, (tuple, str)) for i in idx):
                raise Unknown
            return place(base, [int(i) for i in idx], env, depth)
        raise Unknown
    if op == "upd" and len(a[1]) == 1 and a[1][0][0] == "m":
        return go(a[2]) if go(a[1][0][1]) else go(a[0])
    raise Unknown


def place(b, idx, env, depth=0):
    """Element of a table at a known position."""
    c = constof(b)
    if c is not NOCONST:
        try:
            return item(c, idx)
        except (IndexError, TypeError):
            raise Unknown
    if b.op == "upd":
        spec = b.args[1]
        if len(spec) == len(idx) and all(s[0] == "p" for s in spec):
            at = [constof(s[1]) for s in spec]
            if NOCONST in at:
                raise Unknown
            if all(i == j for i, j in zip(at, idx)):
                return fold(b.args[2], env, depth + 1)
            return place(b.args[0], idx, env, depth + 1)
        raise Unknown
    if b.op == "full":
        return fold(b.args[1], env, depth + 1)
    if b.op == "stack":
        e = b.args[0][idx[0]] if -len(b.args[0]) <= idx[0] < len(b.args[0]) else None
        if e is None:
            raise Unknown
        return place(e, idx[1:], env, depth + 1) if len(idx) > 1 else fold(e, env, depth + 1)
    if b.op == "T" and b.args[1] is None:
        return place(b.args[0], idx[::-1], env, depth + 1)
    if b.op == "seq" and b.args[0] == 0 and isinstance(b.args[1], str):
        e = N.rebuild(b.args[3], {}, {b.args[1]: S.num(idx[0])})
        return place(e, idx[1:], env, depth + 1) if len(idx) > 1 else fold(e, env, depth + 1)
    if b.op == "add" or b.op == "mul" or b.op == "sub":
        raise Unknown
    raise Unknown


def quads(n):
    """fn(lisa_q) a term is read from."""
    return n.op == "fn" and n.args and n.args[0] == "lisa_q"


def significance(n):
    """A comparison of permutation p-values with a level: True holds when significant, False when it holds for the others."""
    m = strip_one(n)
    if m.op == "not":
        s = significance(m.args[0])
        return None if s is None else not s
    if m.op == "ix":
        return significance(m.args[0])
    if m.op != "cmp":
        return None
    pv = [any(q.op == "fn" and q.args and q.args[0] in ("p_sim", "p_z_sim") for q in walk(s)) for s in m.args[1:]]
    if pv == [True, False] and m.args[0] in ("lt", "le", "gt", "ge"):
        return m.args[0] in ("lt", "le")
    if pv == [False, True] and m.args[0] in ("lt", "le", "gt", "ge"):
        return m.args[0] in ("gt", "ge")
    return None


def ends(n):
    """Elements a code is made from: {(kind, 'origin'|'destination'): [nodes]} or None."""
    todo, seen, got = [n], set(), []
    while todo:
        q = todo.pop()
        if q.id in seen:
            continue
        seen.add(q.id)
        sg = significance(q) if q.dt == "b" else None
        leaf = sg is not None or q.op == "ix" and (quads(q.args[0]) or any(map(quads, walk(q.args[0]))) and q.dt == "i")
        if leaf:
            acc = access(q) if q.op == "ix" or True else None
            if acc:
                got.append(("s" if sg is not None else "q", q, acc[0], sg))
                continue
        todo += N.nodes_in(q.args)
    return got


def element(n):
    return n


def chosen(n):
    """Values one of which an element of a table has."""
    while isinstance(n, Node) and n.op in ("cast", "seq", "assume"):
        n = n.args[3] if n.op == "seq" else n.args[0]
    if isinstance(n, Node) and n.op == "sel" and not any(c.op in ("ne", "isnan") for c in walk(n.args[0])):
        return [v for b in n.args[1:3] for v in chosen(b)]
    return [n] if isinstance(n, Node) else []


def code_terms(x, r, key, nm, n, want, sig):
    where, what = where_of(x, r, nm), "%s.%s" % (r.name, nm)
    leaves = ends(n)
    qs = [l for l in leaves if l[0] == "q"]
    ss = [l for l in leaves if l[0] == "s"]
    if not qs:
        x.und(what, "no quadrants recognised")
        return
    # origin is the earlier of the two periods
    ref = qs[0]
    pos = {}
    for l in leaves:
        d = diff(ref[2].pos["period"], l[2].pos["period"]) if "period" in l[2].pos and "period" in ref[2].pos else None
        if d is None or abs(d) > 3:
            x.und(what, "periods of the end points not recognised")
            return
        pos[l[1].id] = d
    lo = min(pos[l[1].id] for l in qs)
    hi = max(pos[l[1].id] for l in qs)
    if hi - lo != 1 or any(p not in (lo, hi) for p in pos.values()):
        x.und(what, "not one origin and one destination")
        return
    bad = []
    try:
        for o in range(1, 5):
            for d in range(1, 5):
                for so in (True, False) if sig or ss else (True,):
                    for sd in (True, False) if sig or ss else (True,):
                        env = {}
                        for l in qs:
                            env[l[1].id] = o if pos[l[1].id] == lo else d
                        for l in ss:
                            v = so if pos[l[1].id] == lo else sd
                            env[l[1].id] = v if l[3] else not v
                        got = fold(n, env)
                        x.count("code table entries decided")
                        w = want(o, d, so, sd)
                        if got != w:
                            bad.append("(%d, %d%s) has code %s instead of %d" % (o, d, ", %s, %s" % (so, sd) if sig else "", got, w))
    except Unknown:
        for q in chosen(n):
            c = constof(q)
            if c is not NOCONST and c not in range(1, 17) and not isinstance(c, tuple) and not tainted(n):
                x.bad(key, where, "%s: some moves have code %s, which stands for no move" % (what, c))
                return
        x.und(what, "code not a table or formula of the quadrants")
        return
    if bad:
        x.bad(key, where, "%s: %s" % (what, "; ".join(bad[:2])))
    else:
        x.ok(what)


NAMES = {False: {1: "HH", 2: "LH", 3: "LL", 4: "HL"}, True: {1: "HH", 2: "LL", 3: "LH", 4: "HL"}}


def scheme(q):
    """geoda numbering in force for fn(lisa_q, (y, w[, flag]))."""
    args = q.args[1] if len(q.args) > 1 and isinstance(q.args[1], tuple) else q.args[1:]
    rest = [a for a in args[2:]]
    if not rest:
        return False
    v = constof(rest[0]) if isinstance(rest[0], Node) else rest[0]
    return v if isinstance(v, bool) else None


def perm_rows(a):
    """Constant 0/1 matrix -> source row of each row, or None; 'bad' when it is no permutation."""
    c = constof(a)
    if c is NOCONST or not isinstance(c, tuple) or not all(isinstance(r, tuple) for r in c):
        return None
    out = []
    for r in c:
        if sorted(set(r)) not in ([0, 1], [0], [1]):
            return None
        if sum(r) != 1:
            return "bad"
        out.append(r.index(1))
    return out if sorted(out) == list(range(len(c))) else "bad"


def arrange(n):
    """A table that reorders kron(X1, X2): (row order, column order, X1, X2); orders are lists of pairs."""
    P = [(0, 0), (0, 1), (1, 0), (1, 1)]
    if n.op == "kron":
        return P, P, n.args[0], n.args[1]
    if n.op == "cast":
        return arrange(n.args[0])
    if n.op == "T" and n.args[1] is None:
        r = arrange(n.args[0])
        return (r[1], r[0], r[2], r[3]) if r and r != "bad" else r
    if n.op in ("dot", "matmul"):
        a, b = n.args[0], n.args[1]
        p = perm_rows(a)
        if p is None and a.op == "T":
            p = perm_rows(a.args[0])
            p = [p.index(i) for i in range(len(p))] if isinstance(p, list) else p
        if p is not None:
            r = arrange(b)
            if p == "bad" and r is not None:
                return "bad"
            return ([r[0][i] for i in p], r[1], r[2], r[3]) if r and r != "bad" else r
        p = perm_rows(b)
        inv = True
        if p is None and b.op == "T":
            p, inv = perm_rows(b.args[0]), False
        if p is not None:
            r = arrange(a)
            if p == "bad" and r is not None:
                return "bad"
            if not r or r == "bad":
                return r
            if inv:
                p = [p.index(i) for i in range(len(p))]
            return r[0], [r[1][i] for i in p], r[2], r[3]
        return None
    if n.op == "ix":
        r = arrange(n.args[0])
        if not r or r == "bad":
            return r
        rows, cols = r[0], r[1]
        sp = n.args[1]
        if len(sp) > 2 or any(s[0] == "a" and constof(s[1]) is NOCONST or s[0] not in "as" or s[0] == "s" and s != N.FULL for s in sp):
            return None
        if sum(s[0] == "a" for s in sp) != 1:
            return None
        for ax, s in enumerate(sp):
            if s[0] == "a":
                c = constof(s[1])
                if not isinstance(c, tuple) or not all(isinstance(i, int) for i in c):
                    return None
                src = rows if ax == 0 else cols
                new = [src[i] for i in c]
                if ax == 0:
                    rows = new
                else:
                    cols = new
        return rows, cols, r[2], r[3]
    return None


def high_class(m):
    """Position of the class of high values in a two-state table of transitions."""
    got = set()
    for q in walk(m):
        if q.op != "index_of":
            continue
        tab = constof(q.args[0])
        if not isinstance(tab, tuple) or len(tab) != 2 or set(tab) != {True, False}:
            return None
        for c in walk(q.args[1]):
            if c.op == "cmp" and c.args[0] in ("lt", "le", "gt", "ge") and any(("in", "y") in z.deps for z in c.args[1:] if isinstance(z, Node)):
                a, b = c.args[1], c.args[2]
                ref = [constof(z) is not NOCONST or z.op == "mean" or z.op == "ix" and z.args[0].op == "mean" for z in (a, b)]
                if ref not in ([True, False], [False, True]):
                    return None
                above = (c.args[0] in ("gt", "ge")) == ref[1]
                got.add(tab.index(above))
    return got.pop() if len(got) == 1 else None


def expected(x, r, A):
    what = r.name + ".expected_t"
    n = the_node(x, r, A["expected_t"]) if "expected_t" in A else None
    if n is None:
        return x.und(what, "not a single term")
    flag = None
    q = the_node(x, r, A["q"]) if "q" in A else None
    for z in walk(q) if q is not None else ():
        if quads(z):
            flag = scheme(z)
    ks = [z for z in walk(n) if z.op in ("dot", "matmul", "ix", "T", "kron") and z.shape == (S.num(4), S.num(4)) and any(k.op == "kron" for k in walk(z))]
    tops = [z for z in ks if not any(z is not o and any(c is z for c in N.nodes_in(o.args)) for o in ks)]
    if len(tops) != 1 or flag is None:
        return x.und(what, "no single product of own and lag moves recognised")
    a = arrange(tops[0])
    key, where = "LISA_Markov.expected_t", where_of(x, r, "expected_t")
    if a == "bad":
        return x.bad(key, where, "%s: the reordering of own and lag moves is no permutation" % what)
    if a is None:
        return x.und(what, "reordering not constant")
    rows, cols, X1, X2 = a
    w = [("in", "w") in X1.deps, ("in", "w") in X2.deps]
    h1, h2 = high_class(X1), high_class(X2)
    if w not in ([True, False], [False, True]) or h1 is None or h2 is None:
        return x.und(what, "own and lag classes not recognised")
    x.count("quadrants of the expected moves decided", 4)
    for nm, order in (("row", rows), ("column", cols)):
        if len(order) != 4:
            return x.und(what, "not four quadrants")
        for i, (c1, c2) in enumerate(order):
            l1, l2 = "H" if c1 == h1 else "L", "H" if c2 == h2 else "L"
            name = l2 + l1 if w[0] else l1 + l2
            if name != NAMES[flag][i + 1]:
                return x.bad(key, where, "%s: %s %d stands for %s instead of %s" % (what, nm, i, name, NAMES[flag][i + 1]))
    x.ok(what)


def texts(x, r, v):
    """Labels as a tuple of strings."""
    if isinstance(v, Tup):
        cs = [constof(z) if isinstance(z, Node) else z for z in v.items]
    else:
        n = x.I.load(v, r.st) if isinstance(v, (Ref, Node)) else None
        if n is None:
            return None
        cs = [constof(z) if isinstance(z, Node) else z for z in n.args[0]] if n.op == "stack" else constof(n)
    return tuple(cs) if isinstance(cs, (list, tuple)) and all(isinstance(z, str) for z in cs) else None


def heatmap(x, r):
    for _, e in x.events([r], "extcall"):
        if e.name != "seaborn.heatmap":
            continue
        what = r.name + " heatmap"
        data = e.args[0] if e.args else e.kw.get("data")
        n = the_node(x, r, data) if data is not None else None
        xl, yl = (texts(x, r, e.kw[k]) if k in e.kw else None for k in ("xticklabels", "yticklabels"))
        if n is None or xl is None or yl is None:
            x.und(what, "table or labels not constant")
            continue
        start_rows = True
        for _, s in x.events([r], "extcall"):
            if s.name.endswith((".set_ylabel", ".set_xlabel")) and s.args:
                t = constof(s.args[0]) if isinstance(s.args[0], Node) else s.args[0]
                if isinstance(t, str) and ("tart" in t or "nd time" in t):
                    start_rows = ("tart" in t) == s.name.endswith("ylabel")
                    break
        qs, ss = {}, {}
        for q in walk(n):
            if quads(q) or q.op == "fn" and q.args and q.args[0] in ("p_sim", "p_z_sim"):
                yv = q.args[1][0] if isinstance(q.args[1], tuple) else q.args[1]
                c = constof(yv.args[1][1][1]) if isinstance(yv, Node) and yv.op == "ix" and len(yv.args[1]) == 2 and yv.args[1][1][0] == "p" else NOCONST
                if c in (0, 1) and quads(q):
                    qs[q.id] = (c, q)
                elif c not in (0, 1):
                    qs[None] = None
            if q.dt == "b" and q.op == "cmp":
                s = significance(q)
                if s is not None:
                    cs = {constof(z.args[1][1][1]) for z in walk(q) if z.op == "ix" and len(z.args[1]) == 2 and z.args[1][1][0] == "p" and ("in", "Y") in z.deps}
                    if len(cs) == 1 and cs <= {0, 1}:
                        ss[q.id] = (cs.pop(), s)
                    else:
                        qs[None] = None
        if None not in qs and qs and len({c for c, _ in qs.values()}) == 1:
            x.badev(r, e, "periods", "%s: both axes describe the same period" % what)
            continue
        if None in qs or {c for c, _ in qs.values()} != {0, 1} or {c for c, _ in ss.values()} != {0, 1}:
            x.und(what, "quadrants of the two periods not recognised")
            continue
        geo = {scheme(q) for _, q in qs.values()}
        if len(geo) != 1 or None in geo:
            x.und(what, "numbering unknown")
            continue
        geo = geo.pop()
        dims = [int(d.const()) if isinstance(d, S.Ex) and d.const() is not None else None for d in n.shape or ()]
        if len(dims) != 2 or None in dims:
            x.und(what, "no table")
            continue
        def held(z, env):
            c = constof(z)
            if c is not NOCONST:
                if c == 0:
                    return 0
                raise Unknown
            while z.op == "cast":
                z = z.args[0]
            if z.op == "sum" and z.args[1] is None or z.op == "fn" and z.args[0] == "count_nonzero":
                m = z.args[0] if z.op == "sum" else z.args[1][0]
                return int(fold(m, env))
            raise Unknown
        def cell(i, j):
            b = n
            while b.op in ("upd", "cast"):
                if b.op == "cast":
                    b = b.args[0]
                    continue
                at = [constof(s[1]) for s in b.args[1]] if all(s[0] == "p" for s in b.args[1]) else [NOCONST]
                if NOCONST in at or len(at) != 2:
                    raise Unknown
                if at == [i, j]:
                    return b.args[2]
                b = b.args[0]
            if b.op == "full":
                return b.args[1]
            raise Unknown
        bad = None
        try:
            for q0 in (None, 1, 2, 3, 4):
                for q1 in (None, 1, 2, 3, 4):
                    for extra in (1, 2, 3, 4):
                        env = {}
                        for i, (c, _) in qs.items():
                            v = (q0, q1)[c]
                            env[i] = v if v is not None else extra
                        for i, (c, s) in ss.items():
                            env[i] = ((q0, q1)[c] is not None) == s
                        hit = [(i, j) for i in range(dims[0]) for j in range(dims[1]) if held(cell(i, j), env)]
                        x.count("cluster pairs decided")
                        want = [NAMES[geo][q] if q else "ns" for q in ((q0, q1) if start_rows else (q1, q0))]
                        if len(hit) != 1:
                            bad = "a move from %s to %s is counted in %d cells" % (NAMES[geo].get(q0, "ns"), NAMES[geo].get(q1, "ns"), len(hit))
                        elif hit[0][0] >= len(yl) or hit[0][1] >= len(xl):
                            bad = "a cell has no label"
                        elif [yl[hit[0][0]], xl[hit[0][1]]] != want:
                            bad = "a move from %s to %s is labelled %s to %s" % (NAMES[geo].get(q0, "ns"), NAMES[geo].get(q1, "ns"), *([yl[hit[0][0]], xl[hit[0][1]]][:: 1 if start_rows else -1]))
                        if bad:
                            break
        except Unknown:
            x.und(what, "cluster codes not a formula of the quadrants")
            continue
        if bad:
            x.badev(r, e, "heatmap", "%s: %s" % (what, bad))
        else:
            x.ok(what)


@prop("C15", ["lisa", "plotting"], "LISA codes are folded for all 16 quadrant pairs and 4 significance patterns and compared with the documented formula; the reordering of own and lag moves and the labels of the "
      "heatmap are compared with the quadrant names of the numbering in force")
def c15(x):
    for r in x.runs.values():
        if not r.ok:
            continue
        base = entry(r.name)
        if base == "LISA_Markov" and r.parent is None:
            A = attr_items(x, r)
            if "move_types" in A:
                n = the_node(x, r, A["move_types"])
                if n is not None:
                    code_terms(x, r, "LISA_Markov.move_types", "move_types", n, lambda o, d, so, sd: 4 * (o - 1) + d, False)
            if "significant_moves" in A:
                n = the_node(x, r, A["significant_moves"])
                if n is not None:
                    code_terms(x, r, "LISA_Markov.significant_moves", "significant_moves", n,
                               lambda o, d, so, sd: 4 * (o - 1) + d + (0 if so and sd else 16 if so else 32 if sd else 48), True)
            expected(x, r, A)
        else:
            heatmap(x, r)

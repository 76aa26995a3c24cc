"""Rules on tables of counts and probabilities."""
from . import sym as S
from . import node as N
from .node import Node, constof, NOCONST, walk
from .interp import ArrCell, ListCell, DictCell, InstCell, Ref, Alt, Tup  # noqa: F401
from .rulelib import prop, entry, opts, tainted, rngs, ins  # noqa: F401
from .rules_val import attr_items, where_of, strip_lead, firm  # noqa: F401
from .rules_inf import the_node, same
from .rules_time import init_of, unstore


def counts(n):
    """A table that starts at zero and is added to at positions that depend on the data."""
    if n.op not in ("loop", "upd", "hdr"):
        return False
    i = init_of(n)
    if i.op != "full" or constof(i.args[1] if len(i.args) > 1 else None) not in (0, 0.0):
        return False
    for q in walk(n):
        if q.op == "upd" and isinstance(q.args[1], tuple) and init_of(q) is i and all(s[0] == "p" and s[1]._ex is None for s in q.args[1]):
            u = unstore(q)
            if u is not None and u[2] is not None:
                return True
    return False


def may0(n, depth=0):
    """Zero is reached by some legitimate data: True; not reached: False; not known: None."""
    if n.nz:
        return False
    lo, lop, _, _ = n.bounds()
    if lo is not None and not S.has_val(lo) and (S.gt0(lo) or S.ge0(lo) and lop):
        return False
    if n.att0:
        return True
    if depth > 12:
        return None
    if n.rank and counts(n):
        return True
    if n.op == "add" and all(isinstance(q, Node) for q in n.args):
        for a, g in (n.args, n.args[::-1]):
            for f in [g] + ([q for q in inner(g).args if isinstance(q, Node)] if inner(g).op in ("mul", "and") else []):
                b = zero_of(f)
                if b is not None and coarser(b, a) and may0(a, depth + 1):
                    return True
        return None
    if n.op in ("sum", "mean"):
        a = n.args[0]
        if n.args[1] is None:
            # the total of one class of a table by classes
            return True if a.op == "ix" and a.rank and a.rank >= 2 and all(s[0] in "psan" for s in a.args[1]) and a.args[1][0][0] == "p" and table(a.args[0]) and may0(a.args[0], depth + 1) else None
        return True if a.rank and a.rank >= 2 and table(a) and may0(a, depth + 1) else None
    if n.op == "ix":
        return may0(n.args[0], depth + 1) or None if all(s[0] in "psan" for s in n.args[1]) else None
    if n.op == "mul":
        return True if any(isinstance(q, Node) and may0(q, depth + 1) for q in n.args) else None
    if n.op in ("div", "reshape", "T", "cast", "abs", "neg", "sqrt"):
        return may0(n.args[0], depth + 1) or None
    if n.op == "seq":
        return may0(n.args[3], depth + 1) or None
    return None


def zero_of(g):
    """b, when g is one exactly where b is zero and zero elsewhere."""
    while g.op in ("cast", "reshape", "assume") or g.op == "ix" and all(s[0] in "sn" for s in g.args[1]) or g.op == "mul" and any(isinstance(q, Node) and q.shape == () and constof(q) in (1, 1.0) for q in g.args):
        g = g.args[0] if g.op != "mul" else [q for q in g.args if constof(q) not in (1, 1.0)][0]
    if g.op == "cmp" and g.args[0] == "eq":
        for b, z in (g.args[1:3], g.args[2:0:-1]):
            if isinstance(z, Node) and constof(z) in (0, 0.0) and isinstance(b, Node):
                return b
    return None


def peel(n):
    out = []
    while isinstance(n, Node):
        out.append(n)
        if n.op in ("cast", "assume", "copy", "T", "reshape", "div", "mul") or n.op == "ix" and all(s[0] in "psn" for s in n.args[1]):
            m = [q for q in n.args if isinstance(q, Node)] if n.op == "mul" else [n.args[0]]
            n = next((q for q in m if table(q)), m[0])
        elif n.op == "sum" and n.args[1] is not None:
            n = n.args[0]
        else:
            break
    return out


def coarser(b, a):
    """b adds up several cells of which a is one, so that a can be zero where b is not."""
    while b.op in ("cast", "assume", "reshape"):
        b = b.args[0]
    if b.op != "sum" or not isinstance(b.args[0], Node):
        return False
    pa, pb = peel(a), peel(b)
    x = b.args[0]
    sums = [q for q in pa if q.op == "sum"]
    if x.rank == 1 and b.args[1] is None and any(q is x for q in pa[:1]):
        return True
    if x.rank and x.rank >= 2:
        for q in pa:
            if q is x:
                return True
            if q.op == "sum":
                break
    # one regime against all regimes
    base = next((q for q in pb if any(q is z for z in pa)), None)
    if base is None or base.rank != 3:
        return False
    return sum(q.op == "sum" for q in pb[:pb.index(base)]) == 2 and len(sums) == 1 and any(q.op == "ix" and q.args[0] is base and sum(s[0] == "p" for s in q.args[1]) == 1 for q in pa)


def table(n):
    """Counts or probabilities made from counts."""
    while n.op in ("cast", "ix", "T", "reshape", "seq", "div", "mul", "sum", "assume"):
        if n.op == "ix" and not all(s[0] in "psan" for s in n.args[1]):
            return False
        n = n.args[3] if n.op == "seq" else n.args[0]
    return counts(n) or n.op == "in" and n.att0


GUARDS = ("nan_to_num", "isnan", "isfinite", "isinf")


def inner(n):
    while n.op in ("cast", "assume", "neg") or n.op == "ix" and all(s[0] in "sn" for s in n.args[1]):
        n = n.args[0]
    return n


def reach(n):
    """Nodes of a term with the conditions under which they are selected."""
    seen, todo = set(), [(n, ())]
    while todo:
        q, g = todo.pop()
        if (q.id, g) in seen or len(seen) > 60000:
            continue
        seen.add((q.id, g))
        yield q, g
        if q.op == "sel" and isinstance(q.args[0], Node):
            todo.append((q.args[0], g))
            for b in q.args[1:]:
                if isinstance(b, Node):
                    todo.append((b, g + (q.args[0].id,)))
        elif q.op in GUARDS or q.op == "fn" and q.args and q.args[0] in GUARDS:
            todo += [(b, g + (-1,)) for b in N.nodes_in(q.args)]
        else:
            todo += [(b, g) for b in N.nodes_in(q.args)]


def sums_of(n):
    """sum(table, axis) behind a guarded divisor."""
    n = inner(n)
    if n.op == "sum":
        return n
    if n.op == "add":
        for a, b in ((n.args[0], n.args[1]), (n.args[1], n.args[0])):
            if isinstance(a, Node) and isinstance(b, Node):
                a = inner(a)
                if a.op == "sum" and a.rank and constof(b) is not NOCONST:
                    return a
                if a.op == "sum" and any(q.op == "cmp" and (q.args[1] is a or q.args[2] is a) for q in walk(b)):
                    return a
    if n.op == "sel" or n.op == "max2":
        ss = [q for q in map(sums_of, [a for a in n.args if isinstance(a, Node) and constof(a) is NOCONST and a.op != "cmp"]) if q is not None]
        return ss[0] if len({s.id for s in ss}) == 1 else None
    return None


def expanded(b):
    """The divisor carries a last axis of extent one."""
    return b.shape is not None and len(b.shape) >= 2 and b.shape[-1] == S.ONE


def quotients(n):
    """(numerator, divisor, divisor has one value per row)."""
    for q in walk(n):
        if q.op == "div" and q.args[0].rank and q.args[0].rank >= 2:
            yield q, q.args[0], q.args[1], expanded(q.args[1])
        elif q.op == "mul" and all(isinstance(a, Node) for a in q.args):
            for a, b in ((q.args[0], q.args[1]), (q.args[1], q.args[0])):
                i = inner(b)
                if a.rank and a.rank >= 2 and i.op == "div" and constof(i.args[0]) in (1, 1.0):
                    yield q, a, i.args[1], expanded(b)


PROBS = {"Markov": ("p",), "FullRank_Markov": ("p",), "GeoRank_Markov": ("p",), "LISA_Markov": ("p",), "Spatial_Markov": ("p", "P", "chi2"), "homogeneity": ("p_h0", "p_h1")}


def common(a, b):
    """One extreme of the row totals of a."""
    while b.op in ("cast", "assume", "max2", "min2") and any(isinstance(q, Node) and constof(q) is NOCONST for q in b.args):
        b = [q for q in b.args if isinstance(q, Node) and constof(q) is NOCONST][0]
    if b.op not in ("max", "min", "mean") or len(b.args) > 1 and b.args[1] is not None:
        return False
    s, a = inner(b.args[0]), inner(a)
    return s.op == "sum" and isinstance(s.args[1], int) and isinstance(s.args[0], Node) and (s.args[0] is a or same(inner(s.args[0]), a))


def skew(b, s):
    """The divisor is not the total of a row that has transitions."""
    b = inner(b)
    if b.op == "add":
        for u, g in (b.args, b.args[::-1]):
            if not (isinstance(u, Node) and isinstance(g, Node) and inner(u) is s):
                continue
            c = constof(g)
            if c is not NOCONST and c:
                return "the divisor is the total of a row plus %s" % c
            g = inner(g)
            if g.op == "cmp" and isinstance(g.args[1], Node) and inner(g.args[1]) is s:
                c = constof(g.args[2])
                if c is not NOCONST and (g.args[0] == "le" and c >= 1 or g.args[0] == "lt" and c > 1):
                    return "totals of rows with few transitions are changed before dividing"
    if b.op == "max2":
        c = [constof(q) for q in b.args if isinstance(q, Node) and constof(q) is not NOCONST]
        if len(c) == 1 and len(b.args) == 2 and any(isinstance(q, Node) and inner(q) is s for q in b.args) and c[0] > 1 and (counts(inner(s.args[0])) or table(s.args[0])):
            return "totals of rows with few transitions are changed before dividing"
    return None


def own_totals(x, r, base, nm, n):
    key = "%s%s|" % (base, "." + nm if nm else "")
    where, what = where_of(x, r, nm), "%s.%s" % (r.name, nm)
    seen = False
    for q, a, b, wide in quotients(n):
        s = sums_of(b)
        if tainted(q):
            continue
        if s is None:
            if b.shape == () and common(a, b):
                x.bad(key + "totals", where, "%s: all rows are divided by the same number, taken from the totals of all rows" % what)
                return
            continue
        x.count("normalisations examined")
        t0 = s.args[0]
        ta, tb = inner(a), inner(t0)
        if t0.rank is None or ta.rank is None or s.args[1] is None and t0.rank == ta.rank:
            if s.args[1] is None and ta is tb:
                x.bad(key + "totals", where, "%s: rows are divided by the grand total" % what)
                return
            continue
        ax = s.args[1]
        if not isinstance(ax, int):
            continue
        ax %= t0.rank
        if ta is tb or same(ta, tb):
            if ax != t0.rank - 1:
                x.bad(key + "totals", where, "%s: rows are divided by totals along axis %d instead of their own" % (what, ax))
                return
            if not wide and ta.rank == 2 and (b.rank == 1 or b.rank == 2 and b.shape is not None and b.shape[0] == S.ONE and inner(b) is not b):
                x.bad(key + "totals", where, "%s: row totals are laid along the columns" % what)
                return
            w = skew(b, s)
            if w:
                x.bad(key + "totals", where, "%s: %s" % (what, w))
                return
            seen = True
        elif table(ta) and table(tb) and ta.rank == tb.rank:
            x.bad(key + "totals", where, "%s: rows are divided by the totals of another table" % what)
            return
    if seen:
        x.ok("%s own totals" % what)
    else:
        x.und("%s own totals" % what, "no normalisation recognised")


def fills(n):
    """Stores of 1 into a table that is not a table of counts."""
    for q in walk(n):
        if q.op == "upd" and isinstance(q.args[2], Node) and constof(q.args[2]) in (1, 1.0) and q.rank and q.rank >= 2 and isinstance(q.args[1], tuple) and \
                len(q.args[1]) >= 2 and not counts(q):
            yield q


def mask_of(p):
    """nonzero(mask, axis) a position comes from."""
    for q in walk(p):
        if q.op == "nonzero":
            return q
    return None


def filled(x, r, key, nm, n, asked):
    """True when a well-formed fill was found."""
    where, what = where_of(x, r, nm), "%s.%s" % (r.name, nm)
    got = False
    for q in fills(n):
        a, b = q.args[1][-2], q.args[1][-1]
        if a[0] not in "pa" or b[0] not in "pa":
            continue
        m, m2 = mask_of(a[1]), mask_of(b[1])
        if m is None or m2 is None or tainted(q):
            continue
        x.count("fills examined")
        got = True
        if not asked:
            x.bad(key + "|unasked", where, "%s is filled although filling was not requested" % what)
            return True
        if a[1] is not b[1] and not same(a[1], b[1]):
            x.bad(key + "|place", where, "%s: the filled entry is not on the diagonal" % what)
            return True
        c = m.args[0]
        if c.op == "cmp":
            s = inner(c.args[1])
            z = constof(c.args[2])
            if z is not NOCONST and z >= .9 and c.args[0] in ("lt", "le") and s.op == "sum" and s.args[0].dt == "f" and (inner(s.args[0]).op in ("div", "in")) and not counts(inner(s.args[0])):
                x.bad(key + "|rows", where, "%s: rows whose probabilities add up to a little less than one are filled" % what)
                return True
            if z not in (0, 0.0):
                continue
            if c.args[0] in ("ne", "gt"):
                x.bad(key + "|rows", where, "%s: rows with transitions are filled" % what)
                return True
            if s.op == "sum" and isinstance(s.args[1], int) and s.args[0].rank and s.args[1] % s.args[0].rank != s.args[0].rank - 1:
                x.bad(key + "|rows", where, "%s: empty columns are filled instead of empty rows" % what)
                return True
    return got


def partly(x, r, key, nm, n):
    """Filling depends on a size."""
    while n.op in ("cast", "assume"):
        n = n.args[0]
    if n.op != "sel" or not isinstance(n.args[0], Node) or tainted(n) or not all(isinstance(b, Node) for b in n.args[1:3]):
        return False
    f1, f2 = (any(True for _ in fills(b)) for b in n.args[1:3])
    c = n.args[0]
    if f1 != f2 and c.op == "cmp" and all(isinstance(b, Node) and (constof(b) is not NOCONST or b._ex is not None and not any(a in N.ATOMNODE for a in b._ex.atoms())) for b in c.args[1:3]):
        x.bad(key + "|not filled", where_of(x, r, nm), "%s.%s: filling was requested and is not done for some sizes of the table" % (r.name, nm), (N.show(c, 4),))
        return True
    return False


ZERO = ["markov", "spatial", "lisa", "tests", "util"]


@prop("C13", ZERO, "every division and logarithm in the term of a result is shown not to meet a zero an empty class produces, or found to; each row is divided by its own total; "
      "ones are stored only on the diagonal of rows whose sum is zero and only when filling was requested")
def c13(x):
    known = {}
    for r in x.runs.values():
        if not r.ok:
            continue
        base = entry(r.name)
        vals = list(attr_items(x, r).items()) if r.parent is None and x.attrs(r) else [("", r.val)]
        for nm, v in vals:
            bad = und = False
            for n in x.nodes(r, v):
                for q, g in reach(n):
                    if q.op not in ("div", "fdiv", "mod", "log"):
                        continue
                    d = q.args[0] if q.op == "log" else q.args[1]
                    if not isinstance(d, Node):
                        continue
                    x.count("divisions and logarithms examined")
                    if d.id not in known:
                        known[d.id] = may0(d)
                    z = known[d.id]
                    if z is False:
                        continue
                    if z and not tainted(d):
                        if g:
                            continue
                        x.bad("%s%s|%s" % (base, "." + nm if nm else "", q.op), where_of(x, r, nm or None), "%s%s: %s of a total or count that is zero for an empty class" %
                              (r.name, "." + nm if nm else "", "division" if q.op != "log" else "logarithm"), (N.show(q, 5)[:300],))
                        bad = True
                        break
                    und = True
                if bad:
                    break
            if not bad:
                if und:
                    x.und("%s.%s" % (r.name, nm), "divisors of unknown range")
                else:
                    x.ok("%s.%s" % (r.name, nm))
        A = attr_items(x, r) if r.parent is None else {}
        for nm in PROBS.get(base, ()):
            for n in x.nodes(r, A[nm]) if nm in A else ():
                own_totals(x, r, base, nm, n)
        for n in x.nodes(r, r.val) if base == "chi2" else ():
            own_totals(x, r, base, "", n)
        # filling
        if base in ("Markov", "FullRank_Markov", "GeoRank_Markov", "Spatial_Markov", "LISA_Markov") and r.parent is None:
            asked = "fill" in opts(r.name)
            for nm in ("p", "P"):
                n = the_node(x, r, A[nm]) if nm in A else None
                key = "%s.%s" % (base, nm)
                if nm not in A:
                    continue
                if n is None:
                    for n in x.nodes(r, A[nm]) if nm in A else ():
                        filled(x, r, key, nm, n, asked)
                    n = x.I.load(A[nm], r.st)
                    if asked and isinstance(n, Node):
                        partly(x, r, key, nm, n)
                    continue
                got = filled(x, r, key, nm, n, asked)
                if asked and got and partly(x, r, key, nm, n):
                    continue
                if asked and not got:
                    twin = x.run(r.name.replace(",fill", "").replace("fill,", "").replace("fill", ""))
                    if twin is None and "classes" in r.name:
                        twin = x.run("Markov(classes)")
                    m = the_node(x, twin, attr_items(x, twin).get(nm)) if twin is not None and twin.ok and nm in attr_items(x, twin) else None
                    if m is not None and not tainted(n) and (m is n or same(m, n)):
                        x.bad(key + "|not filled", where_of(x, r, nm), "%s.%s: filling was requested and changes nothing" % (r.name, nm))
                    else:
                        x.und("%s.%s fill" % (r.name, nm), "no fill recognised")
                elif got or not asked:
                    x.ok("%s.%s fill" % (r.name, nm))
        if base == "fill_empty_diagonals":
            n = the_node(x, r, r.val)
            if n is not None and n.rank and n.rank > 1:
                if filled(x, r, base, "", n, True):
                    x.ok(r.name + " fill")
                else:
                    x.und(r.name + " fill", "no fill recognised")

"""Rules on tables of distances."""
from fractions import Fraction
from . import sym as S
from . import node as N
from .node import Node, constof, NOCONST, walk
from .interp import ArrCell, ListCell, DictCell, InstCell, Ref, Alt, Tup  # noqa: F401
from .rulelib import prop, entry, opts, tainted, rngs, ins  # noqa: F401
from .rules_val import attr_items, where_of, strip_lead, firm  # noqa: F401
from .rules_inf import the_node, same
from .rules_tab import may0
from .rules_code import fold, Unknown

SKIP = ("cast", "assume", "copy", "abs", "neg", "sqrt")


def ran(n):
    return n.op == "sel" and isinstance(n.args[0], Node) and n.args[0].op == "new" and n.args[0].args and n.args[0].args[0] == "ran"


def stores(n, depth=0):
    """(table before, [(row position, column position, value)]) of a table filled element by element."""
    out = []
    while depth < 400:
        depth += 1
        if n.op == "loop":
            n = n.args[-1]
        elif n.op == "hdr":
            n = n.args[-1]
        elif ran(n):
            n = n.args[1]
        elif n.op == "upd" and len(n.args[1]) == 2:
            out.append((n.args[1][0], n.args[1][1], n.args[2]))
            n = n.args[0]
        elif n.op == "cast":
            n = n.args[0]
        else:
            break
    return n, by_element(out)


def scalar(n):
    c = constof(n)
    return c if c is not NOCONST and isinstance(c, (int, float)) and n.shape == () else None


def const_table(n):
    c = constof(n)
    return c if c is not NOCONST and isinstance(c, tuple) and all(isinstance(r, tuple) for r in c) else None


def exof(n, depth=0):
    if n._ex is not None or depth > 6:
        return n._ex
    if n.op in ("add", "sub") and all(isinstance(z, Node) and z.shape == () for z in n.args[:2]):
        a, b = exof(n.args[0], depth + 1), exof(n.args[1], depth + 1)
        return None if a is None or b is None else S.add(a, b) if n.op == "add" else S.sub(a, b)
    if n.op == "cast" and n.dt == "i":
        return exof(n.args[0], depth + 1)
    return None


def ordered(a, b):
    """a < b or a > b for every pass: '<', '>', '=' or None."""
    if a is b:
        return "="
    a, b = exof(a), exof(b)
    if a is None or b is None:
        return None
    d = S.sub(b, a)
    if d is None:
        return None
    if d == S.ZERO:
        return "="
    return "<" if S.gt0(d) else ">" if S.gt0(S.neg(d)) else "<=" if S.ge0(d) else ">=" if S.ge0(S.neg(d)) else None


def swapped(e, i, j):
    return N.rebuild(e, {}, {i: S.sym(j), j: S.sym(i)})


def eqv(a, b, depth=0):
    """Equal up to the order of operands."""
    if a is b:
        return True
    if not isinstance(a, Node) or not isinstance(b, Node) or depth > 25:
        return a == b if not isinstance(a, Node) and not isinstance(b, Node) else False
    if a._ex is not None and b._ex is not None and a._ex == b._ex:
        return True
    if a.op != b.op:
        return False
    if a.op == "abs" and a.args[0].op == "sub" and b.args[0].op == "sub":
        x, y = a.args[0].args, b.args[0].args
        return eqv(x[0], y[0], depth + 1) and eqv(x[1], y[1], depth + 1) or eqv(x[0], y[1], depth + 1) and eqv(x[1], y[0], depth + 1)
    if a.op in ("add", "mul", "max2", "min2", "and", "or") and eqv(a.args[0], b.args[1], depth + 1) and eqv(a.args[1], b.args[0], depth + 1):
        return True
    if a.op == "cmp" and a.args[0] == b.args[0] and a.args[0] in ("eq", "ne") and eqv(a.args[1], b.args[2], depth + 1) and eqv(a.args[2], b.args[1], depth + 1):
        return True
    if a.op == "pow" and a.args[0].op == "sub" and b.args[0].op == "sub" and constof(a.args[1]) == constof(b.args[1]) == 2:
        return eqv(a.args[0].args[0], b.args[0].args[1], depth + 1) and eqv(a.args[0].args[1], b.args[0].args[0], depth + 1)
    if len(a.args) != len(b.args):
        return False
    for x, y in zip(a.args, b.args):
        if isinstance(x, Node) or isinstance(y, Node):
            if not eqv(x, y, depth + 1):
                return False
        elif isinstance(x, (tuple, list)) and isinstance(y, (tuple, list)):
            if len(x) != len(y) or any(not eqv(p, q, depth + 1) if isinstance(p, Node) else p != q for p, q in zip(x, y)):
                return False
        elif x != y:
            return False
    return True


def opposite(a, b):
    """b = -a, and a is not always zero."""
    if a._ex is not None and b._ex is not None:
        d = S.add(a._ex, b._ex)
        return d is not None and d == S.ZERO and a._ex != S.ZERO and a._ex.const() is None
    return a.op == "sub" and b.op == "sub" and eqv(a.args[0], b.args[1]) and eqv(a.args[1], b.args[0]) and not eqv(a.args[0], a.args[1])


def positional(v, w, i, j):
    """Different formulas of the positions alone."""
    if any(z._ex is None for z in (v, w, i, j)) or v._ex == w._ex:
        return False
    ok = set(i._ex.atoms()) | set(j._ex.atoms())
    return bool(set(v._ex.atoms()) | set(w._ex.atoms())) and set(v._ex.atoms()) <= ok and set(w._ex.atoms()) <= ok


def shortened(n):
    """The states of a sequence are read up to a fixed period only."""
    for q in walk(n):
        if q.op == "unk" and q.args[0] == "substr" and len(q.args) > 2 and isinstance(q.args[2], tuple) and q.args[1].op == "fn" and q.args[1].args[0] == "str":
            e = [constof(z) if isinstance(z, Node) else z for z in q.args[2]]
            if e[0] is None and isinstance(e[1], int) and e[1] > 0:
                return "characters of"
        if q.op != "ix" or q.args[0].shape is None or len(q.args[0].shape) != 2 or len(q.args[1]) != 2:
            continue
        s, D = q.args[1][1], q.args[0].shape[1]
        if s[0] == "p" and isinstance(s[1], Node) and s[1]._ex is not None and D == S.sym("t"):
            for a in s[1]._ex.atoms():
                h = S.ATOMS[a].hi if a[:1] == "i" and a[1:].isdigit() and a in S.ATOMS else None
                h = h.const() if isinstance(h, S.Ex) else h
                if s[1]._ex == S.sym(a) and h is not None and h >= 3:
                    return int(h) + 1
    return None


def uneven(v, w, i, j):
    """A formula of one condition on the row and one on the column, and the formula with both exchanged, differ for some outcome of the two."""
    L = {}
    todo = [v, w]
    while todo:
        q = todo.pop()
        if q.op == "cmp" or q.op == "join" and all(isinstance(z, Node) and z.op == "cmp" for z in N.nodes_in(q.args)):
            L[q.id] = q
        else:
            todo += list(N.nodes_in(q.args))
    L = list(L.values())
    if len(L) != 2 or tainted(v):
        return False
    side = [(N.mentions(q, i), N.mentions(q, j)) for q in L]
    if sorted(side) != [(False, True), (True, False)] or not eqv(swapped(L[0], i, j), L[1]):
        return False
    try:
        for a in (False, True):
            for b in (False, True):
                env = {L[0].id: a, L[1].id: b}
                if fold(v, env) != fold(w, env):
                    return True
    except Unknown:
        pass
    return False


def sized(c):
    """A condition on the number of units or classes that holds for some and fails for others."""
    if c.op != "cmp" or not all(isinstance(z, Node) and z._ex is not None for z in c.args[1:]):
        return False
    d = S.sub(c.args[1]._ex, c.args[2]._ex)
    k = [constof(z) for z in c.args[1:] if constof(z) is not NOCONST]
    return bool(d.atoms()) and set(d.atoms()) <= {"n", "t", "k"} and bool(k) and isinstance(k[0], (int, float)) and k[0] >= 4


def both(a, b):
    return True if a and b else False if a is False and b or b is False and a else None


def symm(n, depth=0):
    """The table equals its transpose: True, evidently not: False, not known: None."""
    if "symm" in n.tags or n.shape == () or n.op == "full" and n.args[1].shape == () or n.op == "eye" or n.op == "diagv":
        return True
    if depth > 30:
        return None
    c = const_table(n)
    if c is not None:
        return len(c) == len(c[0]) and all(c[i][j] == c[j][i] for i in range(len(c)) for j in range(len(c)))
    if n.op in SKIP or n.op == "T" and n.args[1] is None:
        return symm(n.args[0], depth + 1)
    if n.op == "new" and n.args[0] == "filldiag":
        return symm(n.args[1], depth + 1)
    if n.op == "sel":
        v = [symm(z, depth + 1) for z in n.args[1:]]
        if all(v):
            return True
        return False if False in v and sized(n.args[0]) else None
    if n.op in ("add", "sub", "mul", "div", "max2", "min2", "pow", "and", "or") and not rownormed(n):
        a, b = n.args[0], n.args[1]
        if not isinstance(a, Node) or not isinstance(b, Node):
            return None
        if n.op in ("add", "mul", "max2", "min2", "and", "or"):
            for x, y in ((a, b), (b, a)):
                if y.op == "T" and y.args[1] is None and (y.args[0] is x or same(y.args[0], x)):
                    return True
        if n.op in ("add", "sub", "mul", "div"):
            v = symm_lin(n, depth)
            if v is not None:
                return v
        if any(x.shape is None or len(x.shape) == 1 or x.shape and len(x.shape) == 2 and x.shape[0] != x.shape[1] for x in (a, b)):
            return None
        if a is b or same(a, b):
            return symm(a, depth + 1)
        return both(symm(a, depth + 1), symm(b, depth + 1))
    if rownormed(n):
        return False
    if n.op == "div":
        return None
    if n.op == "cmp":
        return both(symm(n.args[1], depth + 1), symm(n.args[2], depth + 1)) or None
    if n.op == "seq" and n.args[0] == 0 and isinstance(n.args[1], str):
        e = n.args[3]
        if e.op == "seq" and e.args[0] == 0 and isinstance(e.args[1], str) and e.args[2] == n.args[2]:
            v = e.args[3]
            if not any(N.mentions(v, z) for z in (n.args[1], e.args[1])):
                return True if constof(v) is not NOCONST else None
            w = swapped(v, n.args[1], e.args[1])
            if eqv(v, w):
                return True
            if opposite(v, w) or uneven(v, w, n.args[1], e.args[1]):
                return False
        return None
    base, w = stores(n)
    if w:
        r = symm(base, depth + 1)
        for a, b, v in w:
            if a[0] == "s" and b[0] == "s":
                r = both(r, symm(v, depth + 1) if a == b or tuple(a) == tuple(b) else None) if r is not None else None
                continue
            if a[0] != "p" or b[0] != "p":
                return None
            o = ordered(a[1], b[1])
            if o == "=":
                continue
            mates = [v2 for a2, b2, v2 in w if a2[0] == "p" and b2[0] == "p" and (a2[1] is b[1] or same(a2[1], b[1])) and (b2[1] is a[1] or same(b2[1], a[1]))]
            if any(v2 is v or same(v2, v) or eqv(v2, v) for v2 in mates):
                continue
            if len(mates) == 1 and (opposite(v, mates[0]) or positional(v, mates[0], a[1], b[1])):
                return False
            if mates or o is None or tainted(v):
                r = None
                continue
            bs = base
            while bs.op == "new" and bs.args[0] == "filldiag":
                bs = bs.args[1]
            bc = bs.args[1] if bs.op == "full" else None
            if o in ("<", ">", "<=", ">=") and bc is not None and constof(v) is NOCONST and len(w) == 1:
                return False
            r = None
        return r
    return None


def lin(n, c, acc, depth=0):
    """n as a sum of multiples of tables and their transposes, symmetric parts left out; False when it is something else."""
    if scalar(n) is not None or n.shape == ():
        return True
    if depth > 20 or n.shape is None or len(n.shape) != 2:
        return False
    if n.op == "cast" and n.dt == "f":
        return lin(n.args[0], c, acc, depth + 1)
    if n.op == "neg":
        return lin(n.args[0], -c, acc, depth + 1)
    if n.op in ("add", "sub"):
        a, b = n.args
        return isinstance(a, Node) and isinstance(b, Node) and lin(a, c, acc, depth + 1) and lin(b, c if n.op == "add" else -c, acc, depth + 1)
    if n.op in ("mul", "div") and isinstance(n.args[1], Node) and scalar(n.args[1]):
        s = Fraction(scalar(n.args[1]))
        return lin(n.args[0], c * s if n.op == "mul" else c / s, acc, depth + 1)
    if n.op == "mul" and isinstance(n.args[0], Node) and scalar(n.args[0]):
        return lin(n.args[1], c * Fraction(scalar(n.args[0])), acc, depth + 1)
    t = 0
    while n.op == "T" and n.args[1] is None:
        n, t = n.args[0], 1 - t
    if n.op in ("add", "sub", "mul", "div", "neg") and t:
        sub = {}
        if not lin(n, c, sub, depth + 1):
            return False
        for (b, u), v in sub.items():
            acc[(b, 1 - u)] = acc.get((b, 1 - u), 0) + v
        return True
    for (b, u) in list(acc):
        if u == t and (b is n or same(b, n)) or u == 1 - t and b is not n and same(b, n):
            n = b
            break
    acc[(n, t)] = acc.get((n, t), 0) + c
    return True


def rownormed(n):
    """Rows divided by their own totals."""
    if n.op != "div" or n.rank != 2 or not isinstance(n.args[1], Node):
        return False
    a = n.args[0]
    todo, hit, seen = [n.args[1]], False, set()
    while todo:
        q = todo.pop()
        if q is a or q in seen:
            continue
        seen.add(q)
        if q.op == "sum" and isinstance(q.args[0], Node) and (q.args[0] is a or same(q.args[0], a)):
            if q.shape is None or len(q.shape) != 1:
                return False
            hit = True
            continue
        if q.op not in ("add", "cmp", "ix", "cast", "reshape", "sum", "const", "not", "sel", "max2", "full", "assume", "bcast"):
            return False
        for z in q.args:
            todo += [z] if isinstance(z, Node) else [y for y in z if isinstance(y, Node)] if isinstance(z, tuple) else []
    return hit


def symm_lin(n, depth):
    acc = {}
    if not lin(n, Fraction(1), acc):
        return None
    odd = []
    for b in {b for b, _ in acc}:
        d = acc.get((b, 0), 0) - acc.get((b, 1), 0)
        if d and (b is n or symm(b, depth + 1) is not True):
            odd.append(b)
    if not odd:
        return True
    if len(odd) == 1 and odd[0] is not n:
        return symm(odd[0], depth + 1)
    return None


def hollow(n, depth=0):
    if "hollow" in n.tags:
        return True
    if depth > 30:
        return None
    s = scalar(n)
    if s is not None:
        return s == 0
    if n.op == "full" and n.args[1].shape == ():
        c = scalar(n.args[1])
        return c == 0 if c is not None else None
    c = const_table(n)
    if c is not None:
        return all(c[i][i] == 0 for i in range(min(len(c), len(c[0]))))
    if n.op in SKIP or n.op == "T" and n.args[1] is None:
        return hollow(n.args[0], depth + 1)
    if n.op == "eye":
        return False
    if n.op == "new" and n.args[0] == "filldiag":
        c = scalar(n.args[2]) if isinstance(n.args[2], Node) else n.args[2] if isinstance(n.args[2], (int, float)) else None
        return None if c is None else c == 0
    if n.op in ("add", "sub"):
        a, b = n.args[0], n.args[1]
        if not isinstance(a, Node) or not isinstance(b, Node):
            return None
        x, y = hollow(a, depth + 1), hollow(b, depth + 1)
        if x and y:
            return True
        if x is False and y or y is False and x:
            return False
        if n.op == "sub" and scalar(a) and scalar(a) != 0:
            # c - (p + p.T) where p has zeros
            q = b
            if q.op == "add" and any(z.op == "T" for z in q.args if isinstance(z, Node)):
                q = [z for z in q.args if z.op != "T"][0] if any(z.op != "T" for z in q.args) else q
            if may0(q):
                return False
        return None
    if n.op in ("mul", "div"):
        a, b = n.args[0], n.args[1]
        if not isinstance(a, Node) or not isinstance(b, Node):
            return None
        x, y = hollow(a, depth + 1), hollow(b, depth + 1)
        if n.op == "div":
            return x
        return True if x or y else False if x is False and y is False else None
    if n.op in ("max2", "min2"):
        x, y = hollow(n.args[0], depth + 1), hollow(n.args[1], depth + 1)
        return True if x and y else None
    if n.op == "cmp":
        return None
    if n.op == "seq" and n.args[0] == 0 and isinstance(n.args[1], str):
        e = n.args[3]
        if e.op == "seq" and e.args[0] == 0 and isinstance(e.args[1], str) and e.args[2] == n.args[2]:
            v = N.rebuild(e.args[3], {}, {e.args[1]: S.sym(n.args[1])})
            c = scalar(v)
            if c is not None:
                return c == 0
            if v._ex is not None and v._ex == S.ZERO or v.op == "abs" and v.args[0].op == "sub" and eqv(*v.args[0].args) and any(N.mentions(v, z) for z in (n.args[1],)):
                return True
            if v.op == "sub" and isinstance(v.args[0], Node) and eqv(*v.args) and N.mentions(v, n.args[1]):
                return True
        return None
    base, w = stores(n)
    if w:
        r = hollow(base, depth + 1)
        for a, b, v in reversed(w):
            if a[0] == "s" and b[0] == "s":
                r = (hollow(v, depth + 1) if tuple(a) == tuple(b) else None) and r
                continue
            if a[0] != "p" or b[0] != "p":
                return None
            o = ordered(a[1], b[1])
            if o in ("<", ">"):
                continue
            c = scalar(v)
            if c == 0:
                if o == "=":
                    continue
                continue
            if o == "=" and c is not None:
                r = False
                continue
            r = None if r is not False else r
        return r
    return None


def by_element(w):
    """Stores of whole rows or columns as stores of the elements."""
    out = []
    for a, b, v in w:
        if a[0] == "p" and b[0] == "s" and a[1]._ex is not None and isinstance(v, Node) and v.op == "seq" and v.args[0] == 0 and isinstance(v.args[1], str) and b[1] is not None and b[3] == 1:
            out.append((a, ("p", N.exn(S.add(b[1], S.sym(v.args[1])))), v.args[3]))
        elif b[0] == "p" and a[0] == "s" and b[1]._ex is not None and isinstance(v, Node) and v.op == "seq" and v.args[0] == 0 and isinstance(v.args[1], str) and a[1] is not None and a[3] == 1:
            out.append((("p", N.exn(S.add(a[1], S.sym(v.args[1])))), b, v.args[3]))
        else:
            out.append((a, b, v))
    return out


def half(n):
    """A table written on one side of its diagonal only."""
    base, w = stores(n)
    return bool(w) and base.op == "full" and scalar(base.args[1]) == 0 and all(a[0] == "p" and b[0] == "p" for a, b, _ in w) and \
        len({ordered(a[1], b[1]) for a, b, _ in w}) == 1 and ordered(w[0][0][1], w[0][1][1]) in ("<", ">", "<=", ">=")


def sorted_pos(n):
    return any(q.op in ("min2", "max2", "sort", "argsort") or q.op == "fn" and q.args and q.args[0] in ("sorted", "sort", "min", "max") for q in walk(n))


def looked_up(n):
    return n.op in ("index_of",) or n.op == "new" and n.args and n.args[0] in ("dep", "dictval") or n.op == "fn" and n.args and n.args[0] in ("index", "searchsorted")


def text_of(q):
    if q.op == "fn" and q.args and q.args[0] in ("str", "repr", "format"):
        return q.args[1] if isinstance(q.args[1], tuple) and q.args[1] and isinstance(q.args[1][0], Node) else None
    if q.op == "unk" and q.args and q.args[0] == "fstr" and len(q.args) > 2 and q.args[1] == ("{}",):
        return q.args[2]
    return None


def reordered(n):
    """An element of a sorted sequence of states."""
    while n.op in ("cast", "fn", "unk", "assume") and n.args:
        k = [z for z in (n.args[1] if n.op == "fn" and len(n.args) > 1 and isinstance(n.args[1], tuple) else n.args) if isinstance(z, Node)]
        if len(k) != 1:
            return False
        n = k[0]
    if n.op == "ix":
        n = n.args[0]
    if n.op == "unique" and isinstance(n.args[0], Node) and ("in", "y") in n.deps:
        q = n.args[0]
        return q.op == "ix" and q.rank == 1 and any(s[0] == "p" for s in q.args[1]) or q.op == "T" and q.rank == 1
    if n.op == "seq" and isinstance(n.args[3], Node) and n.args[3].op == "ix":
        n = n.args[3].args[0]
    return n.op == "sort" and n.rank == 1 and isinstance(n.args[0], Node) and not any(q.op == "unique" for q in walk(n)) and ("in", "y") in n.deps \
        if n.op == "sort" else False


@prop("C16", ["sequence"], "each table of costs or distances is derived to be symmetric and hollow from the stores and operations that build it, or found not to be; tables written on one side of the "
      "diagonal are not read at unordered positions; keys that identify sequences separate the codes they join")
def c16(x):
    for r in x.runs.values():
        if entry(r.name) != "Sequence":
            continue
        for _, e in x.events([r], "strjoin"):
            x.count("sequence keys examined")
            n = e.elem
            if isinstance(n, Node) and reordered(n):
                x.badev(r, e, "key", "states are sorted before they are joined, so different sequences share a key")
            if isinstance(n, Node) and shortened(n):
                x.badev(r, e, "key", "only the first %s states enter the key, so longer sequences that differ later share it" % shortened(n))
            if e.sep == "" and isinstance(n, Node) and any(text_of(q) for q in walk(n)):
                v = [text_of(q) for q in walk(n) if text_of(q)][0]
                a = v[0]
                hi = a.bounds()[2] if isinstance(a, Node) else None
                lo = a.bounds()[0] if isinstance(a, Node) else None
                if isinstance(a, Node) and not (hi is not None and hi.const() is not None and hi.const() <= 9 and lo is not None and S.ge0(lo)):
                    x.badev(r, e, "key", "codes of more than one digit are joined without a separator, so different sequences share a key")
        for _, e in x.events([r], "dictget"):
            x.count("sequence keys examined")
            for kind, ns in zip(e.kinds, (e.keys, e.dkn)):
                if not any(("in", "y") in q.deps for q in ns):
                    continue
                if kind == "SetCell":
                    x.badev(r, e, "key", "sequences are identified by the set of their states, so different sequences share a key")
                elif any(reordered(q) for q in ns):
                    x.badev(r, e, "key", "states are sorted before they identify a sequence, so different sequences share a key")
        if not r.ok:
            continue
        for _, e in x.events([r], "index"):
            if e.how != "load" or not isinstance(e.arr, Node) or e.arr.rank != 2 or not half(e.arr):
                continue
            ps = [p[1] for p in e.pairs if isinstance(p[1], tuple) and p[1][0] == "p"]
            x.count("reads of one-sided tables examined")
            if len(ps) == 2 and all(looked_up(p[1]) for p in ps) and not any(sorted_pos(p[1]) for p in ps):
                x.badev(r, e, "one-sided read", "a table filled on one side of its diagonal is read at positions in either order")
        A = attr_items(x, r)
        for nm in ("subs_mat", "seq_dis_mat"):
            n = the_node(x, r, A[nm]) if nm in A else None
            what = "%s.%s" % (r.name, nm)
            if n is None and nm in A:
                n = x.I.load(A[nm], r.st)
                n = n if isinstance(n, Node) and n.op == "sel" and n.rank == 2 else None
            if n is None or n.op == "in" or n.rank in (0,) and constof(n) is None:
                continue
            if n.rank not in (2, None) and n.shape is not None:
                x.und(what, "no table")
                continue
            if tainted(n) and nm == "subs_mat":
                pass
            s, h = symm(n), hollow(n)
            x.count("tables examined")
            for v, kind, msg in ((s, "symmetric", "the table is not symmetric"), (h, "hollow", "the diagonal is not zero")):
                if v is False:
                    x.bad("Sequence.%s|%s" % (nm, kind), where_of(x, r, nm), "%s: %s" % (what, msg))
                elif v:
                    x.ok(what + " " + kind)
                else:
                    x.und(what + " " + kind, "not derived")

"""Rules on test statistics, probabilities and their normalisation."""
from . import sym as S
from . import node as N
from .node import Node, constof, NOCONST, walk  # noqa: F401
from .interp import ArrCell, ListCell, DictCell, InstCell, Ref, Alt, Tup  # noqa: F401
from .rulelib import prop, entry, opts, tainted, rngs, ins  # noqa: F401
from .rules_val import attr_items, where_of, strip_lead, firm  # noqa: F401
from .rules_inf import the_node, same
from .rules_lazy import core


# ---------------------------------------------------------------- C14
def tuples(x, r, v, d=0, seen=None):
    """Fixed-size tuples inside a value."""
    seen = set() if seen is None else seen
    if d > 6:
        return
    if isinstance(v, Tup):
        yield v
        for a in v.items:
            yield from tuples(x, r, a, d + 1, seen)
    elif isinstance(v, Alt):
        for a in v.vals:
            yield from tuples(x, r, a, d + 1, seen)
    elif isinstance(v, Ref):
        if v.addr in seen:
            return
        seen.add(v.addr)
        c = r.st.heap.get(v.addr)
        if isinstance(c, ListCell):
            for a in list(c.items or ()) + ([c.summ[1]] if c.summ is not None else []):
                yield from tuples(x, r, a, d + 1, seen)


def eqn(a, b):
    a, b = core(strip_lead(a)), core(strip_lead(b))
    if a is b or same(a, b):
        return True
    if a._ex is not None and b._ex is not None and a._ex == b._ex:
        return True
    return False


ARITH = {"add", "sub", "mul", "neg", "cast", "reshape", "sum", "seq", "dot", "ix"}


def spine(n):
    """The arithmetic a count-like number is made with, down to its counts and guards."""
    out, todo, seen = [], [n], set()
    while todo:
        q = todo.pop()
        if q.id in seen:
            continue
        seen.add(q.id)
        out.append(q)
        if q.op == "sum" and q.args[0].dt in ("b",) or q.op in ("in", "const", "exn", "len", "opt", "atom"):
            continue
        if q.op not in ARITH:
            continue
        todo += [k for k in N.nodes_in(q.args if q.op not in ("seq", "ix") else (q.args[3],) if q.op == "seq" else (q.args[0],))]
    return out


def tail(x, key, fkey, where, stat, p, dof):
    """p is the upper tail of stat at dof."""
    x.count("p-values matched with statistic and degrees of freedom")
    ns = [core(strip_lead(v)) if v is not None else None for v in (stat, p, dof)]
    if any(v is None for v in ns):
        x.und(key, "not single values")
        return
    stat, p, dof = ns
    q = p
    while q.op in ("cast", "reshape", "max2", "min2", "clip", "assume") and q.args and isinstance(q.args[0], Node):
        q = q.args[0] if constof(q.args[0]) is NOCONST else q.args[1]
    if q.op != "chi2sf":
        if tainted(p):
            x.und(key, "not resolved")
        elif any(z.op == "chi2cdf" for z in walk(p)) and not any(z.op == "chi2sf" for z in walk(p)):
            x.bad(fkey + " tail", where, "%s is not an upper tail probability: %s" % (key, N.show(p, 3)[:120]))
        elif not any(z.op in ("chi2sf", "sel", "join", "loop", "fn", "unk") for z in walk(p)):
            x.bad(fkey + " tail", where, "%s is no chi-square tail probability: %s" % (key, N.show(p, 3)[:120]))
        else:
            x.und(key, "not a plain tail probability")
        return
    s2, d2 = q.args
    hit = False
    for what, a, b in (("statistic", stat, s2), ("degrees of freedom", dof, d2)):
        if eqn(a, b):
            x.ok("%s %s" % (key, what))
        elif tainted(a) or tainted(b):
            x.und(key, what + " not comparable")
        else:
            hit = True
            x.bad("%s %s" % (fkey, what), where, "%s is evaluated at other %s than the reported one: %s, reported %s" % (key, what, N.show(core(b), 3)[:90], N.show(a, 3)[:90]))
    lo = dof.bounds()[0]
    if lo is not None and S.le(S.ZERO, lo):
        x.ok(key + " dof sign")
    elif not tainted(dof) and negative(dof):
        x.bad(fkey + " dof sign", where, "%s: the degrees of freedom can be negative" % key)
    else:
        x.und(key + " dof sign", "lower bound %s" % lo)


def negative(n):
    """A count minus a constant that can be larger, with no guard on the way to the result."""
    for q in spine(n):
        if q.op == "sub" and constof(q.args[1]) is not NOCONST and isinstance(constof(q.args[1]), (int, float)):
            lo = q.args[0].bounds()[0]
            if lo is not None and lo.const() is not None and lo.const() < constof(q.args[1]) and any(z.op in ("sum", "len", "cmp", "new") for z in walk(q.args[0])):
                return True
    return False


@prop("C14", ["spatial", "lisa", "tests"], "each reported chi-square p-value is the term chi2sf(s, d) whose s and d are the terms reported as statistic and degrees of freedom, and d >= 0 by interval analysis")
def c14(x):
    for r in x.runs.values():
        e = entry(r.name)
        base, _, leaf = e.partition(".")
        if not r.ok:
            continue
        w = where_of(x, r)
        if base == "Spatial_Markov" and leaf in ("x2_pvalue", "Q_p_value", "LR_p_value"):
            st, df = {"x2_pvalue": ("x2", "x2_dof"), "Q_p_value": ("Q", "dof_hom"), "LR_p_value": ("LR", "dof_hom")}[leaf]
            pre = r.name.rsplit(".", 1)[0]
            a, b = x.run(pre + "." + st), x.run(pre + "." + df)
            if a is None or b is None or not a.ok or not b.ok:
                x.und(r.name, "statistic not built")
                continue
            tail(x, r.name, e, w, the_node(x, a, a.val), the_node(x, r, r.val), the_node(x, b, b.val))
        elif leaf in ("chi2", "shtest") or base == "LISA_Markov" and not leaf or base == "chi2":
            v = r.val if base == "chi2" or leaf else x.attrs(r).get("chi_2")
            w = where_of(x, r, "chi_2" if not leaf and base != "chi2" else None)
            nm = r.name + ("" if base == "chi2" or leaf else ".chi_2")
            ts = [t for t in tuples(x, r, v) if len(t.items) == 3] if v is not None else []
            if not ts:
                x.und(nm, "no (statistic, p, dof) tuples")
            for t in ts:
                tail(x, nm, e + ("" if base == "chi2" or leaf else ".chi_2"), w, *[the_node(x, r, a) for a in t.items])
        elif base == "kullback":
            c = x.cellof(r, r.val)
            if isinstance(c, DictCell):
                D = {str(k[1]) if isinstance(k, tuple) else str(k): v for k, v in c.entries.items()}
                tail(x, r.name, e, w, *[the_node(x, r, D.get("Conditional homogeneity" + s)) for s in ("", " pvalue", " dof")])
            else:
                x.und(r.name, "no dictionary")
        else:
            A = x.attrs(r) if r.parent is None else {}
            if leaf == "ht":
                c = x.cellof(r, r.val)
                A = c.attrs if isinstance(c, InstCell) else {}
            if "Q_p_value" in A and "dof" in A:
                for st in ("Q", "LR"):
                    tail(x, "%s.%s_p_value" % (r.name, st), "%s.%s_p_value" % (e, st), where_of(x, r, st + "_p_value"),
                         *[the_node(x, r, A.get(a)) for a in (st, st + "_p_value", "dof")])

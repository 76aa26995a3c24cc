"""Rules on what a result may depend on, and on what else may have happened before it was read."""
from . import sym as S
from . import node as N
from .node import Node, constof, NOCONST, walk  # noqa: F401
from .interp import ArrCell, ListCell, DictCell, InstCell, Ref, Alt, Tup  # noqa: F401
from .rulelib import prop, entry, opts, tainted, rngs, ins
from .rules_val import firm, where_of, vkey2, strip_lead  # noqa: F401
from .rules_inf import the_node, same


# ---------------------------------------------------------------- C27
LAG = ("w", "lag_cutoffs", "opt:m")
FORBID = {
    "Spatial_Markov": {("class_ids", "classes", "k", "cutoffs", "p", "transitions", "s", "f"): LAG,
                       ("lclass_ids", "lag_cutoffs"): ("cutoffs", "opt:k")},
    "SpatialTau": {("tau", "tau_p", "concordant", "discordant", "extraX", "extraY"): ("w",), ("pairs_spatial",): ("x", "y")},
    "Tau_Local_Neighbor": {("S", "tau_local"): ("w",), ("tau_ln_weights",): ("x", "y")},
    "Tau_Local_Neighborhood": {("S", "tau_local"): ("w",)},
    "Tau_Regional": {("S",): ("regime",)},
    "Theta": {("ranks", "ranks_d", "total", "max_total"): ("regime",), ("regimes",): ("y",)},
    "Rose": {("k", "sw", "cuts", "bins"): ("Y", "w"), ("Y",): ("w",)},
    "LISA_Markov": {("classes", "k"): ("y", "w")},
    "Sequence": {("classes", "k", "label_dict"): ("opt:indel", "subs_mat"), ("indel",): ("y",)},
    "homogeneity": {("regime_names", "class_names"): ("transition_matrices",)},
}
REGIME = {"Spatial_Markov": (("T",), ("P", "S", "F", "shtest", "chi2")), "homogeneity": ((), ("p_h1", "Q_table", "LR_table", "B", "A_im"))}


def has_dep(d, name):
    if name.startswith("opt:"):
        return any(q[0] == "opt" and q[1] == name[4:] for q in d)
    return any(q[0] == "in" and q[1] == name for q in d)


def roots_of(x, r, base):
    """Nodes whose first axis runs over the regimes."""
    out = []
    if base == "homogeneity":
        A = x.attrs(r)
        for v in A.values():
            for n in x.nodes(r, v):
                for q in walk(n):
                    if q.op in ("in", "cast") and q.rank == 3 and q.deps and ins(q) == {"transition_matrices"}:
                        out.append(q)
    else:
        n = the_node(x, r, x.attrs(r).get("T"))
        if n is not None:
            out.append(n)
        n = the_node(x, r, x.attrs(r).get("P"))
        if n is not None and n.op != "seq":
            out.append(n)
    return {q.id: q for q in out}


def seq_of(x, r, v):
    """(atom, length, element) for every per-index value."""
    if isinstance(v, Ref) and isinstance(x.cellof(r, v), ListCell):
        c = x.cellof(r, v)
        if c.summ is not None and c.summ[0] is not None and not c.items:
            for n in x.nodes(r, c.summ[1]):
                yield c.summ[0], c.summ[2].ex, n
        return
    todo = list(x.nodes(r, v))
    while todo:
        n = todo.pop()
        while n.op in ("cast", "reshape"):
            n = n.args[0]
        if n.op == "seq":
            yield n.args[1], n.args[2], n.args[3]
        elif n.op == "sel":
            todo += [n.args[1], n.args[2]]
        elif n.op == "loop":
            todo.append(n.args[3])


def selections(n, atom, roots, M, memo):
    """(atom of the regime the value is for, index used on a regime axis) for every selection inside n."""
    if (n.id, atom) in memo:
        return
    memo.add((n.id, atom))
    if n.op == "seq" and n.args[2] == M:
        yield from selections(n.args[3], n.args[1], roots, M, memo)
        return
    b = n.args[0] if n.op == "ix" else n
    while b.op == "cast":
        b = b.args[0]
    if n.op == "ix" and n.args[1] and n.args[1][0][0] == "p" and (n.args[0].id in roots or b.op == "seq" and b.args[0] == 0 and b.args[2] == M):
        yield atom, n.args[1][0][1]._ex
    if n.id in roots:
        return
    for k in N.nodes_in(n.args):
        yield from selections(k, atom, roots, M, memo)


@prop("C27", ["spatial", "rank", "rose", "lisa", "sequence", "tests"],
      "no aspatial result term contains the weights or a lag option, no per-unit result a foreign variable; each per-regime result term selects the regime axis only at its own index")
def c27(x):
    for r in x.runs.values():
        e = entry(r.name)
        base, _, leaf = e.partition(".")
        if not r.ok or "(" in leaf:
            continue
        own = r if r.parent is None else r.parent
        if base in FORBID:
            vals = x.attrs(r) if r.parent is None else {leaf: r.val}
            for names, bad in FORBID[base].items():
                for a in names:
                    if a not in vals:
                        continue
                    d = x.deps(r, vals[a])
                    x.count("results checked for foreign inputs")
                    got = [b for b in bad if has_dep(d, b)]
                    key = "%s.%s" % (own.name, a)
                    if got and tainted(d):
                        x.und(key, "not resolved")
                    elif got:
                        x.bad("%s|%s uses %s" % (base, a, ",".join(got)), where_of(x, own, a), "%s depends on %s" % (key, ", ".join(got)))
                    else:
                        x.ok(key)
        if base in REGIME:
            names = REGIME[base][1]
            vals = x.attrs(r) if r.parent is None else {leaf: r.val}
            roots = None
            for a in names:
                if a not in vals:
                    continue
                if roots is None:
                    roots = roots_of(x, own, base)
                    M = next(iter(roots.values())).shape[0] if roots else None
                key = "%s.%s regimes" % (own.name, a)
                n_ = 0
                hit = und = False
                for atom, L, el in seq_of(x, r, vals[a]):
                    if M is None or L != M:
                        continue
                    n_ += 1
                    for at_, ex in selections(el, atom, roots, M, set()):
                        x.count("regime selections examined")
                        if ex is not None and ex == S.sym(at_):
                            continue
                        at = ex.atoms() if ex is not None else None
                        if at is not None and all(b == at_ or S.ATOMS.get(b) is not None and S.ATOMS[b].kind == "dim" for b in at):
                            hit = True
                            x.bad("%s|%s regime" % (base, a), where_of(x, own, a), "%s: the result for regime i is computed from regime %s" % (key, str(ex).replace(at_, "i")))
                        else:
                            und = True
                if not hit:
                    if n_ and not und:
                        x.ok(key)
                    else:
                        x.und(key, "no per-regime form")


# ---------------------------------------------------------------- C17
VALUEOPS = {"add", "sub", "mul", "div", "fdiv", "mod", "pow", "neg", "abs", "sqrt", "log", "exp", "sign", "sum", "mean", "cumsum", "dot", "mm", "std",
            "prod", "round", "floor", "ceil", "isclose", "atan2", "lag", "kron", "fn"}
SAMEVAL = {"ix", "reshape", "T", "seq", "sel", "stack", "concat", "sort", "cast", "assume", "upd", "loop", "hdr", "join", "full", "new", "in", "unique", "tile"}


def raw(n):
    return {q[1] for q in n.deps if q[0] == "in" and len(q) == 2 and q[1] in ("x", "y")}


def value_use(n):
    """Constructs that use the magnitude of x or y, not its order."""
    out = []
    for q in walk(n):
        if not raw(q):
            continue
        ks = [k for k in N.nodes_in(q.args) if raw(k) and valued(k, 0)]
        if not ks:
            continue
        if q.op in VALUEOPS and not (q.op in ("sub", "neg", "sign") and N.diff_pure(q)):
            out.append(q)
        elif q.op == "cast" and q.dt in ("i", "b") and not ks[0].integral and ks[0].dt not in ("i", "b"):
            out.append(q)
        elif q.op == "cmp" and not any(raw(k) for k in (q.args[2] if q.args[1] in ks else q.args[1],)) and q.args[1].shape is not None:
            o = q.args[2] if q.args[1] in ks else q.args[1]
            if constof(o) is not NOCONST:
                out.append(q)
    return out


def valued(n, d):
    """n holds values of an input (possibly transformed), not ranks or counts."""
    if n.pure or n.op in VALUEOPS:
        return True
    if n.op in SAMEVAL and d < 12:
        return any(raw(k) and valued(k, d + 1) for k in parts(n))
    return False


def parts(n):
    """Subterms whose values n takes on (not those that select among them)."""
    a = n.args
    if n.op in ("ix", "new", "unique", "sort", "assume", "reshape", "cast", "T"):
        a = [k for k in a if isinstance(k, Node)][:1]
    elif n.op == "sel":
        a = a[1:]
    elif n.op == "hdr":
        a = a[3:]
    elif n.op == "loop":
        a = a[3:]
    elif n.op == "upd":
        a = [k for k in a if isinstance(k, Node)]
        a = a[:1] + a[-1:]
    return list(N.nodes_in(tuple(a)))


@prop("C17", ["rank"], "every rank statistic's term contains x and y only under comparisons of two elements of the same variable (or ranks, sorts)")
def c17(x):
    for r in x.runs.values():
        if not r.ok:
            x.und(r.name, "not built")
            continue
        for k, v in x.attrs(r).items():
            if k.startswith("_"):
                continue
            key = "%s.%s" % (r.name, k)
            ns = list(x.nodes(r, v))
            x.count("results examined")
            got = sorted(set().union(*[raw(n) for n in ns])) if ns else []
            got = [g for g in got if not all(n.pure == g for n in ns)]
            if not got:
                x.ok(key)
                continue
            us = [u for n in ns for u in value_use(n)]
            if us:
                u = min(us, key=lambda q: sum(1 for _ in walk(q)))
                x.bad("%s|%s" % (entry(r.name), k), where_of(x, r, k), "%s depends on the size of %s, not only on their order: %s" % (key, " and ".join(got), N.show(u, 4)[:160]))
            else:
                x.und(key, "order-only use not recognised")

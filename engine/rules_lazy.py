"""Rules on lazily computed results."""
from . import sym as S  # noqa: F401
from . import node as N
from .node import Node, constof, NOCONST, walk  # noqa: F401
from .interp import ArrCell, ListCell, InstCell, Ref, Alt, Tup  # noqa: F401
from .rulelib import prop, entry, opts, tainted, rngs, ins  # noqa: F401
from .rules_val import attr_items, where_of, vkey, vkey2, strip_lead  # noqa: F401
from .rules_inf import the_node, same


def leaves(x, r, v):
    return [strip_lead(n) for n in x.nodes(r, v)]


def agree(x, a, va, b, vb):
    """True: same terms; False: different; None: not comparable."""
    if vkey2(x, a, va) == vkey2(x, b, vb):
        return True
    la, lb = leaves(x, a, va), leaves(x, b, vb)
    if len(la) == len(lb) and all(p is q or same(p, q) for p, q in zip(la, lb)):
        return True
    if any(tainted(n) for n in la + lb):
        return None
    return False


def obj_of(nm):
    return nm.split(":", 1)[1].rsplit(".", 1)[0] if "." in nm.split(":", 1)[1] else nm.split(":", 1)[1]


# what each lazily computed result is made from: (contains, does not contain)
MADE = {"s": ("p", ("T", "P")), "f": ("p", ("T", "P")), "S": ("T", ("p",)), "F": ("T", ("p",)), "mfpt": ("p", ()), "steady_state": ("p", ()), "sojourn_time": ("p", ()),
        "Q": ("T", ()), "LR": ("T", ()), "Q_p_value": ("T", ()), "LR_p_value": ("T", ()), "shtest": ("T", ()), "chi2": ("T", ()), "x2": ("T", ()), "x2_pvalue": ("T", ())}
FROM_HT = {"Q": "Q", "Q_p_value": "Q_p_value", "LR": "LR", "LR_p_value": "LR_p_value", "dof_hom": "dof"}
OPS = {"Q": ((), ("log",)), "LR": (("log",), ())}


@prop("C09", ["chains", "twins"], "each lazy result's term read first, after every other one (both orders) and again is one and the same term; no store reaches a class, a module or a default argument; "
      "no term of one object contains an input of another object built or read before; each term is built from the tables its name refers to")
def c09(x):
    runs = x.select("chains", "twins")
    fresh = {r.name[6:]: r for r in runs if r.name.startswith("fresh:")}
    for r in runs:
        for e in r.events:
            if e.kind in ("globalset", "classset", "fattrset"):
                x.badev(r, e, "shared %s" % e.info.get("name", e.kind), "a result is kept in state shared by all objects")
            if e.kind == "mutate":
                sh = [o for o in e.info.get("owners", ()) if str(o).startswith(("global:", "default:", "class:"))]
                if sh:
                    x.badev(r, e, "shared " + sorted(sh)[0], "changes in place an object shared by all calls: %s" % ", ".join(sorted(sh)))
    # one term per result, whatever was read before
    for r in runs:
        lab, _, rest = r.name.partition(":")
        if lab in ("fwd", "rev", "again-fwd", "again-rev"):
            f = fresh.get(rest)
            x.count("reads compared")
            how = "after other results were read" if lab in ("fwd", "rev") else "when read again"
            if f is None:
                continue
            if f.ok != r.ok:
                x.bad("%s|outcome" % entry(rest), where_of(x, f), "%s %s %s" % (rest, "fails" if f.ok else "works only", how))
                continue
            if not r.ok:
                x.ok(r.name)
                continue
            a = agree(x, f, f.val, r, r.val)
            if a:
                x.ok(r.name)
            elif a is None:
                x.und(r.name, "terms not comparable")
            else:
                x.bad("%s|changes" % entry(rest), where_of(x, f), "%s is another quantity %s" % (rest, how))
    # the object's other results do not move while lazy results are read
    for b in runs:
        if not b.name.startswith("chain:") or not b.ok:
            continue
        A = attr_items(x, b)
        for r in runs:
            if r.name.split(":")[0] in ("fwd", "rev") and r.name.split(":", 1)[1].startswith(b.name[6:] + ".") and r.ok:
                c = r.st.heap.get(b.val.addr)
                for k, v in A.items():
                    x.count("attributes compared across reads")
                    if k not in c.attrs:
                        x.bad("%s|lost %s" % (entry(b.name), k), where_of(x, b), "reading %s removes %s" % (r.name, k))
                    elif agree(x, b, v, r, c.attrs[k]) is False:
                        x.bad("%s|moved %s" % (entry(b.name), k), where_of(x, r, r.name.rsplit(".", 1)[-1]), "reading %s changes %s" % (r.name, k))
    # two objects
    for r in runs:
        if r.group != "twins" or not r.name.startswith(("second:", "first:")):
            continue
        rest = r.name.split(":", 1)[1]
        if not r.ok:
            x.und(r.name, "not built")
            continue
        vals = attr_items(x, r) if r.parent is None and attr_items(x, r) else {"": r.val}
        for k, v in vals.items():
            d = x.deps(r, v)
            o = sorted(q[1] for q in d if q[0] in ("in", "opt") and str(q[1]).startswith("other "))
            x.count("results checked for another object's data")
            if o:
                x.bad("%s%s|other" % (entry(rest), "." + k if k else ""), where_of(x, r, k or None), "%s%s depends on the data of another object (%s)" % (rest, "." + k if k else "", ", ".join(o)))
                continue
            x.ok(r.name + k)
            f = fresh.get(rest)
            if f is not None and f.ok and r.parent is not None and not k:
                a = agree(x, f, f.val, r, r.val)
                if a is False:
                    x.bad("%s|history" % entry(rest), where_of(x, f), "%s is another quantity when another object exists" % rest)
                elif a:
                    x.ok(r.name + " same")
                else:
                    x.und(r.name, "terms not comparable")
    # the name
    for nm, r in fresh.items():
        base, _, leaf = entry("fresh:" + nm).partition(".")
        own = r.parent
        if not r.ok or own is None:
            continue
        A = x.attrs(own)
        ns = list(x.nodes(r, r.val))
        if not ns:
            continue
        ids = set()
        for n in ns:
            ids |= {q.id for q in walk(n)}
        if leaf in MADE and not any(tainted(n) for n in ns):
            want, no = MADE[leaf]
            w = core(the_node(x, own, A.get(want)))
            if w is None:
                continue
            if w.id in ids or w.op == "const":
                x.ok("%s is built from %s" % (nm, want))
            else:
                x.bad("%s|not from %s" % (entry(nm), want), where_of(x, r), "%s is not computed from %s" % (nm, want))
            for k in no:
                w = core(the_node(x, own, A.get(k)))
                if w is not None and w.id in ids and not inside(core(the_node(x, own, A.get(want))), w):
                    x.bad("%s|from %s" % (entry(nm), k), where_of(x, r), "%s is computed from %s" % (nm, k))
        if leaf in OPS and not any(tainted(n) for n in ns):
            ops = set()
            for n in ns:
                ops |= {q.op if q.op != "fn" else q.args[0] for q in walk(n)}
            for o in OPS[leaf][0]:
                if o not in ops:
                    x.bad("%s|no %s" % (entry(nm), o), where_of(x, r), "%s takes no %s: it is another statistic" % (nm, o))
                else:
                    x.ok("%s takes %s" % (nm, o))
            for o in OPS[leaf][1]:
                if o in ops:
                    x.bad("%s|%s" % (entry(nm), o), where_of(x, r), "%s takes a %s: it is another statistic" % (nm, o))
                else:
                    x.ok("%s takes no %s" % (nm, o))
        if base == "Spatial_Markov" and leaf in FROM_HT:
            h = fresh.get(nm.rsplit(".", 1)[0] + ".ht")
            if h is not None and h.ok:
                c = x.cellof(h, h.val)
                if isinstance(c, InstCell) and FROM_HT[leaf] in c.attrs:
                    a = agree(x, h, c.attrs[FROM_HT[leaf]], r, r.val)
                    if a is False:
                        x.bad("%s|not ht" % entry(nm), where_of(x, r), "%s is not %s of the homogeneity test of the same object" % (nm, FROM_HT[leaf]))
                    elif a:
                        x.ok(nm + " is ht." + FROM_HT[leaf])
                    else:
                        x.und(nm, "terms not comparable")


def core(n):
    while n is not None and n.op in ("reshape", "cast"):
        n = n.args[0]
    return n


def inside(a, b):
    return a is not None and any(q.id == b.id for q in walk(a))

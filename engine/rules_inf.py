"""Rules on permutation inference and on what a result may depend on."""
from . import sym as S
from . import node as N
from .node import Node, mk, constof, NOCONST, walk
from .interp import ArrCell, ListCell, InstCell, Ref, Alt, Tup  # noqa: F401
from .rulelib import prop, entry, opts, tainted, rngs, ins  # noqa: F401
from .rules_val import attr_items, firm, where_of, strip_lead, vkey2  # noqa: F401

SP_P = ["Spatial_Markov(%s)" % o for o in ("P", "nofix,P", "discrete,P", "cut,P", "fill,P")]
ROSE_P = ["Rose(%s).permute(%s)" % (k, a) for k in ("", "k", "k=4") for a in ("two.sided", "two-sided", "positive", "negative")] + \
         ["Rose(%s).permute()" % k for k in ("", "k", "k=4")]


class Inf:
    """One reference distribution: run, replicate attribute, observed statistic, data, rows."""
    def __init__(self, run, sim, obs, data, p, extra=False, cond=False):
        self.run, self.sim, self.obs, self.data, self.p, self.extra, self.cond = run, sim, obs, data, p, extra, cond


INFS = [Inf(n, "x2_realizations", ".x2", ("y",), ("x2_rpvalue",)) for n in SP_P] + [
    Inf("Theta(P)", "sim", "theta", ("regime",), ("pvalue_left", "pvalue_right"), extra=True),
    Inf("Theta(default)", "sim", "theta", ("regime",), ("pvalue_left", "pvalue_right"), extra=True),
    Inf("SpatialTau(P)", "taus", "tau_spatial", ("x", "y"), ("tau_spatial_psim",)),
    Inf("Tau_Local_Neighbor(P)", "tau_ln_sim", "tau_ln", ("x", "y"), ("tau_ln_pvalues",), cond=True),
    Inf("Tau_Local_Neighborhood(P)", "tau_lnhood_sim", "tau_lnhood", ("x", "y"), ("tau_lnhood_pvalues",), cond=True),
    Inf("Tau_Regional(P)", "tau_reg_sim", "tau_reg", ("x", "y"), ("tau_reg_pvalues",))] + [
    Inf(n, "counts_perm", "counts", ("Y",), ("p",)) for n in ROSE_P]


def reps(nm):
    if nm == "Theta(default)":
        return S.num(999)
    if nm.endswith(".permute()"):
        return S.num(99)
    return S.sym("P")


def the_node(x, r, v):
    ns = list(x.nodes(r, v)) if v is not None else []
    return ns[0] if len(ns) == 1 else None


def observed(x, r, inf):
    """(node of the observed statistic, {attr: node} of the other observed results)."""
    A = x.attrs(r)
    if inf.obs.startswith("."):
        q = x.run(inf.run + inf.obs)
        o = the_node(x, q, q.val) if q is not None and q.ok else None
    else:
        o = the_node(x, r, A.get(inf.obs))
    others = {}
    for k, v in A.items():
        if k in (inf.sim, inf.obs) or k.startswith("_") or isinstance(v, (Tup,)):
            continue
        n = the_node(x, r, v)
        if n is not None and n.op not in ("in", "const", "opt") and not rngs(n):
            others.setdefault(k, strip_lead(n))
    return o, others


def is_draw(n):
    return n.op == "rng" and n.args[0] not in ("ties", "lisa")


def has_draw(n, memo):
    if n.id not in memo:
        memo[n.id] = False
        memo[n.id] = is_draw(n) or any(has_draw(k, memo) for k in N.nodes_in(n.args))
    return memo[n.id]


def drop_draws(n, memo):
    """The term with every random permutation replaced by the identity."""
    mp = {}
    for q in walk(n):
        if q.op == "rng" and q.args[0] == "perm" and q.shape and q.shape[0] is not None:
            mp[q.id] = mk("arange", S.ZERO, q.shape[0], 1)
        elif q.op == "ix" and q.args[0].op == "hdr" and len(q.args[1]) == 1 and q.args[1][0][0] == "a" and q.args[1][0][1].op == "rng":
            b = q.args[0].args[-1]
            if isinstance(b, Node) and b.op == "arange":
                mp[q.id] = b
    return N.rebuild(n, mp) if mp else n


def same(a, b, ren=None, memo=None):
    """Equal terms, up to bound atoms, ties of categorical lags, and facets."""
    ren = {} if ren is None else ren
    memo = {} if memo is None else memo
    if a is b:
        return True
    if isinstance(a, Node) != isinstance(b, Node):
        return False
    if isinstance(a, Node):
        k = (a.id, b.id)
        if k in memo:
            return memo[k]
        memo[k] = True
        if a.op != b.op:
            r = False
        elif a.op == "rng" and a.args[0] == b.args[0] == "ties":
            r = True
        elif a.op == "atom":
            r = ren.get(a.args[0], a.args[0]) == b.args[0]
        elif a.op == "seq":
            r = a.args[0] == b.args[0] and same(a.args[2], b.args[2], ren, memo) and same(a.args[3], b.args[3], dict(ren, **{a.args[1]: b.args[1]}), {} if a.args[1] != b.args[1] else memo)
        else:
            r = len(a.args) == len(b.args) and all(same(p, q, ren, memo) for p, q in zip(a.args, b.args))
        memo[k] = r
        return r
    if isinstance(a, S.Ex) and isinstance(b, S.Ex):
        return a == b or S.subst(a, {k: S.sym(v) for k, v in ren.items()}) == b
    if isinstance(a, (tuple, list)):
        return isinstance(b, (tuple, list)) and len(a) == len(b) and all(same(p, q, ren, memo) for p, q in zip(a, b))
    return a == b


def gathers(n, memo):
    """Gathers whose positions carry a draw: (base, axis, uids)."""
    for q in walk(n):
        if q.op == "ix":
            ax = 0
            for s in q.args[1]:
                if s[0] in "pa" and has_draw(s[1], memo):
                    yield q.args[0], ax, frozenset(z.args[1] for z in walk(s[1]) if is_draw(z))
                if s[0] != "n":
                    ax += 1


def positions(n, memo):
    """Gathers by a permutation: (base, constant position on the other axis, positions)."""
    for q in walk(n):
        if q.op == "ix":
            s = [s for s in q.args[1] if s[0] in "a" and has_draw(s[1], memo)]
            o = [constof(s[1]) for s in q.args[1] if s[0] == "p" and constof(s[1]) is not NOCONST]
            if len(s) == 1:
                yield q.args[0], o[0] if o else None, s[0][1]


def rearranged(n, of):
    """n is of in another order: reversed or rolled."""
    while n is not of:
        if n.op == "ix" and len(n.args[1]) == 1 and n.args[1][0][0] == "s" and n.args[1][0][3] not in (None, 1):
            if n.args[0] is of:
                return True
            n = n.args[0]
        elif n.op in ("roll", "flip", "sort") or n.op == "fn" and n.args[0] in ("roll", "flip", "sort", "sorted", "reversed"):
            return any(q is of for q in walk(n))
        else:
            return False
    return False


def on_turn(c, atoms):
    """A condition on which replicate it is."""
    for q in walk(c):
        if q.op == "atom" and q.args[0] in atoms or q.op == "exn" and q._ex is not None and atoms & set(q._ex.atoms()):
            return True
    return False


@prop("C05", ["spatial", "rank", "rose"], "every replicate draws its own whole permutation (draw placed inside the loop over replicates, loop extent = permutations), "
      "indexes all joint variables with the same draw, and applies the observed statistic's term to the permuted data")
def c05(x):
    for inf in INFS:
        r = x.run(inf.run)
        if r is None or not r.ok:
            x.und(inf.run, "not built")
            continue
        A = x.attrs(r)
        e = entry(inf.run)
        key = "%s.%s" % (inf.run, inf.sim)
        n = the_node(x, r, A.get(inf.sim))
        if n is None:
            x.und(key, "no single reference distribution")
            continue
        w = where_of(x, r)
        P = reps(inf.run)
        memo = {}
        draws = [q for q in walk(n) if is_draw(q)]
        evs = {ev.uid: ev for ev in r.events if ev.kind == "rng"}
        x.count("draws examined", len(draws))
        hit = False

        def bad(detail, msg, ev=None):
            x.bad("%s|%s" % (e, detail), ev.where() if ev is not None else w, "%s: %s%s" % (key, msg, " [%s]" % ev.text if ev is not None else ""))
        if not draws:
            if tainted(n) or rngs(n):
                x.und(key, "draws not resolved")
            else:
                bad("none", "contains no random permutation")
            continue
        for q in draws:
            ev = evs.get(q.args[1])
            kind = q.args[0]
            if kind != "perm":
                hit = True
                bad("resample", "is built from a '%s' draw, not from a permutation" % kind, ev)
            atoms = {a.args[0] for a in q.args[2]}
            if ev is None:
                continue
            trips = [(l[0], l[2]) for l in ev.loops]
            pl = [a for a, t in trips if t == P]
            if not pl:
                known = [t for a, t in trips]
                if known and all(t is not None and firm(t) for t in known) or not known:
                    hit = True
                    bad("replicates", "the draw is made in loops of extent %s, none runs over the %s replicates" % ([str(t) for t in known], P), ev)
            elif not atoms & set(pl):
                hit = True
                bad("fresh", "the same permutation is used in all replicates", ev)
            elif len({d.args[1] for d in draws}) == 1 and any(isinstance(c, Node) and not tainted(c) and on_turn(c, set(pl)) for c, _ in ev.pc):
                hit = True
                bad("fresh sometimes", "only some replicates draw a permutation of their own", ev)
            if inf.cond:
                il = [a for a, t in trips if t == S.sym("n")]
                if il and pl and not atoms & set(il):
                    hit = True
                    bad("fresh unit", "the same permutations are used for every unit", ev)
            d = ev.n._ex if isinstance(ev.n, Node) else None
            if d is not None and firm(d):
                okd = [S.sym("n")] + ([S.sub(S.sym("n"), S.ONE)] if inf.cond else [])
                if d not in okd:
                    hit = True
                    bad("extent", "permutes %s elements, not the %s units" % (d, "other" if inf.cond else "observed"), ev)
        # joint use
        use = {}
        for base, ax, uids in gathers(n, memo):
            for a in inf.data:
                if a in ins(base) and not has_draw(base, memo):
                    use.setdefault(a, set()).add((ax, uids))
        if len(inf.data) > 1 and use and not tainted(n):
            for a in inf.data:
                if a not in use and a in ins(n):
                    hit = True
                    bad("joint " + a, "%s is not permuted while %s is" % (a, ", ".join(sorted(use))))
            if len({frozenset(u for _, u in v) for v in use.values()}) > 1:
                hit = True
                bad("joint", "%s are permuted by different draws" % " and ".join(sorted(use)))
            ts = {a: {p for b, _, p in positions(n, memo) if a in ins(b) and not has_draw(b, memo)} for a in use}
            if all(len(v) == 1 for v in ts.values()):
                for a, b in [(a, b) for a in ts for b in ts if a != b]:
                    pa, pb = next(iter(ts[a])), next(iter(ts[b]))
                    if pa is not pb and not tainted(pa) and not tainted(pb) and rearranged(pb, pa):
                        hit = True
                        bad("joint", "%s and %s are put in different orders" % (a, b))
        elif len(inf.data) == 1:
            # a table of several periods: units move with their whole row
            cols = [c for b, c, _ in positions(n, memo) if inf.data[0] in ins(b) and b.rank == 2]
            if cols and None not in cols and len(set(cols)) == 1 and not tainted(n):
                hit = True
                bad("joint periods", "only column %s of %s is permuted" % (cols[0], inf.data[0]))
        # the statistic
        o, others = observed(x, r, inf)
        if o is not None:
            el = n
            if inf.extra:
                el = n.args[0][-1] if n.op == "concat" and n.args[1] == 0 else None
            rows = []
            if el is not None and el.op == "seq":
                m = el
                while m.op == "seq" and m.args[2] in (P, S.sym("n")) and len(rows) < 2:
                    rows.append(m)
                    m = m.args[3]
                    if m.op in ("full",) and m.shape == (S.ONE,):
                        m = m.args[1]
                so = drop_draws(m, memo)
                no = strip_lead(o)
                x.count("replicate statistics compared")
                so = strip_lead(so)
                oth = [k for k, q in others.items() if same(so, q)]
                if so.id == no.id or same(so, no):
                    x.ok(key + " statistic")
                elif oth:
                    hit = True
                    bad("statistic", "the replicates recompute %s, not %s" % (oth[0], inf.obs.lstrip(".")))
                else:
                    lost = ins(no) - ins(n) - {"w"}
                    if lost and not tainted(n) and not tainted(no) and not any(d[0] == "in" and d[1] in lost for d in n.deps):
                        hit = True
                        bad("statistic lost", "the replicates do not use %s, the observed statistic does" % ", ".join(sorted(lost)))
                    else:
                        x.und(key + " statistic", "terms not comparable")
            else:
                x.und(key + " statistic", "replicates not a plain sequence")
        # what it is compared with
        for pn in inf.p:
            p = the_node(x, r, A.get(pn))
            if p is None or o is None:
                continue
            for c in compared(p, memo):
                c0 = strip_lead(c)
                ids = {q.id: k for k, q in others.items()}
                while c0.op in ("ix", "reshape") and c0.id not in ids and c0.id != strip_lead(o).id:
                    c0 = strip_lead(c0.args[0])
                if c0.id != strip_lead(o).id and c0.id in ids:
                    hit = True
                    bad("compared " + pn, "the replicates are compared with %s, not with %s" % (ids[c0.id], inf.obs.lstrip(".")))
        if not hit:
            x.ok(key)


def compared(p, memo):
    for q in walk(p):
        if q.op == "cmp" and q.args[0] in ("ge", "gt", "le", "lt"):
            a, b = q.args[1], q.args[2]
            if has_draw(a, memo) and not has_draw(b, memo):
                yield b
            elif has_draw(b, memo) and not has_draw(a, memo):
                yield a


# ---------------------------------------------------------------- C06
ARITH = ("add", "sub", "mul", "div", "neg", "min2", "max2", "min", "max", "cast", "reshape", "stack", "seq", "full", "ix", "T", "pow", "concat")


def counts_once(n, seen):
    """Every varying quantity is used once on each branch, so that interval bounds are attained."""
    if not has_draw(n, {}):
        # a quantity that does not vary: one value, not a range of values
        return n._ex is not None or n.op == "const" and not isinstance(n.args[0], tuple) or n.op == "cast" and counts_once(n.args[0], seen)
    if n.op == "sel":
        return counts_once(n.args[1], set(seen)) and counts_once(n.args[2], set(seen))
    b = blend(n)
    if b:
        return all(counts_once(k, set(seen)) for k in b)
    if n.op == "assume":
        return (counts_once if n.args[0].op in ARITH + ("sel",) else counts_leaf)(n.args[0], seen)
    if n.op in ARITH and not (n.op == "ix" and n.args[0].op not in ARITH):
        return all(counts_once(k, seen) for k in N.nodes_in(n.args))
    return counts_leaf(n, seen)


def blend(n):
    """a and b of m * a + (1 - m) * b for a condition m; a constant may be added to both."""
    parts, todo = [], [n]
    while todo:
        q = todo.pop()
        if q.op == "add":
            todo += list(N.nodes_in(q.args))
        elif constof(q) is NOCONST:
            parts.append(q)
    if n.op != "add" or len(parts) != 2 or any(q.op != "mul" for q in parts):
        return None
    for f, g in (parts, parts[::-1]):
        for m, a in (f.args[:2], f.args[1::-1]):
            for k, b in (g.args[:2], g.args[1::-1]):
                if m.op == "cmp" and k.op == "sub" and constof(k.args[0]) == 1 and k.args[1] is m:
                    return a, b
    return None


def counts_leaf(n, seen):
    if n.id in seen:
        return False
    seen.add(n.id)
    return n.op in ("sum", "loop", "div", "add", "sub", "cmp")


@prop("C06", ["spatial", "rank", "rose"], "interval of every pseudo p-value over all outcomes of the replicates, with the number of permutations symbolic: within (0, 1]")
def c06(x):
    for inf in INFS:
        r = x.run(inf.run)
        if r is None or not r.ok:
            x.und(inf.run, "not built")
            continue
        A = x.attrs(r)
        for pn in inf.p:
            key = "%s.%s" % (inf.run, pn)
            p = the_node(x, r, A.get(pn))
            if p is None:
                x.und(key, "not a single value")
                continue
            lo, lop, hi, hop = p.bounds()
            x.count("pseudo p-values bounded")
            c = next((q for q in walk(p) if q.op == "div" and q.args[1].op in ("add", "max2", "min2") and limited(q.args[1]) and any(z.op == "sum" and has_draw(z, {}) for z in walk(q.args[0]))), None)
            if c is not None and not tainted(p):
                x.bad("%s|%s denominator" % (entry(inf.run), pn_alt(inf, pn)), where_of(x, r), "%s: the replicates counted are not divided by their number when there are few or many: %s" % (key, N.show(c.args[1], 3)))
                continue
            c = next((q for q in walk(p) if q.op == "div" and isinstance(constof(q.args[1]), (int, float)) and constof(q.args[1]) >= 10 and
                      any(z.op == "sum" and has_draw(z, {}) and any(isinstance(s, S.Ex) and "P" in s.atoms() for s in z.args[0].shape or ()) for z in walk(q.args[0]))), None)
            if c is not None and not tainted(p):
                x.bad("%s|%s denominator" % (entry(inf.run), pn_alt(inf, pn)), where_of(x, r), "%s: the replicates counted are divided by %s whatever their number is" % (key, constof(c.args[1])))
                continue
            slo = S.esign(lo) if lo is not None else None
            shi = S.esign(S.sub(S.ONE, hi)) if hi is not None else None
            lowok = slo == "+" or slo in ("0", "+0") and lop
            hiok = shi in ("+", "+0", "0")
            if lowok and hiok:
                x.ok(key)
                continue
            tight = counts_once(p, set()) and not any(d[0] in ("unk", "widen") for d in p.deps)
            w = where_of(x, r)
            if tight and slo in ("0", "-") and not lowok:
                x.bad("%s|%s %s" % (entry(inf.run), pn_alt(inf, pn), "zero" if slo == "0" else "negative"), w, "%s can be %s: the observed arrangement is not counted on that side" % (key, lo))
            elif tight and shi == "-":
                x.bad("%s|%s above one" % (entry(inf.run), pn_alt(inf, pn)), w, "%s can be %s, above one" % (key, hi))
            else:
                x.und(key, "bounds [%s, %s]" % (lo, hi))


def limited(n):
    """The number of permutations, but never below or above a fixed number."""
    for q in walk(n):
        if q.op in ("max2", "min2"):
            for a, b in (q.args[:2], q.args[1::-1]):
                c = constof(a)
                if isinstance(c, (int, float)) and c >= 10 and isinstance(b, Node) and b._ex is not None and b._ex.atoms() == {"P"}:
                    return True
    return False


def pn_alt(inf, pn):
    o = sorted(opts(inf.run.split(".")[-1]))
    alt = o[0].replace("-", ".") if o and "Rose" in inf.run else ""
    if "Rose" in inf.run and not o:
        alt = "two.sided"
    return (pn + " " + alt).strip()

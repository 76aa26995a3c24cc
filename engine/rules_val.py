"""Rules decided on result terms: shapes, identity, dependence."""
import ast
import os
import re
from . import sym as S
from . import node as N
from .node import Node, constof, NOCONST
from .interp import ArrCell, ListCell, DictCell, InstCell, LibInst, Tup, Ref, Alt, Mod, Func, Cls
from .rulelib import prop, entry, opts, tainted, rngs, ins, RULES  # noqa: F401
from .node import walk


# ---------------------------------------------------------------- small helpers
def attr_items(x, r):
    return {k: v for k, v in x.attrs(r).items() if not k.startswith("_")}


def vkey(x, r, v, depth=0):
    """Identity of a value: equal keys mean the same abstract term."""
    if isinstance(v, Node):
        return ("n", v.id)
    if isinstance(v, Tup):
        return ("t",) + tuple(vkey(x, r, a, depth + 1) for a in v.items)
    if isinstance(v, Alt):
        ks = frozenset(vkey(x, r, a, depth + 1) for a in v.vals)
        return next(iter(ks)) if len(ks) == 1 else ("a", ks)
    if isinstance(v, Ref) and depth < 8:
        c = x.cellof(r, v)
        if isinstance(c, ArrCell):
            return ("n", x.I.load(v, r.st).id)
        if isinstance(c, ListCell):
            return ("l", None if c.items is None else tuple(vkey(x, r, a, depth + 1) for a in c.items),
                    None if c.summ is None else (vkey(x, r, c.summ[1], depth + 1), vkey(x, r, c.summ[2], depth + 1)))
        if isinstance(c, DictCell):
            return ("d", frozenset((repr(k), vkey(x, r, a, depth + 1)) for k, a in c.entries.items()),
                    None if c.summ is None else tuple(vkey(x, r, a, depth + 1) for a in c.summ))
        if isinstance(c, InstCell):
            return ("i", c.cls.name, frozenset((k, vkey(x, r, a, depth + 1)) for k, a in c.attrs.items() if not k.startswith("_")))
        if isinstance(c, LibInst):
            return ("L", c.cls, frozenset((k, vkey(x, r, a, depth + 1)) for k, a in c.attrs.items() if isinstance(a, (Node, Ref)) and not k.startswith("__")))
        return ("r", type(c).__name__)
    return ("o", repr(v))


def firm(e):
    """Sizes made of documented extents and constants only."""
    if e is None:
        return False
    for a in e.atoms():
        at = S.ATOMS.get(a)
        if at is None or at.kind != "dim":
            return False
    return True


def where_of(x, r, name=None):
    """Source location of the entry point, or of the construct that sets one of its results."""
    e = entry(r.name).replace("()", "")
    base, _, leaf = e.partition(".")
    path = next((p for p in PUBLIC if p.endswith(":" + base)), None)
    if path is None:
        for ev in r.events:
            if ev.kind == "call" and not str(ev.site).startswith("<user>"):
                return ev.where()
        return e
    mod = path.split(":")[0]
    tree = x.I.trees.get(mod)
    tree = tree[0] if isinstance(tree, tuple) else tree
    f = mod.replace(".", "/") + ".py"
    name = name or leaf or None
    best = None
    for d in getattr(tree, "body", []):
        if isinstance(d, (ast.ClassDef, ast.FunctionDef)) and d.name == base:
            best = (d.lineno, base)
            for m in ast.walk(d):
                if isinstance(m, ast.FunctionDef) and m is not d:
                    if m.name == name:
                        return "%s:%d (%s.%s)" % (f, m.lineno, base, m.name)
                    for s in ast.walk(m):
                        ts = s.targets if isinstance(s, ast.Assign) else [s.target] if isinstance(s, (ast.AnnAssign, ast.AugAssign)) else []
                        for t in ts:
                            for q in ast.walk(t):
                                if isinstance(q, ast.Attribute) and q.attr == name and isinstance(q.ctx, ast.Store):
                                    best = (s.lineno, base + "." + m.name)
    return "%s:%d (%s)" % (f, best[0], best[1]) if best else e


def find_missing(x, pid, names):
    pass


# ---------------------------------------------------------------- C22
ALIASES = (("fmpt(%s)", "mfpt(%s)", ("fill=False", "fill=True", "")), ("var_fmpt_ergodic", "var_mfpt_ergodic", None), ("_fmpt_ergodic", "_mfpt_ergodic", None))
PUBLIC = ("giddy.markov:Markov", "giddy.markov:Spatial_Markov", "giddy.markov:LISA_Markov", "giddy.markov:FullRank_Markov", "giddy.markov:GeoRank_Markov",
          "giddy.markov:kullback", "giddy.markov:prais", "giddy.markov:homogeneity", "giddy.markov:sojourn_time", "giddy.ergodic:steady_state",
          "giddy.ergodic:mfpt", "giddy.ergodic:fmpt", "giddy.ergodic:var_mfpt_ergodic", "giddy.ergodic:var_fmpt_ergodic", "giddy.directional:Rose",
          "giddy.mobility:markov_mobility", "giddy.rank:Theta", "giddy.rank:Tau", "giddy.rank:SpatialTau", "giddy.rank:Tau_Local",
          "giddy.rank:Tau_Local_Neighbor", "giddy.rank:Tau_Local_Neighborhood", "giddy.rank:Tau_Regional", "giddy.sequence:Sequence",
          "giddy.util:shuffle_matrix", "giddy.util:get_lower", "giddy.util:fill_empty_diagonals", "giddy.components:check_contiguity")


def modenv(x, mod):
    m = x.I.modules.get(mod)
    return x.S.base.heap[m.addr].env if m is not None else None


@prop("C22", ["ergodic"], "every exported name is bound at module level; each deprecated alias warns with a DeprecationWarning whose stack level is its caller, "
      "and its result term is the result term of its replacement for the same options")
def c22(x):
    names = set(p.replace(":", ".") for p in PUBLIC)
    root = x.I.root
    api = os.path.join(root, "docs", "api.rst")
    if os.path.exists(api):
        names |= set(re.findall(r"\bgiddy\.\w+\.\w+", open(api).read()))
    for m in sorted(x.I.trees):
        env = modenv(x, m)
        if env is None:
            continue
        al = env.get("__all__")
        c = x.S.base.heap.get(al.addr) if isinstance(al, Ref) else None
        its = c.items if isinstance(c, ListCell) else al.items if isinstance(al, Tup) else None
        for it in its or []:
            s = constof(it) if isinstance(it, Node) else None
            if isinstance(s, str):
                names.add(m + "." + s)
    for nm in sorted(names):
        mod, _, leaf = nm.rpartition(".")
        env = modenv(x, mod)
        if env is None:
            x.bad("missing module " + mod, mod, "the exported module %s does not exist" % mod)
        elif leaf not in env and mod + "." + leaf not in x.I.trees:
            x.bad("missing " + nm, mod, "the exported name %s is not defined" % nm)
        else:
            x.ok(nm)
        x.count("exported names")
    for e in x.S.load_events:
        if e.kind == "badimport":
            x.bad("import " + str(e.info.get("name")), e.where(), "imports a name that does not exist: %s" % e.info.get("name"))
    for old, new, vs in ALIASES:
        for v in (vs if vs is not None else (None,)):
            o, n = (old, new) if v is None else (old % v, new % v)
            a, b = x.run(o), x.run(n)
            if a is None or b is None:
                if not o.startswith("_"):
                    x.und(o, "not analysed")
                continue
            hit = False
            ws = [e for e in a.events if e.kind == "warn"]
            if a.ok and not ws:
                hit = True
                x.bad(o + "|no warning", where_of(x, a), "%s: does not warn" % o)
            for e in ws:
                if e.category != "DeprecationWarning":
                    hit = True
                    x.badev(a, e, "category", "warns with %s instead of DeprecationWarning" % e.category)
                lv, d = e.stacklevel, e.depth
                if isinstance(lv, int) and isinstance(d, int) and lv != d:
                    hit = True
                    x.badev(a, e, "stacklevel", "attributes the warning to stack level %d, the caller is at %d" % (lv, d))
                if len(e.pc) and not any(w is not e for w in ws):
                    hit = True
                    x.badev(a, e, "conditional", "warns only on some calls")
            if a.ok != b.ok:
                hit = True
                x.bad(o + "|outcome", where_of(x, a), "%s %s while %s %s" % (o, "returns" if a.ok else "always raises", n, "returns" if b.ok else "raises"))
            elif a.ok:
                ka, kb = vkey(x, a, a.val), vkey(x, b, b.val)
                if ka != kb:
                    if tainted(x.deps(a, a.val)) and not any(vkey(x, r, r.val) == ka for r in x.runs.values() if r.ok and r is not a):
                        x.und(o, "result not comparable")
                        continue
                    hit = True
                    x.bad(o + "|result", where_of(x, a), "%s does not return what %s returns" % (o, n))
                elif set(a.exc_names()) != set(b.exc_names()):
                    hit = True
                    x.bad(o + "|raises", where_of(x, a), "%s raises %s, %s raises %s" % (o, a.exc_names(), n, b.exc_names()))
            if not hit:
                x.ok(o)


# ---------------------------------------------------------------- C08
MK = {"classes": "K", "k": "", "transitions": "K,K", "p": "K,K", "num_cclasses": "", "num_rclasses": "", "num_tclasses": "", "num_astates": "",
      "cclasses_indices": None, "rclasses_indices": None, "tclasses_indices": None, "astates_indices": None}
MKP = {"mfpt": "K,K", "steady_state": ("K", "?,K"), "sojourn_time": "K"}
SP = {"class_ids": "n,t", "classes": "K", "lclass_ids": "n,t", "p": "K,K", "transitions": "K,K", "T": "M,K,K", "P": "M,K,K", "cutoffs": None,
      "lag_cutoffs": None, "k": "", "m": "", "lclasses": "M", "discrete": "", "fixed": ""}
SPP = {"s": ("K", "?,K"), "S": None, "f": "K,K", "F": "M,K,K", "ht": None, "Q": "", "Q_p_value": "", "LR": "", "LR_p_value": "", "dof_hom": "",
       "chi2": None, "x2": "", "x2_pvalue": "", "x2_dof": "", "shtest": None}
LI = dict(MK, classes="4", transitions="4,4", p="4,4", q="n,t", move_types="n,t-1", expected_t="4,4", chi_2=None, significance_level="", w=None)
LIP = {"mfpt": "4,4", "steady_state": ("4", "?,4"), "sojourn_time": "4"}
TH = {"ranks": "n,t", "ranks_d": "n,t-1", "regimes": "U", "total": "t-1", "max_total": "", "theta": ("t-1", "1,t-1")}
ST = {k: "" for k in ("tau", "tau_p", "concordant", "discordant", "extraX", "extraY")}
STS = dict(ST, tau_spatial="", concordant_spatial="", discordant_spatial="")
TLN = {"n": "", "S": "n,n", "tau_local": "n", "tau_ln": "n", "tau_ln_weights": "n", "sign": "n"}
TLH = {"n": "", "S": "n,n", "tau_local": "n", "tau_lnhood": "n", "sign": "n"}
TR = {"n": "", "S": "n,n", "tau_reg": "U,U"}
HO = {"Q": "", "Q_p_value": "", "LR": "", "LR_p_value": "", "dof": "", "k": "", "m": "", "t_total": "", "p_h0": "K,K", "p_h1": "M,K,K", "A": "K",
      "A_im": "K,M", "B": "K,M", "b_i": "K", "LR_table": "M,K,K", "Q_table": "M,K,K"}
RO = {"Y": "n,2", "w": None, "k": "", "cuts": "D+1", "bins": "D+1", "counts": "D", "theta": "n", "r": "n", "lag": "n,2", "wY": "n,2", "sw": ""}
ROP = {"counts_perm": "P,D", "p": "D", "expected_perm": "D", "larger_perm": "D", "smaller_perm": "D"}
SQ = {"classes": "C", "k": "", "seq_dis_mat": "n,n", "label_dict": None}
P_INFER = {"Spatial_Markov": {"x2_realizations": "P,1", "x2_rpvalue": ""}, "LISA_Markov": {"p_values": "n,t", "significant_moves": "n,t-1"},
           "Theta": {"sim": "P+1,t-1", "pvalue_left": "t-1", "pvalue_right": "t-1", "z": "t-1"}, "SpatialTau": {"taus": "P", "tau_spatial_psim": ""},
           "Tau_Local_Neighbor": {"tau_ln_sim": "n,P", "tau_ln_pvalues": "n"}, "Tau_Local_Neighborhood": {"tau_lnhood_sim": "n,P", "tau_lnhood_pvalues": "n"},
           "Tau_Regional": {"tau_reg_sim": "P,U,U", "tau_reg_pvalues": "U,U"}}
OBJ = {"Markov": MK, "FullRank_Markov": dict(MK, ranks="n,t"), "GeoRank_Markov": MK, "Spatial_Markov": SP, "LISA_Markov": LI, "Theta": TH, "Tau": ST,
       "SpatialTau": STS, "Tau_Local": {"n": "", "S": "n,n", "tau": "", "tau_local": "n"}, "Tau_Local_Neighbor": TLN, "Tau_Local_Neighborhood": TLH,
       "Tau_Regional": TR, "homogeneity": HO, "Rose": RO, "Sequence": SQ}
VAL = {"kullback": None, "prais": "k", "sojourn_time": "k", "mfpt": "k,k", "fmpt": "k,k", "steady_state": ("k", "?,k"), "var_mfpt_ergodic": "k,k",
       "var_fmpt_ergodic": "k,k", "markov_mobility": "", "shuffle_matrix": "n,n", "get_lower": "H,1"}
DICTS = {"kullback": ("Conditional homogeneity", "Conditional homogeneity dof", "Conditional homogeneity pvalue"),
         "LISA_Markov.spillover": ("components", "spill_over")}


def dimexpr(tok, env):
    """'t-1' -> Ex, or None when it mentions an unbound name."""
    m = re.match(r"^(\w+|\?)([+-]\d+)?$", tok)
    base, off = m.group(1), int(m.group(2) or 0)
    if base == "?":
        return None
    if base.isdigit():
        e = S.num(int(base))
    else:
        e = env.get(base)
    if e is None:
        return None
    return S.add(e, S.num(off)) if off else e


def shape_check(n, spec, env):
    """'ok', 'bad <why>' or 'und'."""
    if n.shape is None:
        return "und"
    toks = [s for s in spec.split(",") if s]
    if len(toks) != len(n.shape):
        return "bad has %d axes %s, documented (%s)" % (len(n.shape), n.shape, spec)
    res = "ok"
    for d, tk in zip(n.shape, toks):
        if tk == "?":
            continue
        e = dimexpr(tk, env)
        if d is None or e is None:
            if d is not None and tk.isalpha() and tk not in env:
                env[tk] = d
            else:
                res = "und"
            continue
        if d == e:
            continue
        if firm(d) and (firm(e) or tk[0] in "KUC" and all(a.startswith("u") for a in e.atoms())):
            return "bad has extents %s, documented (%s) = %s" % (tuple(str(q) for q in n.shape), spec, e)
        res = "und"
    return res


def base_env(r):
    env = {}
    for a, e in (("n", "n"), ("t", "t"), ("k", "k"), ("m", "m"), ("P", "P")):
        env[a] = S.sym(e)
    env["H"] = S.div(S.mul(S.sym("n"), S.sub(S.sym("n"), S.ONE)), S.num(2))
    return env


def check_shape(x, r, name, v, spec, env, key):
    if spec is None:
        x.ok(key)
        return
    ns = list(x.nodes(r, v))
    if not ns:
        x.und(key, "no numeric value")
        return
    specs = spec if isinstance(spec, tuple) else (spec,)
    for n in ns:
        rs = []
        for s in specs:
            e2 = dict(env)
            q = shape_check(n, s, e2)
            rs.append((q, e2))
            if q == "ok":
                env.update(e2)
                break
        if any(q == "ok" for q, _ in rs):
            x.ok(key)
        elif all(q.startswith("bad") for q, _ in rs) and not ("unk" in {d[0] for d in n.deps} and n.op in ("unk", "lib")):
            x.bad(entry(r.name) + "|shape " + name, where_of(x, r), "%s: %s %s" % (r.name, name, rs[0][0][4:]))
        else:
            x.und(key, "shape %s not known" % (n.shape,))


EVB = {"undef": "uses a name that is not defined", "badcall": "calls with arguments the function does not accept", "ixconst": "reads past the end of a sequence",
       "unpackmis": "unpacks a wrong number of values", "noattr": "reads an attribute that does not exist", "badattr": "reads a module attribute that does not exist"}


def expected_fail(nm):
    return "bogus" in nm or nm in ("Sequence(None)", "Sequence(subs)", "Sequence(indel)", "fill_empty_diagonals(1d)")


C08G = ["markov", "spatial", "lisa", "tests", "ergodic", "mobility", "rank", "rose", "sequence", "util"]


def open_choice(c):
    """A comparison of a size option with a number that goes one way for some sizes and the other way for others."""
    if c.op != "cmp" or not all(isinstance(q, Node) and q._ex is not None for q in c.args[1:]):
        return False
    d = S.sub(c.args[1]._ex, c.args[2]._ex)
    at = d.atoms()
    if not at or any(S.ATOMS[a].kind != "dim" for a in at):
        return False
    if len(at) != 1:
        return False
    q = next(iter(at))
    lo = S.ATOMS[q].lo
    v = [S.subst(d, {q: S.add(lo, S.num(i))}).const() for i in (0, 1, 10 ** 9)] if lo is not None and lo.const() is not None else [None]
    if any(z is None for z in v) or v[1] == v[0] or (v[2] - v[0]) != (v[1] - v[0]) * 10 ** 9:
        return False
    f = {"gt": lambda z: z > 0, "ge": lambda z: z >= 0, "lt": lambda z: z < 0, "le": lambda z: z <= 0}.get(c.args[0])
    return f is not None and f(v[0]) != f(v[2])


def only_when(r, a):
    """Every store of the attribute lies below a condition on sizes that some sizes do not meet: such a store."""
    es = [e for e in r.events if e.kind == "setattr" and e.name == a and e.inst == getattr(r.val, "addr", None)]
    if es and all(any(isinstance(c, Node) and open_choice(c) for c, _ in e.pc) for e in es):
        return es[0]
    return None


@prop("C08", C08G, "every documented attribute is bound on every path of the constructor and its symbolic extents are the documented ones")
def c08(x):
    for r in x.runs.values():
        nm = r.name
        o, e = opts(nm), entry(nm)
        if expected_fail(nm) or nm.startswith("_"):
            continue
        if not r.ok:
            if not r.excs:
                x.und(nm, "no path analysed to the end")
                continue
            y = sorted({"%s at %s" % (y.name, y.site) for _, y in r.excs})
            x.bad("%s|fails %s" % (entry(nm), ",".join(sorted(o))), str(sorted({str(y.site) for _, y in r.excs})[0]), "%s: cannot be produced, always raises %s" % (nm, "; ".join(y)))
            continue
        hit = False
        for ev in r.events:
            if ev.kind in EVB:
                if ev.kind == "noattr" and ev.cls == "ndarray" or ev.kind == "badattr" and not str(ev.name).startswith("giddy"):
                    continue
                hit = True
                x.badev(r, ev, "%s %s" % (ev.kind, ev.info.get("name", ev.info.get("fn", ""))), EVB[ev.kind])
        base = e.split(".")[0]
        env = base_env(r)
        if r.parent is None and base in OBJ and isinstance(r.val, Ref):
            A = x.attrs(r)
            inst = r.st.heap[r.val.addr]
            for a, v in (("K", "k"), ("M", "m")):
                kv = A.get(v)
                if isinstance(kv, Node) and kv.shape == ():
                    env[a] = kv.ex
            if base == "Rose":
                env["D"] = env.pop("K", None)
            if base in ("Sequence",):
                env["C"] = env.pop("K", None)
            if "default" in o:
                env["P"] = S.num(999)
            table = dict(OBJ[base])
            if base == "LISA_Markov":
                env["K"] = S.num(4)
            if "P" in o or nm == "Theta(default)":
                table.update(P_INFER.get(base, {}))
            if base == "Spatial_Markov" and not o & {"nofix", "discrete"}:
                table.update(cutoffs="K-1", lag_cutoffs="M-1")
            if nm in ("Sequence(tran)",):
                table["dict_trans_state"] = None
            for a, spec in table.items():
                key = "%s.%s" % (nm, a)
                if a not in A:
                    x.bad("%s|missing %s" % (e, a), where_of(x, r), "%s: the documented attribute %s is never set" % (nm, a))
                elif a in inst.maybe:
                    c = only_when(r, a)
                    if c:
                        x.bad("%s|some %s" % (e, a), c.where(), "%s: the documented attribute %s is set only under a condition that some sizes do not meet [%s]" % (nm, a, c.text))
                    else:
                        x.und(key, "set on some paths only")
                else:
                    check_shape(x, r, a, A[a], spec, env, key)
        elif r.parent is not None and e.startswith("Rose.permute"):
            A = x.attrs(r)
            kv = A.get("k")
            env["D"] = kv.ex if isinstance(kv, Node) else None
            if nm.endswith("permute()"):
                env["P"] = S.num(99)
            for a, spec in ROP.items():
                key = "%s.%s" % (nm, a)
                if a not in A:
                    x.bad("%s|missing %s" % (e, a), where_of(x, r), "%s: the documented attribute %s is never set" % (nm, a))
                else:
                    check_shape(x, r, a, A[a], spec, env, key)
        elif r.parent is not None and "." in e:
            leaf = e.split(".")[-1].replace("()", "")
            spec = {"Spatial_Markov": SPP, "LISA_Markov": LIP}.get(base, MKP if "Markov" in base else {}).get(leaf)
            A = x.attrs(r.parent)
            for a, v in (("K", "k"), ("M", "m")):
                kv = A.get(v)
                if isinstance(kv, Node) and kv.shape == ():
                    env[a] = kv.ex
            if spec is not None:
                check_shape(x, r, leaf, r.val, spec, env, nm)
            if e.startswith("LISA_Markov.spillover") and "P" in opts(nm.split(".")[0]):
                dict_check(x, r, nm, DICTS["LISA_Markov.spillover"], {"components": "n,t", "spill_over": "n,t-1"}, env)
        elif base in VAL:
            if base == "kullback":
                dict_check(x, r, nm, DICTS["kullback"], {}, env)
            elif VAL[base] is not None:
                if base == "fill_empty_diagonals":
                    continue
                check_shape(x, r, "result", r.val, VAL[base], env, nm)
        if not hit:
            x.ok(nm + " constructs")


def dict_check(x, r, nm, keys, specs, env):
    c = x.cellof(r, r.val)
    if not isinstance(c, DictCell):
        if isinstance(r.val, Node) and constof(r.val) is None:
            x.bad(entry(nm) + "|none", where_of(x, r), "%s returns None" % nm)
        return
    have = {str(k[1]) if isinstance(k, tuple) else str(k): v for k, v in c.entries.items()}
    for k in keys:
        if k in have:
            if k in specs:
                check_shape(x, r, k, have[k], specs[k], env, nm + "." + k)
            else:
                x.ok(nm + "." + k)
        elif c.summ is None:
            x.bad("%s|missing %s" % (entry(nm), k), where_of(x, r), "%s: the documented result '%s' is missing" % (nm, k))
        else:
            x.und(nm + "." + k, "dictionary not resolved")


# ---------------------------------------------------------------- C04
def strip_lead(n):
    """Drop a reshape that only adds a leading axis of length one."""
    while isinstance(n, Node) and n.op == "reshape":
        a = n.args[0]
        if a.shape is not None and n.shape is not None and tuple(d for d in a.shape if d != S.ONE) == tuple(d for d in n.shape if d != S.ONE):
            n = a
        else:
            break
    return n


def vkey2(x, r, v):
    ns = list(x.nodes(r, v)) if isinstance(v, (Node, Ref)) else None
    if ns is not None and len(ns) == 1 and (isinstance(v, Node) or isinstance(x.cellof(r, v), ArrCell)):
        return ("n", strip_lead(ns[0]).id)
    return vkey(x, r, v)


def compare_attrs(x, a, b, A, B, skip, label):
    """Attributes of run b (with inference) against run a (without)."""
    for k, v in A.items():
        if k in skip:
            continue
        key = "%s.%s" % (b.name, k)
        x.count("observed results compared")
        if k not in B:
            x.bad("%s|lost %s" % (entry(b.name), k), where_of(x, b), "%s: %s is missing %s" % (b.name, k, label))
            continue
        compare_val(x, a, b, v, B[k], key, k, label)


def compare_val(x, a, b, va, vb, key, k, label):
    ka, kb = vkey2(x, a, va), vkey2(x, b, vb)
    if ka == kb:
        x.ok(key)
        return
    da, db = x.deps(a, va), x.deps(b, vb)
    nr = rngs(db) - rngs(da)
    gain, lost = ins(db) - ins(da), ins(da) - ins(db)
    w = where_of(x, b)
    if nr:
        x.bad("%s|random %s" % (entry(b.name), k), w, "%s: %s %s comes from permuted data" % (b.name, k, label))
    elif gain or (lost and not tainted(db)):
        x.bad("%s|changed %s" % (entry(b.name), k), w, "%s: %s %s is computed from other data (%s)" % (b.name, k, label, ", ".join(sorted(map(str, gain | lost)))))
    elif tainted(da) or tainted(db):
        x.und(key, "not comparable")
    else:
        x.bad("%s|differs %s" % (entry(b.name), k), w, "%s: %s %s is computed differently" % (b.name, k, label))


PAIRS04 = [("Spatial_Markov()", "Spatial_Markov(P)"), ("Spatial_Markov(nofix)", "Spatial_Markov(nofix,P)"), ("Spatial_Markov(discrete)", "Spatial_Markov(discrete,P)"),
           ("Spatial_Markov(cut)", "Spatial_Markov(cut,P)"), ("Spatial_Markov(fill)", "Spatial_Markov(fill,P)"), ("LISA_Markov()", "LISA_Markov(P)"),
           ("LISA_Markov(geoda)", "LISA_Markov(P,geoda)")] + \
          [("%s()" % c, "%s(P)" % c) for c in ("Theta", "SpatialTau", "Tau_Local_Neighbor", "Tau_Local_Neighborhood", "Tau_Regional")] + [("Theta()", "Theta(default)")]


@prop("C04", ["spatial", "lisa", "rank", "rose"], "the result term of every observed attribute with inference is the term without inference; none depends on a random draw it did not depend on before")
def c04(x):
    for na, nb in PAIRS04:
        a, b = x.run(na), x.run(nb)
        if a is None or b is None or not a.ok or not b.ok:
            x.und(nb, "not built")
            continue
        compare_attrs(x, a, b, attr_items(x, a), attr_items(x, b), {"permutations"}, "with inference")
        for r in list(x.runs.values()):
            if r.name.startswith(na + ".") and r.ok:
                q = x.run(nb + r.name[len(na):])
                if q is None or "spillover" in r.name:
                    continue
                if not q.ok:
                    x.bad("%s|fails" % entry(q.name), where_of(x, q), "%s fails only with inference" % q.name)
                    continue
                compare_val(x, r, q, r.val, q.val, q.name, entry(r.name).split(".")[-1], "with inference")
    for r in x.select("rose"):
        if ".permute" not in r.name or not r.ok or r.parent is None:
            continue
        A = {k: v for k, v in x.attrs(r.parent).items() if not k.startswith("_") or k in ("_dx", "_dy")}
        compare_attrs(x, r.parent, r, A, x.attrs(r), set(), "after permute")

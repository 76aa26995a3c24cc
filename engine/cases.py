"""The list of entry-point cases.  all_runs(root) analyses each of them once."""
from .scen import *  # noqa: F401,F403
from .scen import dim, Sess, Missing, Run, n_, t_, k_, m_, P_, R_, s_
from .node import const, mk, exn
from . import sym as S
from . import node as N
from .interp import ArrCell, ListCell, DictCell, InstCell, LibInst, Tup, Ref

ck_, cm_ = dim("ck", 1), dim("cm", 1)
CASES = {}      # group -> function(Sess) -> list of runs


def group(name):
    def w(f):
        CASES[name] = f
        return f
    return w


def stoch(S_, st, name="p", k=k_):
    return S_.arr(st, name, (k, k), lo=S.ZERO, hi=S.ONE, att0=True)


def has(S_, path):
    try:
        S_.func(path)
        return True
    except Missing:
        return False


PROPS_MARKOV = ("mfpt", "steady_state", "sojourn_time")


@group("markov")
def g_markov(S_):
    out = []
    for nm, kw in (("", {}), ("classes", {"classes": 1}), ("fill", {"fill_empty_classes": const(True)}), ("silent", {"summary": const(False)}),
                   ("classes,fill", {"classes": 1, "fill_empty_classes": const(True), "summary": const(False)})):
        st = S_.fork()
        ci = S_.arr(st, "class_ids", (n_, t_))
        kw = dict(kw)
        if "classes" in kw:
            kw["classes"] = S_.arr(st, "classes", (k_,))
        r = S_.call("Markov(%s)" % nm, "giddy.markov:Markov", [ci], kw, st)
        out.append(r)
        if r.ok:
            for p in PROPS_MARKOV:
                out.append(S_.read("Markov(%s).%s" % (nm, p), r, p))
    for cls in ("FullRank_Markov", "GeoRank_Markov"):
        for nm, kw in (("", {}), ("fill,silent", {"fill_empty_classes": const(True), "summary": const(False)})):
            st = S_.fork()
            y = S_.arr(st, "y", (n_, t_))
            r = S_.call("%s(%s)" % (cls, nm), "giddy.markov:" + cls, [y], kw, st)
            out.append(r)
            if r.ok:
                for p in PROPS_MARKOV:
                    out.append(S_.read("%s(%s).%s" % (cls, nm, p), r, p))
    return out


PROPS_SPATIAL = ("s", "S", "f", "F", "ht", "Q", "Q_p_value", "LR", "LR_p_value", "dof_hom", "shtest", "chi2", "x2", "x2_pvalue", "x2_dof")


def spatial(S_, nm, opts, st=None):
    st = st or S_.fork()
    y = S_.arr(st, "y", (n_, t_))
    w = S_.w(st)
    kw = {"k": S_.size("k", k_), "m": S_.size("m", m_)}
    if "P" in opts:
        kw["permutations"] = S_.size("permutations", P_)
    if "nofix" in opts:
        kw["fixed"] = const(False)
    if "discrete" in opts:
        kw["discrete"] = const(True)
    if "fill" in opts:
        kw["fill_empty_classes"] = const(True)
    if "cut" in opts:
        kw["cutoffs"] = S_.arr(st, "cutoffs", (S.sub(k_, S.ONE),))
        kw["lag_cutoffs"] = S_.arr(st, "lag_cutoffs", (S.sub(m_, S.ONE),))
    if "cutonly" in opts:
        kw["cutoffs"] = S_.arr(st, "cutoffs", (S.sub(k_, S.ONE),))
    if "lagonly" in opts:
        kw["lag_cutoffs"] = S_.arr(st, "lag_cutoffs", (S.sub(m_, S.ONE),))
    if "cutfree" in opts:
        kw["cutoffs"] = S_.arr(st, "cutoffs", (ck_,))
        kw["lag_cutoffs"] = S_.arr(st, "lag_cutoffs", (cm_,))
    if "cutlist" in opts:
        e = mk("in", "cutoffs", shape=(), dt="f", deps=frozenset({("in", "cutoffs")}))
        kw["cutoffs"] = S_.list(st, "cutoffs", S.sub(k_, S.ONE), e)
        e = mk("in", "lag_cutoffs", shape=(), dt="f", deps=frozenset({("in", "lag_cutoffs")}))
        kw["lag_cutoffs"] = S_.list(st, "lag_cutoffs", S.sub(m_, S.ONE), e)
    if "name" in opts:
        kw["variable_name"] = S_.string("variable_name")
    return S_.call("Spatial_Markov(%s)" % nm, "giddy.markov:Spatial_Markov", [y, w], kw, st)


@group("spatial")
def g_spatial(S_):
    out = []
    for nm, opts in (("", ()), ("P", ("P",)), ("nofix", ("nofix",)), ("nofix,P", ("nofix", "P")), ("discrete", ("discrete",)),
                     ("discrete,P", ("discrete", "P")), ("cut", ("cut",)), ("cut,P", ("cut", "P")), ("cutlist", ("cutlist",)),
                     ("cutfree", ("cutfree",)), ("cutfree,P", ("cutfree", "P")),
                     ("fill", ("fill",)), ("fill,P", ("fill", "P"))):
        r = spatial(S_, nm, opts)
        out.append(r)
        if r.ok:
            for p in PROPS_SPATIAL:
                out.append(S_.read("Spatial_Markov(%s).%s" % (nm, p), r, p))
    r = spatial(S_, "name", ("name",))
    out.append(r)
    if r.ok:
        out.append(S_.method("Spatial_Markov(name).summary()", r, "summary"))
        out.append(S_.method("Spatial_Markov(name).summary(file)", r, "summary", [], {"file_name": S_.string("file_name")}))
    return out


def lisa(S_, nm, opts):
    st = S_.fork()
    y = S_.arr(st, "y", (n_, t_))
    w = S_.w(st)
    kw = {}
    if "P" in opts:
        kw["permutations"] = S_.size("permutations", P_)
    kw["significance_level"] = S_.scal("significance_level", "f", lo=S.ZERO, hi=S.ONE)
    if "geoda" in opts:
        kw["geoda_quads"] = const(True)
    return S_.call("LISA_Markov(%s)" % nm, "giddy.markov:LISA_Markov", [y, w], kw, st)


@group("lisa")
def g_lisa(S_):
    out = []
    for nm, opts in (("", ()), ("P", ("P",)), ("geoda", ("geoda",)), ("P,geoda", ("P", "geoda"))):
        r = lisa(S_, nm, opts)
        out.append(r)
        if r.ok:
            for p in PROPS_MARKOV:
                out.append(S_.read("LISA_Markov(%s).%s" % (nm, p), r, p))
            q = {"quadrant": S_.scal("quadrant", "i", lo=S.ONE, hi=S.num(4))}
            out.append(S_.method("LISA_Markov(%s).spillover()" % nm, r, "spillover", [], q))
            out.append(S_.method("LISA_Markov(%s).spillover(neighbors_on)" % nm, r, "spillover", [], dict(q, neighbors_on=const(True))))
    return out


def tmats(S_, st, nm="T", m=m_, k=k_):
    return S_.arr(st, nm, (m, k, k), lo=S.ZERO, integral=True, att0=True)


@group("tests")
def g_tests(S_):
    out = []
    st = S_.fork()
    out.append(S_.call("kullback", "giddy.markov:kullback", [tmats(S_, st, "F")], {}, st))
    st = S_.fork()
    out.append(S_.call("prais", "giddy.markov:prais", [stoch(S_, st, "pmat")], {}, st))
    st = S_.fork()
    out.append(S_.call("chi2", "giddy.markov:chi2", [S_.arr(st, "T1", (k_, k_), lo=S.ZERO, integral=True, att0=True),
                                                     S_.arr(st, "T2", (k_, k_), lo=S.ZERO, integral=True, att0=True)], {}, st))
    for sm in (True, False):
        st = S_.fork()
        out.append(S_.call("sojourn_time(summary=%s)" % sm, "giddy.markov:sojourn_time", [stoch(S_, st)], {"summary": const(sm)}, st))
    for nm, names in (("", False), ("named", True)):
        st = S_.fork()
        kw = {}
        if names:
            kw["regime_names"] = S_.list(st, "regime_names", m_, mk("in", "regime_names", shape=(), dt="s", deps=frozenset({("opt", "regime_names")})))
            kw["class_names"] = S_.list(st, "class_names", k_, mk("in", "class_names", shape=(), dt="s", deps=frozenset({("opt", "class_names")})))
            kw["title"] = S_.string("title")
        r = S_.call("homogeneity(%s)" % nm, "giddy.markov:homogeneity", [tmats(S_, st, "transition_matrices")], kw, st)
        out.append(r)
        if r.ok:
            out.append(S_.method("homogeneity(%s).summary()" % nm, r, "summary"))
            kw2 = {"file_name": S_.string("file_name")}
            if names:
                kw2["title"] = S_.string("title2")
            out.append(S_.method("homogeneity(%s).summary(file)" % nm, r, "summary", [], kw2))
    return out


@group("ergodic")
def g_ergodic(S_):
    out = []
    for f in ("steady_state", "mfpt", "fmpt"):
        for fill in (False, True, None):
            st = S_.fork()
            kw = {} if fill is None else {"fill_empty_classes": const(fill)}
            out.append(S_.call("%s(%s)" % (f, "" if fill is None else "fill=%s" % fill), "giddy.ergodic:" + f, [stoch(S_, st, "P")], kw, st))
    for f in ("var_mfpt_ergodic", "var_fmpt_ergodic", "_fmpt_ergodic", "_mfpt_ergodic", "_steady_state_ergodic"):
        try:
            st = S_.fork()
            out.append(S_.call(f, "giddy.ergodic:" + f, [stoch(S_, st, "P")], {}, st))
        except Missing:
            if not f.startswith("_"):
                raise
    return out


MEASURES = ("P", "D", "L2", "B1", "B2")


def near(vals, case=False):
    """undocumented option values that a loose comparison (prefix, substring, membership) would still accept"""
    out = []
    for v in vals:
        cand = [v + "x", "x" + v, v[:-1], v[:1], v[1:]]
        if case:
            cand += [v.lower(), v.upper()]
        out += [c for c in cand if c not in vals and c not in out]
    return tuple(out)




@group("mobility")
def g_mobility(S_):
    out = []
    for ms in MEASURES + ("bogus",):
        for ini in (False, True):
            st = S_.fork()
            kw = {"measure": const(ms)}
            if ini:
                kw["ini"] = S_.arr(st, "ini", (k_,), lo=S.ZERO, hi=S.ONE)
            out.append(S_.call("markov_mobility(%s%s)" % (ms, ",ini" if ini else ""), "giddy.mobility:markov_mobility", [stoch(S_, st)], kw, st))
    for ms in near(MEASURES, True) + (None,):
        st = S_.fork()
        out.append(S_.call("markov_mobility(bogus %s)" % ms, "giddy.mobility:markov_mobility", [stoch(S_, st)], {"measure": const(ms)}, st))
    st = S_.fork()
    out.append(S_.call("markov_mobility()", "giddy.mobility:markov_mobility", [stoch(S_, st)], {}, st))
    return out


@group("rank")
def g_rank(S_):
    out = []
    for p in (0, 1):
        kw = {"permutations": S_.size("permutations", P_) if p else const(0)}
        sfx = "P" if p else ""
        st = S_.fork()
        y = S_.arr(st, "y", (n_, t_))
        reg = S_.arr(st, "regime", (n_,))
        out.append(S_.call("Theta(%s)" % sfx, "giddy.rank:Theta", [y, reg], kw, st))
        for c in ("SpatialTau", "Tau_Local_Neighbor", "Tau_Local_Neighborhood"):
            st = S_.fork()
            x, y, w = S_.arr(st, "x", (n_,)), S_.arr(st, "y", (n_,)), S_.w(st)
            out.append(S_.call("%s(%s)" % (c, sfx), "giddy.rank:" + c, [x, y, w], kw, st))
        st = S_.fork()
        x, y = S_.arr(st, "x", (n_,)), S_.arr(st, "y", (n_,))
        out.append(S_.call("Tau_Regional(%s)" % sfx, "giddy.rank:Tau_Regional", [x, y, S_.arr(st, "regime", (n_,))], kw, st))
    st = S_.fork()
    y = S_.arr(st, "y", (n_, t_))
    reg = S_.arr(st, "regime", (n_,))
    out.append(S_.call("Theta(default)", "giddy.rank:Theta", [y, reg], {}, st))
    for c in ("Tau", "Tau_Local"):
        st = S_.fork()
        x, y = S_.arr(st, "x", (n_,)), S_.arr(st, "y", (n_,))
        out.append(S_.call(c, "giddy.rank:" + c, [x, y], {}, st))
    for c in ("SpatialTau", "Tau_Local_Neighbor", "Tau_Local_Neighborhood"):
        st = S_.fork()
        x, y, w = S_.arr(st, "x", (n_,)), S_.arr(st, "y", (n_,)), S_.w(st)
        out.append(S_.call("%s(default)" % c, "giddy.rank:" + c, [x, y, w], {}, st))
    st = S_.fork()
    x, y = S_.arr(st, "x", (n_,)), S_.arr(st, "y", (n_,))
    out.append(S_.call("Tau_Regional(default)", "giddy.rank:Tau_Regional", [x, y, S_.arr(st, "regime", (n_,))], {}, st))
    return out


ALTS = ("two.sided", "two-sided", "positive", "negative")


def rose(S_, nm, kw=None, st=None, t=None):
    st = st or S_.fork()
    Y, w = S_.arr(st, "Y", (n_, t or S.num(2))), S_.w(st)
    return S_.call("Rose(%s)" % nm, "giddy.directional:Rose", [Y, w], kw or {}, st)


@group("rose")
def g_rose(S_):
    out = []
    for nm, kw in (("", {}), ("k", {"k": S_.size("k", s_)}), ("k=4", {"k": const(4)})):
        r = rose(S_, nm, kw)
        out.append(r)
        if not r.ok:
            continue
        for a in ALTS + ("bogus",):
            kw2 = {"permutations": S_.size("permutations", P_), "alternative": const(a)}
            out.append(S_.method("Rose(%s).permute(%s)" % (nm, a), r, "permute", [], kw2))
        out.append(S_.method("Rose(%s).permute()" % nm, r, "permute"))
        if nm == "":
            for a in near(ALTS):
                out.append(S_.method("Rose(%s).permute(bogus %s)" % (nm, a), r, "permute", [], {"alternative": const(a)}))
    r = rose(S_, "plots")
    out.append(r)
    if r.ok:
        st = r.st
        out.append(S_.method("Rose.plot()", r, "plot"))
        r2 = Run("rose", S_.fork(st), r.val, [], [])
        at = S_.arr(r2.st, "attribute", (n_,))
        ax = S_.I.new(r2.st, LibInst("ext", {"name": const("ax")}))
        S_.I.own(ax, "ext", r2.st)
        out.append(S_.method("Rose.plot(attribute)", r2, "plot", [at], {"**": S_.kwargs(r2.st)}))
        out.append(S_.method("Rose.plot(attribute,ax)", r2, "plot", [at, ax], {"**": S_.kwargs(r2.st)}))
        out.append(S_.method("Rose.plot_origin()", r, "plot_origin"))
        out.append(S_.method("Rose.plot_vectors()", r, "plot_vectors"))
        out.append(S_.method("Rose.plot_vectors(arrows)", r, "plot_vectors", [], {"arrows": S_.scal("arrows", "b")}))
    return out


@group("plotting")
def g_plotting(S_):
    out = []
    r = rose(S_, "fig")
    if not r.ok:
        return out
    S_.I.own(r.val, "param:rose", r.st)
    base = r

    def c(nm, f, args=(), kw=None, needax=False, needkw=True, gdf=False):
        st = S_.fork(base.st)
        kw = dict(kw or {})
        a = [base.val]
        if gdf:
            a.append(S_.df(st))
        a += list(args)
        if needax:
            ax = S_.I.new(st, LibInst("ext", {"name": const("ax")}))
            kw["ax"] = ax
        if needkw:
            kw["**"] = S_.kwargs(st)
        out.append(S_.call(nm, "giddy.plotting:" + f, a, kw, st))
    pv = S_.scal("p", "f", lo=S.ZERO, hi=S.ONE)
    c("dynamic_lisa_heatmap", "dynamic_lisa_heatmap", needkw=False)
    c("dynamic_lisa_heatmap(p,ax,kw)", "dynamic_lisa_heatmap", kw={"p": pv}, needax=True)
    c("dynamic_lisa_rose", "dynamic_lisa_rose", needkw=False)
    c("dynamic_lisa_rose(ax,kw)", "dynamic_lisa_rose", needax=True)
    st = S_.fork(base.st)
    at = S_.arr(st, "attribute", (n_,))
    out.append(S_.call("dynamic_lisa_rose(attribute,kw)", "giddy.plotting:dynamic_lisa_rose", [base.val], {"attribute": at, "**": S_.kwargs(st)}, st))
    c("dynamic_lisa_vectors", "dynamic_lisa_vectors", needkw=False)
    c("dynamic_lisa_vectors(ax,kw)", "dynamic_lisa_vectors", kw={"arrows": S_.scal("arrows", "b")}, needax=True)
    c("dynamic_lisa_composite", "dynamic_lisa_composite", needkw=False, gdf=True)
    c("dynamic_lisa_composite(p,figsize)", "dynamic_lisa_composite", kw={"p": pv, "figsize": S_.scal("figsize", "O")}, needkw=False, gdf=True)
    c("dynamic_lisa_composite_explore", "dynamic_lisa_composite_explore", needkw=False, gdf=True)
    c("dynamic_lisa_composite_explore(all)", "dynamic_lisa_composite_explore",
      kw={"p": pv, "figsize": S_.scal("figsize", "O"), "pattern": S_.string("pattern")}, needkw=False, gdf=True)
    if has(S_, "giddy.plotting:_dynamic_lisa_widget_update"):
        c("_dynamic_lisa_widget_update", "_dynamic_lisa_widget_update", args=[S_.string("start_time"), S_.string("end_time")],
          kw={"p": pv, "figsize": S_.scal("figsize", "O")}, needkw=False, gdf=True)
    return out


DIST = ("interval", "hamming", "arbitrary", "markov", "tran")


def seqlen():
    return S.atom("t", S.num(2), None, integral=True, kind="dim")


@group("sequence")
def g_sequence(S_):
    out = []
    for d in DIST + ("Hamming", "bogus", None):
        st = S_.fork()
        y = S_.arr(st, "y", (n_, t_))
        out.append(S_.call("Sequence(%s)" % d, "giddy.sequence:Sequence", [y], {"dist_type": const(d)}, st))
    for d in near(DIST):
        st = S_.fork()
        y = S_.arr(st, "y", (n_, t_))
        out.append(S_.call("Sequence(bogus %s)" % d, "giddy.sequence:Sequence", [y], {"dist_type": const(d)}, st))
    for nm in ("subs,indel", "subs", "indel"):
        st = S_.fork()
        y = S_.arr(st, "y", (n_, t_))
        kw = {}
        if "subs" in nm:
            kw["subs_mat"] = S_.arr(st, "subs_mat", (k_, k_), dt="f", lo=S.ZERO, tags=frozenset({"symm", "hollow"}))
        if "indel" in nm:
            kw["indel"] = S_.scal("indel", "in:indel", lo=S.ZERO, lop=True)
        out.append(S_.call("Sequence(%s)" % nm, "giddy.sequence:Sequence", [y], kw, st))
    return out


@group("util")
def g_util(S_):
    out = []
    st = S_.fork()
    out.append(S_.call("shuffle_matrix", "giddy.util:shuffle_matrix", [S_.arr(st, "X", (n_, n_)), S_.arr(st, "ids", (n_,), "i", lo=S.ZERO, hi=S.sub(n_, S.ONE))], {}, st))
    st = S_.fork()
    lst = S_.list(st, "ids", n_, mk("in", "ids", shape=(), dt="i", lo=S.ZERO, hi=S.sub(n_, S.ONE), deps=frozenset({("in", "ids")})))
    out.append(S_.call("shuffle_matrix(list)", "giddy.util:shuffle_matrix", [S_.arr(st, "X", (n_, n_)), lst], {}, st))
    st = S_.fork()
    out.append(S_.call("get_lower", "giddy.util:get_lower", [S_.arr(st, "matrix", (n_, n_))], {}, st))
    for nm, sh in (("2d", (k_, k_)), ("3d", (m_, k_, k_)), ("1d", (k_,))):
        st = S_.fork()
        out.append(S_.call("fill_empty_diagonals(%s)" % nm, "giddy.util:fill_empty_diagonals", [S_.arr(st, "p", sh, lo=S.ZERO, hi=S.ONE, att0=True)], {}, st))
    return out


@group("components")
def g_components(S_):
    out = []
    for f in ("is_component", "check_contiguity"):
        st = S_.fork()
        w = S_.w(st)
        ide = mk("in", "ids", shape=(), dt="O", deps=frozenset({("in", "ids")}), tags=frozenset({"id"}))
        L = S.atom("nids", S.ONE, None, integral=True, kind="dim")
        ids = S_.list(st, "ids", L, ide)
        args = [w, ids]
        if f == "check_contiguity":
            args.append(mk("in", "leaver", shape=(), dt="O", deps=frozenset({("in", "leaver")}), tags=frozenset({"id"})))
        out.append(S_.call(f, "giddy.components:" + f, args, {}, st))
    for und in (True, False):
        st = S_.fork()
        r = S_.call("Graph(%s)" % und, "giddy.components:Graph", [], {"undirected": const(und)}, st)
        out.append(r)
        if not r.ok:
            continue
        a = mk("in", "n1", shape=(), dt="O", deps=frozenset({("in", "n1")}), tags=frozenset({"id"}))
        b = mk("in", "n2", shape=(), dt="O", deps=frozenset({("in", "n2")}), tags=frozenset({"id"}))
        r2 = S_.method("Graph(%s).add_edge" % und, r, "add_edge", [a, b, mk("in", "wt", shape=(), dt="f", deps=frozenset({("in", "wt")}))])
        out.append(r2)
        if r2.ok:
            r2.val = r.val
            out.append(S_.method("Graph(%s).connected_components" % und, r2, "connected_components", [], {"threshold": S_.scal("threshold", "f")}))
    return out


# ------------------------------------------------------------------ histories of reads
PUBLIC_LAZY = {"Markov(fill)": PROPS_MARKOV, "Markov(classes)": PROPS_MARKOV, "FullRank_Markov()": PROPS_MARKOV, "LISA_Markov(P)": PROPS_MARKOV,
               "Spatial_Markov(P)": PROPS_SPATIAL, "Spatial_Markov(discrete)": PROPS_SPATIAL}


def maker(S_, nm, pre=""):
    """(path, args, kw) for the named object with inputs named pre+..."""
    def mk_(st):
        y = S_.arr(st, pre + ("class_ids" if nm.startswith("Markov") else "y"), (n_, t_))
        kw = {}
        if nm.startswith("Markov"):
            if "fill" in nm:
                kw["fill_empty_classes"] = const(True)
            if "classes" in nm:
                kw["classes"] = S_.arr(st, pre + "classes", (k_,))
            return "giddy.markov:Markov", [y], kw
        if nm.startswith("FullRank"):
            return "giddy.markov:FullRank_Markov", [y], kw
        w = S_.w(st, pre + "w")
        if nm.startswith("LISA"):
            kw = {"permutations": S_.size("permutations", P_), "significance_level": S_.scal("significance_level", "f", lo=S.ZERO, hi=S.ONE)}
            return "giddy.markov:LISA_Markov", [y, w], kw
        kw = {"k": S_.size("k", k_), "m": S_.size("m", m_)}
        if "P" in nm:
            kw["permutations"] = S_.size("permutations", P_)
        if "discrete" in nm:
            kw["discrete"] = const(True)
        return "giddy.markov:Spatial_Markov", [y, w], kw
    return mk_


def ownattrs(S_, r, st):
    c = st.heap[r.addr]
    for k, v in list(c.attrs.items()):
        if not k.startswith("_"):
            S_.I.own(v, "result:" + k, st)


@group("chains")
def g_chains(S_):
    out = []
    for nm, props in PUBLIC_LAZY.items():
        st = S_.fork()
        f, args, kw = maker(S_, nm)(st)
        base = S_.call("chain:" + nm, f, args, kw, st)
        out.append(base)
        if not base.ok:
            continue
        ownattrs(S_, base.val, base.st)
        for p in props:
            out.append(S_.read("fresh:%s.%s" % (nm, p), base, p))
        for lab, order in (("fwd", props), ("rev", tuple(reversed(props)))):
            cur = base
            for p in order:
                r = S_.read("%s:%s.%s" % (lab, nm, p), cur, p)
                out.append(r)
                if not r.ok:
                    break
                r.prop = p
                nxt = Run("after " + p, r.st, base.val, [], [])
                S_.I.own(r.val, "result:" + p, nxt.st)
                cur = nxt
            # a second read of every property of the warm object
            if cur is not base:
                for p in order:
                    r = S_.read("again-%s:%s.%s" % (lab, nm, p), cur, p)
                    out.append(r)
    return out


@group("twins")
def g_twins(S_):
    """Two objects in one process: nothing of the other one may reach the first."""
    out = []
    for nm, props in PUBLIC_LAZY.items():
        # the other object is built and read first, then ours
        st = S_.fork()
        f, args, kw = maker(S_, nm, "other ")(st)
        o = S_.call("twin:" + nm, f, args, kw, st)
        if not o.ok:
            continue
        cur = o
        for p in props:
            r = S_.read("x", cur, p, obj=o.val)
            if r.ok:
                cur = Run("x", r.st, o.val, [], [])
        st = S_.fork(cur.st)
        f, args, kw = maker(S_, nm)(st)
        a = S_.call("second:" + nm, f, args, kw, st)
        out.append(a)
        if not a.ok:
            continue
        a.other = o.val
        for p in props:
            out.append(S_.read("second:%s.%s" % (nm, p), a, p))
        # ours was built first, then the other is built and read, then ours is read
        st = S_.fork()
        f, args, kw = maker(S_, nm)(st)
        a = S_.call("x", f, args, kw, st)
        if not a.ok:
            continue
        st = S_.fork(a.st)
        f, args, kw = maker(S_, nm, "other ")(st)
        o = S_.call("x", f, args, kw, st)
        if not o.ok:
            continue
        cur = o
        for p in props:
            r = S_.read("x", cur, p, obj=o.val)
            if r.ok:
                cur = Run("x", r.st, o.val, [], [])
        for p in props:
            out.append(S_.read("first:%s.%s" % (nm, p), Run("first:" + nm, cur.st, a.val, [], []), p))
    # plain constructors, twice in one process
    def two(nm, f, argf, kw=None):
        st = S_.fork()
        o = S_.call("x", f, argf(st, "other "), dict(kw or {}), st)
        st = S_.fork(o.st) if o.ok else S_.fork()
        a = S_.call("second:" + nm, f, argf(st, ""), dict(kw or {}), st)
        a.plain = True
        out.append(a)
    P = {"permutations": S_.size("permutations", P_)}
    xyw = lambda st, pre: [S_.arr(st, pre + "x", (n_,)), S_.arr(st, pre + "y", (n_,)), S_.w(st, pre + "w")]  # noqa: E731
    for c in ("SpatialTau", "Tau_Local_Neighbor", "Tau_Local_Neighborhood"):
        two(c, "giddy.rank:" + c, xyw, P)
    two("Tau", "giddy.rank:Tau", lambda st, pre: xyw(st, pre)[:2])
    two("Tau_Local", "giddy.rank:Tau_Local", lambda st, pre: xyw(st, pre)[:2])
    two("Theta", "giddy.rank:Theta", lambda st, pre: [S_.arr(st, pre + "y", (n_, t_)), S_.arr(st, pre + "regime", (n_,))], P)
    two("Tau_Regional", "giddy.rank:Tau_Regional", lambda st, pre: xyw(st, pre)[:2] + [S_.arr(st, pre + "regime", (n_,))], P)
    two("Rose", "giddy.directional:Rose", lambda st, pre: [S_.arr(st, pre + "Y", (n_, S.num(2))), S_.w(st, pre + "w")])
    for d in ("interval", "hamming", "arbitrary", "markov", "tran"):
        two("Sequence(%s)" % d, "giddy.sequence:Sequence", lambda st, pre: [S_.arr(st, pre + "y", (n_, t_))], {"dist_type": const(d)})
    two("homogeneity", "giddy.markov:homogeneity", lambda st, pre: [tmats(S_, st, pre + "T")])
    two("kullback", "giddy.markov:kullback", lambda st, pre: [tmats(S_, st, pre + "T")])
    two("markov_mobility", "giddy.mobility:markov_mobility", lambda st, pre: [stoch(S_, st, pre + "p")])
    two("mfpt", "giddy.ergodic:mfpt", lambda st, pre: [stoch(S_, st, pre + "P")], {"fill_empty_classes": const(True)})
    two("steady_state", "giddy.ergodic:steady_state", lambda st, pre: [stoch(S_, st, pre + "P")], {"fill_empty_classes": const(True)})
    return out


@group("options")
def g_options(S_):
    """Routes and combinations of options the other groups do not take."""
    out = []
    for nm, o in (("nofix,fill", ("nofix", "fill")), ("discrete,fill", ("discrete", "fill")), ("cut,fill", ("cut", "fill")), ("cut,nofix", ("cut", "nofix")),
                  ("cutonly", ("cutonly",)), ("lagonly", ("lagonly",)), ("cutonly,nofix", ("cutonly", "nofix")), ("lagonly,nofix", ("lagonly", "nofix")),
                  ("cutonly,P", ("cutonly", "P")), ("lagonly,P", ("lagonly", "P")), ("name", ("name",))):
        out.append(spatial(S_, nm, o))
    r = spatial(S_, "plain", ())
    out.append(r)
    if r.ok:
        out.append(S_.method("Spatial_Markov(plain).summary()", r, "summary"))
    st = S_.fork()
    out.append(S_.call("LISA_Markov(default)", "giddy.markov:LISA_Markov", [S_.arr(st, "y", (n_, t_)), S_.w(st)], {}, st))
    for cls in ("FullRank_Markov", "GeoRank_Markov"):
        for nm, kw in (("fill", {"fill_empty_classes": const(True)}), ("silent", {"summary": const(False)})):
            st = S_.fork()
            out.append(S_.call("%s(%s)" % (cls, nm), "giddy.markov:" + cls, [S_.arr(st, "y", (n_, t_))], kw, st))
    for ini in (False, True):
        for ms in ("B1", "B2"):
            st = S_.fork()
            kw = {"ini": S_.arr(st, "ini", (k_,), lo=S.ZERO, hi=S.ONE)} if ini else {}
            out.append(S_.call("mobility:%s%s" % (ms, ",ini" if ini else ""), "giddy.mobility:markov_mobility", [stoch(S_, st)], dict(kw, measure=const(ms)), st))
    # a function given to a widget is called by it, with the values bound to it
    r = rose(S_, "widget")
    if r.ok:
        def w(nm, kw):
            st = S_.fork(r.st)
            e = S_.call("widget(%s)" % nm, "giddy.plotting:dynamic_lisa_composite_explore", [r.val, S_.df(st)], kw, st)
            out.append(e)
            if not e.ok:
                return
            for ev in e.events:
                if ev.kind == "extcall" and str(ev.info["name"]).endswith("interact") and ev.info["args"]:
                    kw2 = {}
                    for k, v in ev.info["kw"].items():
                        c = e.st.heap.get(v.addr) if isinstance(v, Ref) else None
                        b = c.attrs.get("__a") if isinstance(c, LibInst) and c.cls == "ext" else None
                        kw2[k] = b.items[0] if b is not None and b.items else S_.string(k) if isinstance(c, DictCell) else v
                    out.append(S_.call("widget(%s) moved" % nm, ev.info["args"][0], [], kw2, e.st))
        pv = S_.scal("p", "f", lo=S.ZERO, hi=S.ONE)
        w("all", {"p": pv, "figsize": S_.scal("figsize", "O"), "pattern": S_.string("pattern")})
        for a in (True, False):
            out.append(S_.method("Rose.plot_vectors(arrows=%s)" % a, r, "plot_vectors", [], {"arrows": const(a)}))
            st = S_.fork(r.st)
            out.append(S_.call("dynamic_lisa_vectors(arrows=%s)" % a, "giddy.plotting:dynamic_lisa_vectors", [r.val], {"arrows": const(a)}, st))
        r2 = Run("rose", S_.fork(r.st), r.val, [], [])
        ax = S_.I.new(r2.st, LibInst("ext", {"name": const("ax")}))
        out.append(S_.method("Rose.plot_vectors(ax,kw)", r2, "plot_vectors", [], {"ax": ax, "**": S_.kwargs(r2.st)}))
    return out


def all_runs(root, groups=None):
    S_ = Sess(root)
    runs = {}
    for g, f in CASES.items():
        if groups is not None and g not in groups:
            continue
        for r in f(S_):
            if r.crashed:
                S_.crashed.append(r.name)
                continue
            runs[r.name] = r
            r.group = g
    S_.runs = runs
    return S_


def mark_changed(S_, base, r, obj):
    """A state like r's in which every array of the object that the call changed or
    created carries a dependence on that call ("hist", attribute)."""
    st = S_.fork(r.st)
    c0, c1 = base.st.heap.get(obj.addr), st.heap.get(obj.addr)
    if not (isinstance(c0, InstCell) and isinstance(c1, InstCell)):
        return st
    seen = set()

    def visit(v, nm, old, depth=0):
        if depth > 4:
            return v
        if isinstance(v, N.Node):
            if isinstance(old, N.Node) and old is v or v.op == "const":
                return v
            return mk("hist", v, shape=v.shape, dt=v.dt, deps=v.deps | frozenset({("hist", nm)}))
        if isinstance(v, Ref) and v.addr not in seen:
            seen.add(v.addr)
            c = st.heap.get(v.addr)
            o = base.st.heap.get(v.addr)
            if isinstance(c, ArrCell) and c.base is None:
                if not (isinstance(o, ArrCell) and o.node is c.node):
                    st.heap[v.addr] = c.clone(node=visit(c.node, nm, None))
            elif isinstance(c, ListCell) and o is not c:
                items = [visit(x, nm, None, depth + 1) for x in c.items] if c.items is not None else None
                summ = (c.summ[0], visit(c.summ[1], nm, None, depth + 1), c.summ[2]) if c.summ is not None else None
                st.heap[v.addr] = c.clone(items=items, summ=summ)
            elif isinstance(c, DictCell) and o is not c:
                st.heap[v.addr] = c.clone(entries={k: visit(x, nm, None, depth + 1) for k, x in c.entries.items()})
        return v
    at = {}
    for k, v in c1.attrs.items():
        at[k] = visit(v, k, c0.attrs.get(k))
    st.heap[obj.addr] = st.heap[obj.addr].clone(attrs=at)
    return st


@group("calls")
def g_calls(S_):
    """Methods called again, and after one another, on one object."""
    out = []
    Pm = {"permutations": S_.size("permutations", P_)}

    def obj(nm, base, meths):
        base.name = "made:" + nm
        out.append(base)
        if not base.ok or not isinstance(base.val, Ref):
            return
        c = base.st.heap.get(base.val.addr)
        if not isinstance(c, InstCell):
            return
        for k, v in list(c.attrs.items()):
            S_.I.own(v, "attr:" + k, base.st)
        firsts = []
        for lab, m, kw in meths:
            r = S_.method("first:%s.%s(%s)" % (nm, m, lab), base, m, [], dict(kw)) if m else S_.read("first:%s.%s" % (nm, lab), base, lab)
            r.meth, r.lab = m or lab, lab
            out.append(r)
            if r.ok:
                firsts.append((r, mark_changed(S_, base, r, base.val)))
        for r0, st in firsts:
            for lab, m, kw in meths:
                f = next((q for q, _ in firsts if q.lab == lab and q.meth == (m or lab)), None)
                draws = f is None or any(e.kind == "rng" for e in f.events)
                cur = Run("after", S_.fork(st if draws else r0.st), base.val, [], [])
                what = "%s.%s(%s)" % (nm, m, lab) if m else "%s.%s" % (nm, lab)
                r = S_.method("then:%s|after %s" % (what, r0.meth), cur, m, [], dict(kw)) if m else S_.read("then:%s|after %s" % (what, r0.meth), cur, lab)
                r.first = "first:" + what
                r.meth, r.lab, r.prev, r.base = m or lab, lab, r0, base
                out.append(r)
    obj("Rose", rose(S_, "calls", {"k": S_.size("k", s_)}), [(a, "permute", dict(Pm, alternative=const(a))) for a in ("two.sided", "positive", "negative")])
    q = {"quadrant": S_.scal("quadrant", "i", lo=S.ONE, hi=S.num(4))}
    obj("LISA_Markov", lisa(S_, "calls", ("P",)), [("", "spillover", q), ("neighbors_on", "spillover", dict(q, neighbors_on=const(True)))] + [(p, None, {}) for p in PROPS_MARKOV])
    st = S_.fork()
    obj("homogeneity", S_.call("homogeneity", "giddy.markov:homogeneity", [tmats(S_, st, "transition_matrices")], {}, st), [("", "summary", {}), ("file", "summary", {"file_name": S_.string("file_name")})])
    obj("Spatial_Markov", spatial(S_, "calls", ()), [("", "summary", {})] + [(p, None, {}) for p in ("Q", "Q_p_value", "LR", "LR_p_value", "x2", "x2_pvalue", "S", "F", "s", "f", "shtest", "chi2", "dof_hom")])
    return out

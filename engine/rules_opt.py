"""Rules on options: every documented parameter reaches what it is documented to change."""
import ast
import re
from . import sym as S  # noqa: F401
from . import node as N
from .node import Node, constof, NOCONST, walk  # noqa: F401
from .interp import ArrCell, ListCell, DictCell, InstCell, LibInst, Ref, Alt, Tup, Func, Cls  # noqa: F401
from .rulelib import prop, entry, opts, tainted, rngs, ins  # noqa: F401
from .rules_val import attr_items, where_of, vkey2, PUBLIC
from .rules_inf import same


def reach(x, r, v, seen=None, d=0):
    """Everything a value contains: its dependences, the extents of its shapes, the option sets it holds."""
    seen = set() if seen is None else seen
    out = set()
    if d > 12 or v is None:
        return out
    if isinstance(v, Node):
        if ("n", v.id) in seen:
            return out
        seen.add(("n", v.id))
        out |= v.deps
        for q in walk(v):
            for e in (q.shape or ()):
                out |= {("dim", a) for a in (e.atoms() if e is not None else ())}
            if q._ex is not None:
                out |= {("dim", a) for a in q._ex.atoms()}
        return out
    if isinstance(v, (Tup, Alt)):
        for q in (v.items if isinstance(v, Tup) else v.vals):
            out |= reach(x, r, q, seen, d + 1)
        return out
    if isinstance(v, (list, tuple)):
        for q in v:
            out |= reach(x, r, q, seen, d + 1)
        return out
    if isinstance(v, Ref):
        if v.addr in seen:
            return out
        seen.add(v.addr)
        c = r.st.heap.get(v.addr)
        if isinstance(c, ArrCell):
            return reach(x, r, x.I.load(v, r.st), seen, d + 1)
        if isinstance(c, ListCell):
            for q in list(c.items or ()) + ([c.summ[1], c.summ[2]] if c.summ is not None else []):
                out |= reach(x, r, q, seen, d + 1)
        elif isinstance(c, DictCell):
            for q in list(c.entries.values()) + list(c.summ or ()):
                out |= reach(x, r, q, seen, d + 1)
            for k in c.entries:
                out |= reach(x, r, k, seen, d + 1) if isinstance(k, Node) else set()
        elif isinstance(c, LibInst):
            if c.cls == "kwargs":
                out.add(("in", "kwargs"))
            nm = c.attrs.get("name")
            if isinstance(nm, Node) and isinstance(constof(nm), str):
                out.add(("lib", constof(nm)))
            for k, q in c.attrs.items():
                out |= reach(x, r, q, seen, d + 1) if isinstance(q, (Node, Ref, Tup, Alt)) else set()
        elif isinstance(c, InstCell):
            for k, q in c.attrs.items():
                out |= reach(x, r, q, seen, d + 1)
        else:
            out.add(("unk", "cell"))
    return out


def observed(x, r, what):
    """[(where, value)] of one observable of a run."""
    kind, _, nm = what.partition(":")
    if kind == "a":
        at = attr_items(x, r)
        return [(where_of(x, r, nm), at[nm])] if nm in at else []
    if kind == "v":
        return [(where_of(x, r), r.val)]
    if kind == "print":
        return [(e.where(), list(e.info["args"])) for _, e in x.events([r], "print")]
    if kind == "open":
        return [(e.where(), e.info.get("path")) for _, e in x.events([r], "open")]
    if kind == "write":
        return [(e.where(), list(e.info.get("args") or ())) for _, e in x.events([r], "write")]
    if kind == "x":
        return [(e.where(), list(e.info["args"]) + list(e.info["kw"].values())) for _, e in x.events([r], "extcall") if re.search(nm, str(e.info["name"]))]
    if kind == "xk":        # one keyword of a call
        nm, _, key = nm.partition("#")
        return [(e.where(), e.info["kw"].get(key)) for _, e in x.events([r], "extcall") if re.search(nm, str(e.info["name"]))]
    raise KeyError(what)


P_ARG = ("opt", "p")
SP = ("k", "m")
# (run, observable, what it must contain, option, whether each or some of the observed values must)
NEEDS = (
    ("Markov(classes)", "a:classes", ("in", "classes"), "classes", "all"),
    ("Spatial_Markov(nofix,P)", "a:x2_realizations", ("dim", "P"), "permutations", "all"),
    ("Spatial_Markov(P)", "a:x2_realizations", ("dim", "P"), "permutations", "all"),
    ("Spatial_Markov(discrete,P)", "a:x2_realizations", ("dim", "P"), "permutations", "all"),
    ("Spatial_Markov(cut,P)", "a:x2_realizations", ("dim", "P"), "permutations", "all"),
    ("Spatial_Markov()", "a:T", ("dim", "k"), "k", "all"),
    ("Spatial_Markov()", "a:T", ("dim", "m"), "m", "all"),
    ("Spatial_Markov(nofix)", "a:T", ("dim", "k"), "k", "all"),
    ("Spatial_Markov(nofix)", "a:T", ("dim", "m"), "m", "all"),
    ("Spatial_Markov(cut)", "a:T", ("in", "cutoffs"), "cutoffs", "all"),
    ("Spatial_Markov(cut)", "a:T", ("in", "lag_cutoffs"), "lag_cutoffs", "all"),
    ("Spatial_Markov(cutlist)", "a:T", ("in", "cutoffs"), "cutoffs", "all"),
    ("Spatial_Markov(cutlist)", "a:T", ("in", "lag_cutoffs"), "lag_cutoffs", "all"),
    ("Spatial_Markov(cut,nofix)", "a:T", ("in", "cutoffs"), "cutoffs", "all"),
    ("Spatial_Markov(cut,nofix)", "a:T", ("in", "lag_cutoffs"), "lag_cutoffs", "all"),
    ("Spatial_Markov(cut)", "a:class_ids", ("in", "cutoffs"), "cutoffs", "all"),
    ("Spatial_Markov(cut)", "a:lclass_ids", ("in", "lag_cutoffs"), "lag_cutoffs", "all"),
    ("Spatial_Markov(cutonly)", "a:T", ("in", "cutoffs"), "cutoffs", "all"), ("Spatial_Markov(cutonly)", "a:T", ("dim", "m"), "m", "all"),
    ("Spatial_Markov(lagonly)", "a:T", ("in", "lag_cutoffs"), "lag_cutoffs", "all"), ("Spatial_Markov(lagonly)", "a:T", ("dim", "k"), "k", "all"),
    ("Spatial_Markov(cutonly,nofix)", "a:T", ("in", "cutoffs"), "cutoffs", "all"), ("Spatial_Markov(cutonly,nofix)", "a:T", ("dim", "m"), "m", "all"),
    ("Spatial_Markov(lagonly,nofix)", "a:T", ("in", "lag_cutoffs"), "lag_cutoffs", "all"), ("Spatial_Markov(lagonly,nofix)", "a:T", ("dim", "k"), "k", "all"),
    ("Spatial_Markov(cutonly,P)", "a:x2_realizations", ("in", "cutoffs"), "cutoffs", "all"), ("Spatial_Markov(lagonly,P)", "a:x2_realizations", ("in", "lag_cutoffs"), "lag_cutoffs", "all"),
    ("Spatial_Markov(name).summary()", "print", ("opt", "variable_name"), "variable_name", "some"),
    ("Spatial_Markov(name).summary(file)", "open", ("opt", "file_name"), "file_name", "some"),
    ("Spatial_Markov(name).summary(file)", "print", ("opt", "variable_name"), "variable_name", "some"),
    ("Spatial_Markov(name).summary(file)", "write", ("opt", "variable_name"), "variable_name", "some"),
    ("homogeneity(named).summary(file)", "write", ("opt", "title2"), "title of summary", "some"),
    ("homogeneity(named).summary(file)", "write", ("opt", "regime_names"), "regime_names", "some"),
    ("homogeneity(named).summary(file)", "write", ("opt", "class_names"), "class_names", "some"),
    ("LISA_Markov(P)", "a:p_values", ("opt", "permutations"), "permutations", "all"),
    ("LISA_Markov(P)", "a:significant_moves", ("opt", "permutations"), "permutations", "all"),
    ("LISA_Markov(P)", "a:significant_moves", ("opt", "significance_level"), "significance_level", "all"),
    ("LISA_Markov(P,geoda)", "a:significant_moves", ("opt", "significance_level"), "significance_level", "all"),
    ("LISA_Markov(P).spillover()", "v", ("opt", "quadrant"), "quadrant", "all"),
    ("homogeneity(named).summary()", "print", ("opt", "regime_names"), "regime_names", "some"),
    ("homogeneity(named).summary()", "print", ("opt", "class_names"), "class_names", "some"),
    ("homogeneity(named).summary()", "print", ("opt", "title"), "title", "some"),
    ("homogeneity(named).summary(file)", "print", ("opt", "title2"), "title of summary", "some"),
    ("homogeneity(named).summary(file)", "open", ("opt", "file_name"), "file_name", "some"),
    ("markov_mobility(B1,ini)", "v", ("in", "ini"), "ini", "all"),
    ("markov_mobility(B2,ini)", "v", ("in", "ini"), "ini", "all"),
    ("Theta(P)", "a:pvalue_left", ("dim", "P"), "permutations", "all"),
    ("Theta(P)", "a:pvalue_right", ("dim", "P"), "permutations", "all"),
    ("SpatialTau(P)", "a:tau_spatial_psim", ("dim", "P"), "permutations", "all"),
    ("Tau_Local_Neighbor(P)", "a:tau_ln_pvalues", ("dim", "P"), "permutations", "all"),
    ("Tau_Local_Neighborhood(P)", "a:tau_lnhood_pvalues", ("dim", "P"), "permutations", "all"),
    ("Tau_Regional(P)", "a:tau_reg_pvalues", ("dim", "P"), "permutations", "all"),
    ("Rose(k)", "a:cuts", ("dim", "s"), "k", "all"),
    ("Rose(k)", "a:counts", ("dim", "s"), "k", "all"),
    ("Rose().permute(two-sided)", "a:p", ("dim", "P"), "permutations", "all"),
    ("Rose().permute(positive)", "a:p", ("dim", "P"), "permutations", "all"),
    ("Rose().permute(negative)", "a:p", ("dim", "P"), "permutations", "all"),
    ("Rose.plot(attribute)", "xk:\\.scatter$#c", ("in", "attribute"), "attribute", "all"),
    ("Rose.plot(attribute,ax)", "xk:\\.scatter$#c", ("in", "attribute"), "attribute", "all"),
    ("Rose.plot(attribute,ax)", "v", ("lib", "ax"), "ax", "all"),
    ("dynamic_lisa_rose(attribute,kw)", "xk:\\.scatter$#c", ("in", "attribute"), "attribute", "all"),
    ("dynamic_lisa_heatmap(p,ax,kw)", "x:heatmap$", P_ARG, "p", "all"),
    ("dynamic_lisa_heatmap(p,ax,kw)", "xk:heatmap$#ax", ("lib", "ax"), "ax", "all"),
    ("dynamic_lisa_composite(p,figsize)", "x:heatmap$", P_ARG, "p", "all"),
    ("dynamic_lisa_composite(p,figsize)", "x:Moran_Local\\.plot$|lisa_cluster$", P_ARG, "p", "all"),
    ("dynamic_lisa_composite(p,figsize)", "xk:\\.figure$#figsize", ("opt", "figsize"), "figsize", "all"),
    ("dynamic_lisa_composite(p,figsize)", "x:Moran_Local\\.plot$|lisa_cluster$", ("in", "gdf"), "gdf", "all"),
    ("dynamic_lisa_composite_explore(all)", "x:interact$", P_ARG, "p", "all"),
    ("dynamic_lisa_composite_explore(all)", "x:interact$", ("opt", "figsize"), "figsize", "all"),
    ("dynamic_lisa_composite_explore(all)", "x:interact$", ("opt", "pattern"), "pattern", "all"),
    ("dynamic_lisa_composite_explore(all)", "x:interact$", ("in", "gdf"), "gdf", "all"),
    ("widget(all) moved", "x:heatmap$", P_ARG, "p", "all"),
    ("widget(all) moved", "x:Moran_Local\\.plot$|lisa_cluster$", P_ARG, "p", "all"),
    ("widget(all) moved", "xk:\\.figure$#figsize", ("opt", "figsize"), "figsize", "all"),
    ("Sequence(subs,indel)", "a:seq_dis_mat", ("in", "subs_mat"), "subs_mat", "all"),
    ("Sequence(subs,indel)", "a:seq_dis_mat", ("opt", "indel"), "indel", "all"),
)
# runs that draw on a given axis: no call may go to another one
ON_AX = (("dynamic_lisa_heatmap(p,ax,kw)", ("figure", "gca", "subplot", "subplots")), ("dynamic_lisa_rose(ax,kw)", ("figure", "gca", "subplot", "subplots", "scatter", "plot")),
         ("dynamic_lisa_vectors(ax,kw)", ("figure", "gca", "subplot", "subplots", "plot", "axis", "xlim", "ylim")),
         ("Rose.plot(attribute,ax)", ("figure", "gca", "subplot", "subplots", "scatter", "plot")),
         ("Rose.plot_vectors(ax,kw)", ("figure", "gca", "subplot", "subplots", "plot", "axis", "xlim", "ylim")))
# keyword options handed on to the drawing library
HANDED = (("dynamic_lisa_heatmap(p,ax,kw)", "heatmap$"), ("dynamic_lisa_rose(ax,kw)", "scatter$"), ("dynamic_lisa_rose(attribute,kw)", "scatter$"),
          ("dynamic_lisa_vectors(ax,kw)", "\\.plot$"), ("Rose.plot(attribute)", "scatter$"), ("Rose.plot(attribute,ax)", "scatter$"), ("Rose.plot_vectors(ax,kw)", "\\.plot$"))
# (run without, run with, observables that must differ, option)
DIFFER = (
    ("Markov()", "Markov(classes)", ("a:classes", "a:transitions", "a:p"), "classes"),
    ("Markov()", "Markov(fill)", ("a:p",), "fill_empty_classes"),
    ("Markov().mfpt", "Markov(fill).mfpt", ("v",), "fill_empty_classes"),
    ("Markov().steady_state", "Markov(fill).steady_state", ("v",), "fill_empty_classes"),
    ("Markov().sojourn_time", "Markov(fill).sojourn_time", ("v",), "fill_empty_classes"),
    ("Markov()", "Markov(silent)", ("print",), "summary"),
    ("FullRank_Markov()", "FullRank_Markov(fill)", ("a:p",), "fill_empty_classes"),
    ("GeoRank_Markov()", "GeoRank_Markov(fill)", ("a:p",), "fill_empty_classes"),
    ("FullRank_Markov()", "FullRank_Markov(fill,silent)", ("a:p", "print"), "fill_empty_classes and summary"),
    ("GeoRank_Markov()", "GeoRank_Markov(fill,silent)", ("a:p", "print"), "fill_empty_classes and summary"),
    ("FullRank_Markov()", "FullRank_Markov(silent)", ("print",), "summary"),
    ("GeoRank_Markov()", "GeoRank_Markov(silent)", ("print",), "summary"),
    ("Spatial_Markov()", "Spatial_Markov(nofix)", ("a:class_ids", "a:lclass_ids", "a:T", "a:transitions"), "fixed"),
    ("Spatial_Markov(P)", "Spatial_Markov(nofix,P)", ("a:x2_realizations",), "fixed"),
    ("Spatial_Markov()", "Spatial_Markov(discrete)", ("a:class_ids", "a:lclass_ids", "a:T", "a:transitions"), "discrete"),
    ("Spatial_Markov(P)", "Spatial_Markov(discrete,P)", ("a:x2_realizations",), "discrete"),
    ("Spatial_Markov()", "Spatial_Markov(cut)", ("a:class_ids", "a:lclass_ids", "a:T", "a:transitions", "a:cutoffs", "a:lag_cutoffs"), "cutoffs"),
    ("Spatial_Markov(cutonly)", "Spatial_Markov(cutonly,nofix)", ("a:lclass_ids", "a:T"), "fixed"), ("Spatial_Markov(lagonly)", "Spatial_Markov(lagonly,nofix)", ("a:class_ids", "a:T"), "fixed"),
    ("Spatial_Markov()", "Spatial_Markov(fill)", ("a:p", "a:P"), "fill_empty_classes"),
    ("Spatial_Markov(nofix)", "Spatial_Markov(nofix,fill)", ("a:p", "a:P"), "fill_empty_classes"),
    ("Spatial_Markov(discrete)", "Spatial_Markov(discrete,fill)", ("a:p", "a:P"), "fill_empty_classes"),
    ("Spatial_Markov(cut)", "Spatial_Markov(cut,fill)", ("a:p", "a:P"), "fill_empty_classes"),
    ("Spatial_Markov().f", "Spatial_Markov(fill).f", ("v",), "fill_empty_classes"),
    ("Spatial_Markov().F", "Spatial_Markov(fill).F", ("v",), "fill_empty_classes"),
    ("Spatial_Markov().s", "Spatial_Markov(fill).s", ("v",), "fill_empty_classes"),
    ("Spatial_Markov().S", "Spatial_Markov(fill).S", ("v",), "fill_empty_classes"),
    ("LISA_Markov()", "LISA_Markov(geoda)", ("a:p", "a:transitions"), "geoda_quads"),
    ("LISA_Markov(P)", "LISA_Markov(P,geoda)", ("a:p", "a:transitions", "a:move_types", "a:significant_moves"), "geoda_quads"),
    ("LISA_Markov(P).spillover()", "LISA_Markov(P).spillover(neighbors_on)", ("v",), "neighbors_on"),
    ("sojourn_time(summary=True)", "sojourn_time(summary=False)", ("print",), "summary"),
    ("steady_state(fill=False)", "steady_state(fill=True)", ("v",), "fill_empty_classes"),
    ("mfpt(fill=False)", "mfpt(fill=True)", ("v",), "fill_empty_classes"),
    ("fmpt(fill=False)", "fmpt(fill=True)", ("v",), "fill_empty_classes"),
    ("markov_mobility(B1)", "markov_mobility(B1,ini)", ("v",), "ini"),
    ("markov_mobility(B2)", "markov_mobility(B2,ini)", ("v",), "ini"),
    ("markov_mobility(P)", "markov_mobility(D)", ("v",), "measure"), ("markov_mobility(P)", "markov_mobility(L2)", ("v",), "measure"),
    ("markov_mobility(D)", "markov_mobility(L2)", ("v",), "measure"), ("markov_mobility(B1)", "markov_mobility(B2)", ("v",), "measure"),
    ("Rose()", "Rose(k=4)", ("a:cuts", "a:counts", "a:bins"), "k"),
    ("Rose().permute(positive)", "Rose().permute(negative)", ("a:p",), "alternative"),
    ("Rose().permute(positive)", "Rose().permute(two-sided)", ("a:p",), "alternative"),
    ("Rose().permute(negative)", "Rose().permute(two-sided)", ("a:p",), "alternative"),
    ("Rose.plot_vectors(arrows=True)", "Rose.plot_vectors(arrows=False)", ("x:annotate|arrow|quiver",), "arrows"),
    ("dynamic_lisa_vectors(arrows=True)", "dynamic_lisa_vectors(arrows=False)", ("x:annotate|arrow|quiver",), "arrows"),
    ("Sequence(interval)", "Sequence(arbitrary)", ("a:seq_dis_mat", "a:subs_mat"), "dist_type"), ("Sequence(interval)", "Sequence(hamming)", ("a:seq_dis_mat",), "dist_type"),
    ("Sequence(arbitrary)", "Sequence(markov)", ("a:seq_dis_mat", "a:subs_mat"), "dist_type"), ("Sequence(markov)", "Sequence(tran)", ("a:seq_dis_mat", "a:subs_mat"), "dist_type"),
    ("Sequence(interval)", "Sequence(markov)", ("a:seq_dis_mat", "a:subs_mat"), "dist_type"),
)
# documented parameters in the order in which they may be passed
PARAMS = {
    "giddy.markov:Markov": "class_ids classes fill_empty_classes summary",
    "giddy.markov:Spatial_Markov": "y w k m permutations fixed discrete cutoffs lag_cutoffs variable_name fill_empty_classes",
    "giddy.markov:LISA_Markov": "y w permutations significance_level geoda_quads", "giddy.markov:FullRank_Markov": "y fill_empty_classes summary",
    "giddy.markov:GeoRank_Markov": "y fill_empty_classes summary", "giddy.markov:kullback": "F", "giddy.markov:prais": "pmat",
    "giddy.markov:homogeneity": "transition_matrices regime_names class_names title", "giddy.markov:sojourn_time": "p summary",
    "giddy.ergodic:steady_state": "P fill_empty_classes", "giddy.ergodic:mfpt": "P fill_empty_classes", "giddy.ergodic:fmpt": "P fill_empty_classes",
    "giddy.ergodic:var_mfpt_ergodic": "p", "giddy.ergodic:var_fmpt_ergodic": "p", "giddy.directional:Rose": "Y w k",
    "giddy.directional:Rose.permute": "permutations alternative", "giddy.directional:Rose.plot": "attribute ax", "giddy.directional:Rose.plot_vectors": "arrows",
    "giddy.mobility:markov_mobility": "p measure ini", "giddy.rank:Theta": "y regime permutations", "giddy.rank:Tau": "x y", "giddy.rank:SpatialTau": "x y w permutations",
    "giddy.rank:Tau_Local": "x y", "giddy.rank:Tau_Local_Neighbor": "x y w permutations", "giddy.rank:Tau_Local_Neighborhood": "x y w permutations",
    "giddy.rank:Tau_Regional": "x y regime permutations", "giddy.sequence:Sequence": "y subs_mat dist_type indel cluster_type", "giddy.util:shuffle_matrix": "X ids",
    "giddy.util:get_lower": "matrix", "giddy.util:fill_empty_diagonals": "p", "giddy.markov:LISA_Markov.spillover": "quadrant neighbors_on",
    "giddy.markov:Spatial_Markov.summary": "file_name", "giddy.plotting:dynamic_lisa_heatmap": "rose p ax", "giddy.plotting:dynamic_lisa_rose": "rose attribute ax",
    "giddy.plotting:dynamic_lisa_vectors": "rose ax arrows", "giddy.plotting:dynamic_lisa_composite": "rose gdf p figsize",
    "giddy.plotting:dynamic_lisa_composite_explore": "rose gdf pattern p figsize",
}
# documented, and accepted by keyword
KEYWORD = {"giddy.directional:Rose.plot_vectors": "ax", "giddy.directional:Rose.plot": "**", "giddy.plotting:dynamic_lisa_heatmap": "**", "giddy.plotting:dynamic_lisa_rose": "**",
           "giddy.plotting:dynamic_lisa_vectors": "**"}
GROUPS = ["markov", "spatial", "lisa", "tests", "ergodic", "mobility", "rank", "rose", "plotting", "sequence", "components", "options"]


def what_of(what):
    k, _, nm = what.partition(":")
    return nm if k == "a" else "the result" if k == "v" else "the printed text" if k == "print" else "the file name" if k == "open" else "the text of the file" if k == "write" else "the call " + re.sub(r"[\\$]", "", nm).replace("#", " ")


def unsure(deps):
    return any(q[0] in ("unk", "widen") for q in deps)


@prop("C26", GROUPS, "each documented option, passed on each route, is among the dependences (data, extents or library calls) of the results it is documented to change; "
      "runs that differ in one option only differ in those results; keyword options reach the drawing call and the given axes; signatures accept every documented parameter in its documented place")
def c26(x):
    for nm, what, dep, opt, how in NEEDS:
        r = x.run(nm)
        if r is None:
            continue
        tag = "%s %s %s" % (nm, opt, what)
        if not r.ok:
            x.und(tag, "raises")
            continue
        ob = observed(x, r, what)
        if not ob:
            x.und(tag, "not observed")
            continue
        x.count("dependences of results on options")
        got = [(w, reach(x, r, v)) for w, v in ob]
        miss = [w for w, d in got if dep not in d]
        if how == "some" and len(miss) < len(got) or not miss:
            x.ok(tag)
        elif any(unsure(d) for w, d in got if dep not in d):
            x.und(tag, "not known")
        else:
            x.bad("%s|%s ignored" % (entry(nm), opt), miss[0], "%s: %s does not depend on the option %s" % (nm, what_of(what), opt))
    for a, b, whats, opt in DIFFER:
        ra, rb = x.run(a), x.run(b)
        if ra is None or rb is None or not ra.ok or not rb.ok:
            if ra is not None and rb is not None and ra.ok != rb.ok:
                x.ok("%s / %s" % (a, b))
            continue
        for what in whats:
            oa, ob = observed(x, ra, what), observed(x, rb, what)
            tag = "%s / %s %s" % (a, b, what)
            x.count("results compared under two option values")
            if not oa and not ob:
                x.und(tag, "not observed")
                continue
            ka, kb = [vkey2(x, ra, v) for _, v in flat(oa)], [vkey2(x, rb, v) for _, v in flat(ob)]
            if ka != kb:
                x.ok(tag)
            elif any(unsure(reach(x, ra, v)) for _, v in oa):
                x.und(tag, "not known")
            else:
                x.bad("%s|%s ignored" % (entry(b), opt), ob[0][0], "%s is the same in %s and %s: the option %s is ignored" % (what_of(what), a, b, opt))
    for nm, banned in ON_AX:
        r = x.run(nm)
        if r is None or not r.ok:
            continue
        x.count("runs drawing on given axes")
        for _, e in x.events([r], "extcall"):
            n = str(e.info["name"])
            if n.startswith("matplotlib.pyplot.") and n.split(".")[-1] in banned and n.count(".") == 2:
                x.badev(r, e, "ax ignored", "the axes given are not the ones drawn on")
        d = reach(x, r, r.val)
        if ("lib", "ax") in d or "heatmap" in nm:
            x.ok(nm + " ax")
        elif not unsure(d):
            x.bad("%s|ax not returned" % entry(nm), where_of(x, r), "the axes given are not the ones returned")
    for nm, pat in HANDED:
        r = x.run(nm)
        if r is None or not r.ok:
            continue
        evs = [e for _, e in x.events([r], "extcall") if re.search(pat, str(e.info["name"]))]
        if not evs:
            x.und(nm + " keywords", "no drawing call")
            continue
        x.count("drawing calls given keyword options")
        ds = [(e, reach(x, r, list(e.info["args"]) + list(e.info["kw"].values()))) for e in evs]
        if any(("in", "kwargs") not in d for _, d in ds):
            e = next(e for e, d in ds if ("in", "kwargs") not in d)
            x.badev(r, e, "keywords dropped", "the keyword options do not reach the drawing call")
        else:
            x.ok(nm + " keywords")
        # one taken out of the set must be used in its place
        for _, p in x.events([r], "kwpop"):
            k = ("opt", "kw:" + str(p.info["key"]))
            if any(k in reach(x, r, list(e.info["args"]) + list(e.info["kw"].values())) for _, e in x.events([r], "extcall")):
                x.ok("%s %s" % (nm, k[1]))
            else:
                x.badev(r, p, "keyword %s dropped" % p.info["key"], "the keyword option %s is taken out and not used" % p.info["key"])
    for nm in ("dynamic_lisa_composite(p,figsize)", "dynamic_lisa_heatmap(p,ax,kw)", "widget(all) moved"):
        r = x.run(nm)
        if r is None or not r.ok:
            continue
        for _, e in x.events([r], "cmp"):
            for a, b in ((e.info["a"], e.info["b"]), (e.info["b"], e.info["a"])):
                if isinstance(a, Node) and isinstance(b, Node) and any(q.op == "fn" and q.args[0] == "p_sim" for q in walk(a)):
                    x.count("significance comparisons")
                    v = constof(b)
                    if isinstance(v, float):
                        x.badev(r, e, "p ignored", "compares with %s although a threshold is given" % v)
                    else:
                        x.ok(nm + " cmp")
    signatures(x)


def flat(ob):
    for w, v in ob:
        if isinstance(v, list):
            for q in v:
                yield w, q
        else:
            yield w, v


def signatures(x):
    for path, ps in PARAMS.items():
        try:
            f = x.S.func(path)
            if isinstance(f, Cls):
                g = x.I.findattr(f, "__init__", x.S.base)
                f = g[0] if g else None
        except Exception:
            f = None
        if not isinstance(f, Func) or not isinstance(f.node, ast.FunctionDef) or f.node.args.vararg is not None:
            x.und("signature " + path, "not a plain function")
            continue
        if any(not isinstance(d, ast.Name) or d.id not in ("staticmethod", "classmethod") for d in f.node.decorator_list):
            x.und("signature " + path, "decorated")
            continue
        a = f.node.args
        names = [q.arg for q in a.posonlyargs + a.args]
        if names and names[0] == "self":
            names = names[1:]
        kw = [q.arg for q in a.kwonlyargs]
        x.count("signatures")
        w = "%s:%d (%s)" % (path.split(":")[0].replace(".", "/") + ".py", f.node.lineno, path.split(":")[1])
        short = path.split(":")[1]
        want = ps.split()
        bad = False
        for i, p in enumerate(want):
            if p not in names and p not in kw and a.kwarg is None:
                x.bad("%s|%s not accepted" % (short, p), w, "the documented parameter %s is not accepted" % p)
                bad = True
            elif p in names and names.index(p) != i:
                x.bad("%s|%s misplaced" % (short, p), w, "the documented parameter %s is argument %d, not %d" % (p, names.index(p) + 1, i + 1))
                bad = True
            elif p in kw:
                x.bad("%s|%s keyword only" % (short, p), w, "the documented parameter %s can no longer be passed by position" % p)
                bad = True
        for p in KEYWORD.get(path, "").split():
            if p == "**" and a.kwarg is None or p != "**" and p not in names and p not in kw and a.kwarg is None:
                x.bad("%s|%s not accepted" % (short, p), w, "the documented parameter %s is not accepted" % ("keyword options" if p == "**" else p))
                bad = True
        # parameters named in the documentation of the function itself
        if not bad:
            x.ok("signature " + path)

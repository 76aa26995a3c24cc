"""Write MANIFEST.json from the rules that exist and the property list."""
import json
import os
import sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from engine import rulelib, rules_ev  # noqa: E402,F401
from engine import rules_val, rules_inf, rules_ctx, rules_lazy, rules_stat, rules_dim, rules_time, rules_tab, rules_code, rules_sym, rules_exact, rules_ids, rules_opt, rules_calls  # noqa: E402,F401

TECH = {
    "C01": "alias and mutation analysis (abstract interpretation of the source; ownership of every written object)",
    "C02": "effect analysis of process-wide state on every normal and exceptional exit (abstract interpretation)",
    "C03": "effect analysis of random draws per entry point and configuration (abstract interpretation)",
    "C04": "information flow: identity and dependence of result terms with and without inference (abstract interpretation)",
    "C05": "dataflow of permutation draws: loop placement, freshness, joint use, trip counts (abstract interpretation)",
    "C06": "interval analysis with symbolic sizes of pseudo p-value terms (abstract interpretation)",
    "C07": "path analysis of option values: outcome of every documented and one undocumented value (abstract interpretation)",
    "C08": "symbolic shape analysis of every documented attribute (abstract interpretation)",
    "C09": "typestate of lazily computed attributes over read orders and object interleavings (abstract interpretation)",
    "C10": "numeric type and integrality flow into every array store (abstract interpretation)",
    "C11": "symbolic dimension analysis: index ranges, loop extents and broadcasting (abstract interpretation)",
    "C12": "index term analysis of every transition count (abstract interpretation)",
    "C13": "divisor and logarithm argument analysis with empty-class facts (abstract interpretation)",
    "C14": "term matching of tail probabilities with the reported statistic and degrees of freedom; sign analysis",
    "C15": "constant folding of the code tables and of the label branches (abstract interpretation)",
    "C16": "symmetry and zero-diagonal facets, injectivity of deduplication keys (abstract interpretation)",
    "C17": "order-only information flow from x and y (abstract interpretation)",
    "C18": "module import graph and load-time import effects",
    "C19": "id-versus-position typing of indices, loop extents and call-graph recursion (abstract interpretation)",
    "C20": "exception-flow analysis of every handler (abstract interpretation)",
    "C21": "effect analysis of output and files on every path (abstract interpretation)",
    "C22": "name resolution and forwarding analysis of aliases (abstract interpretation)",
    "C23": "taint of hash-ordered iteration, identity, time and environment (abstract interpretation)",
    "C24": "term analysis of probability division and absorbing-state tests (abstract interpretation)",
    "C25": "symbolic analysis of sector edges, angle range and histogram call (abstract interpretation)",
    "C26": "influence analysis: every documented parameter against the results it must reach (abstract interpretation)",
    "C28": "history independence: dependence of later calls on state earlier calls changed; comparison of result terms across call orders (abstract interpretation)",
    "C27": "noninterference: absence of weights, lag and foreign-regime dependence in result terms (abstract interpretation)",
}
NOTE = ("Decided over the abstract semantics of the current source for all inputs of symbolic size at every listed entry point; "
        "trusts the models of numpy/scipy/libpysal/esda/mapclassify/quantecon routines in engine/models*.py and the documented input types. "
        "Obligations that the analysis cannot decide are reported as undecided in the evidence and never raise an alarm.")
NA = {
    "C30": "the residual of an eigenvector/linear solve is a numerical quantity of library code; no static rule over the Python source bounds it",
    "C31": "correctness of the matrix formulas is a numerical identity through linear solves; not decidable from syntax or dataflow",
    "C32": "equality of the tree-based counts with the all-pairs definition needs an inductive algorithm proof over data-dependent loops, out of reach of a static analysis here",
    "C33": "optimality of the dynamic programme is an inductive functional-correctness statement over runtime cost values",
    "C34": "agreement with published formulas for eigenvalue and determinant measures is numerical; statically only comparison with a restated formula would be possible",
    "C35": "a distributional statement about numpy's generator; the static part (permutation, not resampling; fresh per replicate) is C05",
}


def main():
    ids = [json.loads(x)["id"] for x in open(os.path.join(HERE, "properties.jsonl"))]
    checks, na = [], []
    for p in ids:
        if p in rulelib.RULES:
            checks.append({"property": p, "quick_cmd": "python3 check.py " + p, "thorough_cmd": "python3 check.py " + p,
                           "evidence_file": "evidence/%s.json" % p, "technique": "static analysis: " + TECH[p],
                           "level": "other", "level_note": NOTE})
        else:
            na.append({"property": p, "reason": NA.get(p, "rule not built yet")})
    m = {"version": 1, "setup_cmd": "python3 -m compileall -q engine check.py", "checks": checks, "not_applicable": na,
         "notes": "Every check analyses /repo's current source by abstract interpretation (engine/); nothing of giddy is executed."}
    json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)


main()

#!/usr/bin/env python3
"""check.py <property> : decide one property over the source in /repo."""
import json
import os
import signal
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)

from engine import cases, rulelib  # noqa: E402
from engine.scen import Timeout  # noqa: E402
from engine import rules_ev  # noqa: E402,F401
from engine import rules_val, rules_inf, rules_ctx, rules_lazy, rules_stat, rules_dim, rules_time, rules_tab, rules_code, rules_sym, rules_exact, rules_ids, rules_opt, rules_calls  # noqa: E402,F401


def known():
    out = {}
    p = os.path.join(HERE, "known_findings.json")
    if os.path.exists(p):
        for d in json.load(open(p))["findings"]:
            out[d["key"]] = d
    return out


def analyse(pid, root):
    t0 = time.time()
    rules = rulelib.RULES[pid]
    groups = set()
    for r in rules:
        groups |= set(r.groups)
    try:
        sess = cases.all_runs(root, groups)
        miss = None
    except cases.Missing as e:
        if pid != "C22":
            raise
        sess, miss = cases.Sess(root), e
    x = rulelib.X(pid, sess)
    if miss is not None:
        x.bad("missing " + str(miss).replace(":", "."), str(miss).split(":")[0], "the public name %s is not defined" % str(miss).replace(":", "."))
    for nm in sess.crashed:
        x.und(nm, "beyond the analysis")
    for r in rules:
        try:
            r.fn(x)
        except (cases.Missing, Timeout):
            raise
        except Exception as e:      # a limit of the rule, never of the code
            if os.environ.get("VERIF_DEBUG"):
                raise
            x.und("rule", "stopped at %s: %s" % (type(e).__name__, e))
    return x, rules, time.time() - t0


def up(*a):
    raise Timeout()


def main(argv):
    pid = argv[1]
    pos = [a for a in argv[2:] if not a.startswith("-")]
    root = pos[0] if pos else "/repo"
    verbose = "-v" in argv
    tier = os.environ.get("VERIF_TIER", "quick")
    signal.signal(signal.SIGALRM, up)
    signal.alarm(800)
    try:
        x, rules, wall = analyse(pid, root)
    except Timeout:
        print("%s: undecided, the analysis did not end in time" % pid)
        return 0
    except cases.Missing as e:
        print("ERROR: public entry point not found: %s" % e)
        return 2
    kn = known()
    new, old = [], []
    for k, f in sorted(x.findings.items()):
        (old if k in kn else new).append(f)
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    runs = sess_runs(x)
    ev = {
        "property": pid, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1")), "level": "other",
        "coverage": {
            "explanation": "Abstract interpretation of the source of every listed entry point over symbolic inputs (sizes and contents unknown); "
                           "the rule is evaluated on the effects and result terms of all paths. Obligations are (entry point, result) pairs; "
                           "'discharged' were decided to hold, the rest were left undecided (never counted as holding).",
            "rule": "; ".join(r.text for r in rules),
            "obligations": len(x.oks) + len(x.unds) + len(x.findings),
            "discharged": len(x.oks),
            "undecided": len(x.unds),
            "entry_point_runs": len(runs),
            "functions_analysed": len(x.I.funcs_seen),
            "call_sites_analysed": x.I.calls_seen,
            "events": sum(len(r.events) for r in runs),
            "counts": x.counts,
            "samples": [str(s) for s in x.oks[:12]],
            "undecided_samples": ["%s: %s" % u for u in x.unds[:12]],
            "functions": sorted(str(f) for f in x.I.funcs_seen),
        },
        "assumptions": ["library routines behave as their models in engine/models*.py state",
                        "inputs have the documented types and shapes"],
        "wall_s": round(wall, 2), "violations": len(new),
    }
    with open(os.path.join(HERE, "evidence", pid + ".json"), "w") as fh:
        json.dump(ev, fh, indent=1, default=str)
    for f in old:
        print("KNOWN-FINDING: property=%s %s" % (pid, kn[f.key].get("what", f.msg)))
    if verbose:
        for u in x.unds:
            print("undecided:", *u)
        print(len(x.oks), "ok", len(x.unds), "undecided", x.counts)
    if not new:
        print("%s: %d obligations, %d discharged, %d undecided, %.1f s" % (pid, ev["coverage"]["obligations"], len(x.oks), len(x.unds), wall))
        return 0
    rp = os.path.join(HERE, "evidence", "replay_%s.txt" % pid)
    with open(rp, "w") as fh:
        for f in new:
            fh.write("property %s\nkey      %s\nwhere    %s\nwhat     %s\npath     %s\n\n" % (pid, f.key, f.where, f.msg, " > ".join(f.path)))
    for f in new:
        print("  %s  %s  %s" % (f.key, f.where, f.msg))
    print("VIOLATION property=%s replay=%s" % (pid, rp))
    return 1


def sess_runs(x):
    return list(x.runs.values())


if __name__ == "__main__":
    sys.exit(main(sys.argv))

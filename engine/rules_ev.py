"""Rules decided by effects seen along every path of the entry points."""
import ast
import os
import re
import sys
from .rulelib import *  # noqa: F401,F403
from .rulelib import prop, entry, opts, fractional, tainted
from .scen import Run
from .node import Node, constof  # noqa: F811

ALL = ["markov", "spatial", "lisa", "tests", "ergodic", "mobility", "rank", "rose", "plotting", "sequence", "util", "components"]


# ---------------------------------------------------------------- C01
@prop("C01", ALL + ["chains"], "no in-place change of an object reachable from a caller argument or an earlier result, on any path of any entry point")
def c01(x):
    for r in x.runs.values():
        hit = False
        for e in r.events:
            if e.kind == "mutate":
                own = sorted(o for o in e.owners if o.startswith(("param:", "result:")) and o != "param:kwargs")
                if own:
                    hit = True
                    for o in own:
                        x.badev(r, e, "mutate " + o, "changes in place (%s) an object owned by the caller: %s" % (e.how, o))
        x.count("in-place changes examined", sum(e.kind in ("mutate", "store") for e in r.events))
        if not hit:
            x.ok(r.name)


# ---------------------------------------------------------------- C02
def dirty(st):
    return [f for f, v in st.glob.items() if v == "dirty"]


@prop("C02", ALL, "no process-wide setting differs at any exit; no reseeding; both draws of a two-period plot start from the entry state, which is restored")
def c02(x):
    for r in list(x.runs.values()) + [loadrun(x)]:
        hit = False
        for e in r.events:
            if e.kind == "global":
                hit = True
                x.badev(r, e, "global " + str(e.info.get("lib")), "sets " + e.what)
            elif e.kind == "seed":
                hit = True
                x.badev(r, e, "seed", "reseeds the random generator")
            elif e.kind == "rcdirty":
                hit = True
                x.badev(r, e, "rc on exception", "leaves matplotlib settings changed when an exception is raised")
        for how, sts in (("return", [r.st] if r.ok else []), ("exception", [s for s, _ in r.excs])):
            for s in sts:
                for f in dirty(s):
                    hit = True
                    ge = [e for e in r.events if e.kind == "globalcall" and e.fam == f]
                    e = ge[0] if ge else None
                    x.bad("%s|dirty %s" % (entry(r.name), f), e.where() if e else "?",
                          "%s: leaves the process-wide setting '%s' changed on %s [%s]" % (r.name, f, how, e.text if e else ""), e.stack if e else ())
        if getattr(r, "group", "") == "plotting":
            draws = [e for e in r.events if e.kind == "rng"]
            if len(draws) >= 2:
                toks = [e.token for e in draws]
                if all(isinstance(t, str) for t in toks):
                    for e in draws:
                        if e.token.startswith("after"):
                            hit = True
                            x.badev(r, e, "draw state", "the two periods are not evaluated from the same random state")
            if draws and r.ok:
                t = r.st.glob.get("rng", "start")
                if isinstance(t, str) and t.startswith("after"):
                    hit = True
                    x.badev(r, draws[-1], "state restored", "does not put the random state back before returning")
        if not hit:
            x.ok(r.name)


def loadrun(x):
    r = Run("import giddy", None, None, [], x.S.load_events)
    r.group = "load"
    return r


# ---------------------------------------------------------------- C03
def wants_rng(r):
    nm = r.name
    o = opts(nm)
    if r.group in ("spatial", "rank", "lisa") and "P" in o and "." not in re.sub(r"\([^()]*\)", "", nm):
        return True
    return nm.startswith("shuffle_matrix") or ".permute(" in nm


@prop("C03", ALL + ["chains"], "no draw from any generator on the paths of an entry point that was not asked for permutation inference")
def c03(x):
    for r in list(x.runs.values()) + [loadrun(x)]:
        hit = False
        for e in r.events:
            if e.kind not in ("rng", "seed"):
                continue
            if r.name == "Theta(default)":
                continue        # inference is the documented default here
            if wants_rng(r) or r.group == "chains" and r.name.startswith("chain:"):
                continue
            rk = e.info.get("rk")
            if rk == "ties":
                continue
            if rk == "lisa" and r.group == "plotting":
                continue
            if rk == "fixedseed":
                continue
            hit = True
            x.badev(r, e, "draw", "draws random numbers although no permutation inference was requested")
        x.count("draw sites examined", sum(e.kind == "rng" for e in r.events))
        if not hit:
            x.ok(r.name)


# ---------------------------------------------------------------- C07
def raises_of(r):
    return {(y.name, y.site) for _, y in r.excs}


def nearly(vals, case=False):
    from .cases import near
    return tuple("bogus %s" % v for v in near(vals, case))


FAMS = [("markov_mobility", "mobility", lambda m: "markov_mobility(%s)" % m, ("P", "D", "L2", "B1", "B2"), ("bogus", "bogus None") + nearly(("P", "D", "L2", "B1", "B2"), True)),
        ("markov_mobility with ini", "mobility", lambda m: "markov_mobility(%s,ini)" % m, ("P", "D", "L2", "B1", "B2"), ("bogus",)),
        ("Sequence", "sequence", lambda m: "Sequence(%s)" % m, ("interval", "hamming", "arbitrary", "markov", "tran"), ("bogus", "None") + nearly(("interval", "hamming", "arbitrary", "markov", "tran"))),
        ("Rose.permute", "rose", lambda m: "Rose().permute(%s)" % m, ("two.sided", "positive", "negative"), ("bogus",) + nearly(("two.sided", "positive", "negative"))),
        ("Rose(k=4).permute", "rose", lambda m: "Rose(k=4).permute(%s)" % m, ("two.sided", "positive", "negative"), ("bogus",)),
        ("Rose(k).permute", "rose", lambda m: "Rose(k).permute(%s)" % m, ("two.sided", "positive", "negative"), ("bogus",))]


@prop("C07", ["mobility", "sequence", "rose", "ergodic", "util"], "every documented option value reaches a normal return, every other value only raises")
def c07(x):
    for nm, g, f, good, bogus in FAMS:
        base = None
        for m in good:
            r = x.run(f(m))
            if r is None:
                continue
            if r.ok:
                x.ok(r.name)
            else:
                x.bad("%s|%s" % (nm, m), where_exc(r), "%s: the documented value %r always raises %s" % (r.name, m, r.exc_names()))
            base = raises_of(r) if base is None else base | raises_of(r)
            for _, e in x.events([r], "undef"):
                x.badev(r, e, "undef " + e.info["name"], "reads %s before it is defined" % e.info["name"])
            if r.ok and r.group == "mobility" and isinstance(r.val, Node) and r.val.op == "const" and r.val.args[0] is None:
                x.bad("%s|%s" % (nm, m), "", "%s: returns nothing for the documented value %r" % (r.name, m))
        for m in bogus:
            r = x.run(f(m))
            if r is None:
                continue
            und = [e for e in r.events if e.kind == "undef"]
            if und:
                x.badev(r, und[0], "undef", "an undocumented value reaches a variable that was never assigned")
            elif not r.ok:
                x.ok(r.name)
            elif raises_of(r) - (base or set()):
                x.und(r.name, "raises on some path only")
            else:
                x.bad("%s|undocumented value" % nm, "", "%s: an undocumented value is accepted and a result is returned" % r.name)
    # fill of empty rows
    for fn in ("steady_state", "mfpt"):
        for v in ("", "fill=False", "fill=True"):
            r = x.run("%s(%s)" % (fn, v))
            if r is None:
                continue
            ve = [(s, e) for s, e in r.excs if e.name == "ValueError"]
            if not r.ok:
                x.bad("%s|%s" % (fn, v), where_exc(r), "%s: always raises %s" % (r.name, r.exc_names()))
                continue
            empties = [1 for s, e in ve if empty_pc(s.pc)]
            if v == "fill=True":
                if empties and not any(True for s, e in ve if not empty_pc(s.pc)):
                    x.bad("%s|fill" % fn, where_exc(r), "%s: rejects empty rows although filling was requested" % r.name)
                else:
                    x.ok(r.name)
            else:
                if ve:
                    for what, some in (("some rows", 1), ("all rows", 2)):
                        got = [pc_holds(s.pc, some) for s, e in ve if empty_pc(s.pc)]
                        if got and all(g is False for g in got):
                            x.bad("%s|%s" % (fn, what), where_exc(r), "%s: a matrix in which %s are without observations is not rejected when filling was not requested" % (r.name, what))
                            break
                        if True not in got:
                            x.und(r.name, "when %s are empty" % what)
                    else:
                        x.ok(r.name)
                    if [e for s, e in ve if empty_pc(s.pc) and pc_holds(s.pc, 0)]:
                        x.bad("%s|full rows" % fn, where_exc(r), "%s: a matrix without empty rows is rejected" % r.name)
                else:
                    x.bad("%s|no fill" % fn, "", "%s: rows without observations are not rejected when filling was not requested" % r.name)
    for v, want in (("1d", False), ("2d", True), ("3d", True)):
        r = x.run("fill_empty_diagonals(%s)" % v)
        if r is None:
            continue
        if r.ok == want:
            x.ok(r.name)
        elif want:
            x.bad("fill_empty_diagonals|" + v, where_exc(r), "%s: always raises %s" % (r.name, r.exc_names()))
        elif not r.excs:
            x.bad("fill_empty_diagonals|" + v, "", "%s: an array of unsupported rank is accepted" % r.name)


def empty_pc(pc):
    for c, t in pc:
        for n in N.walk(c):
            if n.op == "cmp" and n.args[0] in ("eq", "le", "lt", "ne", "gt", "ge") and any(y.op == "sum" for y in N.walk(n)):
                return True
    return False


def pc_holds(pc, some):
    """Do the conditions hold for a matrix with no (0), some (1) or only (2) empty rows?  None: not known."""
    out = True
    for c, t in pc:
        if not isinstance(c, Node) or not empty_pc([(c, t)]):
            continue
        v = row_cond(c, some)
        if v is None:
            return None
        out = out and bool(v) == bool(t)
    return out


def row_cond(n, some):
    """Value of a condition on which rows are empty: True, False, None."""
    if n.op == "not":
        v = row_cond(n.args[0], some)
        return None if v is None else not v
    if n.op in ("and", "or"):
        vs = [row_cond(a, some) for a in n.args]
        return None if None in vs else all(vs) if n.op == "and" else any(vs)
    if n.op in ("cast", "copy"):
        return row_cond(n.args[0], some)
    if n.op in ("any", "all"):
        q = row_vec(n.args[0], some)
        return None if q is None else q[0 if n.op == "any" else 1]
    if n.op == "cmp":
        c = constof(n.args[2])
        if n.args[1].op in ("any", "all", "cast") and c in (0, 1):
            v = row_cond(n.args[1], some)
            return None if v is None else {"gt": v > c, "ge": v >= c, "eq": v == c, "ne": v != c, "lt": v < c, "le": v <= c}[n.args[0]]
        if n.args[1].op in ("sum", "count_nonzero") and c == 0 and n.args[1].args[0].dt == "b":
            q = row_vec(n.args[1].args[0], some)
            return None if q is None else {"gt": q[0], "ge": True, "eq": not q[0], "ne": q[0], "lt": False, "le": not q[0]}[n.args[0]]
    return None


def row_vec(n, some):
    """(any, all) of a test made on each row."""
    if n.op == "not":
        q = row_vec(n.args[0], some)
        return None if q is None else (not q[1], not q[0])
    if n.op == "cmp" and n.args[1].op == "sum" and n.args[1].args[0].rank == 2 and constof(n.args[2]) == 0:
        if n.args[1].args[1] in (0, -2):
            # columns: all, none or any number of them may add up to zero
            return {0: (True, False), 1: (False, False), 2: (True, True)}[some] if n.args[0] in ("eq", "le") else {0: (True, False), 1: (True, True), 2: (False, False)}[some] if n.args[0] in ("ne", "gt") else None
        if n.args[1].args[1] not in (1, -1):
            return None
        empty = {0: (False, False), 1: (True, False), 2: (True, True)}[some]
        return empty if n.args[0] in ("eq", "le") else (not empty[1], not empty[0]) if n.args[0] in ("ne", "gt") else None
    return None


def where_exc(r):
    return "; ".join("%s:%s" % (e.site[0], e.site[1]) if isinstance(e.site, tuple) else str(e.site) for _, e in r.excs[:2])


# ---------------------------------------------------------------- C10
@prop("C10", ALL, "no possibly fractional value is stored into storage whose integer type comes from an input, a count or an integer literal")
def c10(x):
    for r in x.runs.values():
        hit = False
        for e in r.events:
            if e.kind == "trunc":
                if e.how == "int()" and not any(d[0] in ("in", "rng") and not d[1].endswith(("w", "w.card", "w.n")) for d in e.val.deps):
                    continue
                fr = fractional(e.val)
                if fr and not tainted(e.val):
                    hit = True
                    x.badev(r, e, "trunc " + e.func.split(".")[-1], "a fractional value is cut to an integer (%s)" % e.how)
                else:
                    x.und(r.name, "integer storage of a value of unknown type")
        x.count("stores examined", sum(e.kind == "store" for e in r.events))
        if not hit:
            x.ok(r.name)


# ---------------------------------------------------------------- C18
ANALYTIC = ("markov", "ergodic", "mobility", "rank", "directional", "sequence", "util", "components")
BANNED = {"matplotlib", "seaborn", "splot", "ipywidgets", "geopandas", "IPython", "bokeh", "plotly", "altair", "contextily", "folium", "mpl_toolkits", "notebook", "jupyter"}


def declared(root):
    try:
        txt = open(os.path.join(root, "pyproject.toml")).read()
    except OSError:
        return None
    m = re.search(r"^dependencies\s*=\s*\[(.*?)\]", txt, re.S | re.M)
    names = re.findall(r"[\"']\s*([A-Za-z0-9_.\-]+)", m.group(1)) if m else []
    return {re.split(r"[<>=!~]", n)[0].replace("-", "_") for n in names}


@prop("C18", ALL, "imports executed while the package loads, or on analytical paths, are the package itself, the standard library or declared dependencies")
def c18(x):
    dec = declared(x.I.root) or set()
    okroots = dec | {"numpy", "giddy"} | set(sys.stdlib_module_names)

    def look(r, e, loading):
        root = e.info["name"].lstrip(".").split(".")[0]
        if not root or e.info["name"].startswith("."):
            return False
        if root in BANNED:
            x.badev(r, e, "import " + root, "%s needs %s" % ("importing giddy" if loading else "an analytical path", root))
            return True
        if loading and root not in okroots:
            x.badev(r, e, "import " + root, "importing giddy needs the undeclared package %s" % root)
            return True
        return False
    r = loadrun(x)
    n = 0
    # modules that come with the package or with an analytical module
    edges = {}
    for e in r.events:
        if e.kind == "intimport":
            edges.setdefault(e.site[0], set()).add(e.info["name"])
    reach, todo = set(), ["giddy"] + ["giddy." + m for m in ANALYTIC]
    while todo:
        m = todo.pop()
        if m not in reach:
            reach.add(m)
            todo += edges.get(m, ())
    for e in r.events:
        if e.kind == "import":
            n += 1
            if e.site[0] in reach and look(r, e, True):
                continue
            x.ok("load: %s in %s" % (e.info["name"], e.site[0]))
        elif e.kind == "badimport":
            x.badev(r, e, "badimport " + e.info["name"], "imports a name that does not exist: " + e.info["name"])
    plotmods = {e.site[0] for e in r.events if e.kind == "import" and e.info["name"].split(".")[0] in BANNED}
    for r in x.runs.values():
        if r.group == "plotting" or ".plot" in r.name:
            continue
        hit = False
        for e in r.events:
            if e.kind == "import":
                n += 1
                hit = look(r, e, False) or hit
            elif e.kind == "intimport" and e.info["name"] in plotmods:
                hit = True
                x.badev(r, e, "import " + e.info["name"], "an analytical path loads the plotting module")
        if not hit:
            x.ok(r.name)
    x.count("import statements reached", n)


# ---------------------------------------------------------------- C20
@prop("C20", ALL, "no handler on a path of an entry point turns an error of the computation into a normal result; searches for a value that raise when it is unknown are not passed over for unknown values")
def c20(x):
    for r in list(x.runs.values()) + [loadrun(x)]:
        hit = False
        for e in r.events:
            if e.kind == "globalcall" and e.what in ("numpy.seterr",) and False:
                pass
            if e.kind != "except" or not e.swallow:
                continue
            if e.importonly and set(e.names) <= {"ImportError", "ModuleNotFoundError", "PackageNotFoundError"}:
                continue
            if set(e.names) <= {"PackageNotFoundError", "ImportError", "ModuleNotFoundError", "StopIteration"}:
                continue
            if set(e.names) <= {"AttributeError"} and cachetry(e.body):
                continue
            if set(e.names) <= {"KeyError"} and keytry(e.body):
                continue
            hit = True
            x.badev(r, e, "handler " + ",".join(sorted(e.names)), "turns %s raised in '%s' into a normal result" % ("/".join(e.names), e.trybody))
        x.count("handlers examined", sum(e.kind == "except" for e in r.events))
        if not hit:
            x.ok(r.name)
    n = 0
    for mod in sorted(x.I.trees):
        tree = x.I.trees[mod]
        tree = tree[0] if isinstance(tree, tuple) else tree
        for f in ast.walk(tree):
            if isinstance(f, (ast.FunctionDef, ast.AsyncFunctionDef)):
                for test, line, use in skipped(f):
                    n += 1
                    x.bad("%s.%s|skipped" % (mod, f.name), "%s.py:%d (%s)" % (mod.replace(".", "/"), line, f.name),
                          "values that '%s' would report as unknown are left out without a word by '%s'" % (use, test))
    x.count("values skipped before a search", n)


def skipped(f):
    """Searches list.index(value) that only known values reach: the others are passed over, with nothing done for them."""
    def member(t):
        if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
            m = member(t.operand)
            return m and (m[0], m[1], not m[2])
        if isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.ops[0], (ast.In, ast.NotIn)):
            return ast.unparse(t.left), ast.unparse(t.comparators[0]), isinstance(t.ops[0], ast.In)
        return None

    def search(ss, m):
        for s in ss:
            for c in ast.walk(s):
                if isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and c.func.attr == "index" and len(c.args) == 1 and \
                        ast.unparse(c.args[0]) == m[0] and ast.unparse(c.func.value) == m[1]:
                    return ast.unparse(c)
        return None
    for b in ast.walk(f):
        if isinstance(b, ast.IfExp):
            m = member(b.test)
            u = m and search([b.body if m[2] else b.orelse], m)
            if u:
                yield ast.unparse(b.test), b.lineno, u
        for ss in (getattr(b, "body", None), getattr(b, "orelse", None)):
            if not isinstance(ss, list):
                continue
            for i, s in enumerate(ss):
                m = member(s.test) if isinstance(s, ast.If) else None
                if not m:
                    continue
                if not m[2] and not s.orelse and all(isinstance(q, (ast.Continue, ast.Pass)) for q in s.body):
                    u = search(ss[i + 1:], m)
                elif m[2] and all(isinstance(q, (ast.Continue, ast.Pass)) for q in s.orelse):
                    u = search(s.body, m) if i == len(ss) - 1 else None
                else:
                    u = None
                if u:
                    yield ast.unparse(s.test), s.lineno, u


def cachetry(body):
    """try: return self.<name> / self.<name> - reading a cached attribute."""
    for s in body:
        v = s.value if isinstance(s, (ast.Return, ast.Expr, ast.Assign)) else None
        if not isinstance(v, ast.Attribute):
            return False
    return True


def keytry(body):
    """A dictionary lookup by key, and nothing that computes."""
    for s in body:
        for n in ast.walk(s):
            if isinstance(n, ast.Call):
                return False
    return True


# ---------------------------------------------------------------- C21
def may_print(r):
    nm = r.name
    if ".summary" in nm or nm == "sojourn_time(summary=True)" or nm.startswith("Graph("):
        return True
    base = nm.split(":", 1)[-1]
    cls = re.sub(r"\(.*", "", base)
    if cls in ("Markov", "FullRank_Markov", "GeoRank_Markov"):
        o = opts(nm)
        return "silent" not in o and not (cls == "Markov" and "classes" in o and "fill" in o)
    return False


@prop("C21", ALL, "prints only where a summary was asked for; files opened only by summary methods, with the given name, and closed at every exit")
def c21(x):
    for r in list(x.runs.values()) + [loadrun(x)]:
        hit = False
        for e in r.events:
            if e.kind == "print" and not may_print(r):
                hit = True
                x.badev(r, e, "print " + ("summary" if "ummary" in r.name else ""), "prints although no summary was requested")
            elif e.kind in ("open", "write"):
                mode = e.info.get("mode", "w")
                if e.kind == "open" and isinstance(mode, str) and not set(mode) & set("wax+") and mode != "?":
                    continue
                if ".summary(file)" not in r.name:
                    hit = True
                    x.badev(r, e, "file", "opens or writes a file although none was named")
                elif isinstance(e.path, Node):
                    d = {y for y in e.path.deps if y[0] not in ("unk", "widen")}
                    if d - {("opt", "file_name")} and not tainted_other(e.path):
                        hit = True
                        x.badev(r, e, "file name", "writes to a file whose name does not come from the given file name alone")
                    elif not d and e.path.op == "const":
                        hit = True
                        x.badev(r, e, "file name", "writes to a fixed file instead of the given name")
        for how, sts in (("return", [r.st] if r.ok else []), ("exception", [s for s, _ in r.excs])):
            for s in sts:
                if any(v == "open" for k, v in s.glob.items() if str(k).startswith(("open", "file"))):
                    hit = True
                    x.bad("%s|left open" % entry(r.name), "", "%s: a file stays open on %s" % (r.name, how))
        if not hit:
            x.ok(r.name)


def tainted_other(n):
    return False


# ---------------------------------------------------------------- C23
@prop("C23", ALL, "no path iterates a hash-ordered set of identifiers into a result, or reads object identity, time, environment or entropy")
def c23(x):
    for r in list(x.runs.values()):
        hit = False
        for e in r.events:
            if e.kind == "setiter" and e.ids:
                # order may be used freely when nothing of the result carries it
                if carries_order(x, r):
                    hit = True
                    x.badev(r, e, "set order", "iterates a set of identifiers in hash order and the order reaches a result")
                else:
                    x.und(r.name, "a set of identifiers is iterated, but no result is marked with its order")
            elif e.kind in ("identity", "entropy", "envread"):
                if e.kind == "envread" and r.group == "plotting":
                    continue
                hit = True
                x.badev(r, e, e.kind, "the result depends on %s" % e.info.get("what"))
            elif e.kind == "rng" and e.info.get("rk") == "entropy":
                hit = True
                x.badev(r, e, "entropy", "draws from a generator that is not the process-wide random state")
        x.count("set iterations examined", sum(e.kind == "setiter" for e in r.events))
        if not hit:
            x.ok(r.name)


def carries_order(x, r):
    if not r.ok:
        return False
    vals = [r.val]
    if r.parent is not None:
        vals += list(x.attrs(r).values())
    for v in vals:
        for n in x.nodes(r, v):
            if "setord" in n.tags or any(d[0] == "setorder" for d in n.deps):
                return True
    return False

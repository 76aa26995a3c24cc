"""What a rule sees: the analysed runs, and a ledger of obligations.

Every obligation ends as
  ok      the rule was decided and holds
  bad     positive evidence, in the source, that the property is broken
  und     not decided (never an alarm; counted in the evidence)
A bad obligation is identified by a semantic key (entry point, result, rule),
never by the text of the source, so that a known finding keeps its identity
when the code around it is rewritten.
"""
import re
from . import node as N
from . import sym as S
from .node import Node, mk, const, walk
from .interp import ArrCell, ListCell, DictCell, InstCell, LibInst, Tup, Ref, Alt
from .scen import Missing, Run

RULES = {}


class Rule:
    def __init__(self, pid, groups, fn, text, load=False):
        self.pid, self.groups, self.fn, self.text, self.load = pid, groups, fn, text, load


def prop(pid, groups, text):
    def w(f):
        RULES.setdefault(pid, []).append(Rule(pid, groups, f, text))
        return f
    return w


def entry(name):
    """'fwd:Spatial_Markov(P).x2' -> 'Spatial_Markov.x2'"""
    s = re.sub(r"\([^()]*\)", "", name)
    if ":" in s:
        s = s.split(":", 1)[1]
    return s


def opts(name):
    m = re.search(r"\(([^()]*)\)", name)
    return set(x.strip() for x in m.group(1).split(",") if x.strip()) if m else set()


class Finding:
    def __init__(self, pid, key, where, msg, path):
        self.pid, self.key, self.where, self.msg, self.path = pid, key, where, msg, path


class X:
    def __init__(self, pid, sess):
        self.pid, self.S, self.I, self.runs = pid, sess, sess.I, sess.runs
        self.oks, self.unds, self.findings = [], [], {}
        self.counts = {}

    # ledger -------------------------------------------------------------
    def ok(self, subject):
        self.oks.append(subject)

    def und(self, subject, why):
        self.unds.append((subject, why))

    def bad(self, key, where, msg, path=()):
        k = self.pid + "|" + key
        if k not in self.findings:
            self.findings[k] = Finding(self.pid, k, where, msg, path)

    def badev(self, run, e, detail, msg):
        self.bad("%s|%s" % (entry(run.name), detail), e.where(), "%s: %s [%s]" % (run.name, msg, e.text),
                 tuple(x for x in e.stack))

    def count(self, what, n=1):
        self.counts[what] = self.counts.get(what, 0) + n

    # access -------------------------------------------------------------
    def select(self, *groups):
        return [r for r in self.runs.values() if r.group in groups]

    def run(self, name):
        return self.runs.get(name)

    def events(self, runs, *kinds):
        for r in runs:
            for e in r.events:
                if e.kind in kinds:
                    yield r, e

    def attrs(self, run):
        """Public attributes of the object the run built (methods: the object they ran on)."""
        v = run.parent.val if run.parent is not None and not isinstance(run.val, Ref) else run.val
        if run.parent is not None and run.st is not None:
            v = run.parent.val
        c = run.st.heap.get(v.addr) if isinstance(v, Ref) else None
        return c.attrs if isinstance(c, InstCell) else {}

    def cellof(self, run, v):
        return run.st.heap.get(v.addr) if isinstance(v, Ref) else None

    def nodes(self, run, v, depth=0, seen=None):
        """Numeric leaves of a value."""
        seen = set() if seen is None else seen
        if depth > 8:
            return
        if isinstance(v, Node):
            yield v
        elif isinstance(v, Tup):
            for x in v.items:
                yield from self.nodes(run, x, depth + 1, seen)
        elif isinstance(v, Alt):
            for x in v.vals:
                yield from self.nodes(run, x, depth + 1, seen)
        elif isinstance(v, Ref):
            if v.addr in seen:
                return
            seen.add(v.addr)
            c = run.st.heap.get(v.addr)
            if isinstance(c, ArrCell):
                yield self.I.load(v, run.st)
            elif isinstance(c, ListCell):
                for x in (c.items or []):
                    yield from self.nodes(run, x, depth + 1, seen)
                if c.summ is not None:
                    yield from self.nodes(run, c.summ[1], depth + 1, seen)
            elif isinstance(c, DictCell):
                for x in list(c.entries.values()) + list(c.summ or ()):
                    yield from self.nodes(run, x, depth + 1, seen)
            elif isinstance(c, (InstCell, LibInst)):
                for k, x in c.attrs.items():
                    if not k.startswith("__"):
                        yield from self.nodes(run, x, depth + 1, seen)

    def deps(self, run, v):
        d = set()
        for n in self.nodes(run, v):
            d |= n.deps
        return d


def tainted(n):
    d = n if isinstance(n, (set, frozenset)) else n.deps
    return any(x[0] in ("unk", "widen") for x in d)


def rngs(d):
    return {x for x in (d if isinstance(d, (set, frozenset)) else d.deps) if x[0] == "rng"}


def ins(d, pre="in"):
    return {x[1] for x in (d if isinstance(d, (set, frozenset)) else d.deps) if x[0] == pre}


def fractional(n, seen=None, depth=0):
    """Evidence that the value can have a fractional part (None: not known)."""
    seen = {} if seen is None else seen
    if n.id in seen:
        return seen[n.id]
    seen[n.id] = False
    if n.integral:
        r = False
    elif n.op in ("div", "sqrt", "log", "mean", "pow", "rngf", "exp", "atan2", "chi2", "inv", "std"):
        r = True
    elif n.op == "const":
        r = True
    elif n.op == "in":
        r = True
    elif depth > 40:
        r = None
    else:
        ks = [fractional(x, seen, depth + 1) for x in N.nodes_in(n.args) if x.dt not in ("b",)]
        r = True if any(ks) else None
        if n.op in ("unk", "lib", "new"):
            r = None
    seen[n.id] = r
    return r

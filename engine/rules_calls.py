"""Rules on calls made again, or after other calls, on one object."""
from .interp import InstCell
from .rulelib import prop
from .rules_lazy import agree
from .rules_val import where_of


def hist(d):
    return sorted({t[1] for t in d if t[0] == "hist"})


def obj_attrs(r, base):
    c = r.st.heap.get(base.val.addr) if r.st is not None else None
    return c.attrs if isinstance(c, InstCell) else {}


def set_by(r, base):
    return {e.name for e in r.events if e.kind == "setattr" and e.inst == base.val.addr}


@prop("C28", ["calls"], "no method changes in place, or replaces by something else, an array or value the object held before; what a method returns or stores has no dependence on the arrays an earlier call "
      "changed or created, and is the same term as when it is called first")
def c28(x):
    runs = x.select("calls")
    firsts = {r.name: r for r in runs if r.name.startswith("first:")}
    base = None
    for r in runs:
        if r.name.startswith("made:"):
            base = r
            continue
        if not r.ok:
            if r.name.startswith("then:"):
                f = firsts.get(r.first)
                if f is not None and f.ok and not r.crashed and r.excs:
                    x.bad("%s.%s|fails after %s" % (base.name[5:], r.meth, r.prev.meth), where_of(x, f), "%s works when called first but fails after %s" % (r.meth, r.prev.meth))
            continue
        key = "%s.%s" % (base.name[5:], r.meth)
        if r.name.startswith("first:"):
            # what the object held before does not move
            A0, A1 = obj_attrs(base, base), obj_attrs(r, base)
            for k, v in A0.items():
                x.count("attributes compared across calls")
                if k.startswith("_"):
                    continue
                if k not in A1:
                    x.bad("%s|lost %s" % (key, k), where_of(x, r), "%s removes %s" % (r.meth, k))
                    continue
                a = agree(x, base, v, r, A1[k])
                if a is False:
                    x.bad("%s|moved %s" % (key, k), where_of(x, r), "%s changes the %s the object held before" % (r.meth, k))
                elif a:
                    x.ok("%s %s" % (key, k))
                else:
                    x.und("%s %s" % (key, k), "terms not comparable")
            continue
        f = firsts.get(r.first)
        if f is None or not f.ok:
            continue
        res = {"": (f.val, r.val)}
        Af, Ar = obj_attrs(f, base), obj_attrs(r, base)
        for k in set_by(r, base):
            if k in Ar:
                res[k] = (Af.get(k), Ar[k])
        for k, (a, b) in sorted(res.items()):
            x.count("results of later calls")
            d = x.deps(r, b)
            h = hist(d)
            if h and "widen" in {t[0] for t in d}:
                x.und("%s %s" % (r.name, k), "merged by the analysis")
                continue
            if h:
                for s in sorted({"its private state" if q.startswith("_") else q for q in h}):
                    x.bad("%s|depends on earlier %s through %s" % (key, r.prev.meth, s), where_of(x, f),
                          "%s%s called after %s depends on what that call left in %s, so from one random state it gives another result than when called first" % (r.meth, " (%s)" % k if k else "", r.prev.meth, ", ".join(h)))
                continue
            if a is None or any(e.kind == "rng" for e in r.events):
                x.ok("%s %s" % (r.name, k))
                continue
            g = agree(x, f, a, r, b)
            if g:
                x.ok("%s %s" % (r.name, k))
            elif g is None:
                x.und("%s %s" % (r.name, k), "terms not comparable")
            else:
                x.bad("%s|other after %s" % (key, r.prev.meth), where_of(x, f), "%s%s is another result after %s" % (r.meth, " (%s)" % k if k else "", r.prev.meth))

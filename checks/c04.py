"""C04: performing an event changes exactly the prescribed sites; every view of the configuration agrees."""
import collections, itertools, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vp, scen, explore
from sysm import Sys, norm_spec
from ref import Ref

PID = "C04"


def job(params, out):
    spec = norm_spec(params["spec"])
    ref = Ref(spec)

    def names(st):
        c = collections.Counter()
        for x in st:
            c.update(x if ref.buckets else (x,))
        return c

    def views(s, st, where):
        # python views
        t = s.config.types()
        t = tuple(tuple(sorted(x)) for x in t) if ref.buckets else tuple(t)
        if t != st:
            out.violation("types() of the configuration disagrees with the sites", types=t, sites=st, **where)
        c = names(st)
        pt = s.config.particlesPerType()
        got = {}
        tn = {i: n for n, i in s.config.possibleTypes().items()}
        for i, n in enumerate(pt):
            if n:
                got[tn[i]] = int(n)
        if got != {k: v for k, v in c.items() if v}:
            out.violation("particles per type disagree with the sites", reported=got, expected=dict(c), **where)
        # the integer occupation numbers that later matches use
        ty = s.cc.types()
        for i in range(ref.lat.n):
            occ = {}
            for j in range(len(tn)):
                n = int(ty[i][j])
                if n:
                    occ[tn[j]] = n
            exp = collections.Counter(st[i] if ref.buckets else (st[i],))
            if occ != dict(exp):
                out.violation("occupation numbers disagree with the particles of a site", site=i, occupation=occ, particles=dict(exp), **where)
        if not ref.buckets and any(len(e) != 1 for e in s.cc.elements()):
            out.violation("a site of a single-occupancy model holds not exactly one particle", **where)

    def check(s, prev, e, st, hist):
        where = dict(scenario=spec["name"], initial=spec["types"], history=list(hist)[-300:], state=st)
        out.evals += 1
        if e is None:
            if st != ref.initial():
                out.violation("the initial configuration is not the given one", expected=ref.initial(), **where)
            views(s, st, where)
            return
        rep = s.latest()
        if rep != tuple(e):
            out.violation("the reported latest event is not the event selected by the draws", reported=rep, selected=e, before=prev, **where)
        if rep != (s.config.latestEventProcess(), s.config.latestEventSite()):
            out.violation("the two reports of the latest event differ", **where)
        if tuple(e) in ref._tgt:
            exp = None
            try:
                exp = ref.apply(prev, tuple(e))
            except ValueError:
                pass        # the event was not available: C01
            if exp is not None and exp != st:
                diff = [(i, prev[i], exp[i], st[i]) for i in range(len(st)) if exp[i] != st[i]]
                out.violation("an event did not change exactly the prescribed sites", event=e, before=prev, expected=exp,
                              sites_before_expected_after=diff, **where)
        if not ref.buckets or params["deep"]:
            views(s, st, where)
        out.outcome(e[0])

    if params["mode"] == "graph":
        full = explore.graph(lambda: Sys(spec), check, out, cap=params["cap"], max_steps=params["steps"])
        out.note("graphs-complete" if full else "graphs-capped")
        out.sample(dict(initial=spec["types"], reachable_states=out.states, complete=full))
    else:
        full = explore.tree(lambda: Sys(spec), check, out, params["depth"], cap=params.get("cap"))
        out.note("trees-complete" if full else "trees-capped")


def multi_change(th):
    """All before/after pairs of three-site processes with two or three types (with wildcards)."""
    out = []
    for types, sites in ((["A", "B"], 3), (["A", "B", "C"], 2)):
        ps = []
        for bef in itertools.product(types + ["*"], repeat=sites):
            for aft in itertools.product(types, repeat=sites):
                aft = tuple("*" if b == "*" else a for a, b in zip(aft, bef))
                if aft == bef or any(b == "*" and False for b in bef):
                    continue
                p = scen.proc([scen.O, scen.X, scen.mX][:sites], bef, aft, 1.0)
                if p not in ps:
                    ps.append(p)
        ps = ps if th else ps[::2] if sites == 3 else ps
        k = 6 if th else 3
        for i in range(k):
            out.append(scen.sys_("pairs-%d-%d" % (sites, i), [scen.O], (4, 1, 1), (True, False, False), [types[(j * j) % len(types)] for j in range(4)], types, ps[i::k]))
    return out


def bucket_family():
    """All small updates of two species on two bucket sites."""
    ps = []
    for (a, b, c, d) in itertools.product((-1, 0, 1), repeat=4):
        if (a, b, c, d) == (0, 0, 0, 0):
            continue
        upd = [[(a, "A"), (b, "B")], [(c, "A"), (d, "B")]]
        m = [[(max(0, -x), "A"), (max(0, -y), "B")] for x, y in ((a, b), (c, d))]
        ps.append(scen.bproc([scen.O, scen.X], m, upd, 1.0))
    return [scen.sys_("bucket-updates-%d" % i, [scen.O], (3, 1, 1), (True, False, False), [["A", "B"], [], [(2, "A")]], ["B", "A"], ps[i::4], buckets=True) for i in range(4)]


def jobs():
    th = vp.thorough()
    js = []
    fam = scen.families(th)
    for s in scen.plain() + scen.buckets() + multi_change(th) + bucket_family():
        js.append(dict(name="graph:" + s["name"], mode="graph", spec=s, cap=20000 if th else 1500, steps=300000 if th else 6000, deep=True))
        js.append(dict(name="tree:" + s["name"], mode="tree", spec=s, depth=6 if th else 3, cap=20000 if th else 200, deep=True))
    for s in scen.large() + scen.large_buckets():
        js.append(dict(name="graph:" + s["name"], mode="graph", spec=s, cap=600 if th else 60, steps=6000 if th else 150, deep=True))
    for s in fam:
        js.append(dict(name="graph:" + s["name"], mode="graph", spec=s, cap=4000 if th else 300, steps=100000 if th else 5000, deep=True))
    return js


if __name__ == "__main__":
    vp.main(PID, jobs(), job, floor=3000, bounds="all reachable states and all events in them of each listed model (or the stated cap), histories to the stated depth, all before/after patterns of up to three sites, all +-1 bucket updates of two sites")

"""C09: custom rates are evaluated on the right surroundings and are never stale."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vp, scen, explore, calcs
from sysm import Sys, norm_spec
from ref import Ref

PID = "C09"
TOL = 1e-10


def job(params, out):
    spec = norm_spec(params["spec"])
    ref = Ref(spec)
    K, rng = vp.load()
    sc = spec["calc"]
    rr = calcs.RefRates(ref, sc)
    cur = {}

    def make():
        calc = calcs.make_calc(K, sc)
        if sc.get("builtin"):
            class Silent(object):       # a calculator in C++ cannot be listened to
                calls = []
            s = Sys(spec, calc=calc)
            s.calc = Silent
            return s
        calc.calls = []
        s = Sys(spec, calc=calc)
        s.calc = calc
        return s

    def check(s, prev, e, st, hist):
        cur["st"] = st
        out.evals += 1
        where = dict(scenario=spec["name"], calculator=sc, initial=spec["types"], history=list(hist)[-60:], state=st)
        # 1. everything the calculator was shown since the last step
        seen = set()
        for call in s.calc.calls:
            proc, glob, env, rate, lens, first, config = call
            site = ref.lat.locate(glob)
            if site is None or max(abs(a - b) for a, b in zip(ref.lat.coord(site), glob)) > 2e-5:
                out.violation("the calculator was given a global coordinate that is no site", coordinate=glob, **where)
                continue
            ev = (proc, site)
            if ev not in ref.events(st):
                out.violation("the calculator was asked about an event that is not available in the present state", event=ev, **where)
                continue
            if len(set(lens)) != 1:
                out.violation("the lists given to the calculator differ in length", lengths=lens, event=ev, **where)
            if first != (0.0, 0.0, 0.0):
                out.violation("the first coordinate given to the calculator is not the central site", first=first, event=ev, **where)
            if abs(rate - ref.procs[proc].rate) > 1e-12 * abs(rate):
                out.violation("the calculator was given a wrong rate constant", given=rate, event=ev, **where)
            if config is not s.config:
                out.violation("the calculator holds another configuration than the model's", event=ev, **where)
            exp = rr.env(st, ev)
            if list(env) != exp:
                miss = [x for x in exp if x not in env][:4]
                more = [x for x in env if x not in exp][:4]
                out.violation("the calculator was shown wrong surroundings", event=ev, missing=miss, extra=more, shown=len(env), expected=len(exp), **where)
            seen.add(ev)
            out.traces += 1
        del s.calc.calls[:]
        if e is None and seen != set(ref.events(st)) and not sc.get("cache"):
            out.note("not-all-asked-at-start")
        # 2. the rates in force
        byp = {}
        for ev in ref.events(st):
            byp.setdefault(ev[0], []).append(ev)
        tot = s.totals()
        for p in range(len(ref.procs)):
            exp = sum(rr.rate(st, ev) for ev in byp.get(p, ()))
            if abs(tot[p] - exp) > TOL * max(exp, 1e-3):
                out.violation("the total rate of a process is not the sum of the present rates of its events", process=p, reported=tot[p],
                              expected=exp, **where)
        # 3. the share of every single event
        if params.get("single"):
            for p, P in enumerate(s.procs):
                if not (hasattr(P, "updateRateTable") and hasattr(P, "pickSite")):
                    out.note("single-rates-unavailable")
                    continue
                sites = list(P.sites())
                if not sites or any((p, x) not in ref._tgt for x in sites):
                    continue
                P.updateRateTable()
                rates = [rr.rate(st, (p, x)) if (p, x) in ref.events(st) else None for x in sites]
                if None in rates:
                    out.violation("a process lists a site at which it is not available", process=p, sites=sites, **where)
                    continue
                t, c = sum(rates), 0.0
                for x, r in zip(sites, rates):
                    for u in ((c + 1e-7 * r) / t, (c + r - 1e-7 * r) / t) if r > 1e-6 * t else ():
                        s.rng.set([u])
                        got = P.pickSite()
                        out.transitions += 1
                        if got != x:
                            out.violation("the rate of an event is not the calculator's answer for its surroundings (the shares of the sites disagree)",
                                          process=p, sites=sites, rates=rates, draw=u, picked=got, expected=x, **where)
                    c += r
        out.outcome(len(ref.events(st)))

    def bounded(s, st):
        """Events that keep the number of particles per site small (bucket models have no upper limit)."""
        return [e for e in set(s.events()) if e not in ref.events(st) or all(len(x) <= 3 for x in ref.apply(st, e))]

    w = lambda e: rr.rate(cur["st"], e)
    if params["mode"] == "graph":
        full = explore.graph(make, check, out, cap=params["cap"], max_steps=params["steps"], weight=w, events=bounded if ref.buckets else None)
        out.note("graphs-complete" if full else "graphs-capped")
        out.sample(dict(calculator=sc, initial=spec["types"], reachable_states=out.states, complete=full))
    else:
        full = explore.tree(make, check, out, params["depth"], cap=params.get("cap"), weight=w)
        out.note("trees-complete" if full else "trees-capped")


def specs(th):
    s = []

    def add(base, func, cut, **kw):
        s.append(dict(base, name="%s/%s/%s" % (base["name"], func, cut), calc=dict(func=func, cutoff=cut), **kw))

    for f in ("neighbours", "after_sensitive"):
        add(scen.ring_hop(5), f, None)
        add(scen.ads_des_hop(5), f, None)
        add(scen.ads_des_hop(5), f, 1.0)
        add(scen.ads_des_hop(5), f, 2.0)
        add(scen.ads_des_hop(6), f, 1.5)
        add(scen.ads_des_hop(7), f, 3.0)
        add(scen.two_basis_1d(4), f, 1.0)
        add(scen.two_basis_1d(4), f, .75)
        add(scen.grid2d(3), f, 1.0)
        add(scen.grid2d(5), f, 2.0)
        add(scen.two_basis(3), f, 1.0)
        add(scen.two_basis(5), f, 1.6)
        add(scen.three_basis(3), f, 1.0)
        add(scen.near_sites(3), f, 1.0)
        add(scen.wild(5), f, 2.0)
        add(scen.nonper_full(5), f, 2.0)
        add(scen.nonper_full(6), f, 3.5)
        add(scen.range2(5), f, 1.0)
        add(scen.range2(7), f, 3.0)
        add(scen.oblique(3), f, 1.0)
        add(scen.hexagonal(3), f, 1.0)
        add(scen.rotate3(5), f, 1.0)
        add(scen.many_procs(), f, 2.0)
        add(scen.multi_basis_single(), f, 1.0)
        add(scen.grid3d(), f, 1.0)
        add(scen.two_species(), f, 2.0)
        add(scen.flat_periodic(5), f, 1.0)
        add(scen.flat_complete(5), f, 2.0)
        add(scen.flat_sheet(3), f, 0.9)
        add(scen.bucket1(), f, 1.0)
        add(scen.bucket1(), f, 2.0)
        add(scen.bucket2(), f, 2.0)
        add(scen.bucket_wild(), f, 1.0)
        add(scen.bucket_mixed(), f, 2.0)
        add(scen.bucket_basis(), f, 1.0)
    add(scen.ads_des_hop(5), "position", 1.0)
    add(scen.two_basis(3), "position", 1.0)
    add(scen.grid2d(3), "position", 1.0)
    for a in range(3):
        add(scen.ring_axis(a), "neighbours", 2.0)
    for p in ((True, False, False), (False, False, False)):
        add(scen.mixed_periodic(p), "neighbours", 1.0)
    # repetitions differ per direction, cutoff reaching two and three cells
    add(scen.sys_("slab", [scen.O], (5, 3, 1), (True, True, False), ["V"] * 14 + ["A"], ["V", "A"],
                  [scen.flip("V", "A", .2), scen.flip("A", "V", .3)]), "neighbours", 1.0)
    add(scen.sys_("slab2", [scen.O], (3, 5, 2), (True, True, False), ["A"] + ["V"] * 29, ["V", "A"],
                  [scen.hop(scen.X, 1.), scen.hop(scen.Y, .3), scen.hop([1., 1., 0.], .2)]), "neighbours", 1.0)
    add(scen.sys_("late-basis", [[0.05, 0., 0.], [0.95, 0., 0.]], (5, 1, 1), (True, False, False), ["V"] * 9 + ["A"], ["V", "A"],
                  [scen.flip("V", "A", .2, basis=(0, 1)), scen.flip("A", "V", .3, basis=(0,)), scen.flip("A", "V", .3, basis=(1,))]), "neighbours", 1.15)
    # the calculators in C++ that come with the library
    for n in (3, 4) if not th else (3, 4, 5):
        add(scen.sys_("ising%d" % n, [scen.O], (n, n, 1), (True, True, False), ["U", "D"] + ["U"] * (n * n - 2), ["U", "D"],
                      [scen.flip("U", "D", 1.), scen.flip("D", "U", 1.)]), "ising", 1.0)
        s[-1]["calc"]["builtin"] = "IsingTestCalculator"
        if n > 3 and not th:
            continue
        hops = [scen.bproc([scen.O, v], ["P", (0, "V")], [(-1, "P"), (1, "P")], 2.) for v in (scen.X, scen.mX, scen.Y, scen.mY)]
        add(scen.sys_("buckets-hop%d" % n, [scen.O], (n, n, 1), (True, True, False), ["P", (2, "P"), "P"] + ["V"] * (n * n - 3), ["V", "P"],
                      [scen.bproc([scen.O], [(1, "V")], [(1, "P")], .5)] + hops + [scen.bproc([scen.O], [(2, "P")], [(-1, "P")], .3)], buckets=True), "buckets_builtin", 1.0)
        s[-1]["calc"]["builtin"] = "BucketsTestCalculator"
    # large in one respect: sites, neighbours shown to the calculator, types, processes
    big = {x["name"]: x for x in scen.large()}
    ring = dict(big["large-ring"], reps=(300, 1, 1), types=big["large-ring"]["types"][:300])
    add(ring, "neighbours", 4.0, gcap=6, gsteps=12)
    add(big["large-types"], "after_sensitive", 1.0, gcap=60, gsteps=150)
    add(big["large-processes"], "after_sensitive", 2.0, gcap=10, gsteps=20)
    add(big["large-pattern"], "after_sensitive", None, gcap=60, gsteps=150)
    add(scen.sys_("wide", [scen.O], (9, 9, 3), (True, True, True), [("A", "V", "V", "B")[(i * i + i // 9) % 4] for i in range(243)], ["V", "A", "B"],
                  [scen.flip("A", "V", .5), scen.flip("V", "A", .3), scen.hop(scen.X, 1., a="B")]), "neighbours", 1.8, gcap=4, gsteps=8)
    # duplicates by name
    names = {}
    for x in s:
        n = names[x["name"]] = names.get(x["name"], 0) + 1
        if n > 1:
            x["name"] += "#%d" % n
    return s


def jobs():
    th = vp.thorough()
    js = []
    for s in specs(th):
        js.append(dict(name="graph:" + s["name"], mode="graph", spec=s, single=not s.get("gcap"), cap=s.get("gcap") or (6000 if th else 900), steps=s.get("gsteps") or (60000 if th else 3000)))
        if s.get("gcap"):
            continue
        js.append(dict(name="tree:" + s["name"], mode="tree", spec=s, depth=6 if th else 3, cap=3000 if th else 300, single=False))
    return js


if __name__ == "__main__":
    vp.main(PID, jobs(), job, floor=1000,
            bounds="reachable states of each listed model and calculator up to the stated cap, histories to the stated depth; cutoffs 0.75 to 3.5 cells",
            assumptions=["the calculator is a deterministic function of its arguments", "cutoffs fit the number of repetitions of periodic directions"])

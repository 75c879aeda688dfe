"""C02: process totals and the grand total equal the sum over the available events, after any history."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vp, scen, explore, calcs
from sysm import Sys, norm_spec
from ref import Ref

PID = "C02"
REL = 1e-11


def job(params, out):
    spec = norm_spec(params["spec"])
    ref = Ref(spec)
    rr = calcs.RefRates(ref, spec["calc"]) if spec.get("calc") else None
    K, rng = vp.load()

    def rate(st, e):
        return rr.rate(st, e) if rr else ref.procs[e[0]].rate

    def check(s, prev, e, st, hist):
        out.evals += 1
        exp = [0.0] * len(ref.procs)
        n = [0] * len(ref.procs)
        for ev in s.events():       # the implementation's own list of events: C01 decides whether it is right
            exp[ev[0]] += rate(st, ev)
            n[ev[0]] += 1
        tot = s.totals()
        for i, (a, b) in enumerate(zip(tot, exp)):
            if (n[i] == 0 and a != 0.0) or abs(a - b) > REL * max(b, 1e-300):
                out.violation("the total rate of process %d is not the sum over its events" % i, reported=a, expected=b, events=n[i],
                              scenario=spec["name"], initial=spec["types"], history=list(hist)[-400:], length=len(hist), state=st)
        g, gr = s.total(), sum(exp)
        if (sum(n) == 0 and g != 0.0) or abs(g - gr) > REL * max(gr, 1e-300):
            out.violation("the total rate of the system is not the sum over all events", reported=g, expected=gr, events=n,
                          scenario=spec["name"], initial=spec["types"], history=list(hist)[-400:], length=len(hist), state=st)
        # The time step of the next event must use this total.
        if sum(n) and s.timer is not None and out.evals % 7 == 0:
            t0 = s.timer.simulationTime()
            rng.set([0.36787944117144233])      # 1/e: the step is 1/R
            s.cpp.propagateTime()
            dt = s.timer.simulationTime() - t0
            if abs(dt - 1.0 / gr) > 1e-9 / gr + 1e-11 * (t0 + 1.0 / gr):
                out.violation("the time step does not use the sum of the available rates", dt=dt, expected=1.0 / gr, t=t0,
                              scenario=spec["name"], history=list(hist)[-400:], state=st)
        out.outcome("%.6g" % g)

    calc = calcs.make_calc(K, spec["calc"]) if spec.get("calc") else None
    cur = {}

    def make():
        return Sys(spec, calc=calc)

    if params["mode"] == "graph":
        st_box = [None]
        # with custom rates the site weights depend on the state
        def check2(s, prev, e, st, hist):
            cur["st"] = st
            check(s, prev, e, st, hist)
        full = explore.graph(make, check2, out, cap=params["cap"], max_steps=params["steps"], weight=(lambda e: rr.rate(cur["st"], e)) if rr else None)
        out.note("graphs-complete" if full else "graphs-capped")
        out.sample(dict(initial=spec["types"], rates=[p["rate"] for p in spec["procs"]][:6], reachable_states=out.states, complete=full))
    elif params["mode"] == "long":
        # one model, one history that keeps alternating over all events in turn: no drift
        s = make()
        st = s.state()
        cur["st"] = st
        hist = []
        count = {}
        for n in range(params["steps"]):
            ev = sorted(set(s.events()))
            if not ev:
                break
            e = min(ev, key=lambda x: (count.get((st, x), 0), x))
            count[(st, e)] = count.get((st, e), 0) + 1
            s.fire(e, (lambda x: rr.rate(st, x)) if rr else None)
            st = s.state()
            cur["st"] = st
            hist.append(e)
            out.transitions += 1
            if n % 13 == 0 or n > params["steps"] - 50:
                check(s, None, e, st, hist)
        out.states += len(set(k[0] for k in count))
        out.traces += 1
        out.sample(dict(initial=spec["types"], single_history_of_steps=len(hist)))
    elif params["mode"] == "tree":
        def check2(s, prev, e, st, hist):
            cur["st"] = st
            check(s, prev, e, st, hist)
        full = explore.tree(make, check2, out, params["depth"], cap=params.get("cap"), weight=(lambda e: rr.rate(cur["st"], e)) if rr else None)
        out.note("trees-complete" if full else "trees-capped")


def custom_specs():
    out = []
    for base, f, cut in ((scen.ring_hop(5), "neighbours", 1.0), (scen.ads_des_hop(5), "counting", 2.0), (scen.two_basis_1d(4), "neighbours", 1.0),
                         (scen.grid2d(3), "neighbours", 1.0), (scen.wild(5), "position", 1.0), (scen.nonper_full(5), "neighbours", 2.0)):
        out.append(dict(base, name="custom-%s-%s" % (base["name"], f), calc=dict(func=f, cutoff=cut)))
    return out


def jobs():
    th = vp.thorough()
    js = []
    base = scen.plain() + scen.buckets()
    spread = scen.many_procs()
    wide = scen.sys_("wide-rates", [scen.O], (5, 1, 1), (True, False, False), ["V"] * 5, ["V", "A", "B"],
                     [scen.flip("V", "A", 1e9), scen.flip("A", "V", 1e-9), scen.flip("A", "B", 3.3e4), scen.flip("B", "V", 0.1), scen.hop(scen.X, 1e-3)])
    third = scen.sys_("thirds", [scen.O], (6, 1, 1), (True, False, False), ["V"] * 6, ["V", "A"], [scen.flip("V", "A", 0.1), scen.flip("A", "V", 1.0 / 3)])
    for s in base + [wide, third]:
        js.append(dict(name="graph:" + s["name"], mode="graph", spec=s, cap=20000 if th else 2000, steps=300000 if th else 6000))
        js.append(dict(name="long:" + s["name"], mode="long", spec=s, steps=200000 if th else 8000))
        js.append(dict(name="tree:" + s["name"], mode="tree", spec=s, depth=6 if th else 3, cap=20000 if th else 300))
    for s in scen.large() + scen.large_buckets():
        js.append(dict(name="graph:" + s["name"], mode="graph", spec=s, cap=600 if th else 60, steps=6000 if th else 150))
        js.append(dict(name="long:" + s["name"], mode="long", spec=s, steps=20000 if th else 500))
    for s in custom_specs():
        js.append(dict(name="graph:" + s["name"], mode="graph", spec=s, cap=5000 if th else 400, steps=100000 if th else 1500))
        js.append(dict(name="long:" + s["name"], mode="long", spec=s, steps=20000 if th else 1500))
        js.append(dict(name="tree:" + s["name"], mode="tree", spec=s, depth=5 if th else 3, cap=5000 if th else 150))
    return js


if __name__ == "__main__":
    vp.main(PID, jobs(), job, floor=3000, bounds="all reachable states of each listed model (or the stated cap), event histories to the stated depth and single long histories; relative error 1e-11",
            assumptions=["rates of custom calculators are deterministic functions of their arguments"])

"""C01: after any history the available events are exactly those of brute-force matching."""
import itertools, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vp, scen, explore
from sysm import Sys, norm_spec
from ref import Ref

PID = "C01"


def job(params, out):
    spec = norm_spec(params["spec"])
    ref = Ref(spec)
    key = params.get("key")

    def check(s, prev, e, st, hist):
        out.evals += 1
        got = s.events()
        gs = set(got)
        exp = ref.events(st)
        if len(got) != len(gs):
            out.violation("an event is listed more than once", key, duplicates=[x for x in gs if got.count(x) > 1],
                          scenario=spec["name"], initial=spec["types"], history=list(hist), state=st)
        if gs != exp:
            out.violation("available events differ from brute-force matching", key, missing=sorted(exp - gs), extra=sorted(gs - exp),
                          scenario=spec["name"], initial=spec["types"], history=list(hist), state=st)
        n = s.cpp.interactions().totalAvailableSites()
        if n != len(got):
            out.violation("the reported number of available sites is wrong", key, reported=n, listed=len(got), history=list(hist), state=st)
        out.outcome(len(gs))

    mode = params["mode"]
    if mode == "graph":
        full = explore.graph(lambda: Sys(spec), check, out, cap=params["cap"], max_steps=params["steps"])
        out.note("graphs-complete" if full else "graphs-capped")
        out.sample(dict(initial=spec["types"], processes=len(spec["procs"]), reachable_states=out.states, complete=full))
    elif mode == "tree":
        full = explore.tree(lambda: Sys(spec), check, out, params["depth"], first=params.get("first"), cap=params.get("cap"))
        out.note("trees-complete" if full else "trees-capped")
        out.sample(dict(initial=spec["types"], depth=params["depth"], histories=out.traces))
    elif mode == "init":
        i, n = params["part"]
        for c, types in enumerate(itertools.product(params["alphabet"], repeat=ref.lat.n)):
            if c % n != i:
                continue
            sp = dict(spec, types=[t if isinstance(t, str) else list(t) for t in types])
            s = Sys(sp)
            st = s.state()
            out.states += 1
            check(s, None, None, st, ["initial", list(types)])
            ev = sorted(set(s.events()))
            if ev:
                e = ev[c % len(ev)]
                s.fire(e)
                out.transitions += 1
                check(s, st, e, s.state(), ["initial", list(types), e])
        out.sample(dict(alphabet=params["alphabet"], configurations=out.states))


def probe_specs():
    """Specific inputs on which the implementation is known to lose events (see known_findings.json)."""
    a = scen.sys_("probe-nonperiodic-edge", [scen.O], (5, 1, 1), (False, False, False), ["A", "V", "V", "V", "V"], ["A", "V"], [scen.hop(scen.X, 1.0)])
    b = scen.sys_("probe-two-repetitions", [scen.O], (2, 1, 1), (True, False, False), ["V", "A"], ["A", "V"], [scen.hop(scen.X, 1.0)])
    return [("C01-nonperiodic-edge-wildcards", a), ("C01-two-periodic-repetitions", b)]


def jobs():
    th = vp.thorough()
    js = []
    base = scen.plain() + scen.buckets()
    for s in scen.families(th):
        js.append(dict(name="graph:" + s["name"], mode="graph", spec=s, cap=3000 if th else 700, steps=150000 if th else 9000))
    for s in base:
        js.append(dict(name="graph:" + s["name"], mode="graph", spec=s, cap=20000 if th else 2500, steps=400000 if th else 12000))
        n = 8 if th else 2
        for i in range(n):
            js.append(dict(name="tree:%s:%d" % (s["name"], i), mode="tree", spec=s, depth=6 if th else 4, first=[i, n], cap=25000 if th else 700))
    for s in base:
        if s.get("buckets"):
            continue
        n = s["reps"][0] * s["reps"][1] * s["reps"][2] * len(s["basis"])
        k = len(s["possible"])
        if k ** n <= (70000 if th else 800):
            parts = 8 if th else 1
            for i in range(parts):
                js.append(dict(name="init:%s:%d" % (s["name"], i), mode="init", spec=s, alphabet=s["possible"], part=[i, parts]))
    for s in scen.families(th):
        n = s["reps"][0] * s["reps"][1] * s["reps"][2] * len(s["basis"])
        if len(s["possible"]) ** n <= 600:
            js.append(dict(name="init:" + s["name"], mode="init", spec=s, alphabet=s["possible"], part=[0, 1]))
    for s in scen.large() + scen.large_buckets():
        js.append(dict(name="graph:" + s["name"], mode="graph", spec=s, cap=600 if th else 60, steps=6000 if th else 150))
    for k, s in probe_specs():
        js.append(dict(name=k, mode="tree", spec=s, depth=1, key=k))
    return js


if __name__ == "__main__":
    vp.main(PID, jobs(), job, floor=20000, bounds="all reachable states of each listed model (or the stated cap), all event histories to the stated depth, "
            "all initial type assignments of the small models, all process patterns of a center and up to two neighbours",
            assumptions=["repetitions in a periodic direction are at least 2*range+1, or one where no process extends",
                         "with implicit wildcards every position within reach of a process exists around its sites"])

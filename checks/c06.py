"""C06: the clock: each step adds -ln(u)/R with the R of the state being left, for every possible draw."""
import itertools, math, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vp, scen, calcs
from sysm import Sys, norm_spec
from ref import Ref

PID = "C06"
ULP = 2.0 ** -53
ALPHA = [5e-324, 1e-300, ULP, 1e-8, 0.25, 0.5, 0.9999, 1.0 - ULP]


def job(params, out):
    spec = norm_spec(params["spec"])
    ref = Ref(spec)
    K, rng = vp.load()
    rr = calcs.RefRates(ref, spec["calc"]) if spec.get("calc") else None
    calc = calcs.make_calc(K, spec["calc"]) if spec.get("calc") else None

    def R(st):
        return sum(rr.rate(st, e) if rr else ref.procs[e[0]].rate for e in ref.events(st))

    class Rec(K.KMCAnalysisPlugin):
        def __init__(self):
            self.log = []

        def setup(self, step, time, configuration):
            self.log.append(("setup", step, time, state(configuration)))

        def registerStep(self, step, time, configuration):
            self.log.append(("step", step, time, state(configuration)))

        def finalize(self):
            pass

    def state(configuration):
        if ref.buckets:
            return tuple(tuple(sorted(t)) for t in configuration.types())
        return tuple(configuration.types())

    def compare(log, us, t0, where):
        """log: states and times; us: the draws used for the time of each step."""
        t = t0
        for n in range(1, len(log)):
            st = log[n - 1][3]
            u = us[n - 1]
            dt = -math.log(u) / R(st)
            got = log[n][2]
            out.evals += 1
            if not math.isfinite(got):
                out.violation("the simulation time is not finite", time=got, draw=u, step=n, **where)
            if got < log[n - 1][2]:
                out.violation("the simulation time decreased", time=got, before=log[n - 1][2], draw=u, step=n, **where)
            if abs((got - log[n - 1][2]) - dt) > 1e-12 * dt + 4e-16 * (abs(got) + abs(log[n - 1][2])):
                out.violation("the time step is not -ln(u)/R of the state being left", dt=got - log[n - 1][2], expected=dt, draw=u, step=n, total_rate=R(st),
                              state=st, **where)
        out.states += len(log)

    depth = params["depth"]
    selectors = params["selectors"]
    for i, us in enumerate(itertools.product(ALPHA, repeat=depth)):
        if i % params["part"][1] != params["part"][0]:
            continue
        for zeros in (() if i % 5 else (0,)), :
            sel = selectors[i % len(selectors)]
            script, used = [], []
            for n, u in enumerate(us):
                if n in zeros:
                    script.append(0.0)      # the generator may deliver exactly zero
                script += [u, sel[(2 * n) % len(sel)], sel[(2 * n + 1) % len(sel)]]
                used.append(u)
            where = dict(scenario=spec["name"], draws=script)
            # A: through run(), twice, the clock must continue
            s = Sys(spec, calc=calc)
            cut = 1 + i % (depth - 1) if depth > 1 else 1
            logs = []
            rng.set(script, 0.5)
            t_prev, pos = 0.0, 0
            for steps in ([cut, depth - cut] if depth > 1 else [1]):
                rec = Rec()
                err = None
                with vp.quiet():
                    try:
                        s.model.run(K.KMCControlParameters(number_of_steps=steps, analysis_interval=1, seed=13), analysis=[rec])
                    except Exception as e:
                        if type(e).__name__ != "Error":
                            raise
                        err = e
                if not rec.log:
                    break               # nothing is possible any more
                log = rec.log
                if abs(log[0][2] - t_prev) > 1e-15 * abs(t_prev):
                    out.violation("the clock does not continue where it was", time=log[0][2], before=t_prev, **where)
                compare(log, used[pos:], log[0][2], where)
                out.transitions += len(log) - 1
                out.traces += 1
                pos += len(log) - 1
                t_prev = log[-1][2]
                if err is not None:
                    if ref.events(log[-1][3]) and len(log) - 1 < steps:
                        out.violation("the run ended although events are available", error=str(err), state=log[-1][3], **where)
                    break
            if s.timer is not None and s.timer.simulationTime() != t_prev:
                out.violation("the clock differs from the last reported time", clock=s.timer.simulationTime(), reported=t_prev, **where)
            out.outcome("%.3g" % t_prev)
    out.sample(dict(initial=spec["types"], sequences=out.traces, depth=depth))


def jobs():
    th = vp.thorough()
    js = []
    base = [scen.ring_hop(5), scen.ads_des_hop(5), scen.two_species(), scen.two_basis_1d(4), scen.bucket2(), scen.many_procs(), scen.cyclic3(),
            scen.sys_("fast", [scen.O], (3, 1, 1), (True, False, False), ["A", "V", "V"], ["A", "V"], [scen.flip("V", "A", 1e200), scen.flip("A", "V", 1e180)]),
            scen.sys_("slow", [scen.O], (3, 1, 1), (True, False, False), ["A", "V", "V"], ["A", "V"], [scen.flip("V", "A", 1e-200), scen.flip("A", "V", 1e-190)])]
    # models that run into a dead end after one, two or three events
    for n in (1, 2, 3):
        base.append(scen.sys_("decay-%d" % n, [scen.O], (4, 1, 1), (True, False, False), (["A"] * n + ["V"] * 4)[:4], ["A", "V"], [scen.flip("A", "V", 2.5)]))
    base.append(scen.sys_("bucket-decay", [scen.O], (2, 1, 1), (True, False, False), [[(2, "A")], []], ["A"], [scen.bproc([scen.O], ["A"], [(-1, "A")], 1.5)], buckets=True))
    for b, f in ((scen.ads_des_hop(5), "counting"), (scen.ring_hop(5), "neighbours")):
        base.append(dict(b, name="custom-" + b["name"], calc=dict(func=f, cutoff=1.0)))
    sel = [[.1, .9, .5, .3], [.99, .01], [0.0, 1 - ULP], [.5, .5, .05]]
    for s in scen.large() + scen.large_buckets():
        if s["name"] in ("large-processes", "large-types", "large-bucket-types"):
            js.append(dict(name="clock:" + s["name"], spec=s, depth=2 if th else 1, part=[0, 1], selectors=sel))
    for s in base:
        n = 8 if th else 1
        d = 5 if th else (2 if s.get("calc") else 3)
        for i in range(n):
            js.append(dict(name="clock:%s:%d" % (s["name"], i), spec=s, depth=d, part=[i, n], selectors=sel))
    return js


if __name__ == "__main__":
    vp.main(PID, jobs(), job, floor=3000, bounds="all sequences of time draws over an alphabet of eight values (smallest positive double to 1-2^-53, with exact zeros interleaved), to the stated depth, split over two runs of the same model",
            assumptions=["the generator delivers numbers in [0,1)"])

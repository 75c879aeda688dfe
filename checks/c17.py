"""C17: the bundled analyses report what their definitions say, for every history of steps and times."""
import io, itertools, math, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vp, scen
from sysm import Sys, norm_spec

PID = "C17"


def near(a, b, rel=1e-12):
    return abs(a - b) <= rel * max(1.0, abs(a), abs(b))


class Blocks(object):
    """Splits a sequence of registered steps into blocks: a registered step more than the interval later
    than the start of the block closes it, and starts the next one."""
    def __init__(self, interval):
        self.interval, self.start, self.done, self.cur = interval, None, [], []

    def setup(self, t, first=None, keep=False):
        self.start = t
        if not keep:
            self.cur = []
        if first is not None:
            self.cur.append(first)

    def register(self, t, value):
        if t - self.start > self.interval:
            self.done.append(self.cur)
            self.cur = []
            self.start = t
        self.cur.append(value)


def census(config):
    c = {}
    for t in config.types():
        for x in ([t] if isinstance(t, str) else t):
            n, x = (1, x) if isinstance(x, str) else x
            c[x] = c.get(x, 0) + n
    return c


class Probe(object):
    """The analyses under test with their oracles, fed with the same steps."""
    def __init__(self, K, settings, n_proc):
        self.K = K
        self.s = settings
        self.comp = K.Composition(time_interval=settings["interval"])
        self.comp_o = Blocks(settings["interval"])
        self.lists = settings["lists"]
        self.ps = [K.ProcessStatistics(processes=l, time_interval=settings["interval"], spatially_resolved=sp) for l in self.lists for sp in (False, True)]
        self.ps_o = [Blocks(settings["interval"]) for _ in self.ps]
        self.spatial = [dict() for _ in self.ps]
        self.td = K.TimeStepDistribution(binsize=settings["binsize"])
        self.hist = {}
        self.last = None
        self.dts = 0
        self.all = [self.comp] + self.ps + [self.td]

    # ---- oracle side
    def o_setup(self, t, config):
        self.comp_o.setup(t, census(config))
        for o in self.ps_o:
            o.setup(t, keep=True)
        self.spatial = [dict() for _ in self.ps]
        self.last = t

    def o_register(self, t, config, process, site):
        self.comp_o.register(t, census(config))
        for i, o in enumerate(self.ps_o):
            hit = process in self.lists[i // 2]
            o.register(t, 1 if hit else 0)
            if hit:
                self.spatial[i][site] = self.spatial[i].get(site, 0) + 1
        b = math.floor((t - self.last) / self.s["binsize"])
        self.hist[b] = self.hist.get(b, 0) + 1
        self.last = t
        self.dts += 1

    # ---- comparison
    def compare(self, out, config, where):
        out.evals += 1
        T = self.s["interval"]
        # composition
        st = io.StringIO()
        self.comp.printResults(st)
        lines = [l for l in st.getvalue().split("\n") if l.strip()]
        names = lines[0].split()[1:]
        rows = [[float(x) for x in l.split()] for l in lines[1:]]
        data = list(self.comp.data())
        times = [float(x) for x in self.comp.times()]
        done = self.comp_o.done
        if sorted(names) != sorted(x for x in config.possibleTypes() if x != "*"):
            out.violation("the printed composition does not name the types", names=names, **where)
        if not len(rows) == len(data) == len(times) == len(done):
            out.violation("the composition has a wrong number of blocks", printed=len(rows), data=len(data), times=len(times), expected=len(done), **where)
            return
        for i, block in enumerate(done):
            mean = {n: sum(c.get(n, 0) for c in block) / float(len(block)) for n in names}
            if not near(times[i], (i + .5) * T) or abs(rows[i][0] - times[i]) > 1e-3 * (1 + abs(times[i])):
                out.violation("the time of a composition block is wrong", block=i, times=times, **where)
            for k, n in enumerate(names):
                if abs(rows[i][1 + k] - mean[n]) > 1e-3 * (1e-6 + abs(mean[n])):
                    out.violation("a printed composition is wrong", block=i, type=n, printed=rows[i][1 + k], expected=mean[n], **where)
                    return
            if sorted(round(float(x), 9) for x in data[i] if abs(x) > 1e-12) != sorted(round(x, 9) for x in mean.values() if x > 1e-12):
                out.violation("the composition of a block is wrong", block=i, data=[float(x) for x in data[i]], expected=mean, **where)
                return
        # process statistics
        for k, (p, o) in enumerate(zip(self.ps, self.ps_o)):
            st = io.StringIO()
            p.printResults(st)
            rows = [[float(x) for x in l.split()] for l in st.getvalue().split("\n")[1:] if l.strip()]
            exp, tot = [], 0
            for i, block in enumerate(o.done):
                n = sum(block)
                tot += n
                if i > 0:
                    exp.append([i * T, tot, n / T, tot / (i * T)])
            if len(rows) != len(exp) or any(abs(x - y) > 1e-5 * (1 + abs(y)) for r, e in zip(rows, exp) for x, y in zip(r, e)):
                out.violation("the printed process statistics are wrong", processes=self.lists[k // 2], printed=rows, expected=exp, **where)
                return
            if k % 2 and where.get("spatial", True):
                d = [float(x) for x in p.spatialData()]
                c = [self.spatial[k].get(i, 0) for i in range(len(config.sites()))]
                if len(d) != len(c):
                    out.violation("the spatially resolved statistics do not have one value per site", **where)
                elif o.start != 0 and any(not near(x * o.start, y, 1e-9) for x, y in zip(d, c)):
                    out.violation("the spatially resolved statistics are not the events per site over the time", got=d, events=c, time=o.start, **where)
        # time steps
        h = [int(x) for x in self.td.histogram()]
        exp = [self.hist.get(i, 0) for i in range(max([len(h)] + [b + 1 for b in self.hist]))]
        if h + [0] * (len(exp) - len(h)) != exp or len(h) < len([b for b in self.hist]):
            out.violation("the histogram of the time steps is wrong", got=h[:40], expected=dict(sorted(self.hist.items())), **where)
            return
        if self.dts:
            nh = [float(x) for x in self.td.normalizedHistogram()]
            ts = [float(x) for x in self.td.timeSteps()]
            if len(nh) != len(h) or any(not near(x, y / float(self.dts)) for x, y in zip(nh, h)):
                out.violation("the normalized histogram is wrong", got=nh[:20], **where)
            if len(ts) != len(h) or any(not near(x, (i + .5) * self.s["binsize"]) for i, x in enumerate(ts)):
                out.violation("the times of the histogram are not the centers of the bins", got=ts[:20], **where)
            st = io.StringIO()
            self.td.printResults(st)
            rows = [l.split() for l in st.getvalue().split("\n") if l.strip()]
            if len(rows) != len(h) or any(int(r[1]) != x for r, x in zip(rows, h)):
                out.violation("the printed histogram is wrong", printed=rows[:10], **where)


def histories(params, out):
    spec = norm_spec(params["spec"])
    K, rng = vp.load()
    depth, dts, t0, width = params["depth"], params["dts"], params["t0"], params["width"]
    n = 0
    lead = params["lead"]
    for picks in itertools.product(range(width * len(dts)), repeat=depth):
        if depth and picks[0] != lead:
            continue
        s = Sys(spec)
        probes = [Probe(K, st, len(s.procs)) for st in params["settings"]]
        t = t0
        for p in probes:
            p.o_setup(t, s.config)
            for a in p.all:
                a.setup(0, t, s.config)
        hist = []
        for d, k in enumerate(picks):
            ev = sorted(set(s.events()))
            if not ev:
                break
            i, j = divmod(k, len(dts))
            e = ev[(i * max(1, len(ev) // width)) % len(ev)]
            s.fire(e)
            t = t + dts[j]
            hist.append((e, dts[j]))
            out.transitions += 1
            for p in probes:
                p.o_register(t, s.config, e[0], e[1])
                for a in p.all:
                    a.registerStep(d + 1, t, s.config)
        n += 1
        for p in probes:
            with numpy_quiet():
                for a in p.all:
                    if a is p.td and not hist:
                        continue
                    a.finalize()
            p.compare(out, s.config, dict(scenario=spec["name"], initial=spec["types"], history=hist, settings=p.s, t0=t0))
            out.outcome((len(p.comp_o.done), sum(map(sum, p.ps_o[0].done)), len(p.hist)))
        if not depth:
            break
    out.states += n
    out.traces += n
    out.sample(dict(scenario=spec["name"], histories=n, depth=depth))


class numpy_quiet(object):
    def __enter__(self):
        import numpy
        self.o = numpy.seterr(all="ignore")

    def __exit__(self, *a):
        import numpy
        numpy.seterr(**self.o)


def runs(params, out):
    """The analyses inside real runs of the model: analysis intervals, and the same objects used in a second run."""
    spec = norm_spec(params["spec"])
    K, rng = vp.load()
    for st, every, n1 in itertools.product(params["settings"], (1, 2, 3), params.get("lengths", (0, 5, 30))):
        s = Sys(spec)
        p = Probe(K, st, len(s.procs))

        class Rec(K.KMCAnalysisPlugin):
            def setup(self, step, time, c):
                p.o_setup(time, c)

            def registerStep(self, step, time, c):
                l = s.latest()
                p.o_register(time, c, l[0], l[1])
        rec = Rec()
        for k in range(2):
            s.rng.set([((5 * i * i + 3 * i + k) % 89 + 0.5) / 89 for i in range(3 * (n1 + 12))])
            try:
                with vp.quiet(), numpy_quiet():
                    s.model.run(K.KMCControlParameters(number_of_steps=n1 if k == 0 else 9, analysis_interval=every, seed=1), analysis=[rec] + p.all)
            except Exception as e:
                if type(e).__name__ != "Error" or set(s.events()):
                    raise
                break
            out.states += 1
            out.traces += 1
            out.transitions += n1
            p.compare(out, s.config, dict(scenario=spec["name"], settings=st, analysis_interval=every, steps=n1, run=k))


def job(params, out):
    (histories if params["mode"] == "histories" else runs)(params, out)


def jobs():
    th = vp.thorough()
    js = []
    ads = scen.ads_des_hop(5)
    cyc = scen.cyclic3()
    buck = scen.bucket2()
    lists = [[0], [0, 2], [1, 3, 7], [2, 2, 0]]
    S1 = [dict(interval=1.0, binsize=.5, lists=lists), dict(interval=2.5, binsize=.25, lists=lists[:2])]
    S2 = [dict(interval=0.7, binsize=.11, lists=lists), dict(interval=0.0, binsize=3.0, lists=lists[:1]) if False else dict(interval=1e-3, binsize=10.0, lists=lists[:1])]
    A1 = [0.0, .5, 1.0, 1.0 + 2.0 ** -40, 2.5, 40.0]
    A2 = [1e-7, .3719, .7001, 1.4573, 9.91]
    for spec in (ads, cyc, buck):
        for alpha, S, t0, name in ((A1, S1, 0.0, "grid"), (A2, S2, 0.0, "odd"), (A1[1:], S1, 100.0, "late")):
            width = 2
            depth = (3 if spec is not ads or name == "late" else 4) + (1 if th else 0)
            for lead in range(width * len(alpha)):
                js.append(dict(name="hist:%s:%s:%d" % (spec["name"], name, lead), mode="histories", spec=spec, depth=depth, dts=alpha, t0=t0, width=width, settings=S, lead=lead))
            js.append(dict(name="hist:%s:%s:empty" % (spec["name"], name), mode="histories", spec=spec, depth=0, dts=alpha, t0=t0, width=width, settings=S, lead=0))
    for spec in scen.plain()[::1 if th else 4] + scen.buckets():
        if min(p["rate"] for p in spec["procs"]) < 1e-4:
            continue        # time steps of 1e12 would need a histogram of as many bins
        js.append(dict(name="run:" + spec["name"], mode="runs", spec=spec, settings=S1 + S2))
    for spec in (ads, cyc, buck):
        js.append(dict(name="long:" + spec["name"], mode="runs", spec=spec, settings=S1 + S2, lengths=(101, 700) if not th else (64, 101, 300, 1500, 5000)))
    return js


if __name__ == "__main__":
    vp.main(PID, jobs(), job, floor=2000,
            bounds="all histories of three or four steps (two events per state x time increments on, just beyond and far beyond the interval and bin edges), empty histories, several intervals, process lists and start times; "
            "pairs of runs of real models with analysis intervals 1 to 3",
            assumptions=["the times printed for block i are those of equal intervals, as documented", "spatial statistics are compared where the time they are divided by is not zero (known weakness, see DESIGN.md)"])

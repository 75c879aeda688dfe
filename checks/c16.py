"""C16: the on-the-fly mean square displacement, for every history of moves and times, against a direct double sum."""
import io, itertools, math, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vp, scen, explore
from sysm import Sys, norm_spec
from ref import Ref

PID = "C16"


class Oracle(object):
    """For every atom the positions it had at its last `steps` recorded moves (the first: where it was at the setup)."""
    def __init__(self, ref, steps, n_bins, t_max, track, t0, ids, types):
        self.ref, self.steps, self.n, self.bs, self.track = ref, steps, n_bins, t_max / n_bins, track
        self.hist = {a: ([(t0, co)] if types[a] == track else []) for a, co in enumerate(ids[1])}
        self.sums = [[0.0] * 3 for _ in range(n_bins)]
        self.counts = [0] * n_bins
        self.bins_hit = 0
        self.spans = [[0] * n_bins for _ in range(steps - 1)]     # per number of moves between the two positions
        self.total = [0] * (steps + 1)

    def cart(self, d):
        cell = self.ref.cellv
        return [sum(d[k] * cell[k][i] for k in range(3)) for i in range(3)]

    def register(self, t, moved, co, types):
        for a in moved:
            if types[a] != self.track:
                continue
            h = self.hist[a]
            h.append((t, co[a]))
            del h[:-self.steps]
            for k, (t1, c1) in enumerate(reversed(h[:-1])):
                self.total[k] += 1
                b = math.floor((t - t1) / self.bs)
                if 0 <= b < self.n:
                    d = self.cart([x - y for x, y in zip(co[a], c1)])
                    for i in range(3):
                        self.sums[b][i] += d[i] * d[i]
                    self.counts[b] += 1
                    self.spans[k][b] += 1
                    self.bins_hit += 1

    def n_eff(self, b):
        """The average number of moves that the displacements of a bin span."""
        return sum((k + 1) * s[b] for k, s in enumerate(self.spans)) / self.counts[b] if self.counts[b] else 0.0

    def factors(self, b):
        """The relative standard deviations (Qian et al.); more than one where the effective number is an integer up to rounding."""
        n, f = self.n_eff(b), set()
        for i in {int(n + 1.0 - 1e-9), int(n + 1.0 + 1e-9)}:
            k = self.total[i] if i < self.steps else 0
            if n < 1e-9 or k == 0:
                f.add(0.0)
            elif n <= k:
                f.add(math.sqrt(2.0 * (4 * n * n * k + 2 * k + n - n ** 3) / (6.0 * n * k * k)))
            else:
                f.add(math.sqrt(2.0 * (1 + (k ** 3 - 4 * n * k * k + 4 * n - k) / (6.0 * n * n * k))))
        return f

    def cutoff(self):
        if self.steps == 1:
            return self.n
        last = self.spans[-1]
        return next((b for b, c in enumerate(last) if c > 0.01 * max(last)), self.n)


def near(a, b):
    return abs(a - b) <= 1e-9 * max(1.0, abs(a), abs(b))


def compare(out, o, m, where):
    out.evals += 1
    counts = list(m.binCounters())
    if counts != o.counts:
        out.violation("the numbers of displacements per time bin are wrong", got=counts, expected=o.counts, **where)
        return
    res = m.results()
    combos = [(0,), (1,), (2,), (0, 1), (0, 2), (1, 2), (0, 1, 2)]
    if len(res) != 7 or any(len(r) != o.n for r in res):
        out.violation("the results do not have seven rows of one value per bin", **where)
        return
    for r, c in enumerate(combos):
        for b in range(o.n):
            e = sum(o.sums[b][i] for i in c) / max(1, o.counts[b])
            if not near(float(res[r][b]), e):
                out.violation("a mean square displacement is wrong", row=r, bin=b, got=float(res[r][b]), expected=e, count=o.counts[b], **where)
                return
    ts = [float(x) for x in m.timeSteps()]
    if len(ts) != o.n or not all(near(t, (b + 0.5) * o.bs) for b, t in enumerate(ts)):
        out.violation("the times are not those of the bins", got=ts, **where)
    sd = m.stdDev()
    if len(sd) != 7 or any(len(r) != o.n or any(not (float(x) >= 0.0 and math.isfinite(x)) for x in r) for r in sd):
        out.violation("a standard deviation is negative or not finite", got=[list(map(float, r)) for r in sd], **where)
    for b in range(o.n):
        fs = o.factors(b)
        for r, c in enumerate(combos):
            if not any(near(float(sd[r][b]), float(res[r][b]) * f / math.sqrt(len(c))) for f in fs):
                out.violation("a standard deviation is not the one of the effective number of moves", row=r, bin=b, got=float(sd[r][b]), expected=[float(res[r][b]) * f / math.sqrt(len(c)) for f in fs], n_eff=o.n_eff(b), **where)
                return
    if m.safeCutoff() != o.cutoff():
        out.violation("the safe cutoff is wrong", got=m.safeCutoff(), expected=o.cutoff(), longest=o.spans[-1:], **where)
        return
    if out.evals % 5:
        return
    st = io.StringIO()
    m.printResults(st)
    lines = [l.split() for l in st.getvalue().split("\n") if l.strip()][1:]
    if len(lines) != o.cutoff():
        out.violation("the printed results do not end at the safe cutoff", got=len(lines), expected=o.cutoff(), **where)
        return
    for b, l in enumerate(lines):
        v = [float(x) for x in l]
        if len(v) != 16 or abs(v[15] - o.n_eff(b)) > 1e-4 * (1e-9 + o.n_eff(b)) or any(abs(v[8 + r] - float(sd[r][b])) > 1e-4 * (1e-9 + abs(float(sd[r][b]))) for r in range(7)):
            out.violation("the printed standard deviations or effective numbers are wrong", line=l, bin=b, n_eff=o.n_eff(b), **where)
            return
        if abs(v[0] - ts[b]) > 1e-4 * (1 + ts[b]) or any(abs(v[1 + r] - float(res[r][b])) > 1e-4 * (1e-9 + abs(float(res[r][b]))) for r in range(7)):
            out.violation("the printed results differ from the results", line=l, bin=b, **where)
            return


def job(params, out):
    if params["mode"] == "run":
        return runs(params, out)
    spec = norm_spec(params["spec"])
    K, rng = vp.load()
    ref = Ref(spec)
    ref.cellv = spec.get("cell") or [[1., 0., 0.], [0., 1., 0.], [0., 0., 1.]]
    depth, dts, t0 = params["depth"], params["dts"], params["t0"]
    part, parts = params["part"]
    settings = [(h, n, t, tr) for h in params["steps"] for n, t in params["bins"] for tr in spec["possible"]]
    n_hist = [0]

    def history(picks):
        """picks: indices into the choices (event x dt); returns the numbers of choices met"""
        s = Sys(spec)
        st = s.state()
        ids = ref.ids0()
        sizes = []
        ms, os_ = [], []
        for h, n, t, tr in settings:
            m = K.OnTheFlyMSD(history_steps=h, n_bins=n, t_max=t, track_type=tr)
            m.setup(0, t0, s.config)
            ms.append(m)
            os_.append(Oracle(ref, h, n, t, tr, t0, ids, {a: st[i] for i, a in enumerate(ids[0])}))
        t = t0
        hist = []
        for d in range(depth):
            ev = sorted(set(s.events()))
            ev = [e for e in ev if e in ref._tgt][:params["width"]]
            ch = [(e, dt) for e in ev for dt in dts]
            sizes.append(len(ch))
            if not ch:
                break
            e, dt = ch[picks[d] if d < len(picks) else 0]
            s.fire(e)
            t = t + dt
            ids, moved = ref.move_ids(ids, e)
            st = ref.apply(st, e)
            types = {a: st[i] for i, a in enumerate(ids[0])}
            hist.append((e, dt))
            out.transitions += 1
            for m, o in zip(ms, os_):
                m.registerStep(d + 1, t, s.config)
                o.register(t, moved, ids[1], types)
        for m, o, se in zip(ms, os_, settings):
            m.finalize()
            compare(out, o, m, dict(scenario=spec["name"], initial=spec["types"], history=hist, settings=se, t0=t0))
            out.outcome((sum(o.counts), max([0] + [b for b in range(o.n) if o.counts[b]])))
        n_hist[0] += 1
        return sizes

    # odometer over all histories
    picks = []
    while True:
        if not picks or picks[0] % parts == part or depth == 0:
            sizes = history(picks)
        else:
            sizes = None
        if sizes is None:
            picks = [picks[0] + 1]
            if picks[0] >= first:
                break
            continue
        full = list(picks) + [0] * (len(sizes) - len(picks))
        if not picks:
            first = sizes[0]
            if part != 0:
                picks = [part]
                if part >= first:
                    break
                continue
        k = len(sizes) - 1
        while k >= 0:
            full[k] += 1
            if full[k] < sizes[k]:
                break
            k -= 1
        if k < 0:
            break
        picks = full[:k + 1]
        if params.get("cap") and n_hist[0] >= params["cap"]:
            out.note("histories-capped")
            break
    out.states += n_hist[0]
    out.traces += n_hist[0]
    out.sample(dict(scenario=spec["name"], histories=n_hist[0], depth=depth, settings=len(settings)))


def runs(params, out):
    """The analysis inside real runs, with analysis intervals and a second run."""
    spec = norm_spec(params["spec"])
    K, rng = vp.load()
    ref = Ref(spec)
    ref.cellv = spec.get("cell") or [[1., 0., 0.], [0., 1., 0.], [0., 0., 1.]]
    for (h, n, t), every, tr, n1 in itertools.product(params["settings"], (1, 2, 3), spec["possible"], params.get("lengths", (0, 7, 40))):
        s = Sys(spec)
        o = [None]
        st = s.state()
        where = dict(scenario=spec["name"], settings=(h, n, t, tr), analysis_interval=every, steps=n1)

        class Rec(K.KMCAnalysisPlugin):
            def setup(self, step, time, c):
                ty = c.atomIDTypes()
                co = [tuple(float(x) for x in r) for r in c.atomIDCoordinates()]
                o[0] = Oracle(ref, h, n, t, tr, time, (None, co), dict(enumerate(ty)))

            def registerStep(self, step, time, c):
                co = [tuple(float(x) for x in r) for r in c.atomIDCoordinates()]
                o[0].register(time, list(c.movedAtomIDs()), co, dict(enumerate(c.atomIDTypes())))
        m = K.OnTheFlyMSD(history_steps=h, n_bins=n, t_max=t, track_type=tr)
        rec = Rec()
        for k in range(2):
            s.rng.set([((7 * i * i + 3 * i + k) % 97 + 0.5) / 97 for i in range(3 * (n1 + 2))])
            with vp.quiet():
                try:
                    s.model.run(K.KMCControlParameters(number_of_steps=n1 if k == 0 else 9, analysis_interval=every, seed=1), analysis=[rec, m])
                except Exception as e:
                    if type(e).__name__ != "Error" or set(s.events()):
                        raise
                    if o[0] is None or k == 1:
                        break
            out.transitions += n1
            out.states += 1
            out.traces += 1
            compare(out, o[0], m, dict(where, run=k))


def jobs():
    th = vp.thorough()
    X, mX = scen.X, scen.mX
    ring3 = scen.sys_("msd-ring3", [scen.O], (3, 1, 1), (True, False, False), ["A", "V", "V"], ["V", "A"], [scen.hop(X, 1., move="explicit"), scen.hop(mX, 1., move="explicit")])
    obl = scen.oblique(3)
    obl["procs"] = [dict(p, move=[(0, tuple(p["coords"][1])), (1, tuple(-x for x in p["coords"][1]))]) for p in obl["procs"]]
    obl["name"] = "msd-oblique"
    hexa = scen.hexagonal(3)
    hexa["procs"] = [dict(p, move=[(0, tuple(p["coords"][1])), (1, tuple(-x for x in p["coords"][1]))]) if len(p["coords"]) == 2 else p for p in hexa["procs"]]
    hexa["name"] = "msd-hexagonal"
    cyc = scen.two_species()
    cyc["name"] = "msd-types"
    rot = scen.rotate3(5)
    d3 = scen.grid3d()
    d3["name"] = "msd-3d"
    tri = scen.sys_("msd-triclinic", [scen.O], (3, 3, 3), (True, True, True), ["A"] * 26 + ["V"], ["V", "A"],
                    [scen.hop(v, 1.0 + i, move="explicit") for i, v in enumerate((X, mX, scen.Y, scen.mY, scen.Z, scen.mZ))],
                    cell=[[1.5, 0.25, 0.1], [0.3, 2.0, -0.2], [-0.4, 0.35, 2.5]])
    js = []
    dts = [0.0, 0.5, 1.0, 7.75]
    odd = [1e-9, 0.3719, 1.1313, 55.5]
    steps = [1, 2, 3, 5]
    bins = [[4, 4.0], [16, 8.0]]
    for spec, depth, width in ((ring3, 6 if th else 5, 2), (obl, 3, 4), (hexa, 3, 4), (cyc, 3, 4), (rot, 3, 4), (d3, 2, 6), (tri, 2, 6)):
        for alpha, name in ((dts, "grid"), (odd, "odd")):
            a = alpha[1::2] if spec is ring3 else alpha
            n = 8 if not th else 32
            for i in range(n):
                js.append(dict(name="msd:%s:%s:%d" % (spec["name"], name, i), mode="histories", spec=spec, depth=depth + (1 if th else 0), width=width, dts=a,
                               steps=steps if name == "grid" else [2, 4], bins=bins if name == "grid" else [[5, 3.3], [100, 100.0]], t0=0.0 if name == "grid" else 17.25, part=[i, n]))
        js.append(dict(name="run:" + spec["name"], mode="run", spec=spec, settings=[[3, 7, 2.7], [5, 100, 100.0], [12, 3, 900.0]]))
        js.append(dict(name="long:" + spec["name"], mode="run", spec=spec, settings=[[40, 200, 300.0], [130, 64, 77.7]], lengths=(700,) if not th else (300, 1500, 5000)))
    return js


if __name__ == "__main__":
    vp.main(PID, jobs(), job, floor=2000,
            bounds="every history of the stated depth (events x time increments, including zero, bin edges and times beyond the last bin), every tracked type, history lengths 1 to 5, several binnings and cells",
            assumptions=["bin edges are hit exactly only where the bin width is a power of two", "the atoms moved by an event are those of C05"])

"""C03: whatever the random draws, the selected event is available, and each event owns a share rate/total of the draws."""
import itertools, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vp, scen, calcs
from sysm import Sys, norm_spec
from ref import Ref

PID = "C03"
ULP = 2.0 ** -53
EXTREME = [0.0, 5e-324, ULP, 0.5, 1.0 - ULP]


def tuples(params, out):
    """All rates of up to four (five) sites from a small set, in the initial state and after every event: with rates that are whole
    numbers and a grid of four draws per unit of rate, each site has to own exactly four draws per unit of its rate."""
    K, rng = vp.load()
    for n, rates in params["cases"]:
        spec = norm_spec(scen.sys_("rates", [scen.O], (n, 1, 1), (True, False, False), ["A"] * n, ["V", "A"], [scen.flip("A", "V", 1.0), scen.flip("V", "A", 1.0)]))
        ref = Ref(spec)

        def rate(e):
            return rates[(e[1] + e[0]) % n]

        class Calc(K.KMCRateCalculatorPlugin):
            def rate(self, geometry, elements_before, elements_after, rate_constant, process_number, global_coordinate):
                return float(rates[(int(round(global_coordinate[0])) + process_number) % n])

            def cutoff(self):
                return .4
        start = Sys(spec, calc=Calc).state()
        hists = [[]] + [[e] for e in sorted(ref.events(start)) if rate(e) > 0]
        for hist in hists:
            def at():
                s = Sys(spec, calc=Calc)
                for e in hist:
                    s.fire(e, rate)
                return s
            st = at().state()
            ev = sorted(ref.events(st))
            R = sum(map(rate, ev))
            out.states += 1
            lo = 0.0
            for p in range(2):
                mine = [e for e in ev if e[0] == p]
                T = sum(map(rate, mine))
                if not T:
                    continue
                u1 = (lo + .5 * T) / R
                lo += T
                count = dict.fromkeys(mine, 0)
                for k in range(4 * T):
                    s = at()
                    s.step(u1, (k + .5) / (4 * T))
                    e = s.latest()
                    out.transitions += 1
                    out.evals += 1
                    if e not in count or s.state() != ref.apply(st, e):
                        out.violation("the draws selected something that is not an available event", draws=[u1, (k + .5) / (4 * T)], reported=e, rates=rates, history=hist)
                        return
                    count[e] += 1
                if any(count[e] != 4 * rate(e) for e in mine):
                    out.violation("the share of the draws of a site is not its share of the rate", rates=[rate(e) for e in mine], process=p,
                                  draws_per_site=[count[e] for e in mine], draws_expected=[4 * rate(e) for e in mine], history=hist)
                    return
                out.outcome((len(mine), T))


def processes(params, out):
    """All rate constants and numbers of sites of up to three (four) processes from a small set: each process owns exactly
    four draws per unit of its total rate."""
    K, rng = vp.load()
    names = "ABCD"
    for case in params["cases"]:
        types = [t for t, (r, m) in zip(names, case) for _ in range(m)] + ["V"]
        spec = norm_spec(scen.sys_("rates", [scen.O], (len(types), 1, 1), (True, False, False), types, ["V"] + list(names),
                                   [scen.flip(t, "V", float(r)) for t, (r, m) in zip(names, case)]))
        ref = Ref(spec)
        st = Sys(spec).state()
        R = sum(r * m for r, m in case)
        out.states += 1
        count = [0] * len(case)
        for k in range(4 * R):
            s = Sys(spec)
            s.step((k + .5) / (4 * R), ((7 * k + 3) % 31 + .5) / 31)
            e = s.latest()
            out.transitions += 1
            out.evals += 1
            if not 0 <= e[0] < len(case) or s.state() != ref.apply(st, e):
                out.violation("the draws selected something that is not an available event", draw=(k + .5) / (4 * R), reported=e, rates_and_sites=case)
                return
            count[e[0]] += 1
        if count != [4 * r * m for r, m in case]:
            out.violation("the share of the draws of a process is not its share of the rate", rates_and_sites=case, draws=count, expected=[4 * r * m for r, m in case])
            return
        out.outcome(R)


def job(params, out):
    if params.get("mode"):
        return dict(tuples=tuples, processes=processes)[params["mode"]](params, out)
    spec = norm_spec(params["spec"])
    ref = Ref(spec)
    rr = calcs.RefRates(ref, spec["calc"]) if spec.get("calc") else None
    K, rng = vp.load()
    calc = calcs.make_calc(K, spec["calc"]) if spec.get("calc") else None

    def rate(st, e):
        return rr.rate(st, e) if rr else ref.procs[e[0]].rate

    def at(hist):
        s = Sys(spec, calc=calc)
        for e in hist:
            st = s.state()
            s.fire(e, (lambda x: rate(st, x)) if rr else None)
        return s

    def draw(hist, u1, u2, st, ev):
        """Which event do the draws (u1, u2) perform after this history?  Judged by what changed."""
        s = at(hist)
        if s.state() != st:
            out.violation("the same history led to another state", history=hist)
        s.step(u1, u2)
        out.transitions += 1
        out.evals += 1
        e, new = s.latest(), s.state()
        if e not in ev or ref.apply(st, e) != new:
            fits = [x for x in ev if ref.apply(st, x) == new]
            out.violation("the draws selected something that is not an available event", draws=[u1, u2], reported=e, before=st, after=new,
                          fits=fits, available=sorted(ev), history=hist, scenario=spec["name"])
        return e

    # all histories up to the depth, one per distinct (state, tables)
    seen, frontier = set(), [[]]
    while frontier:
        hist = frontier.pop(-1 if params.get("deep") else 0)
        s = at(hist)
        st = s.state()
        key = (st, s.tables())
        if key in seen:
            continue
        if len(seen) >= params["cap"]:
            out.note("capped")
            break
        seen.add(key)
        out.states += 1
        ev = ref.events(st)
        if not ev:
            continue
        if len(hist) < params["depth"]:
            frontier += [hist + [e] for e in sorted(ev)]
        per = [[e for e in sorted(ev) if e[0] == p] for p in range(len(ref.procs))]
        w = [sum(rate(st, e) for e in l) for l in per]
        R = sum(w)
        # ---- process selection: every boundary of the cumulative table, both sides, and the middles
        cum, a = [], 0.0
        for p, x in enumerate(w):
            if x > 0:
                cum.append((a / R, (a + x) / R, p))
                a += x
        pts = set(EXTREME)
        for lo, hi, p in cum:
            d = hi - lo
            for x in (lo + 1e-9, lo + .001 * d, lo + .5 * d, hi - .001 * d, hi - 1e-9, lo, hi, lo - ULP, hi - ULP, lo + ULP):
                if 0.0 <= x < 1.0:
                    pts.add(x)
        if params.get("deep"):
            pts = [.5 * (lo + hi) for lo, hi, p in cum]
        elif params.get("few"):
            pts = [x for lo, hi, p in cum for x in (lo + .01 * (hi - lo), hi - .01 * (hi - lo))]
        for u in sorted(pts):
            e = draw(hist, u, 0.5, st, ev)
            near = [p for lo, hi, p in cum if lo - 4e-13 <= u <= hi + 4e-13]
            if e[0] not in near:
                out.violation("a process was selected outside its share of the draws", draw=u, selected=e[0], expected=near,
                              shares=[(p, lo, hi) for lo, hi, p in cum], history=hist, state=st, scenario=spec["name"])
            out.outcome("p%d" % e[0])
        # ---- site selection: for every process a grid over the second draw; the share of each site must be its rate
        for lo, hi, p in cum:
            u1 = .5 * (lo + hi)
            if hi - lo < 1e-11:
                continue
            n = len(per[p])
            if params.get("few") and p % 37 and p < len(per) - 2:
                continue
            for u in EXTREME:
                draw(hist, u1, u, st, ev)
            if params.get("few"):
                got = [draw(hist, u1, (k + .5) / n, st, ev) for k in sorted(set(j * n // 24 for j in range(24)) | {n - 1})]
                if len(set(got)) != len(got):
                    out.violation("different shares of the draws select the same site", process=p, sites=n, selected=got, history=hist, scenario=spec["name"])
            elif rr is None:
                got = []
                for k in range(n):
                    es = [draw(hist, u1, min(1 - ULP, (k + f) / n), st, ev) for f in (1e-6, .5, 1 - 1e-6)]
                    if len(set(es)) != 1:
                        out.violation("equally likely sites do not have equal shares of the draws", process=p, slot=k, sites=n, selected=es,
                                      history=hist, state=st, scenario=spec["name"])
                    got.append(es[0])
                if sorted(got) != per[p]:
                    out.violation("not every available site of a process can be selected", process=p, selected=sorted(got), available=per[p],
                                  history=hist, state=st, scenario=spec["name"])
            elif params.get("exact"):
                # the exact measure of the draws of every site: all change points are found by bisection, starting from the middles of
                # the pieces between all sums of shares (so that no order of the sites is assumed)
                sh = [rate(st, e) / w[p] for e in per[p]]
                sums = {0.0, 1.0}
                for x in sh:
                    sums |= set(a + x for a in list(sums) if a + x <= 1.0 + 1e-12)
                    sums |= set(a - x for a in list(sums) if a - x >= -1e-12) if len(sh) < 4 else set()
                sums = sorted(min(1.0, max(0.0, a)) for a in sums)
                memo = {}

                def pick(u):
                    if u not in memo:
                        memo[u] = draw(hist, u1, u, st, ev)
                    return memo[u]
                pts = sorted(set([0.0, 1.0 - ULP] + [.5 * (a + b) for a, b in zip(sums, sums[1:]) if .5 * (a + b) < 1.0] + [(k + .5) / 8 for k in range(8)]))
                size = dict.fromkeys(per[p], 0.0)
                for a, b in zip(pts, pts[1:]):
                    ea, eb = pick(a), pick(b)
                    if ea == eb:
                        size[ea] = size.get(ea, 0.0) + (b - a)
                        continue
                    lo2, hi2 = a, b
                    while hi2 - lo2 > 2e-15:
                        mid = .5 * (lo2 + hi2)
                        if pick(mid) == ea:
                            lo2 = mid
                        else:
                            hi2 = mid
                    size[ea] = size.get(ea, 0.0) + (lo2 - a)
                    eh = pick(hi2)
                    size[eh] = size.get(eh, 0.0) + (b - lo2)
                    if eh != eb:
                        out.note("two-changes-between-points")
                for e, x in zip(per[p], sh):
                    if abs(size.get(e, 0.0) - x) > 4e-14 + 1e-9 * x or (x == 0.0 and e in memo.values()):
                        out.violation("the share of the draws of a site is not its share of the rate", event=e, share=size.get(e, 0.0), expected=x,
                                      history=hist, state=st, scenario=spec["name"])
            else:
                N = params["grid"]
                cnt = {}
                for k in range(N):
                    e = draw(hist, u1, (k + .5) / N, st, ev)
                    cnt[e] = cnt.get(e, 0) + 1
                for e in per[p]:
                    share = rate(st, e) / w[p]
                    if abs(cnt.get(e, 0) - share * N) > 1.5:
                        out.violation("the share of the draws of a site is not its share of the rate", event=e, share=cnt.get(e, 0) / float(N), expected=share,
                                      history=hist, state=st, scenario=spec["name"])
        # ---- joint: the two draws must be independent
        if len(cum) > 1 and params.get("joint"):
            grid = [(i + .5) / 12 for i in range(12)]
            for u2 in (.01, .26, .51, .76, .99):
                for u1 in grid:
                    near = [p for lo, hi, p in cum if lo - 1e-12 <= u1 <= hi + 1e-12]
                    e = draw(hist, u1, u2, st, ev)
                    if e[0] not in near:
                        out.violation("the process depends on the draw for the site", draws=[u1, u2], selected=e[0], expected=near, history=hist, state=st)
    out.sample(dict(initial=spec["types"], states_with_tables=out.states, draws=out.transitions))


def jobs():
    th = vp.thorough()
    js = []
    base = [s for s in scen.plain() + scen.buckets() if s["name"] not in ("grid3d", "ising2d")]
    order = [dict(scen.many_procs(), name="order-%d" % i, procs=[[scen.flip("V", "A", r), scen.hop(scen.X, r2), scen.flip("A", "V", 1.0)][j] for j in perm], types=["A", "V", "V", "A", "V"])
             for i, (perm, r, r2) in enumerate([((0, 1, 2), 1.0, 2.0), ((1, 0, 2), 1.0, 2.0), ((2, 1, 0), 1.0, 2.0), ((0, 2, 1), 3.0, 0.5), ((1, 2, 0), 1e-7, 1e7), ((2, 0, 1), 1e5, 1e-5)])]
    gap = scen.sys_("impossible-between", [scen.O], (4, 1, 1), (True, False, False), ["A", "V", "V", "A"], ["V", "A", "B"],
                    [scen.flip("B", "A", 2.0), scen.flip("V", "A", 1.0), scen.flip("B", "V", 5.0), scen.flip("A", "V", 1.0), scen.flip("B", "V", 7.0)])
    same = scen.sys_("all-same", [scen.O], (5, 1, 1), (True, False, False), ["A"] * 5, ["V", "A"], [scen.flip("A", "V", 0.1), scen.flip("V", "A", 1.0 / 3)])
    for s in base + order + [gap, same]:
        js.append(dict(name="draws:" + s["name"], spec=s, depth=6 if th else 2, cap=400 if th else 6, joint=True))
    for s in scen.large() + scen.large_buckets():
        if s["name"] in ("large-processes", "large-types", "large-bucket-types", "large-sheet"):
            js.append(dict(name="draws:" + s["name"], spec=s, depth=2 if th else 0, cap=4 if th else 1, few=True))
    c = []
    for b, f in ((scen.ads_des_hop(5), "counting"), (scen.ring_hop(5, ["A", "A", "V", "A", "V"]), "neighbours"), (scen.two_basis_1d(4), "neighbours")):
        c.append(dict(b, name="custom-" + b["name"], calc=dict(func=f, cutoff=1.0)))
    for s in c:
        js.append(dict(name="draws:" + s["name"], spec=s, depth=3, cap=60 if th else 4, grid=400 if th else 120))
    for b in (scen.sys_("flips6", [scen.O], (6, 1, 1), (True, False, False), list("AAAAAA"), ["V", "A"], [scen.flip("A", "V", 1.0), scen.flip("V", "A", 2.0)]),
              scen.sys_("hops6", [scen.O], (6, 1, 1), (True, False, False), list("AVAVAV"), ["V", "A"], [scen.hop(scen.X, 1.0), scen.hop(scen.mX, 1.0)])):
        js.append(dict(name="exact:" + b["name"], spec=dict(b, calc=dict(func="spread", cutoff=1.0)), depth=3 if th else 2, cap=60 if th else 7, exact=True))
    # the shares of the sites in states after several events, with rates that differ strongly
    steep = [scen.sys_("flips4", [scen.O], (4, 1, 1), (True, False, False), list("AVAA"), ["V", "A"], [scen.flip("A", "V", 1.0), scen.flip("V", "A", 2.0)]),
             scen.sys_("hops5", [scen.O], (5, 1, 1), (True, False, False), list("AVAAV"), ["V", "A"], [scen.hop(scen.X, 1.0), scen.hop(scen.mX, 1.0)]),
             scen.sys_("bucket4", [scen.O], (4, 1, 1), (True, False, False), ["A", (2, "A"), [], "A"], ["V", "A"],
                       [scen.bproc([scen.O], [[(1, "A")]], [[(-1, "A")]]), scen.bproc([scen.O, scen.X], [[(1, "A")], [(0, "A")]], [[(-1, "A")], [(1, "A")]])], buckets=True)]
    for s in steep:
        for f in ("steep",) + (("counting", "steep_left") if th else ()):
            s2 = dict(s, name="deep-%s-%s" % (s["name"], f), calc=dict(func=f, cutoff=1.0))
            js.append(dict(name="draws:" + s2["name"], spec=s2, depth=4 if th else 3, cap=300 if th else 20, grid=64 if th else 24, deep=True))
    cases = [[n, t] for n in range(1, 6 if th else 5) for t in itertools.product((0, 1, 2, 3), repeat=n) if any(t)]
    for i in range(24):
        js.append(dict(name="rates:%d" % i, mode="tuples", cases=cases[i::24]))
    one = [(1, 0)] + [(r, m) for r in (1, 2, 3) for m in (1, 2)]
    cases = [t for n in range(1, 5 if th else 4) for t in itertools.product(one, repeat=n) if any(m for r, m in t)]
    for i in range(16):
        js.append(dict(name="processes:%d" % i, mode="processes", cases=cases[i::16]))
    return js


if __name__ == "__main__":
    vp.main(PID, jobs(), job, floor=40, bounds="per state: both sides (1 ulp, 1e-9) of every boundary of the selection tables, interval middles, the extreme values 0, 2^-1074, 2^-53, 1-2^-53, and a grid for site shares; all rates from 0 to 3 of up to four (five) sites, before and after every event; all rates and numbers of sites of up to three (four) processes",
            assumptions=["the generator delivers numbers in [0,1) (C07 checks the seam)"])

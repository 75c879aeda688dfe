"""C10: caching of custom rates is invisible, and the cache stays bounded."""
import os, subprocess, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vp, scen, explore, calcs
from sysm import Sys, norm_spec
from ref import Ref

PID = "C10"
TOL = 1e-10
HOLD = 7 * 1024       # a surrounding must not be evaluated again before this many others were stored


class Pair(Sys):
    """A model with cached rates with its twin without caching: both get the same random numbers."""
    def __init__(self, spec, K):
        sc = spec["calc"]
        self.calc = calcs.make_calc(K, sc)
        self.calc.calls = []
        self.slow = calcs.make_calc(K, dict(sc, cache=False, exclude=None))
        Sys.__init__(self, spec, calc=self.calc)
        self.twin = Sys(spec, calc=self.slow)
        self.seen = {}
        self.stored = 0

    def fire(self, e, weight=None):
        u1, u2 = self.aim(e, weight)
        self.twin.step(u1, u2)
        self.step(u1, u2)
        return self.latest()


def job(params, out):
    if params["mode"] == "store":
        p = subprocess.run([params["prog"]] + [str(x) for x in params["args"]], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
        if p.returncode < 0:
            out.violation("the rate store crashed", signal=-p.returncode, stderr=p.stderr[-1000:])
            return
        words = p.stdout.split()
        if words[:1] == ["ok"]:
            out.states += int(words[1])
            out.transitions += int(words[2])
            out.evals += int(words[1])
        else:
            out.violation("the rate store does not do what it promises", report=p.stdout[-1500:])
        return
    if params["mode"] == "nostore":
        out.note("the rate store could not be driven on its own (its interface changed): " + params["why"][:200])
        return
    spec = norm_spec(params["spec"])
    ref = Ref(spec)
    K, rng = vp.load()
    sc = spec["calc"]
    rr = calcs.RefRates(ref, sc)
    excl = set(sc.get("exclude") or ())
    cur = {}

    def make():
        return Pair(spec, K)

    def check(s, prev, e, st, hist):
        cur["st"] = st
        out.evals += 1
        where = dict(scenario=spec["name"], calculator=sc, initial=spec["types"], history=list(hist)[-300:], state=st)
        if s.twin.state() != st or s.twin.latest() != s.latest():
            out.violation("the trajectories with and without caching differ", with_caching=(s.latest(), st),
                          without_caching=(s.twin.latest(), s.twin.state()), **where)
        if s.twin.tables() != s.tables():
            out.violation("the available events with and without caching differ", **where)
        byp = {}
        for ev in ref.events(st):
            byp.setdefault(ev[0], []).append(ev)
        tot, tot2 = s.totals(), s.twin.totals()
        for p in range(len(ref.procs)):
            exp = sum(rr.rate(st, ev) for ev in byp.get(p, ()))
            for name, t in (("with", tot), ("without", tot2)):
                if abs(t[p] - exp) > TOL * max(exp, 1e-3):
                    out.violation("total rate of a process %s caching is not the sum of what the calculator gives for the present surroundings" % name,
                                  process=p, reported=t[p], expected=exp, **where)
        # what was evaluated in this step
        new = {}
        asked = set()
        for call in s.calc.calls:
            proc, glob, env = call[0], call[1], call[2]
            k = (proc, env)
            if proc in excl:
                asked.add((proc, ref.lat.locate(glob)))
                continue
            if k in s.seen and s.stored - s.seen[k] < HOLD - 200:
                out.violation("a surrounding whose rate was cached was evaluated again", process=proc, surroundings=env,
                              stored_since=s.stored - s.seen[k], **where)
            new[k] = True
        for k in new:
            s.stored += 1
            s.seen[k] = s.stored
        del s.calc.calls[:]
        out.outcome((len(new), len(asked)))

    w = lambda e: rr.rate(cur["st"], e)

    def bounded(s, st):
        return [e for e in set(s.events()) if e not in ref.events(st) or all(len(x) <= 3 for x in ref.apply(st, e))]

    if params["mode"] == "graph":
        full = explore.graph(make, check, out, cap=params["cap"], max_steps=params["steps"], weight=w, events=bounded if ref.buckets else None)
        out.note("graphs-complete" if full else "graphs-capped")
        out.sample(dict(calculator=sc, initial=spec["types"], reachable_states=out.states, complete=full))
    elif params["mode"] == "tree":
        full = explore.tree(make, check, out, params["depth"], cap=params.get("cap"), weight=w)
        out.note("trees-complete" if full else "trees-capped")
    else:
        # one long history through all states in the order of a Gray code: fills and rolls over all generations
        s, hist = make(), []
        st = s.state()
        check(s, None, None, st, hist)
        n = len(st)
        for i in range(1, params["steps"]):
            bit = (i & -i).bit_length() - 1
            if bit >= n:
                bit = n - 1
            e = [x for x in s.events() if x[1] == bit]
            if len(e) != 1:
                out.violation("not exactly one of adsorption and desorption is available at a site", site=bit, events=e, history=hist[-20:])
                return
            s.fire(e[0], w)
            st = s.state()
            hist.append(e[0])
            out.transitions += 1
            out.states += 1
            check(s, None, e[0], st, hist)
        out.traces += 1
        out.note("distinct-surroundings-stored", s.stored)


def specs():
    s = []

    def add(base, func, cut, exclude=None, **kw):
        s.append(dict(base, name="%s/%s/%s" % (base["name"], func, cut) + ("/excl" if exclude else ""),
                      calc=dict(func=func, cutoff=cut, cache=True, exclude=exclude), **kw))

    for f in ("neighbours", "after_sensitive"):
        add(scen.ads_des_hop(5), f, None)
        add(scen.ads_des_hop(5), f, 1.0)
        add(scen.ads_des_hop(6), f, 2.0)
        add(scen.ads_des_hop(7), f, 3.0)
        add(scen.two_basis_1d(4), f, 1.0)
        add(scen.two_basis(3), f, 1.0)
        add(scen.three_basis(3), f, 1.0)
        add(scen.near_sites(3), f, 1.0)
        add(scen.grid2d(3), f, 1.0)
        add(scen.wild(5), f, 2.0)
        add(scen.nonper_full(5), f, 2.0)
        add(scen.nonper_full(6), f, 1.0)
        add(scen.rotate3(5), f, 1.0)
        add(scen.hexagonal(3), f, 1.0)
        add(scen.oblique(3), f, 1.0)
        add(scen.many_procs(), f, 1.0)
        add(scen.multi_basis_single(), f, 1.0)
        add(scen.two_species(), f, 2.0)
        add(scen.bucket1(), f, 1.0)
        add(scen.bucket2(), f, 2.0)
        add(scen.bucket_wild(), f, 1.0)
        add(scen.bucket_mixed(), f, 1.0)
        add(scen.bucket_basis(), f, 1.0)
    for base in (scen.ads_des_hop(5), scen.two_species(), scen.two_basis_1d(4), scen.nonper_full(5), scen.grid2d(3), scen.many_procs(), scen.bucket2(), scen.bucket_basis()):
        add(base, "excl0", 1.0, exclude=[0, 3])
    for ex in ([1], [0, 1, 2, 3], [2, 0], [7, 1]):
        add(scen.ads_des_hop(5), "neighbours", 1.0, exclude=ex)
    # the same surroundings on sublattices of different geometry, and two processes on them
    for p in ((True, False, False), (False, False, False)):
        add(scen.mixed_periodic(p), "neighbours", 1.0)
    add(scen.sys_("asym", [[0., 0., 0.], [.3, 0., 0.]], (4, 1, 1), (True, False, False), ["V"] * 7 + ["A"], ["V", "A"],
                  [scen.flip("V", "A", .2, basis=(0, 1)), scen.flip("A", "V", .3, basis=(0, 1)), scen.hop([.3, 0., 0.], 1.)]), "neighbours", .75)
    # corners, edges and faces of a lattice with borders
    add(scen.sys_("borders", [scen.O], (3, 3, 1), (False, False, False), ["V"] * 8 + ["A"], ["V", "A"],
                  [scen.flip("V", "A", .2), scen.flip("A", "V", .3)]), "neighbours", 1.0)
    names = {}
    for x in s:
        n = names[x["name"]] = names.get(x["name"], 0) + 1
        if n > 1:
            x["name"] += "#%d" % n
    return s


def jobs():
    th = vp.thorough()
    js = []
    prog = os.path.join(vp.VERIF, "build", "ratetable-%d" % os.getpid())
    src = "/repo/c++/src"
    p = subprocess.run(["g++", "-O2", "-std=c++11", "-I" + src, "-o", prog, os.path.join(vp.HERE, "ratetable_driver.cpp"), src + "/ratetable.cpp"],
                       stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    if p.returncode == 0:
        js.append(dict(name="store", mode="store", prog=prog, args=[33, 6] if th else [18, 4]))
    else:
        js.append(dict(name="store", mode="nostore", why=p.stderr))
    for n, cut in ((15, 7.0), (13, 6.0)):
        sp = scen.sys_("gray%d" % n, [scen.O], (n, 1, 1), (True, False, False), ["V"] * n, ["V", "A"], [scen.flip("V", "A", .2), scen.flip("A", "V", .3)])
        sp["calc"] = dict(func="neighbours", cutoff=cut, cache=True)
        js.append(dict(name="roll-over:%d" % n, mode="gray", spec=sp, steps=20000 if th else 2600))
    for s in specs():
        js.append(dict(name="graph:" + s["name"], mode="graph", spec=s, cap=6000 if th else 1500, steps=60000 if th else 4000))
        js.append(dict(name="tree:" + s["name"], mode="tree", spec=s, depth=6 if th else 3, cap=3000 if th else 300))
    return js, prog


if __name__ == "__main__":
    js, prog = jobs()

    def post(res):
        if os.path.exists(prog):
            os.unlink(prog)
    vp.main(PID, js, job, floor=1000, post=post,
            bounds="reachable states of each listed model up to the stated cap, histories to the stated depth, and histories that roll over all generations; all operation sequences of length 4 to 6 around every generation boundary of the store",
            assumptions=["the calculator is a deterministic function of its surroundings for every process that is not excluded from caching"])

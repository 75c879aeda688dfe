"""C18: on any number of MPI ranks every rank holds the serial result."""
import hashlib, itertools, json, os, shutil, subprocess, sys, tempfile
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vp, scen, explore, calcs
from sysm import Sys, norm_spec
from ref import Ref

PID = "C18"


def digest(x):
    return hashlib.md5(repr(x).encode()).hexdigest()[:16]


def replay(params, rank, scratch, variant):
    """The same deterministic exploration on every rank; returns the log of everything seen."""
    spec = norm_spec(params["spec"])
    ref = Ref(spec)
    K, rng = vp.load(variant)
    rr = calcs.RefRates(ref, spec["calc"]) if spec.get("calc") else None
    calc = calcs.make_calc(K, spec["calc"]) if spec.get("calc") else None
    log = []
    cur = {}
    out = vp.Out()
    mode = params["mode"]

    def check(s, prev, e, st, hist):
        cur["st"] = st
        ev = s.events()
        if set(ev) != ref.events(st) or len(set(ev)) != len(ev):
            raise vp.Violation("available events differ from brute-force matching: missing %r extra %r after %r" % (
                sorted(ref.events(st) - set(ev)), sorted(set(ev) - ref.events(st)), hist[-20:]))
        tot = s.totals()
        if rr:
            for i, t in enumerate(tot):
                exp = sum(rr.rate(st, x) for x in ev if x[0] == i)
                if abs(t - exp) > 1e-11 * max(exp, 1e-300):
                    raise vp.Violation("total rate of process %d is %r, the calculator's rates sum to %r after %r" % (i, t, exp, hist[-20:]))
        log.append([list(e) if e else None, digest((st, s.tables(), ["%.14g" % t for t in tot], "%.14g" % s.total(), s.ids()))])

    make = lambda: Sys(spec, calc=calc)
    weight = (lambda e: rr.rate(cur["st"], e)) if rr else None
    if mode == "graph":
        explore.graph(make, check, out, cap=params["cap"], max_steps=params["steps"], weight=weight)
    elif mode == "tree":
        explore.tree(make, check, out, params["depth"], cap=params["cap"], weight=weight)
    else:
        rng.mode(0)

        class Rec(K.KMCAnalysisPlugin):
            def setup(self, step, time, configuration):
                log.append([step, "%.15g" % time])

            def registerStep(self, step, time, configuration):
                log.append([step, "%.15g" % time, digest(configuration.types()), digest([tuple(map(float, c)) for c in configuration.atomIDCoordinates()])])

            def finalize(self):
                pass
        for n, run in enumerate(params["runs"]):
            s = Sys(spec, calc=calc)
            fn = os.path.join(scratch, "traj%d.%s" % (n, run["type"]))
            buf = open(os.path.join(scratch, "print-%d-%d" % (n, rank)), "w")
            stats = K.ProcessStatistics(processes=[0], time_interval=0.5)
            comp = K.Composition(time_interval=0.5)
            so = sys.stdout
            sys.stdout = buf
            try:
                kw = dict(seed=run["seed"]) if run["seed"] is not None else {}
                s.model.run(K.KMCControlParameters(number_of_steps=run["steps"], dump_interval=2, rng_type=run["rng"], **kw),
                            trajectory_filename=fn, trajectory_type=run["type"], analysis=[Rec(), comp, stats])
                comp.printResults(sys.stdout)
                stats.printResults(sys.stdout)
            except Exception as e:
                if type(e).__name__ != "Error":
                    raise
                log.append(["error"])
            finally:
                sys.stdout = so
                buf.close()
    return log, out.states, out.transitions


def job(params, out):
    import ranks
    scratch = tempfile.mkdtemp(prefix="vp-c18-")
    try:
        d0 = os.path.join(scratch, "serial")
        os.mkdir(d0)
        p = subprocess.run([sys.executable, os.path.abspath(__file__), "--serial"], input=json.dumps(dict(params=params, scratch=d0)),
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
        if p.returncode:
            if p.returncode == -9:
                raise RuntimeError("serial run killed")
            out.violation("the serial run fails", output=p.stderr[-1500:])
            return
        serial = json.loads(p.stdout.splitlines()[-1])
        if "err" in serial:
            out.violation("the serial run fails", output=serial["err"])
            return
        slog = serial["log"]
        out.states += serial["states"]
        for size, order in params["sizes"]:
            d = os.path.join(scratch, "n%d-%d" % (size, order))
            os.mkdir(d)
            res, problem, calls = ranks.group(lambda r: replay(params, r, d, "mpi"), size, order)
            where = dict(ranks=size, reduction_order=order, scenario=params["spec"]["name"], mode=params["mode"])
            if problem:
                out.violation("on several ranks: %s" % problem[:600], **where)
                continue
            if size > 1 and calls == 0:
                raise RuntimeError("no MPI call was made")
            out.note("collective-calls", calls)
            seeded = not any(r["seed"] is None for r in params.get("runs", []))
            base = slog if seeded else res[0][0]
            for r in range(size):
                out.evals += 1
                log = res[r][0]
                out.transitions += res[r][2]
                if json.loads(json.dumps(log)) != base:
                    k = [i for i in range(min(len(log), len(base))) if log[i] != base[i]]
                    out.violation("rank %d of %d holds another result than %s" % (r, size, "the serial run" if seeded else "rank 0"), at=k[:1] or min(len(log), len(base)),
                                  lengths=[len(log), len(base)], this=log[k[0]] if k else None, other=base[k[0]] if k else None, previous=base[max(0, (k[0] if k else 0) - 5):(k[0] if k else 0)], **where)
                    break
            out.traces += size
            # files: as the serial run writes them, and written once
            if params["mode"] == "run" and seeded:
                for n, run in enumerate(params["runs"]):
                    f = "traj%d.%s" % (n, run["type"])
                    a, b = (strip(open(os.path.join(x, f)).read()) for x in (d0, d))
                    out.evals += 1
                    if a != b:
                        out.violation("the trajectory written by several ranks differs from the serial one", file=f, serial=len(a), parallel=len(b), **where)
                    for r in range(size):
                        t = strip(open(os.path.join(d, "print-%d-%d" % (n, r))).read())
                        want = strip(open(os.path.join(d0, "print-%d-0" % n)).read()) if r == 0 else ""
                        if t != want:
                            out.violation("the printed output of rank %d is not that of the serial run" % r if r == 0 else "rank %d prints" % r, output=t[:300], **where)
            out.outcome(digest(base))
        out.sample(dict(sizes=params["sizes"], log_entries=len(slog), last=slog[-1] if slog else None))
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def strip(t):
    return "\n".join(l for l in t.splitlines() if not l.startswith("creation_time"))


def jobs():
    th = vp.thorough()
    js = []
    specs = [scen.ring_hop(5), scen.ads_des_hop(5), scen.two_species(), scen.two_basis_1d(4), scen.wild(5), scen.rotate3(5), scen.bucket2(), scen.hexagonal(3),
             scen.multi_basis_single(), scen.flat_periodic(5), scen.nonper_full(5), scen.bucket_basis(), scen.many_procs()]
    specs += [s for s in scen.plain() if s["name"] == "mixedper-000"]
    if th:
        specs = scen.plain() + scen.buckets()
    for base, f, cut in ((scen.ring_hop(5), "neighbours", 1.0), (scen.ads_des_hop(5), "counting", 2.0), (scen.two_basis_1d(4), "neighbours", 1.0),
                         (scen.wild(5), "position", 1.0)):
        for cache in (False, True):
            if cache and f == "position":
                continue        # a rate that depends on the absolute position must not be cached
            specs.append(dict(base, name="custom-%s-%s%s" % (base["name"], f, "-cached" if cache else ""), calc=dict(func=f, cutoff=cut, cache=cache)))
    sizes = [[2, 0], [3, 1], [5, 0], [7, 3]] if not th else [[1, 0], [2, 0], [2, 1], [3, 0], [3, 1], [3, 2], [4, 0], [5, 2], [8, 0], [13, 6]]
    # a single site and a single process: fewer tasks than ranks
    specs.append(scen.sys_("one-site", [scen.O], (1, 1, 1), (False, False, False), ["A"], ["A", "B"], [scen.flip("A", "B", 1.0), scen.flip("B", "A", 2.0)]))
    for s in scen.large() + scen.large_buckets():
        js.append(dict(name="graph:" + s["name"], mode="graph", spec=s, sizes=sizes[:4:3], cap=20 if th else 4, steps=30 if th else 6))
    for s in specs:
        cust = bool(s.get("calc"))
        js.append(dict(name="graph:" + s["name"], mode="graph", spec=s, sizes=sizes, cap=(400 if th else 30) if cust else (2000 if th else 60), steps=(2000 if th else 60) if cust else (8000 if th else 150)))
        js.append(dict(name="tree:" + s["name"], mode="tree", spec=s, sizes=sizes[:3], depth=4 if th else 2, cap=200 if th else 12))
        if s["name"] in ("ring5-hop", "adsdes5", "bucket2", "two-basis-1d", "rotate3") or cust:
            runs = [dict(seed=k + 1, steps=30 if not th else 200, rng=r, type=("lattice", "xyz")[k % 2]) for k, r in enumerate(("MT", "MINSTD", "RANLUX24", "RANLUX48"))]
            js.append(dict(name="run:" + s["name"], mode="run", spec=s, sizes=sizes, runs=[r for r in runs if not (s.get("buckets") and r["type"] == "xyz")]))
            if not cust:
                js.append(dict(name="timeseed:" + s["name"], mode="run", spec=s, sizes=sizes[:3], runs=[dict(seed=None, steps=20, rng="MT", type="lattice")]))
    return js


if __name__ == "__main__":
    if "--serial" in sys.argv:
        q = json.loads(sys.stdin.read())
        sys.argv = sys.argv[:1]
        try:
            log, a, b = replay(q["params"], 0, q["scratch"], "plain")
            d = dict(log=log, states=a, transitions=b)
        except vp.Violation as e:
            d = dict(err=e.what)
        sys.stdout.write("\n" + json.dumps(d, default=vp._jd) + "\n")
        sys.stdout.flush()
        os._exit(0)
    import build
    try:
        build.build("plain")
    except Exception as e:
        sys.stderr.write(str(e))
        sys.exit(2)
    vp.main(PID, jobs(), job, variant="mpi", floor=200, nproc=4, bounds="rank counts up to 7 (thorough 13) and several reduction orders; all states/histories of each model to the stated cap; seeded runs with all generators",
            assumptions=["the MPI stand-in implements the collectives as the standard says; reductions may be done in any order",
                         "the DEVICE generator is excluded: it gives every rank its own numbers"])

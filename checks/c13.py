"""C13: the trajectory files hold exactly the dumped steps, for every flush schedule and every end of a run."""
import itertools, math, os, shutil, sys, tempfile, time
# The clock can be scripted; the library must pick up this function, so it is replaced before it is imported.
_real_time = time.time
CLOCK = [None]


def _time():
    return _real_time() if CLOCK[0] is None else CLOCK[0]()


time.time = _time
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vp, scen, trajs
from sysm import Sys, norm_spec
import numpy

PID = "C13"
TU = [.9, .8, .97, .85, .7, .99, .75, .92]


class Boom(Exception):
    pass


def draws(n):
    out = []
    for k in range(n):
        out += [TU[k % len(TU)], ((7 * k * k + 11 * k + 3) % 101 + .5) / 101, ((5 * k * k + 17 * k + 1) % 103 + .5) / 103]
    return out


def content(c, buckets):
    """What a dump must show of a configuration."""
    ty = c.types()
    if buckets:
        ty = [sorted(x for n, t in ([(1, e) if isinstance(e, str) else e for e in s] if not isinstance(s, str) else [(1, s)]) for x in [t] * n) for s in ty]
        return dict(types=ty, atoms=None)
    return dict(types=list(ty), atoms=[(t, tuple(float(x) for x in r)) for t, r in zip(c.atomIDTypes(), c.atomIDCoordinates())])


def base(spec, n):
    s = Sys(spec)
    b = bool(spec.get("buckets"))
    seq = [(s.timer.simulationTime(), content(s.config, b))]
    s.rng.set(draws(n))
    for _ in range(n):
        if s.cpp.interactions().totalAvailableSites() == 0:
            break
        s.cpp.propagateTime()
        s.cpp.singleStep()
        seq.append((s.timer.simulationTime(), content(s.config, b)))
    return seq


def ten_digits(a, b):
    return abs(a - b) <= 6e-11 * abs(b) + 1e-300


def check_file(out, fn, kind, spec, dumps, where):
    """dumps: [(step, time, content)]"""
    out.evals += 1
    text = open(fn, encoding="utf-8").read()
    try:
        d = trajs.lattice(text) if kind == "lattice" else trajs.xyz(text)
    except ValueError as e:
        out.violation("the %s trajectory is malformed: %s" % (kind, e), end_of_file=text[-300:], **where)
        return
    fr = d["frames"]
    if [f[0] for f in fr] != [x[0] for x in dumps]:
        out.violation("the %s trajectory does not hold each dumped step once and in order" % kind, steps=[f[0] for f in fr], expected=[x[0] for x in dumps], **where)
        return
    for f, (step, t, c) in zip(fr, dumps):
        if not ten_digits(f[1], t):
            out.violation("the time of a dumped step is wrong", step=step, got=f[1], expected=t, **where)
        if kind == "lattice":
            ty = f[2]
            if spec.get("buckets"):
                ty = [sorted(x for n, t2 in s for x in [t2] * n) for s in ty]
            if list(ty) != c["types"]:
                out.violation("the types of a dumped step are wrong", step=step, got=ty, expected=c["types"], **where)
        elif c["atoms"] is not None:
            if len(f[2]) != len(c["atoms"]):
                out.violation("the number of atoms of a dumped step is wrong", step=step, **where)
            for a, (g, e) in enumerate(zip(f[2], c["atoms"])):
                if g[0] != e[0] or not all(abs(x - y) <= 6e-11 * abs(y) + 1e-14 for x, y in zip(g[1:], e[1])):
                    out.violation("an atom of a dumped step is wrong", step=step, atom=a, got=g, expected=e, **where)
    out.outcome((kind, len(fr)))
    return d


def check_header(out, d, kind, spec, s, where):
    if d is None:
        return
    if kind == "lattice":
        sites = s.config.sites()
        if len(d["sites"]) != len(sites) or any(abs(x - y) > 6e-7 for a, b in zip(d["sites"], sites) for x, y in zip(a, b)):
            out.violation("the sites in the trajectory are wrong", got=d["sites"][:5], **where)
    else:
        L = s.config.lattice()
        if not numpy.allclose(d["cell"], L.unitCell().cellVectors(), rtol=1e-9) or tuple(d["reps"]) != tuple(L.repetitions()) or tuple(d["periodic"]) != tuple(L.periodic()):
            out.violation("the header of the trajectory is wrong", got=d, **where)


# ----------------------------------------------------------------------------------------- whole runs
def whole(params, out):
    spec = norm_spec(params["spec"])
    K, rng = vp.load()
    n = params["n"]
    seq = base(spec, n + 6)
    scratch = tempfile.mkdtemp(prefix="vp-c13-")
    part, parts = params["part"]
    try:
        fn = os.path.join(scratch, "traj")
        cases = [(kind, dump, end, jumps) for kind in params["kinds"] for dump in params["dumps"] for end in params["ends"]
                 for jumps in itertools.product(params["jumps"], repeat=n)]
        for kind, dump, (what, at), jumps in cases[part::parts]:
            s = Sys(spec)
            where = dict(scenario=spec["name"], format=kind, dump_interval=dump, end=(what, at), clock_jumps=jumps)
            clock = [1.0e9 + sum(jumps[:k]) for k in range(n + 1)] + [1.0e9 + sum(jumps)] * 10
            exc = {"boom": Boom("x"), "interrupt": KeyboardInterrupt(), "exit": SystemExit(3)}.get(what)

            class An(K.KMCAnalysisPlugin):
                def registerStep(self, step, t, c):
                    if step == at and exc is not None:
                        raise exc

            class Br(K.KMCBreakerPlugin):
                def interval(self):
                    return 1

                def evaluate(self, step, t, c):
                    return what == "break" and step == at
            rng.set(draws(n + 6))
            CLOCK[0] = lambda: clock[min(len(clock) - 1, rng.draws() // 3)]
            caught = None
            try:
                with vp.quiet():
                    kw = dict(dump_interval=dump) if isinstance(dump, int) else dict(dump_time_interval=dump)
                    s.model.run(K.KMCControlParameters(number_of_steps=n, seed=1, **kw), trajectory_filename=fn, trajectory_type=kind, analysis=[An()], breakers=[Br()])
            except BaseException as e:
                caught = e
            finally:
                CLOCK[0] = None
            out.states += 1
            out.traces += 1
            last = min(n, len(seq) - 1)
            if what != "end" and at <= last:
                last = at
                if exc is not None and caught is not exc:
                    out.violation("the exception of an analysis does not reach the caller", raised=repr(caught), **where)
            elif last < n:
                if type(caught).__name__ != "Error":
                    out.violation("running out of events does not raise the library's error", raised=repr(caught), **where)
            elif caught is not None:
                out.violation("the run raised an exception", raised=repr(caught), **where)
            out.transitions += last
            dumps = [(0,) + seq[0]]
            if isinstance(dump, int):
                dumps += [(k,) + seq[k] for k in range(1, last + 1) if k % dump == 0]
            else:
                m = 0
                for k in range(last):
                    if seq[k + 1][0] - (seq[0][0] + m * dump) >= dump * (1 - 1e-12):
                        m += 1
                        dumps.append((k,) + seq[k])
            d = check_file(out, fn, kind, spec, dumps, where)
            check_header(out, d, kind, spec, s, where)
    finally:
        CLOCK[0] = None
        shutil.rmtree(scratch, ignore_errors=True)


# ------------------------------------------------------------------------------- the writers themselves
def writers(params, out):
    """Appends, explicit flushes, clock jumps and buffer limits in every combination, two writers at a time."""
    spec = norm_spec(params["spec"])
    K, rng = vp.load()
    from KMCLib.Utilities.Trajectory.LatticeTrajectory import LatticeTrajectory
    from KMCLib.Utilities.Trajectory.XYZTrajectory import XYZTrajectory
    b = bool(spec.get("buckets"))
    scratch = tempfile.mkdtemp(prefix="vp-c13-")
    n = params["n"]
    part, parts = params["part"]
    kinds = [("lattice", LatticeTrajectory)] + ([("xyz", XYZTrajectory)] if not b else [])
    try:
        cases = [(size, limit, ops) for size in params["sizes"] for limit in params["limits"] for ops in itertools.product(range(4), repeat=n)]
        for size, limit, ops in cases[part::parts]:
            s = Sys(spec)
            s.rng.set(draws(n + 1))
            now = [5.0e8]
            CLOCK[0] = lambda: now[0]
            where = dict(scenario=spec["name"], buffer_size=size, buffer_time=limit, operations=ops)
            ws = []
            for kind, cls in kinds:
                for i in range(params["writers"]):
                    fn = os.path.join(scratch, "%s%d" % (kind, i))
                    with open(fn, "w") as f:
                        f.write("old content\n")
                    ws.append((kind, fn, cls(trajectory_filename=fn, configuration=s.config, max_buffer_size=size, max_buffer_time=limit), []))
            t = 0.0
            for k, op in enumerate(ops):
                now[0] += [1.0, 1.0, 4000.0, 4000.0][op]
                for i, (kind, fn, w, dumps) in enumerate(ws):
                    if i % 2 and k % 2:
                        continue        # the second writer of a kind gets fewer frames
                    w.append(t, k * 3, s.config)
                    dumps.append((k * 3, t, content(s.config, b)))
                    if op % 2:
                        w.flush()
                out.transitions += 1
                t += 0.1 * (k + 1)
                if s.cpp.interactions().totalAvailableSites():
                    s.cpp.singleStep()
            for kind, fn, w, dumps in ws:
                w.flush()
                w.flush()
            CLOCK[0] = None
            out.states += 1
            out.traces += 1
            for kind, fn, w, dumps in ws:
                d = check_file(out, fn, kind, spec, dumps, where)
            check_header(out, d, ws[-1][0], spec, s, where)
    finally:
        CLOCK[0] = None
        shutil.rmtree(scratch, ignore_errors=True)


# -------------------------------------------------------------------------------------- many frames
def many(params, out):
    """Every number of frames in the buffer when it is flushed."""
    spec = norm_spec(params["spec"])
    K, rng = vp.load()
    from KMCLib.Utilities.Trajectory.LatticeTrajectory import LatticeTrajectory
    from KMCLib.Utilities.Trajectory.XYZTrajectory import XYZTrajectory
    b = bool(spec.get("buckets"))
    scratch = tempfile.mkdtemp(prefix="vp-c13-")
    try:
        s = Sys(spec)
        seq = []
        top = max(params["numbers"])
        s.rng.set(draws(top + 1))
        for kind, cls in [("lattice", LatticeTrajectory)] + ([("xyz", XYZTrajectory)] if not b else []):
            ws = []
            for n in params["numbers"]:
                fn = os.path.join(scratch, "%s%d" % (kind, n))
                open(fn, "w").close()
                ws.append((n, fn, cls(trajectory_filename=fn, configuration=s.config, max_buffer_size=10 ** 10, max_buffer_time=1e9)))
            dumps = []
            for k in range(top):
                dumps.append((k, .01 * k, content(s.config, b)))
                for n, fn, w in ws:
                    if k < n:
                        w.append(.01 * k, k, s.config)
                if s.cpp.interactions().totalAvailableSites():
                    s.cpp.singleStep()
                out.transitions += 1
            for n, fn, w in ws:
                w.flush()
                check_file(out, fn, kind, spec, dumps[:n], dict(scenario=spec["name"], frames=n, format=kind))
                out.states += 1
                os.unlink(fn)
        out.traces += len(params["numbers"])
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


# ------------------------------------------------------------------------------------------- values
TIMES = [0.0, 5e-324, 1e-300, 1.23456789012e-99, 1.2345678901e-15, .1, 1 - 1e-10, 1.0, 9.99999999994, 123456.789012, 9999999999.9, 10000000001., 2.0 ** 53, 1.2345678901e22, 9.8765432101e99, 1.5e100, 1.7e308]
STEPS = [0, 1, 9, 10, 99, 100, 999, 1000, 99999, 100000, 9999999, 10 ** 7, 2 ** 31 - 1, 2 ** 31, 2 ** 32, 2 ** 53 + 1, 10 ** 18]


def values(params, out):
    """Every pair of a time and a step number, and lattices of every size, in one file each."""
    K, rng = vp.load()
    from KMCLib.Utilities.Trajectory.LatticeTrajectory import LatticeTrajectory
    from KMCLib.Utilities.Trajectory.XYZTrajectory import XYZTrajectory
    scratch = tempfile.mkdtemp(prefix="vp-c13-")
    fn = os.path.join(scratch, "traj")
    try:
        for spec, pairs in params["cases"]:
            spec = norm_spec(spec)
            b = bool(spec.get("buckets"))
            for kind, cls in [("lattice", LatticeTrajectory)] + ([("xyz", XYZTrajectory)] if not b else []):
                s = Sys(spec)
                s.rng.set(draws(len(pairs) + 1))
                w = cls(trajectory_filename=fn, configuration=s.config, max_buffer_size=10 ** 10, max_buffer_time=1e9)
                dumps = []
                for t, step in pairs:
                    w.append(t, step, s.config)
                    dumps.append((step, t, content(s.config, b)))
                    out.transitions += 1
                    if s.cpp.interactions().totalAvailableSites():
                        s.cpp.singleStep()
                w.flush()
                where = dict(scenario=spec["name"], format=kind, size=len(s.config.types()))
                check_header(out, check_file(out, fn, kind, spec, dumps, where), kind, spec, s, where)
                out.states += 1
            out.traces += 1
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def job(params, out):
    if params["mode"] == "values":
        return values(params, out)
    if params["mode"] == "many":
        return many(params, out)
    (whole if params["mode"] == "whole" else writers)(params, out)


def jobs():
    th = vp.thorough()
    js = []
    X, mX = scen.X, scen.mX
    move = scen.sys_("traj-moves", [scen.O, [.5, .25, .125]], (3, 1, 1), (True, True, False), ["A", "V", "B", "V", "V", "A"], ["V", "A", "B"],
                     [scen.hop(X, 1., move="explicit"), scen.hop(mX, 2., move="explicit"), scen.hop(X, 1.5, a="B", move="explicit"), scen.hop(X, .4, basis=(1,), move="explicit"), scen.flip("V", "B", .3)],
                     cell=[[1.1, 0., 0.], [.2, 2., 0.], [0., -.3, 1. / 3]])
    cyc = scen.cyclic3()
    dead = scen.sys_("dead-end", [scen.O], (4, 1, 1), (True, False, False), ["A", "A", "A", "V"], ["A", "V"], [scen.flip("A", "V", 3.0)])
    buck = scen.bucket2()
    one = scen.sys_("one-site", [scen.O], (1, 1, 1), (False, False, False), ["A"], ["A", "V"], [scen.flip("A", "V", 3.0), scen.flip("V", "A", 2.0)])
    names = scen.sys_("long-names", [scen.O], (31, 1, 1), (True, False, False), ["a_long_name_of_a_particle", "B"] * 15 + ["V"], ["V", "a_long_name_of_a_particle", "B"],
                      [scen.flip("B", "V", 1.), scen.flip("V", "B", 1.), scen.hop(X, 1., a="a_long_name_of_a_particle")])
    bone = scen.sys_("bucket-one-site", [scen.O], (1, 1, 1), (False, False, False), [[]], ["A", "B"], [scen.bproc([scen.O], [[(0, "A")]], [[(1, "A"), (2, "B")]], 1.0)], buckets=True)
    n = 4 if not th else 6
    jumps = [1.0, 4000.0, -7000.0]
    ends = [("end", 0), ("break", 2), ("break", n), ("boom", 1), ("boom", 3), ("interrupt", 2), ("exit", n)]
    for spec in (move, cyc, dead, buck, one, names, bone):
        kinds = ["lattice"] if spec.get("buckets") else ["lattice", "xyz"]
        k = 8 if not th else 48
        for i in range(k):
            js.append(dict(name="runs:%s:%d" % (spec["name"], i), mode="whole", spec=spec, n=n, kinds=kinds, dumps=[1, 2, 3, .25], ends=ends if spec is move or th else ends[:1] + ends[1::2], jumps=jumps, part=[i, k]))
        k = 4 if not th else 32
        for i in range(k):
            js.append(dict(name="writers:%s:%d" % (spec["name"], i), mode="writers", spec=spec, n=4 if not th else 6, sizes=[0, 300, 700, 10 ** 7, None], limits=[0.0, 60.0, None], writers=2, part=[i, k]))
    pairs = [(t, k) for t in TIMES for k in STEPS]
    vals = [(spec, pairs) for spec in (move, one, bone, buck)]
    far = [[1., 0., 0.], [0., 1., 0.], [0., 0., 1.]]
    for z in (1e-7, .1234567, .9999994, 1 - 1e-9):
        vals.append((scen.sys_("basis-%g" % z, [[0., 0., 0.], [z, z * z, .5]], (2, 1, 2), (True, True, True), ["A", "V"] * 4, ["A", "V"], [scen.flip("A", "V", 1.), scen.flip("V", "A", 1.)]), pairs[:3]))
    for z in (.1, 1e5, 1e20, 1e102):
        vals.append((scen.sys_("cell-%g" % z, [scen.O], (2, 1, 2), (True, False, True), ["A", "V"] * 2, ["A", "V"], [scen.flip("A", "V", 1.), scen.flip("V", "A", 1.)],
                               cell=[[c * z for c in v] for v in far]), pairs[:3]))
    sizes = [(a, 1, 1) for a in range(1, 130 if not th else 1100)] + [(1, 5, 11), (2, 3, 5), (1, 1, 77), (31, 31, 1), (1, 1, 1001)]
    for reps in sizes:
        m = reps[0] * reps[1] * reps[2]
        vals.append((scen.sys_("size-%d-%d-%d" % reps, [scen.O], reps, (True, True, True), [("A", "V", "Bx")[k * k % 3 if k % 2 else 2] for k in range(m)], ["A", "V", "Bx"],
                               [scen.flip("A", "V", 1.), scen.flip("V", "A", 1.)]), pairs[:3]))
        if m < 40:
            vals.append((scen.sys_("bucket-size-%d-%d-%d" % reps, [scen.O], reps, (True, True, True), [[(k % 3, "A"), (k % 5, "B")] for k in range(m)], ["A", "B"],
                                   [scen.bproc([scen.O], [[(0, "A")]], [[(1, "A"), (2, "B")]], 1.0)], buckets=True), pairs[:3]))
    for i in range(16):
        js.append(dict(name="values:%d" % i, mode="values", cases=vals[i::16]))
    top = 2100 if th else 300
    for spec in (one, bone, move):
        for i in range(8 if spec is not move else 2):
            r = list(range(1, top + 1))[i::8] if spec is not move else [[64, 130, 257], [100, 512, 1025]][i]
            js.append(dict(name="frames:%s:%d" % (spec["name"], i), mode="many", spec=spec, numbers=r))
    return js


if __name__ == "__main__":
    vp.main(PID, jobs(), job, floor=2000,
            bounds="whole runs of 4 steps with every sequence of clock jumps (small, beyond the limit, backwards) x dump intervals x ends of the run (normal, breaker, dead end, three kinds of exceptions); "
            "the writers with every sequence of four appends (with or without explicit flush and clock jump) x buffer sizes x time limits, two writers of each kind side by side; every number of frames in the buffer up to 300 (2100); every pair of 17 times and 17 step numbers; chains of every length up to 129 (1099), cells and basis points of extreme size",
            assumptions=["the file system keeps what is written to a closed file", "type names contain no white space (xyz)"])

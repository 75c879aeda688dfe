"""C19: malformed input raises the library's Error and changes nothing; nothing crashes or touches foreign memory."""
import itertools, math, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "..", "lib"))
# Everything runs under the address sanitizer, whose run time has to be loaded first.
if __name__ == "__main__" and os.environ.get("VP_ASAN") != "1":
    import subprocess
    rt = subprocess.run(["g++", "-print-file-name=libasan.so"], stdout=subprocess.PIPE, text=True).stdout.strip()
    std = subprocess.run(["g++", "-print-file-name=libstdc++.so"], stdout=subprocess.PIPE, text=True).stdout.strip()
    import build
    try:
        build.build("asan")        # compile before the sanitizer is loaded into this process and its children
    except Exception as e:
        sys.stderr.write("ERROR: check C19 could not build: %s\n" % e)
        sys.exit(2)
    env = dict(os.environ, VP_ASAN="1", LD_PRELOAD=" ".join([os.path.realpath(rt), os.path.realpath(std)]),
               ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1:handle_sigprof=0",
               UBSAN_OPTIONS="print_stacktrace=1")
    os.execve(sys.executable, [sys.executable] + sys.argv, env)
import numpy
import vp, scen, explore, calcs, trajs
import sysm
from sysm import Sys, norm_spec
from ref import Ref

PID = "C19"
NAN, INF = float("nan"), float("inf")


# ------------------------------------------------------------------------------------------ values
class Odd(object):
    def __repr__(self):
        return "Odd()"

    def __deepcopy__(self, memo):
        return self


def pool():
    """Values that are put in place of an argument, or of any part of it."""
    return [None, True, 0, 1, 2, 3, -1, 7, 0.0, 1.5, -0.5, NAN, INF, -INF, "", "A", "Q", "*", b"A", (), [], {}, set(), [None], ["A"], ["A", "B"], [[]], [()], (1, "A"), (-1, "A"), ("A", 1),
            (1.5, "A"), (0.0,), [0.0, 0.0, 0.0], (0.5, 0.5, 0.5), [[0.0, 0.0, 0.0]], (0, 0, 0, 0, "A"), (0, [1.0, 0.0, 0.0]), Odd(), Odd, len, numpy.array([0.0, 0.0, 0.0]), numpy.zeros((2, 3)),
            numpy.array([[0, 0, 0]]), numpy.int64(1), numpy.float64(1.5), numpy.float32(1.5), complex(0, 1), {"A": 1}, "ABC", [1, 2, 3], [0.0, 0.0], [0.0, 0.0, 0.0, 0.0]]


BIG = [2 ** 31 - 1, 2 ** 31, 2 ** 40, 10 ** 30, -2 ** 31, -2 ** 40]


def paths(v, depth=3):
    """All positions inside a nested value."""
    out = [()]
    if isinstance(v, (list, tuple)) and depth:
        for i, x in enumerate(v):
            out += [(i,) + p for p in paths(x, depth - 1)]
    return out


def snap(v):
    """A copy of the containers of a value (the objects in them stay the same)."""
    if isinstance(v, (list, tuple)):
        return type(v)([snap(x) for x in v])
    if isinstance(v, dict):
        return dict(v)
    return numpy.array(v) if isinstance(v, numpy.ndarray) else v


def put(v, path, f):
    """Copy of v with f applied to the list of values at the position: f(value) -> list of values (to delete or double)."""
    if not path:
        r = f(v)
        return r[0] if r else None
    r = []
    for i, x in enumerate(v):
        if i != path[0]:
            r.append(x)
        elif len(path) == 1:
            r += f(x)
        else:
            r.append(put(x, path[1:], f))
    return type(v)(r) if isinstance(v, (list, tuple)) else r


def mutations(v):
    """(description, value): every single replacement, deletion, doubling and change of container."""
    for i, x in enumerate(pool()):
        yield "value %r" % (x,), x
    for p in paths(v):
        if p:
            yield "delete %s" % (p,), put(v, p, lambda x: [])
            yield "double %s" % (p,), put(v, p, lambda x: [x, snap(x)])
            for x in pool():
                yield "%s := %r" % (p, x), put(v, p, lambda y: [x])
            q = v
            for i in p:
                q = q[i]
            if isinstance(q, float):
                yield "%s negated" % (p,), put(v, p, lambda y: [-y])
                yield "%s as int" % (p,), put(v, p, lambda y: [int(y)])
            if isinstance(q, int) and not isinstance(q, bool):
                yield "%s as float" % (p,), put(v, p, lambda y: [float(y)])
                for d in (-3, -2, -1, 1, 2, 3):
                    yield "%s %+d" % (p, d), put(v, p, lambda y: [y + d])
            if isinstance(q, (list, tuple)):
                yield "%s other container" % (p,), put(v, p, lambda y: [tuple(y) if isinstance(y, list) else list(y)])
                yield "%s as array" % (p,), put(v, p, lambda y: [as_array(y)])


def as_array(y):
    try:
        return numpy.array(y)
    except ValueError:
        return tuple(y)


# ------------------------------------------------------------------------------------------ what is certainly invalid
def is_num(x):
    return isinstance(x, (int, float, complex, numpy.number)) and not isinstance(x, bool)


def seq(x):
    return isinstance(x, (list, tuple, numpy.ndarray))


def certainly_bad_coords(v, n=None):
    if not seq(v) or len(v) == 0 or (n is not None and len(v) != n):
        return True
    for c in v:
        if not seq(c) or len(c) != 3 or any(not isinstance(x, float) or not math.isfinite(x) for x in c):
            return True
    return False


def bad_cell(v):
    if certainly_bad_coords(v, 3):
        return True
    return numpy.linalg.matrix_rank(numpy.array(v, dtype=float)) < 3


def bad_basis(v):
    return certainly_bad_coords(v) or any(not 0.0 <= x < 1.0 for c in v for x in c)


def bad_reps(v):
    return v is not None and (not seq(v) or len(v) != 3 or any(isinstance(x, (float, str, complex)) or not isinstance(x, (int, numpy.integer)) or x < 1 for x in v))


def bad_periodic(v):
    return v is not None and (not seq(v) or len(v) != 3 or any(not isinstance(x, (bool, numpy.bool_)) for x in v))


def bad_rate(v):
    return not isinstance(v, float) or not v >= 0.0


def bad_basis_sites(v):
    if isinstance(v, (bytes, bytearray)) and len(v):        # a sequence of integers
        return False
    return not seq(v) or len(v) == 0 or any(not isinstance(x, (int, numpy.integer)) or x < 0 for x in v)


def bad_elements(n):
    return lambda v: not isinstance(v, (list, tuple)) or len(v) != n or any(not isinstance(x, str) for x in v)


def bad_bucket_entry(e, negative=False):
    for t in (e if isinstance(e, list) else [e]):
        if isinstance(t, str):
            continue
        if not isinstance(t, tuple) or len(t) != 2 or not isinstance(t[0], int) or not isinstance(t[1], str):
            return True
        if t[0] < 0 and not negative and not isinstance(e, list):
            return True
    return False


def bad_buckets(n, negative=False):
    return lambda v: not isinstance(v, (list, tuple)) or len(v) != n or any(bad_bucket_entry(e, negative) for e in v)


def bad_types(n, allowed):
    def f(v):
        if not isinstance(v, list):
            return True
        if v and all(isinstance(t, str) for t in v):
            return len(v) != n or any(t not in allowed for t in v)
        return False            # other formats are decided by their own checks
    return f


def bad_bucket_types(n, allowed):
    def f(v):
        if not isinstance(v, list) or len(v) != n:
            return True
        if any(bad_bucket_entry(e) for e in v):
            return True
        names = [t if isinstance(t, str) else t[1] for e in v for t in (e if isinstance(e, list) else [e])]
        return any(x not in allowed for x in names)
    return f


def bad_long_types(reps, nb, allowed):
    def f(v):
        if not isinstance(v, list):
            return True
        for t in v:
            if not isinstance(t, tuple) or len(t) != 5 or any(not isinstance(x, int) for x in t[:4]) or not isinstance(t[4], str):
                return True
            if any(not 0 <= t[l] < (list(reps) + [nb])[l] for l in range(4)) or t[4] not in allowed:
                return True
        return False
    return f


def bad_possible(needed):
    return lambda v: v is not None and (not isinstance(v, list) or any(not isinstance(t, str) for t in v) or "*" in v or any(t not in v for t in needed))


def bad_move(n):
    def f(v):
        if v is None:
            return False
        if not seq(v):
            return True
        for t in v:
            if not isinstance(t, tuple) or len(t) != 2 or not isinstance(t[0], int) or not 0 <= t[0] < n:
                return True
            if not seq(t[1]) or len(t[1]) != 3 or any(not isinstance(x, float) for x in t[1]):
                return True
        return False
    return f


def is_bad_posint(zero_ok):
    return lambda v: v is not None and (not isinstance(v, int) or v < 0 or (v == 0 and not zero_ok))


def is_bad_posfloat(zero_ok):
    return lambda v: v is not None and (not isinstance(v, float) or not v >= 0.0 or (v == 0 and not zero_ok))


def never(v):
    return False


# ------------------------------------------------------------------------------------------ targets
CELL = [[1., 0., 0.], [0., 1., 0.], [0., 0., 1.]]
BASIS = [[0., 0., 0.], [.5, .5, 0.]]
REPS = (3, 3, 1)
PER = (True, True, False)
NS = 18
TYPES = ["A", "V"] * 9
BTYPES = ["A", (2, "A"), [], ["A", "B"], [(2, "B"), "A"], (0, "A")] * 3
LONG = [(0, 0, 0, 0, "A"), (2, 1, 0, 1, "B")]


class World(object):
    """Valid objects to combine with."""
    def __init__(self):
        self.K, self.rng = vp.load()
        K = self.K
        from KMCLib.Exceptions.Error import Error
        self.Error = Error
        self.uc = K.KMCUnitCell(cell_vectors=CELL, basis_points=BASIS)
        self.lat = K.KMCLattice(unit_cell=self.uc, repetitions=REPS, periodic=PER)

    def config(self, buckets=False):
        return self.K.KMCConfiguration(lattice=self.lat, types=list(BTYPES if buckets else TYPES), possible_types=["A", "V", "B"])

    def process(self):
        return self.K.KMCProcess(coordinates=[[0., 0., 0.], [.5, .5, 0.]], elements_before=["A", "V"], elements_after=["V", "A"], basis_sites=[0], rate_constant=1.0)

    def back(self):
        return self.K.KMCProcess(coordinates=[[0., 0., 0.], [-.5, -.5, 0.]], elements_before=["A", "V"], elements_after=["V", "A"], basis_sites=[1], rate_constant=1.0)

    def interactions(self, procs=None):
        return self.K.KMCInteractions(processes=procs or [self.process(), self.back()], implicit_wildcards=True)

    def use(self, config=None, procs=None, interactions=None, steps=3):
        """Run a few steps with what was accepted."""
        K = self.K
        with vp.quiet():
            m = K.KMCLatticeModel(config or self.config(), interactions or self.interactions(procs))
            self.rng.set([(i * .37 + .11) % 1.0 for i in range(40)])
            m.run(control_parameters=K.KMCControlParameters(number_of_steps=steps, seed=1))
            m._script()
            (config or self.config()).types()
        return m


def targets(w):
    """name -> (constructor(kwargs), valid kwargs, {argument: certainly invalid?}, use(object))"""
    K = w.K
    T = {}
    T["KMCUnitCell"] = (K.KMCUnitCell, dict(cell_vectors=CELL, basis_points=BASIS), dict(cell_vectors=bad_cell, basis_points=bad_basis),
                        lambda o: w.use(config=K.KMCConfiguration(lattice=K.KMCLattice(o, (3, 3, 1), PER), types=["A", "V"] + ["A"] * (9 * len(o.basis()) - 2), possible_types=["A", "V"])))

    def use_lattice(o):
        n = len(o.sites())
        if n <= 1000:
            w.use(config=K.KMCConfiguration(lattice=o, types=["A", "V"] + ["A"] * (n - 2), possible_types=["A", "V"]))
    T["KMCLattice"] = (K.KMCLattice, dict(unit_cell=w.uc, repetitions=[3, 3, 1], periodic=[True, True, False]),
                       dict(unit_cell=lambda v: not isinstance(v, K.KMCUnitCell), repetitions=bad_reps, periodic=bad_periodic), use_lattice)
    allowed = ["A", "V", "B"]
    T["KMCConfiguration-short"] = (K.KMCConfiguration, dict(lattice=w.lat, types=list(TYPES), possible_types=list(allowed), default_type=None),
                                   dict(lattice=lambda v: not isinstance(v, K.KMCLattice), types=bad_types(NS, allowed), possible_types=bad_possible(["A", "V"]), default_type=lambda v: v is not None), lambda o: w.use(config=o))
    T["KMCConfiguration-long"] = (K.KMCConfiguration, dict(lattice=w.lat, types=list(LONG), possible_types=list(allowed), default_type="V"),
                                  dict(types=lambda v: not isinstance(v, list) or len(v) != NS and bad_long_types(REPS, 2, allowed)(v), possible_types=bad_possible(["A", "B", "V"]), default_type=lambda v: not isinstance(v, str) or v not in allowed), lambda o: w.use(config=o))
    T["KMCConfiguration-buckets"] = (K.KMCConfiguration, dict(lattice=w.lat, types=list(BTYPES), possible_types=list(allowed), default_type=None),
                                     dict(types=bad_bucket_types(NS, allowed), possible_types=bad_possible(["A", "B"]), default_type=lambda v: v is not None), lambda o: w.use(config=o))
    T["KMCConfiguration-default"] = (K.KMCConfiguration, dict(lattice=w.lat, types=list(TYPES), possible_types=None, default_type=None), dict(types=bad_types(NS, ["A", "V", "B", "Q", ""] + ["ABC"])), None)
    T["KMCLocalConfiguration"] = (K.KMCLocalConfiguration, dict(coordinates=[[0., 0., 0.], [1., 0., 0.]], types=["A", [(2, "B"), "A"]], center=0),
                                  dict(coordinates=lambda v: certainly_bad_coords(v, 2), types=bad_buckets(2, True), center=lambda v: v is not None and (not isinstance(v, int) or not 0 <= v < 2)), lambda o: (o._script(), o.types(), o.coordinates()))
    c3 = [[0., 0., 0.], [.5, .5, 0.], [-.5, .5, 0.]]
    pk = dict(coordinates=c3, elements_before=["A", "V", "*"], elements_after=["V", "A", "*"], move_vectors=[(0, [.5, .5, 0.]), (1, [-.5, -.5, 0.])], basis_sites=[0], rate_constant=1.0)
    pb = dict(coordinates=lambda v: certainly_bad_coords(v, 3), elements_before=bad_elements(3), elements_after=bad_elements(3), move_vectors=bad_move(3), basis_sites=bad_basis_sites, rate_constant=bad_rate)
    up = lambda o: w.use(procs=[o, w.process(), w.back()])
    T["KMCProcess"] = (K.KMCProcess, pk, pb, up)
    T["KMCProcess-no-move"] = (K.KMCProcess, dict(pk, elements_before=["A", "V", "B"], elements_after=["B", "A", "V"], move_vectors=None), pb, up)
    ub = lambda o: w.use(config=w.config(buckets=True), procs=[o, K.KMCBucketProcess(coordinates=[[0., 0., 0.]], minimum_match=["A"], update=[(0, "A")], basis_sites=[0], rate_constant=1.0)])
    T["KMCBucketProcess"] = (K.KMCBucketProcess, dict(coordinates=c3, minimum_match=["A", [(1, "A"), (1, "B")], "*"], update=[(-1, "A"), [(-1, "B"), (2, "A")], (0, "A")], basis_sites=[0], rate_constant=1.0),
                             dict(coordinates=lambda v: certainly_bad_coords(v, 3), minimum_match=bad_buckets(3), update=bad_buckets(3, True), basis_sites=bad_basis_sites, rate_constant=bad_rate), ub)
    isproc = lambda v: not seq(v) or len(v) == 0 or any(not isinstance(x, (K.KMCProcess, K.KMCBucketProcess)) for x in v)
    T["KMCInteractions"] = (K.KMCInteractions, dict(processes=[w.process(), w.back()], implicit_wildcards=True), dict(processes=isproc, implicit_wildcards=lambda v: v is not None and not isinstance(v, bool)), lambda o: w.use(interactions=o))
    T["KMCLatticeModel"] = (K.KMCLatticeModel, dict(configuration=w.config(), interactions=w.interactions()), dict(configuration=lambda v: not isinstance(v, K.KMCConfiguration), interactions=lambda v: not isinstance(v, K.KMCInteractions)), None)
    rng = ("MT", "MINSTD", "RANLUX24", "RANLUX48", "DEVICE", None)

    def use_params(o):
        with vp.quiet():
            if o.numberOfSteps() < 50 and o.rngType() != K.Backend.Backend.DEVICE:
                w.rng.set([], .5)
                K.KMCLatticeModel(w.config(), w.interactions()).run(control_parameters=o)
    cb = dict(number_of_steps=is_bad_posint(True), dump_interval=is_bad_posint(False), analysis_interval=is_bad_posint(False), seed=lambda v: is_bad_posint(True)(v) or v is not None and v >= 2 ** 31,
              dump_time_interval=is_bad_posfloat(False), rng_type=lambda v: not (v is None or isinstance(v, str)) or v not in rng)
    T["KMCControlParameters"] = (K.KMCControlParameters, dict(number_of_steps=2, dump_interval=1, analysis_interval=1, seed=1, rng_type="MT"), cb, use_params)
    T["KMCControlParameters-time"] = (K.KMCControlParameters, dict(number_of_steps=2, dump_interval=None, analysis_interval=1, seed=1, rng_type="MINSTD", dump_time_interval=1.0), dict(cb, dump_interval=lambda v: v is not None), use_params)

    def use_analysis(a):
        with vp.quiet():
            w.rng.set([], .5)
            K.KMCLatticeModel(w.config(), w.interactions()).run(control_parameters=K.KMCControlParameters(number_of_steps=4, seed=1), analysis=[a])
            dev = trajs.Sink() if hasattr(trajs, "Sink") else open(os.devnull, "w")
            try:
                a.printResults(dev)
            finally:
                if hasattr(dev, "close"):
                    dev.close()
    T["Composition"] = (K.Composition, dict(time_interval=1.0), dict(time_interval=is_bad_posfloat(True)), use_analysis)
    T["TimeStepDistribution"] = (K.TimeStepDistribution, dict(binsize=1.0), dict(binsize=is_bad_posfloat(False)), use_analysis)
    T["ProcessStatistics"] = (K.ProcessStatistics, dict(processes=[0, 1], time_interval=1.0, spatially_resolved=True),
                              dict(processes=bad_basis_sites, time_interval=is_bad_posfloat(True), spatially_resolved=lambda v: v is not None and not isinstance(v, bool)), use_analysis)
    T["OnTheFlyMSD"] = (K.OnTheFlyMSD, dict(history_steps=3, n_bins=4, t_max=2.0, track_type="A"), dict(history_steps=is_bad_posint(False), n_bins=is_bad_posint(False), t_max=is_bad_posfloat(False), track_type=lambda v: not isinstance(v, str)), use_analysis)
    return T


def same(a, b):
    """Are two (nested) argument values the same?"""
    try:
        if isinstance(a, (list, tuple)):
            return type(a) is type(b) and len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
        if isinstance(a, numpy.ndarray):
            return isinstance(b, numpy.ndarray) and a.shape == b.shape and bool(numpy.all((a == b) | ((a != a) & (b != b))))
        return a is b or bool(a == b) or (a != a and b != b)
    except Exception:
        return a is b


def one_case(w, out, name, make, kw, bad, use, what, unchanged=True):
    """One construction with one bad argument: Error, or an object that works."""
    before = {k: snap(v) for k, v in kw.items()}
    where = dict(target=name, defect=what)
    out.states += 1
    out.transitions += 1
    out.evals += 1
    try:
        with vp.quiet():
            o = make(**kw)
    except w.Error as e:
        out.outcome(name + ": Error")
        if not str(e).strip():
            out.violation("the error has no message", **where)
        if not all(same(before[k], kw[k]) for k in kw):
            out.violation("rejected input was changed", **where)
        if bad is False:
            out.violation("valid input is rejected", error=str(e), **where)
        return None
    except Exception as e:
        out.violation("malformed input raises something else than the library's Error", error="%s: %s" % (type(e).__name__, str(e)[:200]), **where)
        return None
    if bad:
        out.violation("malformed input is accepted", **where)
        return None
    out.outcome(name + ": accepted")
    if use:
        try:
            use(o)
        except w.Error:
            out.outcome(name + ": Error in use")
        except Exception as e:
            import traceback
            out.violation("accepted input makes a model fail with something else than the library's Error", error="%s: %s" % (type(e).__name__, str(e)[:200]),
                          trace=traceback.format_exc()[-800:], **where)
    return o


def job_inputs(params, out):
    w = World()
    T = targets(w)
    name, arg = params["target"], params["arg"]
    make, kw, bad, use = T[name]
    # the valid input is accepted and works
    if one_case(w, out, name, make, dict(kw), None, use, "none") is None:
        out.violation("valid input does not work", target=name)
    fresh = lambda: snap(kw[arg])
    muts = [("missing", None)] + list(mutations(fresh()))
    if is_num(kw[arg]) and arg in ("seed",):
        muts += [("big %d" % b, b) for b in BIG]
    if arg in ("basis_sites", "center", "processes") and name != "KMCInteractions":
        muts += [("big %d" % b, [b] if arg != "center" else b) for b in BIG]
    if arg == "repetitions":
        muts += [("%r" % (r,), r) for r in ((3, 3, 0), (3, 3, -1), (-1, -1, 3), (0, 0, 0), [3, 3, 2])]
    for what, v in muts[params["part"][0]::params["part"][1]]:
        k = dict(kw)
        if arg == "move_vectors" and any(what.endswith(", 0) := %s" % x) for x in (True, False)):
            continue            # a bool is an int, but what it means as an index is nowhere said
        if what == "missing":
            k.pop(arg)
        else:
            k[arg] = v
        b = bad.get(arg, never)
        one_case(w, out, name, make, k, bool(b(v)) or None, use, "%s %s" % (arg, what))
    out.traces += 1


def job_pairs(params, out):
    """Two arguments malformed together: still the library's Error, whichever is looked at first."""
    w = World()
    make, kw, bad, use = targets(w)[params["target"]]
    a, b = params["args"]
    pa = pool()
    if not vp.thorough():
        pa = [None, True, -1, 0.0, NAN, "", "A", [], (), {}, [None], [[]], ["A", "B"], (1, "A"), Odd(), numpy.zeros((2, 3)), [1, 2, 3]]
    for i, x in enumerate(pa):
        for j, y in enumerate(pa):
            bx, by = bool(bad.get(a, never)(x)), bool(bad.get(b, never)(y))
            if bx or by:
                k = dict(kw)
                k[a], k[b] = x, y
                one_case(w, out, params["target"], make, k, None if params["target"].startswith(("KMCConfiguration", "KMCLocal", "KMCControlParameters-time")) else True, None, "%s %r, %s %r" % (a, x, b, y))
    out.traces += 1


# ------------------------------------------------------------------------------------------ run and the setters
def job_calls(params, out):
    """Calls on existing objects: a rejected call leaves the object as it was."""
    K, rng = vp.load()
    w = World()
    import tempfile, shutil
    d = tempfile.mkdtemp(prefix="vp-c19-")
    os.chdir(d)
    try:
        def observe(s):
            return (s.state(), s.events(), s.totals(), s.timer.simulationTime() if s.timer else None, s.ids(), sorted(os.listdir(d)))
        spec = norm_spec(scen.ads_des_hop(5))
        good = K.KMCControlParameters(number_of_steps=2, seed=1)
        arglist = dict(control_parameters=good, trajectory_filename=os.path.join(d, "t.py"), trajectory_type="lattice", analysis=[K.Composition()], breakers=None)
        bads = dict(control_parameters=lambda v: not isinstance(v, K.KMCControlParameters), trajectory_filename=lambda v: v is not None and not isinstance(v, str),
                    trajectory_type=lambda v: v is not None and v not in ("lattice", "xyz") if isinstance(v, (str, type(None))) else True,
                    analysis=lambda v: v is not None and (not seq(v) or len(v) == 0 or any(not isinstance(x, K.KMCAnalysisPlugin) for x in v)),
                    breakers=lambda v: v is not None and (not seq(v) or len(v) == 0 or any(not isinstance(x, K.KMCBreakerPlugin) for x in v)))
        for arg in arglist:
            vals = pool() + ["XYZ", "lattice ", [K.Composition], [K.Composition(), None], [[K.Composition()]], K.Composition(), K.KMCControlParameters]
            for steps in (0, 3):
                s = Sys(spec)
                for i in range(steps):
                    s.fire(sorted(set(s.events()))[-1])
                for v in vals:
                    if arg == "trajectory_filename" and isinstance(v, str):
                        continue
                    if not bads[arg](v):
                        continue
                    before = observe(s)
                    kw = dict(arglist)
                    kw[arg] = v
                    out.evals += 1
                    out.states += 1
                    out.transitions += 1
                    try:
                        with vp.quiet():
                            s.model.run(**kw)
                        out.violation("a malformed argument of run is accepted", argument=arg, value=repr(v))
                    except w.Error:
                        out.outcome("run " + arg)
                    except Exception as e:
                        out.violation("a malformed argument of run raises something else than the library's Error", argument=arg, value=repr(v), error="%s: %s" % (type(e).__name__, e))
                    if observe(s) != before:
                        out.violation("a rejected run changed the model", argument=arg, value=repr(v), before=before, after=observe(s))
                # and the model still works: the same as one that never saw the rejected calls
                t = Sys(spec)
                for i in range(steps):
                    t.fire(sorted(set(t.events()))[-1])
                res = []
                for x in (s, t):
                    rng.set([(i * .37 + .11) % 1.0 for i in range(40)])
                    with vp.quiet():
                        x.model.run(control_parameters=K.KMCControlParameters(number_of_steps=5, seed=1))
                    res.append(observe(x)[:5])
                if res[0] != res[1]:
                    out.violation("a model that rejected calls behaves differently afterwards", argument=arg, one=res[0], other=res[1])
        # the files that cannot be written
        s = Sys(spec)
        for fn in (os.path.join(d, "no", "such", "dir.py"), d, ""):
            for typ in ("lattice", "xyz"):
                before = observe(s)[:5]
                out.evals += 1
                try:
                    with vp.quiet():
                        s.model.run(control_parameters=good, trajectory_filename=fn, trajectory_type=typ)
                    out.violation("a trajectory that cannot be written is accepted", file=fn)
                except (w.Error, IOError, OSError):
                    out.outcome("unwritable")
                if observe(s)[:5] != before:
                    out.violation("a run whose trajectory cannot be written changed the model", file=fn)
        # setters of the interactions, in every order
        setters(w, K, rng, out)
        # loading what does not exist or is no script
        for f, text in (("none.py", None), ("empty.py", ""), ("other.py", "x = 1\n"), ("wrong.py", "a = [1,2\n"), ("raises.py", "raise ValueError('x')\n"), ("nokmc.py", "KMCUnitCell()\n")):
            if text is not None:
                open(os.path.join(d, f), "w").write(text)
            for load in (K.KMCConfigurationFromScript, K.KMCInteractionsFromScript):
                out.evals += 1
                try:
                    r = load(os.path.join(d, f))
                    if r is not None or text is None:
                        out.violation("a script without the object gives something", script=text, got=repr(r))
                except w.Error:
                    if text is not None and text in ("", "x = 1\n"):
                        out.violation("a script without the object raises Error instead of giving None", script=text)
                except Exception as e:
                    if text is None:
                        out.violation("a missing script raises something else than the library's Error", error=repr(e))
        out.traces += 1
    finally:
        os.chdir("/")
        shutil.rmtree(d, ignore_errors=True)


def setters(w, K, rng, out):
    """setRateCalculator with everything, in every order of three calls: a rejected calculator leaves the previous one."""
    class R1(K.KMCRateCalculatorPlugin):
        def rate(self, *a):
            return 2.0

    class R2(K.KMCRateCalculatorPlugin):
        def rate(self, *a):
            return 5.0

    class NoPlugin(object):
        def __init__(self, config):
            pass
    # class (a rate per event) or None (the rate constants), or rejected
    good = {"R1": (R1, 2.0), "R2": (R2, 5.0), "None": (None, 1.0)}
    bad = {"instance": R1(None) if False else Odd(), "name": "NoSuchCalculator", "number": 3, "empty": "", "list": [R1]}
    late = {"no plugin": NoPlugin, "base": K.KMCRateCalculatorPlugin}
    names = list(good) + list(bad) + list(late)
    uc = K.KMCUnitCell(cell_vectors=CELL, basis_points=[[0., 0., 0.]])
    for seqn in itertools.product(names, repeat=3):
        conf = K.KMCConfiguration(lattice=K.KMCLattice(uc, (3, 1, 1), (True, False, False)), types=["A"] * 3, possible_types=["A", "V"])
        inter = K.KMCInteractions([K.KMCProcess(coordinates=[[0., 0., 0.]], elements_before=["A"], elements_after=["V"], basis_sites=[0], rate_constant=1.0)])
        cur = 1.0
        for x in seqn:
            out.evals += 1
            out.transitions += 1
            try:
                if x in good:
                    inter.setRateCalculator(good[x][0])
                    cur = good[x][1]
                elif x in late:
                    inter.setRateCalculator(late[x])
                    cur = None
                else:
                    inter.setRateCalculator(bad[x])
                    out.violation("a malformed rate calculator is accepted", value=x)
            except w.Error:
                if x in good:
                    out.violation("a valid rate calculator is rejected", value=x, calls=seqn)
            except Exception as e:
                out.violation("a malformed rate calculator raises something else than the library's Error", value=x, error="%s: %s" % (type(e).__name__, e))
        out.states += 1
        try:
            with vp.quiet():
                m = K.KMCLatticeModel(conf, inter)
                tot = m._backend().interactions().totalRate()
                if cur is None:
                    out.violation("a class that is no rate calculator is accepted", calls=seqn)
                elif abs(tot - 3 * cur) > 1e-9:
                    out.violation("not the last valid rate calculator is used", calls=seqn, total=tot, expected=3 * cur)
        except w.Error:
            if cur is not None:
                out.violation("valid rate calculators are rejected when the model is used", calls=seqn)
        except Exception as e:
            out.violation("a class that is no rate calculator raises something else than the library's Error", calls=seqn, error="%s: %s" % (type(e).__name__, e))
    # builtin calculators by name and classes in turn
    ising = "IsingTestCalculator"
    for seqn in itertools.product(("R1", ising, "None"), repeat=3):
        conf = K.KMCConfiguration(lattice=K.KMCLattice(uc, (3, 3, 1), (True, True, False)), types=["U"] * 9, possible_types=["U", "D"])
        nb = [[0., 0., 0.], [1., 0., 0.], [-1., 0., 0.], [0., 1., 0.], [0., -1., 0.]]
        inter = K.KMCInteractions([K.KMCProcess(coordinates=[[0., 0., 0.]], elements_before=["U"], elements_after=["D"], basis_sites=[0], rate_constant=1.0)])
        for x in seqn:
            inter.setRateCalculator({"R1": R1, "None": None}.get(x, x))
        out.evals += 1
        try:
            with vp.quiet():
                m = K.KMCLatticeModel(conf, inter)
                tot = m._backend().interactions().totalRate()
            rc = inter.rateCalculator()
            kind = "None" if rc is None else ("R1" if isinstance(rc, R1) else ising)
            if kind != seqn[-1] or (kind == "R1" and abs(tot - 18.) > 1e-9) or (kind == "None" and abs(tot - 9.) > 1e-9):
                out.violation("not the last rate calculator is used", calls=seqn, used=kind, total=tot)
        except Exception as e:
            out.violation("setting rate calculators in turn makes the model fail", calls=seqn, error="%s: %s" % (type(e).__name__, e))
    # everything in the module of the builtin calculators that is not one of them
    from KMCLib.Backend import Custom
    for x in dir(Custom):
        o = getattr(Custom, x)
        valid = isinstance(o, type) and issubclass(o, Custom.RateCalculator) and o is not Custom.RateCalculator
        out.evals += 1
        try:
            K.KMCInteractions([K.KMCProcess(coordinates=[[0., 0., 0.]], elements_before=["U"], elements_after=["D"], basis_sites=[0], rate_constant=1.0)]).setRateCalculator(x)
            if not valid:
                out.violation("a malformed rate calculator is accepted", value=x)
        except w.Error:
            if valid:
                out.violation("a valid rate calculator is rejected", value=x)
        except Exception as e:
            out.violation("a malformed rate calculator raises something else than the library's Error", value=x, error="%s: %s" % (type(e).__name__, e))
    # a new model after every call: it uses what was set last, the earlier models what was set for them
    for seqn in itertools.product(("R1", "R2", ising, "None"), repeat=3):
        inter = K.KMCInteractions([K.KMCProcess(coordinates=[[0., 0., 0.]], elements_before=["U"], elements_after=["D"], basis_sites=[0], rate_constant=1.0)])
        made = []
        for x in seqn:
            out.evals += 1
            out.states += 1
            try:
                inter.setRateCalculator({"R1": R1, "R2": R2, "None": None}.get(x, x))
                with vp.quiet():
                    m = K.KMCLatticeModel(K.KMCConfiguration(lattice=K.KMCLattice(uc, (3, 3, 1), (True, True, False)), types=["U"] * 9, possible_types=["U", "D"]), inter)
                    made.append((m, x, m._backend().interactions().totalRate()))
                rc = inter.rateCalculator()
                kind = "None" if rc is None else ("R1" if isinstance(rc, R1) else "R2" if isinstance(rc, R2) else ising)
                if kind != x:
                    out.violation("not the last rate calculator is used", calls=seqn, at=x, used=kind)
                for mm, y, tot in made:
                    if {"R1": 18., "R2": 45., "None": 9.}.get(y, tot) != tot or mm._backend().interactions().totalRate() != tot:
                        out.violation("a rate calculator set later changes an earlier model, or not the last one is used", calls=seqn, at=x, model=y, total=tot)
            except Exception as e:
                out.violation("setting rate calculators in turn makes the model fail", calls=seqn, error="%s: %s" % (type(e).__name__, e))


# ------------------------------------------------------------------------------------------ memory
def job_memory(params, out):
    """Every reachable state (up to a cap) and event of a model under the address sanitizer."""
    K, rng = vp.load()
    spec = norm_spec(params["spec"])
    calc = params.get("calc")
    ref = Ref(spec)
    rr = calcs.RefRates(ref, calc) if calc else None
    cur = {}
    analysis = params.get("analysis")

    def mk():
        s = Sys(spec, calc=calcs.make_calc(K, calc) if calc else None)
        if analysis:
            a = [K.OnTheFlyMSD(history_steps=h, n_bins=b, t_max=2.0, track_type=t) for h, b in ((1, 1), (3, 7)) for t in spec["possible"]]
            a += [K.Composition(.5), K.ProcessStatistics(list(range(len(spec["procs"]))), .5, True), K.TimeStepDistribution(.3)]
            for x in a:
                x.setup(0, 0.0, s.config)
            cur["a"] = a
        return s

    def check(s, prev, e, st, hist):
        cur["st"] = st
        out.evals += 1
        if analysis and e is not None:
            with vp.quiet():
                for x in cur["a"]:
                    x.registerStep(len(hist), .7 * len(hist), s.config)
                if len(hist) % 50 == 0:
                    for x in cur["a"][:4]:
                        x.finalize()
        if e is not None and len(hist) % 7 == 0:
            # the queries
            s.config.types(), s.config.particlesPerType(), s.config.atomIDTypes(), s.config.atomIDCoordinates(), s.config.movedAtomIDs()
    explore.graph(mk, check, out, cap=params["cap"], max_steps=params["steps"], weight=(lambda e: rr.rate(cur["st"], e)) if rr else None)
    # extreme random numbers, from a fresh model
    for u1 in (0.0, 5e-324, .5, 1.0 - 2.0 ** -53):
        for u2 in (0.0, 5e-324, .5, 1.0 - 2.0 ** -53):
            s = Sys(spec, calc=calcs.make_calc(K, calc) if calc else None)
            for i in range(4):
                if not s.events():
                    break
                s.step(u1, u2)
                out.transitions += 1
    # processes whose rates are zero, alone and together
    n = len(spec["procs"])
    if not calc:
        for zero in [range(n)] + [[i] for i in range(n)] + [[j for j in range(n) if j != i] for i in range(n)]:
            z = dict(spec, procs=[dict(p, rate=0.0) if i in zero else p for i, p in enumerate(spec["procs"])])
            z = norm_spec(z)
            s = Sys(z)
            for i in range(4):
                ev = s.events()
                if not ev or all(spec["procs"][p[0]]["rate"] == 0.0 or p[0] in zero for p in ev):
                    break
                s.step(((i * .37) % 1.0), .5)
                out.transitions += 1
            out.states += 1
    out.traces += 1


RATES = [0.0, -0.0, 1.0, 5e-324, 1e-310, 2.3e-308, 1e-300, 1e300, 1e308, -1.0, float("nan"), float("inf"), float("-inf")]


def job_rates(params, out):
    """Rates that can be used, rates that can not, and sums of rates that can not be used: the run goes on or ends with the library's
    Error, and only ever executes available events with a rate."""
    K, rng = vp.load()
    Error = __import__("KMCLib.Exceptions.Error", fromlist=["Error"]).Error
    for kind, vals in params["cases"]:
        n = 3
        vals = [float(v) for v in vals]
        bad = any(not 0.0 <= v < float("inf") for v in vals)
        bucket = kind.endswith("bucket")
        if kind.startswith("constant"):
            def rate(e):
                return vals[e[0]]
            consts = vals
        else:
            def rate(e):
                return vals[e[1]] if e[0] == 0 else vals[n]
            consts = [1.0, 1.0]
        for u in ([.5, 1 - 2.0 ** -53, 1 - 2.0 ** -53], [.5, .3, .6], [.9, 0.0, 0.0]):
            where = dict(kind=kind, rates=repr(vals), draws=u)
            events = []
            state = [["A"] * n]

            class An(K.KMCAnalysisPlugin):
                def registerStep(self, step, time, c):
                    e = (c.latestEventProcess(), c.latestEventSite())
                    ok = e in [(0, k) for k in range(n) if state[0][k] == "A"] + [(1, k) for k in range(n) if state[0][k] == "V"]
                    if not ok or not rate(e) > 0.0:
                        out.violation("an event that is not available or has no rate was executed", event=e, state=state[0], **where)
                    events.append(e)
                    state[0] = [t if isinstance(t, str) else t[0] for t in c.types()]
            class Calc(K.KMCRateCalculatorPlugin):
                def rate(self, g, eb, ea, rc, pn, gc):
                    return rate((pn, int(round(gc[0]))))

                def cutoff(self):
                    return .4
            caught = None
            out.evals += 1
            out.states += 1
            try:
                with vp.quiet():
                    uc = K.KMCUnitCell(cell_vectors=[[1., 0., 0.], [0., 1., 0.], [0., 0., 1.]], basis_points=[[0., 0., 0.]])
                    c = K.KMCConfiguration(lattice=K.KMCLattice(unit_cell=uc, repetitions=(n, 1, 1), periodic=(True, False, False)), types=["A"] * n, possible_types=["A", "V"])
                    if bucket:
                        ps = [K.KMCBucketProcess(coordinates=[[0., 0., 0.]], minimum_match=[a], update=[[(-1, a), (1, b)]], basis_sites=[0], rate_constant=r)
                              for a, b, r in (("A", "V", consts[0]), ("V", "A", consts[1]))]
                    else:
                        ps = [K.KMCProcess(coordinates=[[0., 0., 0.]], elements_before=[a], elements_after=[b], basis_sites=[0], rate_constant=r)
                              for a, b, r in (("A", "V", consts[0]), ("V", "A", consts[1]))]
                    i = K.KMCInteractions(processes=ps, implicit_wildcards=True)
                    if kind.startswith("custom"):
                        i.setRateCalculator(rate_calculator=Calc)
                    m = K.KMCLatticeModel(c, i)
                    rng.set(u * 30)
                    m.run(K.KMCControlParameters(number_of_steps=5, seed=1), analysis=[An()])
            except Error as e:
                caught = e
            except Exception as e:
                out.violation("a rate makes a model fail with something else than the library's Error", error="%s: %s" % (type(e).__name__, str(e)[:200]), **where)
                continue
            out.transitions += len(events)
            R = sum(rate((0 if t == "A" else 1, k)) for k, t in enumerate(state[0]))
            if bad:
                # (a rate that was never asked for is no input)
                if caught is None and (kind.startswith("constant") or not 0.0 <= sum(vals[:n]) < float("inf")):
                    out.violation("a rate that is negative or not finite is accepted", **where)
            elif caught is None and len(events) != 5:
                out.violation("a run ended early without an Error", events=events, **where)
            elif caught is not None and 1e-307 < R < float("inf"):
                out.violation("a usable rate is rejected", error=str(caught)[:200], state=state[0], **where)
            elif caught is None and (R == 0.0 and len(events) < 5):
                out.violation("a run goes on without a possible event", **where)
            out.outcome((bad, caught is None, min(len(events), 1)))
    out.traces += len(params["cases"])


def job(params, out):
    {"rates": job_rates, "inputs": job_inputs, "pairs": job_pairs, "calls": job_calls, "memory": job_memory}[params["mode"]](params, out)


def jobs():
    th = vp.thorough()
    js = [dict(name="calls", mode="calls")]
    A = {"KMCUnitCell": ["cell_vectors", "basis_points"], "KMCLattice": ["unit_cell", "repetitions", "periodic"],
         "KMCConfiguration-short": ["lattice", "types", "possible_types", "default_type"], "KMCConfiguration-long": ["types", "possible_types", "default_type"],
         "KMCConfiguration-buckets": ["types", "possible_types", "default_type"], "KMCConfiguration-default": ["types"], "KMCLocalConfiguration": ["coordinates", "types", "center"],
         "KMCProcess": ["coordinates", "elements_before", "elements_after", "move_vectors", "basis_sites", "rate_constant"],
         "KMCProcess-no-move": ["coordinates", "elements_before", "elements_after", "move_vectors"],
         "KMCBucketProcess": ["coordinates", "minimum_match", "update", "basis_sites", "rate_constant"], "KMCInteractions": ["processes", "implicit_wildcards"],
         "KMCLatticeModel": ["configuration", "interactions"], "KMCControlParameters": ["number_of_steps", "dump_interval", "analysis_interval", "seed", "rng_type", "dump_time_interval"][:5],
         "KMCControlParameters-time": ["dump_interval", "dump_time_interval", "rng_type"], "Composition": ["time_interval"], "TimeStepDistribution": ["binsize"],
         "ProcessStatistics": ["processes", "time_interval", "spatially_resolved"], "OnTheFlyMSD": ["history_steps", "n_bins", "t_max", "track_type"]}
    heavy = {"types": 4, "coordinates": 4, "move_vectors": 3, "minimum_match": 3, "update": 3, "cell_vectors": 3}
    for t in sorted(A):
        for a in A[t]:
            n = heavy.get(a, 1)
            for i in range(n):
                js.append(dict(name="inputs:%s:%s:%d" % (t, a, i), mode="inputs", target=t, arg=a, part=[i, n]))
        for i, a in enumerate(A[t]):
            for b in A[t][i + 1:]:
                js.append(dict(name="pairs:%s:%s:%s" % (t, a, b), mode="pairs", target=t, args=[a, b]))
    cases = [[k, [repr(float(x)) for x in v]] for k in ("constant", "constant-bucket") for v in itertools.product(RATES, repeat=2)]
    cases += [[k, [repr(float(x)) for x in v + (last,)]] for k in ("custom", "custom-bucket") for last in ((0.0, .5) if k == "custom" else (0.0,))
              for v in itertools.product(RATES if th else RATES[:1] + RATES[2:5] + RATES[8:12], repeat=3)]
    for i in range(24):
        js.append(dict(name="rates:%d" % i, mode="rates", cases=cases[i::24]))
    models = [m for m in scen.plain()] + scen.buckets()
    for n in (25, 40, 90, 400):
        models.append(scen.sys_("many-particles-%d" % n, [scen.O], (3, 1, 1), (True, False, False), [(n, "A"), [(n // 2, "A"), (n // 2, "B")], []], ["B", "A"],
                                [scen.bproc([scen.O, scen.X], [(r, "A"), (0, "A")], [(-r, "A"), (r, "A")], 1.0) for r in (n // 3, n // 2)] +
                                [scen.bproc([scen.O], [[(n // 4, "A"), (n // 2, "B")]], [[(-1, "B")]], 1.0)], buckets=True))
    # a site in the middle has more neighbours than the ones at the border, and processes change all of them
    for reps, per in (((3, 1, 1), (False,) * 3), ((4, 3, 1), (False,) * 3), ((3, 3, 3), (False,) * 3), ((3, 3, 3), (True, False, False)), ((3, 5, 2), (False, False, True))):
        n = reps[0] * reps[1] * reps[2]
        near = sorted(itertools.product(*[(-1, 0, 1) if r > 1 else (0,) for r in reps]), key=lambda c: (sum(x * x for x in c), c))
        near = [[float(x) for x in c] for c in near]
        pr = []
        for k in sorted(set([2, len(near) // 2, len(near) - 1, len(near)])):
            pr += [dict(coords=near[:k], before=[a] * k, after=[b] * k, basis=[0], rate=1.0) for a, b in (("A", "V"), ("V", "A"))]
        pr += [scen.flip("A", "V", .5)]
        models.append(scen.sys_("border-%d%d%d-%d" % (reps + (sum(per),)), [scen.O], reps, per, ["A"] * n, ["V", "A"], pr))
    for m in models:
        heavy_m = len(m["types"]) > 12 or len(m["procs"]) > 12
        js.append(dict(name="memory:" + m["name"], mode="memory", spec=m, analysis=not m.get("buckets"), cap=6000 if th else 250, steps=15000 if th else (250 if heavy_m else 800)))
    for m, c in ((scen.ads_des_hop(5), dict(func="neighbours", cutoff=1.3, cache=True)), (scen.grid2d(3), dict(func="counting", cutoff=1.0)), (scen.two_basis(3), dict(func="after_sensitive", cutoff=1.0, cache=True)),
                 (scen.bucket2(), dict(func="counting", cutoff=1.0, cache=True)), (scen.bucket_wild(), dict(func="neighbours", cutoff=None)), (scen.hexagonal(3), dict(func="counting", cutoff=None, cache=True))):
        js.append(dict(name="memory-custom:" + m["name"], mode="memory", spec=m, calc=c, cap=3000 if th else 150, steps=8000 if th else 300))
    return js


if __name__ == "__main__":
    vp.main(PID, jobs(), job, variant="asan", floor=1000,
            bounds="one defect at every position of every argument of every public constructor and of run (about fifty replacement values, deletion, doubling, container changes); all pairs and triples of rates from a set of extreme ones; all orders of three calculator settings; "
                   "the catalogue models over their reachable states up to a cap, under address and undefined-behaviour sanitizers",
            assumptions=["numbers small enough to fit in memory (a lattice of 10^9 cells is not malformed)"])

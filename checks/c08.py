"""C08: the run loop honours its schedule, for all small schedules and a failure at every callback."""
import itertools, math, os, shutil, sys, tempfile
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vp, scen, trajs
from sysm import Sys, norm_spec
from ref import Ref

PID = "C08"
SEL = [.11, .83, .52, .37, .96, .05, .61, .44, .29, .71, .18, .90, .33, .66, .07, .57]
# draws of the time steps: -ln(u) below 0.4, so that with the rates used a step is short
TU = [.9, .8, .97, .85, .7, .99, .75, .92]


class Boom(Exception):
    pass


def draws(n0, n):
    out = []
    for k in range(n0, n0 + n):
        out += [TU[k % len(TU)], SEL[(2 * k) % len(SEL)], SEL[(2 * k + 1) % len(SEL)]]
    return out


def view(c):
    return tuple(tuple(sorted(t)) if isinstance(t, (list, tuple)) else t for t in c.types())


def base_run(spec, total):
    """States and times without any plug-in, by stepping the backend: [(time, state)]."""
    s = Sys(spec)
    seq = [(s.timer.simulationTime(), view(s.config))]
    s.rng.set(draws(0, total))
    for _ in range(total):
        if s.cpp.interactions().totalAvailableSites() == 0 or s.cpp.interactions().totalRate() == 0.0:
            break
        s.cpp.propagateTime()
        s.cpp.singleStep()
        seq.append((s.timer.simulationTime(), view(s.config)))
    return seq


def expected(seq, start, p, nan, breakers, counts, fault):
    """The reference automaton of one run that starts at position `start` of the base sequence.
    Returns (calls, dumps, end, final position)."""
    calls, dumps = [], []
    t0 = seq[start][0]
    for a in range(nan):
        calls.append(("setup", "a", a, 0, start))
    for b in range(len(breakers)):
        calls.append(("setup", "b", b, 0, start))
    dumps.append((0, start))
    pos, step, samples, end = start, 0, 0, "done"
    occurrence = 0
    try:
        while step < p["steps"]:
            if pos + 1 >= len(seq):
                end = "dead"
                break
            step += 1
            if p["dump_time"] is not None and seq[pos + 1][0] - (t0 + samples * p["dump_time"]) >= p["dump_time"] * (1 - 1e-12):
                samples += 1
                dumps.append((step - 1, pos))
            pos += 1
            nd = p["dump"] or 1
            if p["dump_time"] is None and step % nd == 0:
                dumps.append((step, pos))
            if step % (p["analyse"] or 1) == 0:
                for a in range(nan):
                    calls.append(("register", "a", a, step, pos))
                    if fault == occurrence:
                        raise Boom()
                    occurrence += 1
            stop = False
            for b, (interval, at) in enumerate(breakers):
                if step % interval == 0:
                    calls.append(("evaluate", "b", b, step, pos))
                    if fault == occurrence:
                        raise Boom()
                    occurrence += 1
                    counts[b] += 1
                    if at is not None and counts[b] >= at:
                        stop = True
                        break
            if stop:
                end = "break"
                break
    except Boom:
        end = "boom"
    return calls, dumps, end, pos, occurrence


def job(params, out):
    spec = norm_spec(params["spec"])
    K, rng = vp.load()
    total = max(params["steps"]) + 8
    seq = base_run(spec, total)
    index = {}
    scratch = tempfile.mkdtemp(prefix="vp-c08-")
    seen = 0
    try:
        configs = list(itertools.product(params["steps"], params["dumps"], params["analyse"], params["nan"], range(len(params["breakers"])), params["traj"]))
        for c, (steps, dump, analyse, nan, bk, traj) in enumerate(configs):
            if c % params["part"][1] != params["part"][0]:
                continue
            breakers = params["breakers"][bk]
            p = dict(steps=steps, dump=dump if isinstance(dump, int) else None, dump_time=dump if isinstance(dump, float) else None, analyse=analyse)
            n_occ = expected(seq, 0, p, nan, breakers, [0] * len(breakers), None)[4]
            for fault in [None] + list(range(n_occ)):
                if fault is not None and fault >= params["faults"]:
                    break
                run_one(K, rng, spec, seq, p, nan, breakers, traj, fault, scratch, out, kind=(c + (fault or 0)) % 3)
                out.states += 1
            if n_occ and params.get("late"):        # the last callbacks of a long run
                for fault in range(max(0, n_occ - params["late"]), n_occ):
                    run_one(K, rng, spec, seq, p, nan, breakers, traj, fault, scratch, out, kind=(c + fault) % 3)
                    out.states += 1
        out.sample(dict(sequence_of_states=len(seq), configurations=out.states))
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def run_one(K, rng, spec, seq, p, nan, breakers, traj, fault, scratch, out, kind):
    log = []
    box = dict(occ=0, fault=fault, counts=[0] * len(breakers))
    exc = (Boom("stop"), KeyboardInterrupt("stop"), SystemExit("stop"))[kind]
    where = dict(scenario=spec["name"], parameters=p, analyses=nan, breakers=breakers, trajectory=traj, fault_at_callback=fault, fault_type=type(exc).__name__)

    def hit():
        if box["fault"] == box["occ"]:
            raise exc
        box["occ"] += 1

    class An(K.KMCAnalysisPlugin):
        def __init__(self, i):
            self.i = i

        def setup(self, step, time, configuration):
            log.append(("setup", "a", self.i, step, time, view(configuration)))

        def registerStep(self, step, time, configuration):
            log.append(("register", "a", self.i, step, time, view(configuration)))
            hit()

        def finalize(self):
            log.append(("finalize", "a", self.i))

    class Br(K.KMCBreakerPlugin):
        def __init__(self, i, interval, at):
            self.i, self.n, self.at = i, interval, at

        def setup(self, step, time, configuration):
            log.append(("setup", "b", self.i, step, time, view(configuration)))

        def interval(self):
            return self.n

        def evaluate(self, step, time, configuration):
            log.append(("evaluate", "b", self.i, step, time, view(configuration)))
            hit()
            box["counts"][self.i] += 1
            return self.at is not None and box["counts"][self.i] >= self.at

    class BrDefault(Br):
        interval = K.KMCBreakerPlugin.interval

    s = Sys(spec)
    ans = [An(i) for i in range(nan)]
    brs = [(BrDefault if n == 1 else Br)(i, n, at) for i, (n, at) in enumerate(breakers)]
    pos = 0
    counts = [0] * len(breakers)
    for attempt in range(2):
        q = dict(p) if attempt == 0 else dict(p, steps=3)
        f = fault if attempt == 0 else None
        if attempt == 1:
            box["fault"] = None
            if pos + 1 >= len(seq):
                q["steps"] = 1
        kw = {}
        if q["dump"] is not None:
            kw["dump_interval"] = q["dump"]
        if q["dump_time"] is not None:
            kw["dump_time_interval"] = q["dump_time"]
        if q["analyse"] is not None:
            kw["analysis_interval"] = q["analyse"]
        fn = os.path.join(scratch, "t%d" % attempt)
        if os.path.exists(fn):
            os.unlink(fn)
        del log[:]
        rng.set(draws(pos, len(seq) + 14 - pos))
        tk = dict(trajectory_filename=fn, trajectory_type=traj) if traj else {}
        caught = None
        with vp.quiet():
            try:
                s.model.run(K.KMCControlParameters(number_of_steps=q["steps"], seed=1, **kw), analysis=ans or None, breakers=brs or None, **tk)
            except BaseException as e:
                caught = e
        out.evals += 1
        out.traces += 1
        dead_start = pos + 1 >= len(seq)
        calls, dumps, end, newpos, occ = expected(seq, pos, q, nan, breakers, counts, f)
        w = dict(where, run=attempt, expected_end=end)
        if dead_start:
            if type(caught).__name__ != "Error" and (q["steps"] > 0 or set(s.events()) == set()):
                out.violation("a run of a model in which nothing is possible does not raise the library's error", raised=repr(caught), **w)
            return
        want = dict(done=None, dead="Error")
        if end == "boom":
            if caught is not exc:
                out.violation("an exception of a plug-in does not reach the caller", raised=repr(caught), **w)
        elif end == "dead":
            if type(caught).__name__ != "Error":
                out.violation("running out of events does not raise the library's error", raised=repr(caught), **w)
        elif caught is not None:
            out.violation("the run raised an exception", raised=repr(caught), **w)
        got = [x for x in log if x[0] != "finalize"]
        setups = [x for x in calls if x[0] == "setup"]
        rest = [x for x in calls if x[0] != "setup"]
        gs, gr = got[:len(setups)], got[len(setups):]

        def same(g, e):
            return g[:4] == e[:4] and g[4] == seq[e[4]][0] and g[5] == seq[e[4]][1]
        if sorted(x[:4] for x in gs) != sorted(x[:4] for x in setups) or not all(x[4] == seq[pos][0] and x[5] == seq[pos][1] for x in gs):
            out.violation("the plug-ins are not set up once each before the first step", calls=[x[:4] for x in got][:8], expected=[x[:4] for x in setups], **w)
        if len(gr) != len(rest) or not all(same(g, e) for g, e in zip(gr, rest)):
            k = [i for i in range(min(len(gr), len(rest))) if not same(gr[i], rest[i])]
            out.violation("registrations and evaluations do not follow the schedule", got=[x[:5] for x in gr], expected=[x[:4] + (seq[x[4]][0],) for x in rest],
                          first_difference=k[:1], **w)
        fin = [x for x in log if x[0] == "finalize"]
        if sorted(fin) != [("finalize", "a", i) for i in range(nan)]:
            out.violation("the analyses are not finalized exactly once", finalized=fin, **w)
        if fin and log[-len(fin):] != fin:
            out.violation("an analysis is finalized before the run is over", log=[x[:4] for x in log], **w)
        if abs(s.timer.simulationTime() - seq[newpos][0]) > 0 or view(s.config) != seq[newpos][1]:
            out.violation("the model is not in the state after the last step", time=s.timer.simulationTime(), expected=seq[newpos][0], **w)
        if traj:
            text = open(fn).read()
            try:
                d = trajs.lattice(text) if traj == "lattice" else trajs.xyz(text)
            except ValueError as e:
                out.violation("the trajectory file is malformed: %s" % e, text=text[-500:], **w)
                return
            fr = d["frames"]
            ok = len(fr) == len(dumps)
            for g, (st, at) in zip(fr, dumps):
                ok = ok and g[0] == st and abs(g[1] - seq[at][0]) <= 1e-9 * max(1.0, abs(seq[at][0]))
                if traj == "lattice":
                    ty = tuple(tuple(sorted(t for n, t in x for _ in range(n))) if isinstance(x, list) else x for x in g[2])
                    ok = ok and ty == seq[at][1]
            if not ok:
                out.violation("the trajectory does not hold exactly the dumps of the schedule", got=[(x[0], x[1]) for x in fr],
                              expected=[(st, seq[at][0]) for st, at in dumps], **w)
        out.transitions += newpos - pos
        out.outcome((end, len(calls), len(dumps)))
        pos = newpos


def jobs():
    th = vp.thorough()
    js = []
    alive = scen.ring_hop(5)
    ads = scen.ads_des_hop(5)
    dead = scen.sys_("dead-end", [scen.O], (3, 1, 1), (True, False, False), ["A", "A", "A"], ["A", "V"], [scen.flip("A", "V", 3.0)])
    buck = scen.bucket2()
    dead2 = scen.sys_("dead-end-at-once", [scen.O], (3, 1, 1), (True, False, False), ["A", "V", "V"], ["A", "V"], [scen.flip("A", "V", 3.0)])
    # events are left, but none that has a rate
    stalled = scen.sys_("stalled", [scen.O], (3, 1, 1), (True, False, False), ["A", "A", "V"], ["A", "V"], [scen.flip("V", "A", 0.0), scen.flip("A", "V", 3.0), scen.hop(scen.X, 0.0)])
    stalled2 = scen.sys_("stalled-at-once", [scen.O], (3, 1, 1), (True, False, False), ["A", "V", "V"], ["A", "V"], [scen.flip("V", "A", 0.0)])
    brk = [[], [[1, None]], [[1, 2]], [[2, 1]], [[2, None], [1, 3]], [[3, 1], [1, 2]], [[1, 2], [1, 1]], [[2, 2], [3, 1]]]
    if th:
        brk += [[[a, x], [b, y]] for a in (1, 2, 3) for b in (1, 2, 3) for x in (None, 1, 2) for y in (None, 1)]
        brk += [[[1, None], [2, None], [3, 1]], [[2, None], [2, 2], [1, 4]]]
    for s, dump in ((alive, [None, 1, 2, 3, .15, .4, 5.0]), (dead, [None, 2, .2]), (buck, [None, 2, .2]), (dead2, [None, 2]), (stalled, [None, 2, .2]), (stalled2, [1]), (ads, [None, 3, .1])):
        first = s is alive
        n = 16 if first else 4
        if th:
            n *= 4
        for i in range(n):
            js.append(dict(name="loop:%s:%d" % (s["name"], i), spec=s, part=[i, n], steps=[0, 1, 4, 6] if not th else [0, 1, 2, 3, 4, 5, 6, 7], dumps=dump,
                           analyse=[None, 2, 3], nan=[0, 1, 2], breakers=brk if first or th else brk[::2], traj=[None, "lattice", "xyz"] if first else ["lattice"],
                           faults=6 if not th else 40))
    # long runs: intervals and numbers of steps beyond any block size, many plug-ins
    lb = [[], [[100, None]], [[64, 3]], [[7, None], [64, 2], [129, 1]], [[k, None] for k in range(1, 14)] + [[13, 9]]]
    for s, dump in ((alive, [None, 7, 64, 100, 1000, .4, 7.7]), (buck, [10, 128])):
        n = 16
        for i in range(n):
            js.append(dict(name="long:%s:%d" % (s["name"], i), spec=s, part=[i, n], steps=[12, 64, 101, 130, 1030] if not th else [12, 63, 64, 65, 99, 100, 101, 127, 128, 129, 256, 511, 1030, 2100],
                           dumps=dump, analyse=[None, 10, 64], nan=[0, 1, 12] if th else [1, 12], breakers=lb, traj=["lattice"] if s is buck else ["lattice", "xyz"], faults=1, late=2 if th else 1))
    return js


if __name__ == "__main__":
    vp.main(PID, jobs(), job, floor=2000, bounds="all combinations of steps (0..6), dump interval or time interval, analysis interval, 0..2 analyses, breaker lists, trajectory kinds; "
            "an exception (three kinds) at each of the first callbacks; every case is followed by a second run of the same model; long runs up to 1030 (2100) steps with intervals up to 1000 and up to 14 plug-ins",
            assumptions=["intervals of equidistant dumps are compared where at most one sample falls into a step"])

"""C07: a seed determines the whole simulation, whatever happened before in the process."""
import hashlib, itertools, json, os, shutil, subprocess, sys, tempfile
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vp, scen, calcs
from sysm import Sys, norm_spec

PID = "C07"
RNGS = ["MT", "MINSTD", "RANLUX24", "RANLUX48"]


def digest(x):
    return hashlib.md5(repr(x).encode()).hexdigest()


def specs():
    out = [scen.ads_des_hop(5), scen.two_basis_1d(4), scen.bucket2(), scen.rotate3(5)]
    out.append(dict(scen.ads_des_hop(5), name="custom", calc=dict(func="counting", cutoff=1.0)))
    return {s["name"]: s for s in out}


class Stop(Exception):
    pass


def recorder(K, s, log, fail_at=None):
    class Rec(K.KMCAnalysisPlugin):
        def setup(self, step, time, configuration):
            log.append(["setup", step, float(time).hex()])

        def registerStep(self, step, time, configuration):
            log.append([step, float(time).hex(), list(s.latest()), digest(s.state()), digest(s.ids())])
            if fail_at is not None and step >= fail_at:
                raise Stop()

        def finalize(self):
            log.append(["end"])
    return Rec()


def one_run(spec, rngtype, seed, steps, observe=None, fail_at=None, model=None, filename=None):
    """A run of a fresh model with the real generators; returns the log, the draws, the trajectory text."""
    K, rng = vp.load()
    o = dict(observe or {})
    calc = calcs.make_calc(K, spec["calc"]) if spec.get("calc") else None
    s = model or Sys(spec, calc=calc)
    log = []
    kw = {}
    if "dump_time_interval" in o:
        kw["dump_time_interval"] = o["dump_time_interval"]
    elif "dump_interval" in o:
        kw["dump_interval"] = o["dump_interval"]
    if seed is not None:
        kw["seed"] = seed
    analysis = [recorder(K, s, log, fail_at)]
    if o.get("more_analysis"):
        analysis.append(K.Composition(time_interval=0.1))
        analysis.append(K.TimeStepDistribution(binsize=0.1))
    breakers = []
    if o.get("breaker"):
        class Never(K.KMCBreakerPlugin):
            def interval(self):
                return 2

            def evaluate(self, step, time, configuration):
                configuration.types()
                return False
        breakers = [Never()]
    rng.mode(0)
    rng.log(1)
    text = None
    d = tempfile.mkdtemp(prefix="vp-c07-")
    try:
        tk = {}
        if o.get("trajectory"):
            tk = dict(trajectory_filename=os.path.join(d, "t"), trajectory_type=o["trajectory"])
        with vp.quiet():
            try:
                s.model.run(K.KMCControlParameters(number_of_steps=steps, rng_type=rngtype, analysis_interval=1, **kw), analysis=analysis, breakers=breakers or None, **tk)
            except Stop:
                log.append(["stopped"])
            except Exception as e:
                if type(e).__name__ != "Error":
                    raise
                log.append(["error", str(e)[:60]])
        if o.get("trajectory"):
            text = "\n".join(l for l in open(os.path.join(d, "t")).read().splitlines() if not l.startswith("creation_time"))
    finally:
        shutil.rmtree(d, ignore_errors=True)
    draws = rng.getlog()
    rng.log(0)
    return log, draws, text


OBSERVE = [dict(), dict(dump_interval=3), dict(dump_time_interval=0.05), dict(trajectory="lattice"), dict(trajectory="xyz", dump_interval=2), dict(more_analysis=True, breaker=True)]


def activity(name):
    """Something done before the run under test in the same process."""
    K, rng = vp.load()
    sp = specs()
    if name == "run-minstd":
        one_run(norm_spec(sp["adsdes5"]), "MINSTD", 5, 7)
    elif name == "run-mt":
        one_run(norm_spec(sp["adsdes5"]), "MT", 1, 4)
    elif name == "run-luxury24":
        one_run(norm_spec(sp["two-basis-1d"]), "RANLUX24", 2, 3)
    elif name == "run-luxury48":
        one_run(norm_spec(sp["rotate3"]), "RANLUX48", 2, 5)
    elif name == "run-time-seed":
        one_run(norm_spec(sp["adsdes5"]), "MT", None, 3)
    elif name == "run-aborted":
        one_run(norm_spec(sp["bucket2"]), "MT", 3, 9, fail_at=2)
    elif name == "run-dead-end":
        one_run(norm_spec(scen.sys_("dead", [scen.O], (3, 1, 1), (True, False, False), ["A", "V", "V"], ["A", "V"], [scen.flip("A", "V", 1.0)])), "MINSTD", 3, 9)
    elif name == "run-custom":
        one_run(norm_spec(sp["custom"]), "RANLUX48", 9, 3)
    elif name == "run-nothing-possible":
        one_run(norm_spec(scen.sys_("none", [scen.O], (3, 1, 1), (True, False, False), ["V", "V", "V"], ["A", "V"], [scen.flip("A", "V", 1.0)])), "RANLUX24", 3, 9)
    elif name == "bad-parameters":
        try:
            K.KMCControlParameters(number_of_steps=1, rng_type="NONE")
        except Exception as e:
            if type(e).__name__ != "Error":
                raise
    elif name == "backend-steps":
        s = Sys(norm_spec(sp["rotate3"]))
        rng.mode(0)
        for _ in range(3):
            s.cpp.propagateTime()
            s.cpp.singleStep()
    elif name == "zero-steps":
        one_run(norm_spec(sp["adsdes5"]), "MT", 77, 0)
    elif name == "raw-draws":
        rng.mode(0)
        for _ in range(3):
            rng.real()
    else:
        raise KeyError(name)


ACTS = ["run-minstd", "run-mt", "run-luxury24", "run-luxury48", "run-time-seed", "run-aborted", "run-dead-end", "run-custom", "run-nothing-possible",
        "bad-parameters", "backend-steps", "zero-steps", "raw-draws"]
STEPS = 12


def baseline(q):
    """In a fresh process: the logs of all targets."""
    res = {}
    sp = specs()
    for key in q["targets"]:
        name, r, seed = key
        log, draws, text = one_run(norm_spec(sp[name]), r, seed, STEPS, dict(trajectory=q.get("trajectory", "lattice")))
        res[json.dumps(key)] = dict(log=log, draws=[x.hex() for x in draws], text=text)
    return res


def stream(prog, r, seed, n):
    return subprocess.run([prog, r, str(seed), str(n)], stdout=subprocess.PIPE, text=True, check=True).stdout.split()


def job(params, out):
    sp = specs()
    if params["mode"] == "stream":
        for r, seed, steps in params["cases"]:
            for name in ("adsdes5", "custom"):
                log, draws, text = one_run(norm_spec(sp[name]), r, seed, steps)
                ref = [float.fromhex(x) for x in stream(params["prog"], r, seed, len(draws) + 5)]
                out.evals += len(draws)
                out.traces += 1
                out.states += 1
                out.transitions += len(draws)
                if any(not 0.0 <= x < 1.0 for x in draws):
                    out.violation("a random number outside [0,1)", generator=r, seed=seed, numbers=[x for x in draws if not 0 <= x < 1][:3])
                if len(draws) < steps:
                    out.violation("a run of %d steps used %d random numbers" % (steps, len(draws)), generator=r, seed=seed)
                k = [i for i in range(len(draws)) if abs(draws[i] - ref[i]) > 1e-14]
                if k:
                    k = k[0]
                    out.violation("the numbers of a seeded run are not the stream of the generator", generator=r, seed=seed, position=k, got=draws[k], expected=ref[k])
                out.outcome(digest(draws))
        out.sample(dict(cases=params["cases"][:3]))
        return
    base = params["base"]
    for acts in params["sequences"]:
        for n, key in enumerate(params["targets"]):
            name, r, seed = key
            b = base[json.dumps(key)]
            for a in acts:
                activity(a)
            o = OBSERVE[params["observe"][n % len(params["observe"])]]
            log, draws, text = one_run(norm_spec(sp[name]), r, seed, STEPS, o)
            out.evals += 1
            out.traces += 1
            out.states += 1
            out.transitions += len(log)
            if json.loads(json.dumps(log)) != b["log"]:
                k = [i for i in range(min(len(log), len(b["log"]))) if json.loads(json.dumps(log[i])) != b["log"][i]]
                out.violation("a seeded run differs from the same run in a fresh process", before=list(acts), target=key, observed_with=o,
                              at=k[:1], got=log[k[0]] if k else len(log), expected=b["log"][k[0]] if k else len(b["log"]))
            if o.get("trajectory") == "lattice" and "dump_interval" not in o and text != b["text"]:
                out.violation("the trajectory of a seeded run differs from the same run in a fresh process", before=list(acts), target=key)
            out.outcome(digest(log))
    out.sample(dict(before=params["sequences"][:3], targets=params["targets"]))


def jobs():
    th = vp.thorough()
    vp._build.build("plain")
    # reference streams
    prog = os.path.join(vp.VERIF, "build", "streams-%d" % os.getpid())
    subprocess.run(["g++", "-O1", "-std=c++11", "-o", prog, os.path.join(vp.HERE, "streams.cpp")], check=True)
    names = list(specs())
    targets = [[names[i % len(names)], r, seed] for i, (r, seed) in enumerate((r, s) for s in (1, 42) for r in RNGS)]
    targets += [["custom", "MT", 0], ["bucket2", "MT", 2147483647], ["rotate3", "MT", 7]]
    bases = []
    for hs in ("0", "1", "2", "3", "12345", "random"):
        p = subprocess.run([sys.executable, os.path.abspath(__file__), "--baseline"], input=json.dumps(dict(targets=targets)), stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                           text=True, env=dict(os.environ, PYTHONHASHSEED=hs))
        bases.append(json.loads(p.stdout.splitlines()[-1]) if p.returncode == 0 else dict(error=p.stderr[-1500:]))
    js = [dict(name="fresh-processes", mode="fresh", bases=bases, targets=targets)]
    if "error" in bases[0]:
        return js, prog
    seqs = [()] + [(a,) for a in ACTS] + list(itertools.product(ACTS, repeat=2))
    if th:
        seqs += list(itertools.product(ACTS, repeat=3))
    n = 96 if th else 32
    for i in range(n):
        part = seqs[i::n]
        if part:
            js.append(dict(name="sequences:%d" % i, mode="seq", sequences=part, targets=targets if th else targets[i % 3::3] + targets[(i + 1) % 3::6], base=bases[0], observe=[(i + k) % len(OBSERVE) for k in range(len(OBSERVE))]))
    seeds = [0, 1, 2, 3, 5, 13, 99, 1000, 65536, 2147483646, 2147483647] + (list(range(100, 300)) if th else list(range(100, 110)))
    for r in RNGS:
        for k in range(4):
            js.append(dict(name="stream:%s:%d" % (r, k), mode="stream", prog=prog, cases=[[r, s, 40 if not th else 1000] for s in seeds[k::4]] + ([[r, 17, 2500]] if k == 0 else [])))
    return js, prog


def main_job(params, out):
    if params["mode"] == "fresh":
        bases = params["bases"]
        for b in bases:
            out.states += 1
            if "error" in b:
                out.violation("a seeded run fails in a fresh process", output=b["error"])
                return
            for k in b:
                out.evals += 1
                out.traces += 1
                out.transitions += len(b[k]["log"])
                if len(b[k]["log"]) < 5:
                    out.violation("a seeded run ends early", target=k, log=b[k]["log"])
                if b[k] != bases[0][k]:
                    out.violation("two fresh processes give different runs for the same seed", target=k, one=b[k]["log"][:4], other=bases[0][k]["log"][:4])
        # different seeds and generators must not give the same numbers
        d = {}
        for k in bases[0]:
            d.setdefault(tuple(bases[0][k]["draws"][:12]), []).append(k)
        for v in d.values():
            if len(v) > 1:
                seeds = set((json.loads(x)[1], json.loads(x)[2]) for x in v)
                if len(seeds) > 1 and not seeds <= {("MINSTD", 0), ("MINSTD", 1)}:
                    out.violation("different seeds or generators give the same numbers", targets=v)
        out.sample(dict(target=list(bases[0])[0], log=bases[0][list(bases[0])[0]]["log"][:3]))
        return
    job(params, out)


if __name__ == "__main__":
    if "--baseline" in sys.argv:
        q = json.loads(sys.stdin.read())
        r = baseline(q)
        sys.stdout.write("\n" + json.dumps(r, default=vp._jd) + "\n")
        sys.stdout.flush()
        os._exit(0)
    try:
        js, prog = jobs()
    except Exception:
        import traceback
        traceback.print_exc()
        sys.exit(2)
    vp.main(PID, js, main_job, floor=100, post=lambda res: os.path.exists(prog) and os.unlink(prog), bounds="all sequences of up to two (thorough: three) earlier activities out of %d before runs with each generator, seed and way of observing; six hash seeds; streams for a range of seeds" % len(ACTS),
            assumptions=["the standard library generators of the reference program and of the backend are the same"])

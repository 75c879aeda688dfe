"""Check framework: parallel, crash-safe exploration of jobs; evidence; violations; known findings.

A check is a list of jobs (JSON-able parameters) and a function func(params, out).  Every job runs in a
worker process; a worker that dies (signal, memory error, runaway loop) while exploring a job is itself a
violation witness of that job.  `out` collects the counts of what was really visited.
"""
import ctypes, io, json, os, select, signal, struct, sys, time, traceback

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import build as _build

TIER = os.environ.get("VERIF_TIER", "quick")
if TIER not in ("quick", "thorough"):
    TIER = "quick"
try:
    SEED = int(os.environ.get("VERIF_SEED", "1"))
except ValueError:
    SEED = 1
T0 = time.time()
CPU_LIMIT = int(os.environ.get("VP_CPU_LIMIT", "0")) or (400 if TIER == "quick" else 3000)


class Violation(Exception):
    def __init__(self, what, key=None, **data):
        Exception.__init__(self, what)
        self.what, self.key, self.data = what, key, data


class Out(object):
    """What one job covered."""
    def __init__(self):
        self.states = self.transitions = self.traces = self.evals = 0
        self.samples, self.viol, self.outcomes, self.notes = [], [], {}, {}
        self.maxviol = 10 ** 6 if os.environ.get("VP_ALL") else 3

    def sample(self, s):
        if len(self.samples) < 2:
            self.samples.append(s)

    def outcome(self, k, n=1):
        k = str(k)
        if k in self.outcomes or len(self.outcomes) < 400:
            self.outcomes[k] = self.outcomes.get(k, 0) + n

    def note(self, k, n=1):
        self.notes[k] = self.notes.get(k, 0) + n

    def violation(self, what, key=None, **data):
        self.viol.append(dict(what=what, key=key, data=data))
        if len([v for v in self.viol if v["key"] is None]) >= self.maxviol:
            raise StopJob()

    def as_dict(self):
        return dict(states=self.states, transitions=self.transitions, traces=self.traces, evals=self.evals,
                    samples=self.samples, viol=self.viol, outcomes=self.outcomes, notes=self.notes)


class StopJob(Exception):
    pass


# ---------------------------------------------------------------------------------------------- loading
_lib = {}


def load(variant="plain"):
    """Build from /repo's working tree and import KMCLib; returns (KMCLib module, rng control)."""
    if "K" in _lib:
        return _lib["K"], _lib["rng"]
    path = _build.build(variant)
    sys.path.insert(0, path)
    sys.dont_write_bytecode = True
    with quiet():
        import KMCLib
    assert os.path.abspath(KMCLib.__file__).startswith(path), KMCLib.__file__
    _lib["K"] = KMCLib
    _lib["path"] = path
    _lib["rng"] = Rng(os.path.join(path, "KMCLib", "Backend", "_Backend.so"))
    return _lib["K"], _lib["rng"]


class Rng(object):
    def __init__(self, so):
        d = ctypes.CDLL(so)
        self._set = d.vp_rng_set
        self._set.argtypes = [ctypes.POINTER(ctypes.c_double), ctypes.c_int, ctypes.c_double]
        self._set.restype = None
        self.mode = d.vp_rng_mode
        for n in ("draws", "pos", "overrun"):
            f = getattr(d, "vp_rng_" + n)
            f.restype = ctypes.c_long
            setattr(self, n, f)
        self.log = d.vp_rng_log
        self._getlog = d.vp_rng_getlog
        self._getlog.argtypes = [ctypes.POINTER(ctypes.c_double), ctypes.c_int]
        self._getlog.restype = ctypes.c_int
        self.real = d.vp_rng_real
        self.real.restype = ctypes.c_double
        self._arr2 = (ctypes.c_double * 2)()
        self._arr1 = (ctypes.c_double * 1)()

    def set(self, us, fallback=0.5):
        n = len(us)
        arr = (ctypes.c_double * max(n, 1))(*us)
        self._set(arr, n, fallback)

    def set2(self, u1, u2):
        a = self._arr2
        a[0] = u1
        a[1] = u2
        self._set(a, 2, 0.5)

    def getlog(self, n=100000):
        a = (ctypes.c_double * n)()
        m = self._getlog(a, n)
        return [a[i] for i in range(min(m, n))]


class quiet(object):
    """Silence the library's own messages."""
    def __enter__(self):
        self._o = sys.stdout
        sys.stdout = io.StringIO()
        return sys.stdout

    def __exit__(self, *a):
        sys.stdout = self._o


# ---------------------------------------------------------------------------------------------- running
def _child(func, rfd, wfd, variant):
    try:
        load(variant) if variant else None
    except BaseException:
        _send(wfd, dict(fatal=traceback.format_exc()))
        os._exit(0)
    while True:
        msg = _recv(rfd)
        if msg is None:
            os._exit(0)
        out = Out()
        signal.setitimer(signal.ITIMER_PROF, CPU_LIMIT)
        t = time.time()
        try:
            func(msg["params"], out)
        except StopJob:
            pass
        except Violation as e:
            out.viol.append(dict(what=e.what, key=e.key, data=e.data))
        except MemoryError:
            out.viol.append(dict(what="MemoryError while exploring", key=None, data={}))
        except Exception as e:
            out.viol.append(dict(what="unexpected exception %s: %s" % (type(e).__name__, e), key=None,
                                 data=dict(traceback=traceback.format_exc()[-3000:])))
        signal.setitimer(signal.ITIMER_PROF, 0)
        d = out.as_dict()
        d["wall"] = time.time() - t
        _send(wfd, d)


def _send(fd, obj):
    b = json.dumps(obj, default=_jd).encode()
    b = struct.pack("<Q", len(b)) + b
    while b:
        n = os.write(fd, b)
        b = b[n:]


def _jd(o):
    try:
        import numpy
        if isinstance(o, numpy.generic):
            return o.item()
        if isinstance(o, numpy.ndarray):
            return o.tolist()
    except ImportError:
        pass
    if isinstance(o, (set, frozenset)):
        return sorted(o, key=repr)
    return repr(o)


def _readn(fd, n):
    b = b""
    while len(b) < n:
        c = os.read(fd, min(1 << 20, n - len(b)))
        if not c:
            return None
        b += c
    return b


def _recv(fd):
    h = _readn(fd, 8)
    if h is None:
        return None
    b = _readn(fd, struct.unpack("<Q", h)[0])
    return None if b is None else json.loads(b)


_open = set()


class Worker(object):
    def __init__(self, func, variant, logdir, idx):
        r1, w1 = os.pipe()
        r2, w2 = os.pipe()
        self.errfile = os.path.join(logdir, "worker-%d-%d.err" % (os.getpid(), idx))
        sys.stdout.flush()
        self.pid = os.fork()
        if self.pid == 0:
            os.close(w1)
            os.close(r2)
            for f in _open:
                os.close(f)
            fd = os.open(self.errfile, os.O_WRONLY | os.O_CREAT | os.O_TRUNC, 0o644)
            os.dup2(fd, 2)
            os.dup2(os.open(os.devnull, os.O_WRONLY), 1)
            try:
                _child(func, r1, w2, variant)
            finally:
                os._exit(0)
        os.close(r1)
        os.close(w2)
        _open.update((w1, r2))
        self.w, self.r, self.job = w1, r2, None

    def close(self):
        for fd in (self.w, self.r):
            _open.discard(fd)
            try:
                os.close(fd)
            except OSError:
                pass
        try:
            os.unlink(self.errfile)
        except OSError:
            pass


def explore(func, jobs, variant="plain", nproc=None, deadline=None):
    """Run func over all jobs; returns merged results.  deadline: no new job is started after this many
    seconds of wall time (the rest is reported as skipped)."""
    nproc = nproc or int(os.environ.get("VP_NPROC", "0")) or os.cpu_count() or 4
    logdir = os.path.join(VERIF, "build", "log")
    os.makedirs(logdir, exist_ok=True)
    res = dict(states=0, transitions=0, traces=0, evals=0, samples=[], outcomes={}, notes={}, viol=[], jobs=0, skipped=0,
               job_walls=[])
    queue = list(enumerate(jobs))[::-1]
    workers, n_started = [], 0
    start = time.time()

    def merge(i, d):
        res["jobs"] += 1
        for k in ("states", "transitions", "traces", "evals"):
            res[k] += d[k]
        res["samples"] += [dict(job=jobs[i].get("name", i) if isinstance(jobs[i], dict) else i, sample=s) for s in d["samples"]]
        for kk in ("outcomes", "notes"):
            for k, n in d[kk].items():
                if isinstance(n, (int, float)):
                    res[kk][k] = res[kk].get(k, 0) + n
        for v in d["viol"]:
            v["params"] = jobs[i]
            res["viol"].append(v)
        res["job_walls"].append((round(d.get("wall", 0), 2), jobs[i].get("name", str(i)) if isinstance(jobs[i], dict) else str(i)))

    while True:
        stop = deadline is not None and time.time() - start > deadline
        if len([v for v in res["viol"] if v["key"] is None]) >= 12 and not os.environ.get("VP_ALL"):
            stop = True
        if stop and queue:
            res["skipped"] += len(queue)
            queue = []
        while queue and len(workers) < nproc:
            workers.append(Worker(func, variant, logdir, n_started))
            n_started += 1
        for w in list(workers):
            if w.job is None:
                if queue:
                    w.job = queue.pop()
                    try:
                        _send(w.w, dict(params=w.job[1]))
                    except OSError:
                        pass
                else:
                    w.close()
                    os.waitpid(w.pid, 0)
                    workers.remove(w)
        if not workers:
            break
        ready, _, _ = select.select([w.r for w in workers], [], [], 1.0)
        for w in list(workers):
            if w.r in ready:
                d = _recv(w.r)
                if d is None:
                    _, status = os.waitpid(w.pid, 0)
                    err = open(w.errfile, errors="replace").read()
                    sig = os.WTERMSIG(status) if os.WIFSIGNALED(status) else None
                    if sig == signal.SIGPROF:
                        what = "no termination: more than %d s of processor time in one exploration job" % CPU_LIMIT
                    elif sig == signal.SIGKILL:
                        raise RuntimeError("worker was killed (out of memory?) in job %r" % (jobs[w.job[0]],))
                    else:
                        what = "process died (%s)" % ("signal %d" % sig if sig else "status %r" % status)
                    merge(w.job[0], dict(states=0, transitions=0, traces=0, evals=0, samples=[], outcomes={}, notes={},
                                         viol=[dict(what=what, key=None, data=dict(stderr=err[-4000:] if len(err) < 4000 else err[:2500] + "\n...\n" + err[-1500:]))]))
                    w.close()
                    workers.remove(w)
                elif "fatal" in d:
                    raise RuntimeError("worker could not start: " + d["fatal"])
                else:
                    merge(w.job[0], d)
                    w.job = None
    return res


def known():
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    return json.load(open(p))["findings"]


def main(pid, jobs, func, variant="plain", assumptions=(), bounds="", deadline=None, floor=None, post=None, nproc=None):
    """Standard entry point of a check."""
    if len(sys.argv) > 2 and sys.argv[1] == "--replay":
        rep = json.load(open(sys.argv[2]))
        jobs = [rep["params"]]
        floor = None
    only = os.environ.get("VP_ONLY")
    if only:
        jobs = [j for j in jobs if only in j.get("name", "")]
        floor = None
    try:
        if variant:
            _build.build(variant)
        if deadline is None:
            deadline = 560 if TIER == "quick" else 6 * 3600
        res = explore(func, jobs, variant=variant, deadline=deadline, nproc=nproc)
    except Exception:
        traceback.print_exc()
        sys.stderr.write("ERROR: check %s could not run\n" % pid)
        sys.exit(2)
    if post:
        post(res)
    listed = {f["key"]: f for f in known() if f["property"] == pid and f.get("status", "open") == "open"}
    new, seen = [], {}
    for v in res["viol"]:
        if v["key"] is not None and v["key"] in listed:
            seen[v["key"]] = v
        else:
            new.append(v)
    for k, v in sorted(seen.items()):
        print("KNOWN-FINDING: property=%s %s" % (pid, listed[k]["what"]))
    if os.environ.get("VP_ALL"):        # development: everything at once
        for v in new:
            print("ALL %s | %s | %s" % (v["params"].get("name") if isinstance(v["params"], dict) else "", v["what"], json.dumps(v["data"], default=_jd)[:1500]))
    rdir = os.path.join(VERIF, "build", "replay")
    os.makedirs(rdir, exist_ok=True)
    for n, v in enumerate(new[:5]):
        path = os.path.join(rdir, "%s-%d.json" % (pid, n))
        with open(path, "w") as f:
            json.dump(dict(property=pid, tier=TIER, check="checks/%s.py" % pid.lower(), params=v["params"], what=v["what"],
                           data=v["data"], how="python %s --replay %s" % ("checks/%s.py" % pid.lower(), path)), f, indent=1, default=_jd)
        print("VIOLATION property=%s replay=%s" % (pid, path))
        print("  %s" % v["what"][:600])
        dd = json.dumps(v["data"], default=_jd)
        print("  %s" % dd[:600])
    cov = dict(states=res["states"], transitions=res["transitions"], traces_validated_against_impl=res["traces"],
               samples=res["samples"][:12], exhaustive=res["skipped"] == 0, jobs=res["jobs"], jobs_skipped_by_time_cap=res["skipped"],
               oracle_evaluations=res["evals"], distinct_outcomes=len(res["outcomes"]),
               outcomes=dict(sorted(res["outcomes"].items(), key=lambda kv: -kv[1])[:25]), notes=res["notes"], bounds=bounds,
               slowest_jobs=sorted(res["job_walls"], reverse=True)[:5])
    ev = dict(property=pid, tier=TIER, seed=SEED, level="model_checking", coverage=cov, assumptions=list(assumptions),
              wall_s=round(time.time() - T0, 2), violations=len(new))
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=_jd)
    print("%s %s: states=%d transitions=%d traces=%d oracle=%d outcomes=%d jobs=%d skipped=%d violations=%d known=%d wall=%.1fs" % (
        pid, TIER, res["states"], res["transitions"], res["traces"], res["evals"], len(res["outcomes"]), res["jobs"],
        res["skipped"], len(new), len(seen), time.time() - T0))
    if floor and not new and res["skipped"] == 0 and (res["states"] < floor or res["evals"] < floor):
        sys.stderr.write("ERROR: vacuous exploration\n")
        sys.exit(2)
    sys.stdout.flush()
    os._exit(1 if new else 0)


def thorough():
    return TIER == "thorough"

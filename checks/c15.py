"""C15: equivalent descriptions of a model behave the same: explored in lockstep along every edge of the state graph."""
import copy, itertools, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vp, scen, explore, calcs
import sysm
from sysm import Sys, norm_spec
from ref import Ref, expand

PID = "C15"
TOL = 1e-6


# ------------------------------------------------------------------------------------------------ descriptions
def permuted(p, order):
    """The same process with its non-central sites in another order (order: permutation of 1..n-1)."""
    o = [0] + list(order)
    inv = {old: new for new, old in enumerate(o)}
    q = dict(p)
    for k in ("coords", "before", "after", "match", "update"):
        if k in p:
            q[k] = [p[k][i] for i in o]
    if p.get("move") is not None:
        q["move"] = [(inv[i], v) for i, v in p["move"]]
    return q


def shifted(p, d):
    q = dict(p)
    q["coords"] = [[c[l] + d[l] for l in range(3)] for c in p["coords"]]
    return q


def noisy(p, signs, eps):
    """signs: one of -1, 0, 1 per coordinate of the non-central sites (cyclic)."""
    q = dict(p)
    cs, k = [list(p["coords"][0])], 0
    for c in p["coords"][1:]:
        d = []
        for x in c:
            d.append(x + eps * signs[k % len(signs)])
            k += 1
        cs.append(d)
    q["coords"] = cs
    return q


def explicit_moves(p, flip):
    """Write out the move vectors that the library derives for a plain swap (in either order)."""
    if p.get("kind") == "b" or p.get("move") is not None:
        if p.get("move") is not None:
            q = dict(p)
            q["move"] = list(p["move"])[::-1] if flip else list(p["move"])
            return q
        return p
    ch = [i for i in range(len(p["before"])) if p["before"][i] != p["after"][i]]
    if len(ch) != 2 or p["before"][ch[0]] != p["after"][ch[1]] or p["before"][ch[1]] != p["after"][ch[0]]:
        return p
    a, b = p["coords"][ch[0]], p["coords"][ch[1]]
    q = dict(p)
    q["move"] = [(ch[0], tuple(b[l] - a[l] for l in range(3))), (ch[1], tuple(a[l] - b[l] for l in range(3)))]
    if flip:
        q["move"] = q["move"][::-1]
    return q


def wild_slots(spec, p):
    """The sites within the extent of a process that it does not mention (for a process with one basis site)."""
    if len(p["basis"]) != 1:
        return []
    c0 = p["coords"][0]
    rel = [[c[l] - c0[l] for l in range(3)] for c in p["coords"]]
    ext = max(sum(x * x for x in c) ** .5 for c in rel)
    dims = [l for l in range(3) if spec["reps"][l] > 1]
    offs = scen.site_offsets(spec["basis"], p["basis"][0], -2, 2, maxdist=ext + 1e-5, dims=dims)
    return [o for o in offs if min(max(abs(o[l] - c[l]) for l in range(3)) for c in rel) > 1e-4]


def with_wildcards(spec, p, slots):
    q = dict(p)
    c0 = p["coords"][0]
    q["coords"] = list(p["coords"]) + [[c0[l] + s[l] for l in range(3)] for s in slots]
    if p.get("kind") == "b":
        q["match"] = list(p["match"]) + ["*"] * len(slots)
        q["update"] = list(p["update"]) + [(0, spec["possible"][0])] * len(slots)
    else:
        q["before"] = list(p["before"]) + ["*"] * len(slots)
        q["after"] = list(p["after"]) + ["*"] * len(slots)
    return q


def as_bucket(spec, p):
    """A plain process written as a bucket process (equivalent while every site holds one particle)."""
    q = dict(kind="b", coords=p["coords"], basis=p["basis"], rate=p["rate"], match=[], update=[])
    for b, a in zip(p["before"], p["after"]):
        q["match"].append("*" if b == "*" else (1, b))
        q["update"].append((0, spec["possible"][0]) if b == a else [(-1, b), (1, a)])
    return q


def renamed(spec, m):
    def nm(t):
        if isinstance(t, str):
            return m.get(t, t)
        if isinstance(t, tuple):
            return (t[0], m.get(t[1], t[1]))
        return [nm(x) for x in t]
    s = copy.deepcopy(spec)
    s["types"] = [nm(t) for t in spec["types"]]
    s["possible"] = [m.get(t, t) for t in spec["possible"]]
    for p in s["procs"]:
        for k in ("before", "after", "match", "update"):
            if k in p:
                p[k] = [nm(x) for x in p[k]]
    return s


def all_procs(spec, f):
    s = dict(spec)
    s["procs"] = [f(p) for p in spec["procs"]]
    return s


def orders(n, full):
    """Orders of 1..n: all of them for few sites, otherwise a family with every adjacent exchange."""
    base = list(range(1, n + 1))
    if n <= full:
        return [list(x) for x in itertools.permutations(base) if list(x) != base]
    r = [base[::-1], base[1:] + base[:1], base[-1:] + base[:-1]]
    for i in range(n - 1):
        b = list(base)
        b[i], b[i + 1] = b[i + 1], b[i]
        r.append(b)
    return r


def variants(spec, th=False):
    """(name, description): dict(spec=, formats=, rename=, pmap=, ids=)."""
    out = []
    bk = bool(spec.get("buckets"))
    nmax = max(len(p["coords"]) for p in spec["procs"])

    def add(name, s, **kw):
        out.append(dict(name=name, spec=s, **kw))

    # order of the sites of the processes
    k = max(len(orders(len(p["coords"]) - 1, 4)) for p in spec["procs"])
    for i in range(k):
        def f(p):
            o = orders(len(p["coords"]) - 1, 4)
            return permuted(p, o[i % len(o)]) if o else p
        add("order%d" % i, all_procs(spec, f))
    # common shifts of the coordinates
    for i, d in enumerate([[.3, -.7, 1.2], [1., 0., 0.], [0., -2., 0.], [-.125, .5, .25], [1 / 3., 1 / 7., -1 / 3.], [100.1, -50.3, 17.7]]):
        add("shift%d" % i, all_procs(spec, lambda p: shifted(p, d)))
    # order and number of the possible types
    for i, perm in enumerate(itertools.permutations(spec["possible"])):
        if list(perm) != list(spec["possible"]):
            add("possible%d" % i, dict(spec, possible=list(perm)))
    add("unused-type-first", dict(spec, possible=["Q"] + list(spec["possible"])))
    add("unused-type-last", dict(spec, possible=list(spec["possible"]) + ["Aa"]))
    add("repeated-types", dict(spec, possible=list(spec["possible"]) + [spec["possible"][0]]))
    add("repeated-types-first", dict(spec, possible=[spec["possible"][-1]] + list(spec["possible"])))
    # names of the types
    names = spec["possible"]
    for i, m in enumerate([dict(zip(names, names[::-1])), dict(zip(names, names[1:] + names[:1])), {n: n + n for n in names}, {n: "x" * (4 + j) for j, n in enumerate(names)},
                           {n: "%d %s" % (9 - j, n) for j, n in enumerate(names)}]):
        add("names%d" % i, renamed(spec, m), rename=m)
    # explicit wildcards instead of implicit ones
    if spec.get("implicit", True) and all(spec["periodic"][l] == (spec["reps"][l] > 1) for l in range(3)):
        sl = [wild_slots(spec, p) for p in spec["procs"]]
        if any(sl):
            full = dict(spec)
            full["procs"] = [with_wildcards(spec, p, s) for p, s in zip(spec["procs"], sl)]
            add("explicit-wildcards", full)
            # with one basis site each, everything is explicit now: implicit wildcards can be off
            if all(len(p["basis"]) == 1 for p in spec["procs"]):
                add("explicit-wildcards-only", dict(full, implicit=False))
            for i in range(4):
                part = dict(spec)
                part["procs"] = [with_wildcards(spec, p, [x for j, x in enumerate(s) if (i < 2 and j % 2 == i) or (i == 2 and j == 0) or (i == 3 and j == len(s) - 1)])
                                 for p, s in zip(spec["procs"], sl)]
                add("some-explicit-wildcards%d" % i, part)
                add("some-explicit-wildcards-first%d" % i,
                    all_procs(part, lambda p: permuted(p, list(range(len(p["coords"]) - 1, 0, -1))) if len(p["coords"]) > 1 else p))
    # move vectors
    if not bk:
        add("explicit-moves", all_procs(spec, lambda p: explicit_moves(p, False)))
        add("explicit-moves-reversed", all_procs(spec, lambda p: explicit_moves(p, True)))
        # exchanged order of sites together with explicit moves
        add("explicit-moves-order", all_procs(spec, lambda p: permuted(explicit_moves(p, True), list(range(len(p["coords"]) - 1, 0, -1)))))
    # order of basis sites and of processes
    add("basis-order", all_procs(spec, lambda p: dict(p, basis=list(p["basis"])[::-1])))
    n = len(spec["procs"])
    rates = [p["rate"] for p in spec["procs"]]
    steep = max(rates) > 1e9 * min(rates)      # rounding decides between such processes
    for i, pm in enumerate([] if steep else [list(range(n))[::-1], list(range(1, n)) + [0]]):
        add("processes%d" % i, dict(spec, procs=[spec["procs"][j] for j in pm]), pmap=pm)
    # cell shape (positions are fractional)
    for i, cell in enumerate([[[2., 0., 0.], [.7, 1.9, 0.], [.3, -.4, 3.1]], [[.01, 0., 0.], [0., 100., 0.], [0., 0., 1.]]]):
        add("cell%d" % i, dict(spec, cell=cell))
    # formats of the types
    for f in (["buckets"] + ["long:%s:%d" % (t, a) for t in spec["possible"] for a in (0, 1)]) if not bk else ["numbers", "split", "lists", "zeros"]:
        add("types-" + f, spec, formats=f, ids=f != "buckets")
    if not bk:
        add("bucket-processes", all_procs(dict(spec, implicit=spec.get("implicit", True)), lambda p: as_bucket(spec, p)), formats="buckets", ids=False)
        add("bucket-processes-short-types", all_procs(spec, lambda p: as_bucket(spec, p)), ids=False)
    # rounding noise
    for eps in (1e-9, 5.6e-17, 1e-12):
        for i, sg in enumerate(itertools.product((1, -1, 0), repeat=3) if eps == 1e-9 else [(1, -1), (-1, 1), (-1,), (1,), (1, 0, 0, -1), (-1, 0, 0, 1), (0, 1, -1, 0)]):
            if any(sg):
                add("noise%g-%d" % (eps, i), all_procs(spec, lambda p: noisy(p, sg, eps)))
    if any(any(b) for b in spec["basis"]):
        for i, sg in enumerate([(1, -1, 1), (-1, 1, -1)]):
            s = dict(spec)
            s["basis"] = [[x + (1e-10 * sg[(j + l) % 3] if 0 < x < 1 else 0.) for l, x in enumerate(b)] for j, b in enumerate(spec["basis"])]
            add("noise-basis%d" % i, s)
    # everything at once
    pm = list(range(n)) if steep else list(range(n))[::-1]
    m = dict(zip(names, names[::-1]))
    s = renamed(dict(spec, procs=[spec["procs"][j] for j in pm], possible=list(spec["possible"])[::-1]), m)
    s = all_procs(s, lambda p: shifted(permuted(p, list(range(len(p["coords"]) - 1, 0, -1))), [.3, -.7, 1.2]))
    add("all-together", s, pmap=pm, rename=m)
    return out


# ------------------------------------------------------------------------------------------------ building
def format_types(spec, fmt):
    """The types argument and keyword arguments of the configuration, in another notation."""
    ts, kw = spec["types"], {}
    if fmt is None:
        return list(ts), kw
    if fmt == "buckets":
        forms = [lambda t: [t], lambda t: (1, t), lambda t: [(1, t)], lambda t: t]
        return [forms[i % 4](t) for i, t in enumerate(ts)], kw
    if fmt.startswith("long"):
        dummy, d, every = fmt.split(":")
        nb = len(spec["basis"])
        r = spec["reps"]
        lat = Ref(dict(spec, procs=[])).lat
        lst = []
        for i, t in enumerate(ts):
            if t != d or every == "1":
                lst.append(tuple(lat.cell(i)) + (t,))
        lst = lst[::-1] if every == "1" else lst
        if not lst:
            lst = [tuple(lat.cell(0)) + (ts[0],)]
        kw["default_type"] = d
        return lst, kw
    out = []
    for t in ts:
        e = expand(t)
        c = [(e.count(x), x) for x in sorted(set(e))]
        if fmt == "numbers":
            out.append(c[0] if len(c) == 1 else c[::-1])
        elif fmt == "split":
            out.append(list(e))
        elif fmt == "lists":
            out.append([(1, x) for x in list(e)[::-1]])
        else:
            out.append(c + [(0, x) for x in spec["possible"]])
    return out, kw


def build(spec, fmt=None, calc=None):
    K, _ = vp.load()
    cell = spec.get("cell") or [[1., 0., 0.], [0., 1., 0.], [0., 0., 1.]]
    uc = K.KMCUnitCell(cell_vectors=cell, basis_points=[[float(x) for x in b] for b in spec["basis"]])
    lat = K.KMCLattice(unit_cell=uc, repetitions=tuple(spec["reps"]), periodic=tuple(spec["periodic"]))
    types, kw = format_types(spec, fmt)
    config = K.KMCConfiguration(lattice=lat, types=types, possible_types=list(spec["possible"]), **kw)
    s = dict(spec)
    if fmt == "buckets":
        s["buckets"] = True
    return Sys(s, config=config, calc=calc)


class Variant(object):
    def __init__(self, v, calc=None):
        self.v = v
        self.name = v["name"]
        self.sys = build(v["spec"], v.get("formats"), calc)
        self.pmap = v.get("pmap") or list(range(len(v["spec"]["procs"])))      # own number -> number in the base
        self.back = {b: a for a, b in enumerate(self.pmap)}
        self.inv = {b: a for a, b in (v.get("rename") or {}).items()}
        self.ids = v.get("ids", True)

    def site(self, t):
        n = lambda x: self.inv.get(x, x)
        if isinstance(t, str):
            return n(t)
        return tuple(sorted(n(x) for x in t))

    def state(self, plain):
        st = self.sys.state()
        if plain and self.sys.buckets:
            st = tuple(t[0] if len(t) == 1 else t for t in st)
        return tuple(self.site(t) for t in st)

    def events(self):
        return sorted((self.pmap[p], s) for p, s in self.sys.events())

    def totals(self):
        t = self.sys.totals()
        return [t[self.back[i]] for i in range(len(t))]


def batch(spec, vs, out, cap, calc=None, steps=100000):
    spec = norm_spec(spec)
    K, _ = vp.load()
    plain = not spec.get("buckets")
    live = {}
    rr = calcs.RefRates(Ref(spec), calc) if calc else None

    def mk():
        s = build(spec, None, calcs.make_calc(K, calc) if calc else None)
        live["v"] = []
        for v in vs:
            try:
                live["v"].append(Variant(v, calcs.make_calc(K, calc) if calc else None))
            except Exception as e:
                out.violation("an equivalent description is rejected", model=spec["name"], variant=v["name"], error="%s: %s" % (type(e).__name__, e))
        return s

    def check(s, prev, e, st, hist):
        ev, tot = sorted(s.events()), s.totals()
        ids, at = list(s.ids()), s.atom_types()
        co = None
        for v in live["v"]:
            where = dict(model=spec["name"], variant=v.name, history=list(hist[-12:]), events=len(hist))
            if e is not None:
                own = (v.back[e[0]], e[1])
                if own not in v.sys.events():
                    out.violation("an event is available in one description of a model but not in an equivalent one", event=e, **where)
                w = None
                if rr:
                    w = lambda x, v=v: rr.rate(prev, (v.pmap[x[0]], x[1]))
                v.sys.fire(own, w)
            out.evals += 1
            st2 = v.state(plain)
            if st2 != st:
                out.violation("the same event has another effect in an equivalent description", event=e, state=st, other=st2, before=prev, **where)
            ev2 = v.events()
            if ev2 != ev:
                out.violation("equivalent descriptions have different available events", state=st, missing=[x for x in ev if x not in ev2][:5],
                              extra=[x for x in ev2 if x not in ev][:5], **where)
            t2 = v.totals()
            if any(abs(a - b) > 1e-9 * max(abs(a), abs(b)) for a, b in zip(tot, t2)):
                out.violation("equivalent descriptions have different rates", state=st, rates=tot, other=t2, **where)
            if plain and v.ids and (calc is None):
                if list(v.sys.ids()) != ids or tuple(v.site(x) for x in v.sys.atom_types()) != at:
                    out.violation("the same event moves other atoms in an equivalent description", event=e, ids=ids, other=list(v.sys.ids()), **where)
                co = s.atom_coords() if co is None else co
                co2 = v.sys.atom_coords()
                if any(abs(a[l] - b[l]) > TOL for a, b in zip(co, co2) for l in range(3)):
                    out.violation("atoms are at other places in an equivalent description", event=e, **where)
            out.outcome("%s" % v.name.rstrip("0123456789"))
    cur = {}

    def check2(s, prev, e, st, hist):
        cur["st"] = st
        check(s, prev, e, st, hist)
    full = explore.graph(mk, check2, out, cap=cap, max_steps=steps, weight=(lambda e: rr.rate(cur["st"], e)) if rr else None)
    if not full:
        out.note("capped")
    out.traces += len(vs)


def leave_outs(given):
    """Every way to leave out some of the arguments that have their default value."""
    ks = sorted(given)
    for m in range(2 ** len(ks)):
        yield {k: given[k] for i, k in enumerate(ks) if m >> i & 1}


def job_defaults(params, out):
    """Optional arguments that are left out behave like their documented default values."""
    import io
    K, rng = vp.load()
    vec = [[2.0, 0.0, 0.0], [0.25, 1.5, 0.0], [0.0, 0.125, 3.0]]

    def differs(name, a, b, left):
        out.evals += 1
        out.outcome(name)
        if a != b:
            out.violation("leaving out an argument is not the same as giving its documented default", call=name, given=left, got=a, expected=b)

    def cell():
        return K.KMCUnitCell(cell_vectors=vec, basis_points=[[0.0, 0.0, 0.0], [0.5, 0.5, 0.5]])

    def lattice_view(l):
        return (tuple(l.repetitions()), tuple(l.periodic()), [tuple(x) for x in l.sites()], str(l._script()),
                [l._globalIndex(i, j, k, b) for i in range(l.repetitions()[0]) for j in range(l.repetitions()[1]) for k in range(l.repetitions()[2]) for b in (0, 1)])
    full = dict(repetitions=(1, 1, 1), periodic=(True, True, True))
    for g in leave_outs(full):
        differs("KMCLattice", lattice_view(K.KMCLattice(unit_cell=cell(), **g)), lattice_view(K.KMCLattice(unit_cell=cell(), **full)), sorted(g))
    for reps in itertools.product((1, 2, 3), repeat=3):
        differs("KMCLattice", lattice_view(K.KMCLattice(unit_cell=cell(), repetitions=reps)), lattice_view(K.KMCLattice(unit_cell=cell(), repetitions=reps, periodic=(True, True, True))), reps)
    for per in itertools.product((True, False), repeat=3):
        differs("KMCLattice", lattice_view(K.KMCLattice(unit_cell=cell(), periodic=per)), lattice_view(K.KMCLattice(unit_cell=cell(), periodic=per, repetitions=(1, 1, 1))), per)

    def local_view(c):
        return ([tuple(x) for x in c.coordinates()], list(c.types()), str(c._script()))
    for n in (1, 2, 3):
        a = dict(coordinates=[[.5, .25, 0.], [1.5, .25, 0.], [.5, -1., 2.]][:n], types=["A", "B", "C"][:n])
        differs("KMCLocalConfiguration", local_view(K.KMCLocalConfiguration(**a)), local_view(K.KMCLocalConfiguration(center=0, **a)), n)

    def lat(reps=(4, 1, 1), per=(True, False, False)):
        return K.KMCLattice(unit_cell=K.KMCUnitCell(cell_vectors=vec, basis_points=[[0.0, 0.0, 0.0]]), repetitions=reps, periodic=per)

    procs = [dict(coordinates=[[0., 0., 0.], [d, 0., 0.]], elements_before=["A", "V"], elements_after=["V", "A"], basis_sites=[0], rate_constant=1.0 + d / 3) for d in (1., -1.)]
    procs.append(dict(coordinates=[[0., 0., 0.]], elements_before=["A"], elements_after=["B"], basis_sites=[0], rate_constant=.25))
    procs.append(dict(coordinates=[[0., 0., 0.]], elements_before=["B"], elements_after=["A"], basis_sites=[0], rate_constant=.5))
    scratch = __import__("tempfile").mkdtemp(prefix="c15-")

    def model(conf=None, wild=True, calc=None, give=True):
        conf = dict(conf or dict(types=["A", "V", "B", "V"], possible_types=["A", "V", "B"]))
        it = dict(processes=[K.KMCProcess(**p) for p in procs])
        if give:
            it["implicit_wildcards"] = wild
        i = K.KMCInteractions(**it)
        if calc:
            i.setRateCalculator(calc)
        return K.KMCLatticeModel(K.KMCConfiguration(lattice=lat(), **conf), i)

    class Rec(K.KMCAnalysisPlugin):
        def __init__(self):
            self.log = []

        def registerStep(self, step, time, c):
            self.log.append((step, time, tuple(c.types())))

    def run_view(m, ctl, analysis=(), breakers=None, **kw):
        f = os.path.join(scratch, "t")
        if os.path.exists(f):
            os.unlink(f)
        r = Rec()
        with vp.quiet():
            m.run(K.KMCControlParameters(**ctl), trajectory_filename=f, analysis=[r] + list(analysis), **dict(kw, **(dict(breakers=breakers) if breakers else {})))
        with open(f) as h:
            body = [l for l in h if not l.startswith(("#", "creation_time"))]
        return r.log, body
    draws = [((7 * i * i + 5 * i + 3) % 97 + .5) / 97 for i in range(400)]

    def fresh(*a, **k):
        m = model(*a, **k)
        rng.set(draws)
        return m
    ctl = dict(dump_interval=1, analysis_interval=1, rng_type="MT")
    want = run_view(fresh(), dict(ctl, number_of_steps=9, seed=3))
    for g in leave_outs(ctl):
        differs("KMCControlParameters", run_view(fresh(), dict(g, number_of_steps=9, seed=3)), want, sorted(g))
    want0 = run_view(fresh(), dict(number_of_steps=0, seed=3))
    for g in leave_outs(dict(ctl, seed=3)):
        differs("KMCControlParameters.number_of_steps", run_view(fresh(), g), want0, sorted(g))
    for d in (.05, .2):
        w = run_view(fresh(), dict(number_of_steps=9, seed=3, dump_time_interval=d, analysis_interval=1, rng_type="MT"))
        for g in leave_outs(dict(analysis_interval=1, rng_type="MT")):
            differs("KMCControlParameters.dump_time_interval", run_view(fresh(), dict(g, number_of_steps=9, seed=3, dump_time_interval=d)), w, sorted(g))
    c = K.KMCControlParameters()
    differs("KMCControlParameters()", (c.numberOfSteps(), c.dumpInterval(), c.analysisInterval(), c.timeSeed(), c.dumpTimeInterval()), (0, 1, 1, True, None), [])
    differs("KMCControlParameters(seed)", [(K.KMCControlParameters(seed=s).timeSeed(), K.KMCControlParameters(seed=s).seed()) for s in (0, 1, 7)], [(False, s) for s in (0, 1, 7)], [])
    run = dict(number_of_steps=9, seed=3)
    differs("run(trajectory_type)", run_view(fresh(), run, trajectory_type="lattice"), want, [])
    differs("run(breakers)", run_view(fresh(), run, breakers=None), want, [])
    differs("KMCInteractions(implicit_wildcards)", run_view(fresh(give=False), run), want, [])

    class Never(K.KMCBreakerPlugin):
        seen = []

        def evaluate(self, step, time, c):
            self.seen.append(step)
            return False
    differs("KMCBreakerPlugin", run_view(fresh(), run, breakers=[Never(), K.KMCBreakerPlugin()]), want, [])
    differs("KMCBreakerPlugin.interval", Never.seen, list(range(1, 10)), [])
    differs("KMCAnalysisPlugin", run_view(fresh(), run, analysis=[K.KMCAnalysisPlugin()]), want, [])

    # Possible types that are left out are those present.
    for types in itertools.product(["A", "V", "B"], repeat=4):
        present = sorted(set(types))
        a = K.KMCConfiguration(lattice=lat(), types=list(types))
        b = K.KMCConfiguration(lattice=lat(), types=list(types), possible_types=present)
        differs("KMCConfiguration(possible_types)", sorted(t for t in a.possibleTypes() if t != "*"), present, types)
        differs("KMCConfiguration(possible_types)", (list(a.types()), list(a.atomIDTypes())), (list(b.types()), list(b.atomIDTypes())), types)
        if len(present) == 3:
            differs("KMCConfiguration(possible_types)", run_view(fresh(dict(types=list(types))), run), run_view(fresh(dict(types=list(types), possible_types=present)), run), types)

    # Rate calculators: no caching, nothing excluded, the cutoff of one cell.
    def calc(given):
        class Calc(K.KMCRateCalculatorPlugin):
            n = 0

            def rate(self, coords, before, after, k, number, where):
                Calc.n += 1
                return k * (1.0 + .25 * where[0] + .125 * len(before) + .0625 * list(before).count("A")) + 1e-3 * (Calc.n % 3)
        if "cutoff" in given:
            Calc.cutoff = lambda self: 1.0
        if "cache" in given:
            Calc.cacheRates = lambda self: False
        if "exclude" in given:
            Calc.excludeFromCaching = lambda self: ()
        if "initialize" in given:
            Calc.initialize = lambda self: None
        return Calc
    every = dict(cutoff=1, cache=1, exclude=1, initialize=1)
    w = run_view(fresh(calc=calc(every)), run)
    for g in leave_outs(every):
        differs("KMCRateCalculatorPlugin", run_view(fresh(calc=calc(g)), run), w, sorted(g))

    # The bundled analyses.
    def printed(a):
        s = io.StringIO()
        with vp.quiet():
            a.printResults(s)
        return s.getvalue()
    for name, full in (("Composition", dict(time_interval=1.0)), ("ProcessStatistics", dict(time_interval=1.0, spatially_resolved=False)), ("TimeStepDistribution", dict(binsize=1.0)),
                       ("OnTheFlyMSD", dict(history_steps=5, n_bins=100, t_max=100.0))):
        fixed = dict(ProcessStatistics=dict(processes=[0, 2]), OnTheFlyMSD=dict(track_type="A")).get(name, {})
        res = {}
        for g in list(leave_outs(full)):
            mod = __import__("importlib").import_module("KMCLib.Analysis." + name)
            a = getattr(mod, name)(**dict(fixed, **g))
            run_view(fresh(), dict(number_of_steps=60, seed=3), analysis=[a])
            res[tuple(sorted(g))] = printed(a)
        for k, v in res.items():
            differs(name, v, res[tuple(sorted(full))], k)
    __import__("shutil").rmtree(scratch)
    out.states += out.evals
    out.traces += out.evals


def job_equal(params, out):
    """Two processes are equal exactly if they change the same sites in the same way (rate constants aside)."""
    K, rng = vp.load()
    todo = []
    sites = [[1., 0., 0.], [0., 1., 0.], [-1., 0., 0.]] + ([[0., 0., 1.5]] if vp.thorough() else [])
    for n in (0, 1, 2):
        for cs in itertools.permutations(sites, n):
            for bef in itertools.product("AB", repeat=n + 1):
                for aft in (tuple("B" if t == "A" else "A" for t in bef), tuple(bef[1:] + bef[:1]), ("B",) + bef[1:]):
                    if bef == aft:
                        continue
                    for basis in ([0], [1], [0, 1]):
                        todo.append(([[0., 0., 0.]] + [list(c) for c in cs], bef, aft, basis))
    made = []
    for i, (cs, bef, aft, basis) in enumerate(todo):
        d = [0., .25, -2.][i % 3]
        try:
            p = K.KMCProcess(coordinates=[[x + d for x in c] for c in cs], elements_before=list(bef), elements_after=list(aft), basis_sites=basis, rate_constant=1.0 + i)
        except Exception as ex:
            if type(ex).__name__ != "Error":
                raise
            continue
        made.append((p, (tuple(sorted((tuple(c), b, a) for c, b, a in zip(cs, bef, aft))), tuple(basis))))
    lo, step = params["part"]
    for i in range(lo, len(made), step):
        for j in range(len(made)):
            out.evals += 1
            same = made[i][1] == made[j][1]
            if (made[i][0] == made[j][0]) is not same:
                out.violation("processes compare equal without describing the same change, or the other way round", first=made[i][1], second=made[j][1], expected=same)
        out.states += 1
        out.traces += 1
    # Explicit move vectors and small differences in the coordinates count as well.
    def proc(x=1., mv=None, c=0.):
        return K.KMCProcess(coordinates=[[0., 0., 0.], [x, 0., c]], elements_before=["A", "B"], elements_after=["B", "A"], basis_sites=[0], rate_constant=1., move_vectors=mv)

    def moves():
        return [(0, [1., 0., 0.]), (1, [-1., 0., 0.])]
    # (the second site is only required to hold B)
    def spectator(x=1., c=0.):
        return K.KMCProcess(coordinates=[[0., 0., 0.], [x, 0., c]], elements_before=["A", "B"], elements_after=["B", "B"], basis_sites=[0], rate_constant=1.)
    near = [(x, c) for x in (1., 1.001, 1.25, 1.5, 1.9) for c in (0., .001, .125, -.5)]
    for u, v in itertools.product(near, repeat=2):
        out.evals += 2
        if any((f(*u) == f(*v)) is not (u == v) for f in (spectator, lambda x, c: proc(x, None, c))):
            out.violation("processes compare equal without describing the same change, or the other way round", first=u, second=v, expected=u == v)
    for a, b, same in ((proc(), proc(), True), (proc(), proc(mv=moves()), True), (proc(), proc(2.), False), (proc(), proc(-1.), False), (proc(), proc(1.01), False),
                       (proc(), proc(c=.1), False)):
        out.evals += 1
        if (a == b) is not same:
            out.violation("processes compare equal without describing the same change, or the other way round", first=a._script(), second=b._script(), expected=same)


def job(params, out):
    if params.get("mode") == "defaults":
        return job_defaults(params, out)
    if params.get("mode") == "equal":
        return job_equal(params, out)
    spec = norm_spec(params["spec"])
    vs = variants(spec, vp.thorough())
    names = set(params["variants"])
    vs = [v for v in vs if v["name"] in names]
    batch(spec, vs, out, params["cap"], params.get("calc"), params["steps"])


def small(spec):
    return len(spec["types"])


def jobs():
    th = vp.thorough()
    js = [dict(name="defaults", mode="defaults")] + [dict(name="equal:%d" % i, mode="equal", part=[i, 4]) for i in range(4)]
    models = [m for m in scen.plain() if not m["name"].startswith("mixedper")]
    models += scen.buckets()
    for m in models:
        m = norm_spec(m)
        if m.get("buckets"):
            m = dict(m)
        names = [v["name"] for v in variants(m)]
        size = 8
        for i in range(0, len(names), size):
            heavy = len(m["types"]) > 12 or len(m["procs"]) > 12
            js.append(dict(name="%s:%d" % (m["name"], i // size), spec=m, variants=names[i:i + size],
                           cap=3000 if th else (25 if heavy else 60), steps=8000 if th else (60 if heavy else 220)))
    CALCS = [dict(func="after_sensitive", cutoff=None), dict(func="counting", cutoff=1.0, cache=True), dict(func="neighbours", cutoff=1.3)]
    for i, m in enumerate([scen.ads_des_hop(5), scen.two_species(), scen.two_basis(3), scen.hexagonal(3), scen.rotate3(5), scen.wild(5), scen.grid2d(3), scen.three_basis(4), scen.bucket2(), scen.bucket_wild()]):
        m = norm_spec(m)
        names = [v["name"] for v in variants(m) if not v.get("rename")]
        for c in (CALCS if th else [CALCS[i % 3]]):
            if c["func"] == "neighbours":
                names = [v["name"] for v in variants(m) if not v.get("rename") and not v.get("pmap")]      # its rates depend on the number of the process
            if m["name"] == "two-basis" and c["func"] == "neighbours" or m["name"] == "three-basis":
                c = dict(c, cutoff=1.0)
            for j in range(0, len(names), 10):
                js.append(dict(name="custom:%s:%s:%d" % (m["name"], c["func"], j // 10), spec=m, variants=names[j:j + 10], calc=c,
                               cap=1000 if th else 25, steps=3000 if th else 60))
    return js


if __name__ == "__main__":
    vp.main(PID, jobs(), job, floor=1000,
            bounds="every model of the catalogue in about 80 equivalent descriptions, in lockstep over the reachable states up to a cap of states and steps; "
            "every way to leave out optional arguments; equality of all pairs of processes of up to three sites",
            assumptions=["a model is used inside its domain (see C01)"])

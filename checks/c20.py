"""C20: sites that hold any number of particles: notation, minimum match, updates and conservation."""
import collections, itertools, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vp, scen, explore, calcs, trajs
import sysm
from sysm import Sys, norm_spec
from ref import Ref

PID = "C20"
X, mX, O = scen.X, scen.mX, scen.O


def norm_state(types):
    """The occupations from whatever types() gives."""
    return tuple(tuple(sorted(t)) if isinstance(t, (list, tuple)) else (t,) for t in types)


def occ(entry):
    """Independent reading of a written occupation: counter of names."""
    c = collections.Counter()
    for x in ([entry] if not isinstance(entry, list) else entry):
        if isinstance(x, str):
            c[x] += 1
        else:
            c[x[1]] += x[0]
    return c


def bag(entry):
    return tuple(sorted(occ(entry).elements()))


# ------------------------------------------------------------------------------------------ notation
TOK = ["A", "B", [0, "A"], [1, "A"], [2, "A"], [1, "B"], [2, "B"], [0, "B"]]


def entries(n, tokens=TOK):
    """Every way to write an occupation with up to n tokens."""
    out = []
    for t in tokens:
        out.append(t if isinstance(t, str) else tuple(t))          # a bare token
    for k in range(n + 1):
        for c in itertools.product(tokens, repeat=k):
            out.append([x if isinstance(x, str) else tuple(x) for x in c])
    return out


def lattice_of(K, n, per=(True, False, False)):
    uc = K.KMCUnitCell(cell_vectors=[[1., 0., 0.], [0., 1., 0.], [0., 0., 1.]], basis_points=[[0., 0., 0.]])
    return K.KMCLattice(unit_cell=uc, repetitions=(n, 1, 1), periodic=per)


def job_notation(params, out, K):
    """Every notation of every small occupation, as the content of a site, as a minimum match and as an update."""
    rng = vp.load()[1]
    ent = entries(params["tokens"])
    part = ent[params["part"][0]::params["part"][1]]
    # 1. as contents of sites
    poss = [["A", "B"], ["B", "A"], ["C", "B", "A"], None]
    for k in range(0, len(part), 6):
        chunk = part[k:k + 6]
        for ps in poss:
            types = [list(e) if isinstance(e, list) else e for e in chunk] + [[(1, "A"), "B"], (2, "B"), ["A"]]
            cfg = K.KMCConfiguration(lattice=lattice_of(K, len(types)), types=types, possible_types=list(ps) if ps else None)
            got = norm_state(cfg.types())
            exp = tuple(bag(e) for e in types)
            out.evals += 1
            if got != exp:
                i = [i for i in range(len(got)) if got[i] != exp[i]][0] if len(got) == len(exp) else 0
                out.violation("a site does not hold the particles that were written", written=types[i], holds=got[i], expected=exp[i], possible_types=ps)
            names = {i: n for n, i in cfg.possibleTypes().items()}
            tot = collections.Counter()
            for e in exp:
                tot.update(e)
            ppt = {names[i]: int(n) for i, n in enumerate(cfg.particlesPerType()) if n}
            if ppt != dict(tot):
                out.violation("particles per type do not count all particles", written=types, reported=ppt, expected=dict(tot), possible_types=ps)
        out.states += 1
    # 2. as minimum match, against all occupations up to 3 of each type
    grid = list(itertools.product(range(4), range(4)))
    types = [[(a, "A"), (b, "B")] for a, b in grid] + [[(1, "C")], [(2, "A"), (1, "C")]]
    have = [occ(t) for t in types]
    for k in range(0, len(part), 8):
        chunk = part[k:k + 8]
        procs = [dict(kind="b", coords=[O], match=[e], update=[[(1, "C")]], basis=[0], rate=1.0 + i) for i, e in enumerate(chunk)]
        procs += [dict(kind="b", coords=[O, X], match=["*", e], update=[[(0, "A")], [(1, "C")]], basis=[0], rate=1.0 + i) for i, e in enumerate(chunk)]
        spec = scen.sys_("match", [O], (len(types), 1, 1), (True, False, False), types, ["C", "A", "B"], procs, buckets=True)
        s = Sys(spec)
        n = len(types)
        tables = s.tables()
        for i in range(len(procs)):
            e = chunk[i % len(chunk)]
            need = occ(e)
            exp = [x for x in range(n) if all(have[(x + (i >= len(chunk))) % n][t] >= m for t, m in need.items())]
            out.evals += 1
            if sorted(tables[i]) != exp:
                out.violation("a process with a minimum match is not available exactly where every site holds at least the minimum numbers", minimum=e,
                              neighbour=i >= len(chunk), sites=types, available=sorted(tables[i]), expected=exp)
        out.states += 1
        # the same processes from their own scripts
        s0 = s.interactions._script()
        env = {}
        exec("from KMCLib import *\n" + s0, env)
        s2 = Sys(spec, interactions=env["interactions"])
        if s2.tables() != tables:
            out.violation("the script of a bucket process has another minimum match", minimum=chunk, available=s2.tables(), expected=tables)
    # 3. as update: what is written is added
    for k in range(0, len(part), 8):
        chunk = part[k:k + 8]
        procs = [dict(kind="b", coords=[O, X], match=[[(0, "A")], [(0, "B")]], update=[e, [(1, "C")]], basis=[0], rate=1.0) for e in chunk]
        spec = scen.sys_("update", [O], (4, 1, 1), (True, False, False), [[(1, "A")], [], [(2, "B"), "A"], "B"], ["B", "C", "A"], procs, buckets=True)
        for i, e in enumerate(chunk):
            for site in range(4):
                s = Sys(spec)
                before = [collections.Counter(x) for x in s.state()]
                s.fire((i, site))
                out.transitions += 1
                before[site].update(occ(e))
                before[(site + 1) % 4]["C"] += 1
                exp = tuple(tuple(sorted(c.elements())) for c in before)
                out.evals += 1
                if s.state() != exp:
                    out.violation("an event does not add exactly the written particles", update=e, site=site, got=s.state(), expected=exp)
                if norm_state(s.config.types()) != exp:
                    out.violation("types() does not show all particles after an event", update=e, site=site, shown=s.config.types(), expected=exp)
    out.outcome("notation")


# ------------------------------------------------------------------------------------------- removals
NEG = ["A", "B", [-1, "A"], [-2, "A"], [-1, "B"], [2, "A"], [0, "B"]]


def job_removal(params, out, K):
    """Every minimum match with every update that removes particles: accepted exactly where no number can become negative, and then it never does."""
    from KMCLib.Exceptions.Error import Error
    grid = list(itertools.product(range(4), range(3)))
    types = [[(a, "A"), (b, "B")] for a, b in grid]
    n = len(types)
    lat = lattice_of(K, n)
    want = entries(2, ["A", "B", [2, "A"], [0, "A"], [2, "B"]]) + ["*"]
    give = entries(2, NEG)
    for m in want[params["part"][0]::params["part"][1]]:
        have = collections.Counter() if m == "*" else occ(m)
        for where in (0, 1):
            ok = []
            for u in give:
                o = occ(u)
                safe = all(have[t] + d >= 0 for t, d in o.items())
                co, ma, up = [[0., 0., 0.], [1., 0., 0.]], [[(0, "A")], [(0, "A")]], [[(1, "C")], [(1, "C")]]
                ma[where], up[where] = sysm.bucket_arg(m), sysm.bucket_arg(u)
                out.evals += 1
                try:
                    p = K.KMCBucketProcess(coordinates=co, minimum_match=ma, update=up, basis_sites=[0], rate_constant=1.0)
                except Error:
                    if safe and m != "*":
                        out.violation("an update that never removes more than the minimum number is refused", minimum=m, update=u, site=where)
                    continue
                if not safe:
                    out.violation("an update that can leave a negative number of particles is accepted", minimum=m, update=u, site=where)
                    continue
                ok.append((u, ma, up))
            # every accepted one from every state of its site
            for k in range(0, len(ok), 12):
                ch = ok[k:k + 12]
                spec = norm_spec(scen.sys_("removal", [O], (n, 1, 1), (True, False, False), types, ["B", "C", "A"],
                                           [dict(kind="b", coords=[O, X], match=ma, update=up, basis=[0], rate=1.0) for u, ma, up in ch], buckets=True))
                s = Sys(spec)
                tables = s.tables()
                st = s.state()
                for i, (u, ma, up) in enumerate(ch):
                    exp = [x for x in range(n) if m == "*" or all(st[(x + where) % n].count(t) >= q for t, q in have.items())]
                    out.evals += 1
                    if sorted(tables[i]) != exp:
                        out.violation("a process that removes particles is not available exactly where every site holds at least the minimum numbers", minimum=m, update=u,
                                      site=where, available=sorted(tables[i]), expected=exp)
                        return
                    for e in exp[::max(1, len(exp) // 3)]:
                        s2 = Sys(spec)
                        b = [collections.Counter(x) for x in s2.state()]
                        s2.fire((i, e))
                        b[(e + where) % n].update(occ(u))
                        b[(e + 1 - where) % n]["C"] += 1
                        exp2 = tuple(tuple(sorted(c.elements())) for c in b)
                        out.transitions += 1
                        got = s2.state()
                        if got != exp2 or norm_state(s2.config.types()) != exp2:
                            out.violation("an event does not remove exactly the stated numbers", minimum=m, update=u, site=e, got=got, expected=exp2)
                            return
                        if min(s2.config.particlesPerType()) < 0:
                            out.violation("a number of particles is negative", minimum=m, update=u, site=e)
        out.states += 1
    # wildcards are no particles: they stand alone in a match and can not be removed
    co = [[0., 0., 0.], [1., 0., 0.]]
    for m in entries(2, ["A", "B", "*", [1, "*"], [2, "*"], [2, "A"], [-1, "*"], [-1, "A"], [0, "A"]]) if params["part"][0] == 0 else []:
        o = occ(m)
        bad = o["*"] not in (0, 1) or any(d < 0 for d in o.values()) or (o["*"] and any(d for t, d in o.items() if t != "*"))
        for where in (0, 1):
            ma = [[(0, "A")], [(0, "A")]]
            ma[where] = sysm.bucket_arg(m)
            out.evals += 1
            try:
                p = K.KMCBucketProcess(coordinates=co, minimum_match=ma, update=[[(1, "C")], [(1, "C")]], basis_sites=[0], rate_constant=1.0)
            except Error:
                p = None
            if bad and p is not None:
                out.violation("a minimum match that mixes a wildcard with particles, or has negative numbers, is accepted", minimum=m, site=where)
            elif not bad and p is None:
                out.violation("a valid minimum match is refused", minimum=m, site=where)
        for u in ([-1, "*"], [[-1, "*"]], [[1, "A"], [-1, "*"]], ["A", [-2, "*"]]):
            out.evals += 1
            try:
                K.KMCBucketProcess(coordinates=co, minimum_match=[sysm.bucket_arg(m), "A"], update=[sysm.bucket_arg(u), (0, "A")], basis_sites=[0], rate_constant=1.0)
            except Error:
                continue
            out.violation("an update that removes a wildcard is accepted", minimum=m, update=u)
    out.outcome("removal")


# --------------------------------------------------------------------------------------------- graphs
def job_graph(params, out, K):
    spec = norm_spec(params["spec"])
    spec["types"] = [bucket_entry(t) for t in spec["types"]]
    ref = Ref(dict(spec, buckets=True))
    sc = spec.get("calc")
    rr = calcs.RefRates(ref, sc) if sc else None
    cur = {}
    limit = params["limit"]
    plain = all(isinstance(t, str) for t in spec["types"])

    def make():
        s = Sys(dict(spec, buckets=True), calc=calcs.make_calc(K, sc) if sc else None)
        return s

    delta = {}
    for p in ref.procs:
        d = collections.Counter()
        if p.bucket:
            for u in p.update:
                for t, n in u.items():
                    if t != "*":
                        d[t] += n
        else:
            for b, a in zip(p.before, p.after):
                if b != "*":
                    d[a] += 1
                    d[b] -= 1
        delta[p.number] = d

    def check(s, prev, e, st, hist):
        cur["st"] = st
        where = dict(scenario=spec["name"], initial=spec["types"], history=list(hist)[-80:], state=st)
        out.evals += 1
        exp = ref.initial() if e is None else None
        if e is not None:
            if tuple(e) not in ref.events(prev):
                return
            exp = ref.apply(prev, tuple(e))
        if st != exp:
            out.violation("an event does not add and remove exactly its stated numbers", event=e, before=prev, expected=exp, **where)
        if e is not None:
            c0, c1 = collections.Counter(), collections.Counter()
            for x in prev:
                c0.update(x)
            for x in st:
                c1.update(x)
            d = collections.Counter(c1)
            d.subtract(c0)
            if {t: n for t, n in d.items() if n} != {t: n for t, n in delta[e[0]].items() if n}:
                out.violation("the numbers of particles per type do not change as the process prescribes", event=e, before=dict(c0), after=dict(c1),
                              prescribed=dict(delta[e[0]]), **where)
        # the integer occupations, with room for a violation that the particle list hides
        names = {i: n for n, i in s.config.possibleTypes().items()}
        ty = s.cc.types()
        for i in range(ref.lat.n):
            row = {names[j]: int(ty[i][j]) for j in range(len(names))}
            if any(v < 0 for v in row.values()):
                out.violation("a site holds a negative number of particles", site=i, occupation=row, **where)
            if {t: n for t, n in row.items() if n} != dict(collections.Counter(st[i])):
                out.violation("the occupation numbers of a site are not those of its particles", site=i, occupation=row, particles=st[i], **where)
        if norm_state(s.config.types()) != st:
            out.violation("types() does not show all particles of every site", shown=s.config.types(), **where)
        tot = collections.Counter()
        for x in st:
            tot.update(x)
        got = {names[i]: int(n) for i, n in enumerate(s.config.particlesPerType()) if n}
        if got != dict(tot):
            out.violation("particles per type do not count all particles", reported=got, expected=dict(tot), **where)
        ev = sorted(s.events())
        if ev != sorted(ref.events(st)):
            out.violation("processes are not available exactly where every site holds at least the minimum numbers", available=ev, expected=sorted(ref.events(st)), **where)
        if rr:
            t = s.totals()
            for p in range(len(ref.procs)):
                x = sum(rr.rate(st, v) for v in ref.events(st) if v[0] == p)
                if abs(t[p] - x) > 1e-9 * max(x, 1e-3):
                    out.violation("the custom rates do not follow from the full occupations of the sites", process=p, total=t[p], expected=x, **where)
        out.outcome(max(len(x) for x in st))

    def bounded(s, st):
        return [e for e in set(s.events()) if e not in ref.events(st) or all(len(x) <= limit for x in ref.apply(st, e))]
    w = (lambda e: rr.rate(cur["st"], e)) if rr else None
    full = explore.graph(make, check, out, cap=params["cap"], max_steps=params["steps"], weight=w, events=bounded)
    out.note("graphs-complete" if full else "graphs-capped")
    out.sample(dict(scenario=spec["name"], states=out.states, complete=full))


def bucket_entry(t):
    return sysm.bucket_arg(t)


# ------------------------------------------------------------------------------------------ trajectory
def job_traj(params, out, K):
    """The lattice trajectory of a bucket model, for every short history, gives every frame's occupations."""
    import shutil, tempfile
    spec = norm_spec(params["spec"])
    ref = Ref(dict(spec, buckets=True))
    rng = vp.load()[1]
    d = tempfile.mkdtemp(prefix="vp-c20-")
    try:
        todo = [[]]
        while todo:
            prefix = todo.pop()
            # find the draws of the history by replaying it on a twin
            s = Sys(dict(spec, buckets=True))
            us, states, hist = [], [s.state()], []
            for k in range(params["depth"]):
                ev = [e for e in sorted(set(s.events())) if all(len(x) <= 4 for x in ref.apply(states[-1], e))]
                if not ev:
                    break
                if k < len(prefix):
                    e = prefix[k]
                else:
                    e = ev[0]
                    todo += [hist + [x] for x in ev[1:]]
                u = s.aim(e)
                us += [.8, u[0], u[1]]
                s.step(*u)
                states.append(ref.apply(states[-1], e))
                hist = hist + [e]
            m = Sys(dict(spec, buckets=True))
            m.rng.set(us, .8)
            fn = os.path.join(d, "t.py")
            with vp.quiet():
                m.model.run(control_parameters=K.KMCControlParameters(number_of_steps=len(hist), seed=1), trajectory_filename=fn)
            out.states += 1
            out.traces += 1
            out.transitions += len(hist)
            out.evals += 1
            try:
                tr = trajs.lattice(open(fn).read())
            except ValueError as e:
                out.violation("the trajectory of a bucket model is malformed: %s" % e, scenario=spec["name"], history=hist)
                continue
            got = [tuple(bag(list(t) if not isinstance(t, str) else t) for t in f[2]) for f in tr["frames"]]
            if got != states:
                out.violation("the trajectory of a bucket model does not show the occupations of every frame", scenario=spec["name"], history=hist, written=got[:6], expected=states[:6])
            if params.get("cap") and out.states >= params["cap"]:
                break
    finally:
        shutil.rmtree(d, ignore_errors=True)
    out.outcome("trajectory")


def job(params, out):
    K, rng = vp.load()
    dict(notation=job_notation, graph=job_graph, traj=job_traj, many=job_many, removal=job_removal)[params["kind"]](params, out, K)


# ---------------------------------------------------------------------------------------------- models
def job_many(params, out, K):
    """Sites with many particles: every minimum number of every kind of process against every number of particles."""
    for big in params["big"]:
        ns = sorted(set([0, 1, 2, big // 3, big // 2 - 1, big // 2, big // 2 + 1, big - 1, big]))
        other = params["other"]
        types = [[(n, "A"), (m, "B")] for n in ns for m in other]
        reqs = sorted(set([0, 1, big // 2, big // 2 + 1, big]))
        procs = [scen.bproc([O], [[(r, "A"), (q, "B")]], [[(d, "A")]], 1.0 + .01 * i)
                 for i, (r, q, d) in enumerate(itertools.product(reqs, other, (-1, 1, big))) if r + d >= 0]
        procs += [scen.bproc([O, X], [(r, "A"), (q, "B")], [(-r, "A"), (r, "A")], 2.0) for r in reqs[1:] for q in other]
        spec = norm_spec(scen.sys_("many", [O], (len(types), 1, 1), (True, False, False), types, ["B", "A"], procs, buckets=True))
        ref = Ref(spec)
        s = Sys(spec)
        st = s.state()
        exp = ref.events(st)
        got = s.events()
        out.evals += len(procs) * len(types)
        if sorted(got) != sorted(exp):
            out.violation("available events differ from the occupations", number=big, missing=sorted(set(exp) - set(got))[:6], extra=sorted(set(got) - set(exp))[:6], other=other)
            return
        # every process once where it is available, on the living model
        for k in range(len(procs)):
            ev = [e for e in ref.events(st) if e[0] == k]
            if not ev:
                continue
            e = ev[(7 * k) % len(ev)]
            s.fire(e)
            st = ref.apply(st, e)
            out.states += 1
            out.transitions += 1
            if s.state() != st:
                out.violation("an event between sites of many particles has another effect", number=big, event=e)
                return
            if sorted(s.events()) != sorted(ref.events(st)):
                out.violation("available events differ from the occupations after an event", number=big, event=e)
                return
        out.outcome((big, len(exp)))
    out.traces += len(params["big"])


def families(th):
    out = []
    ring = lambda name, types, poss, procs, n=None, **kw: out.append(scen.sys_(name, [O], (n or len(types), 1, 1), (True, False, False), types, poss, procs, buckets=True, **kw))
    # one site: every change of one type within every minimum
    ps = []
    for m in range(3):
        for d in range(-m, 3):
            if d:
                ps.append(scen.bproc([O], [[(m, "A")]], [[(d, "A")]], 1.0 + .1 * len(ps)))
    ring("one-type", [[(2, "A")], [], "A"], ["A"], ps)
    ring("one-type-of-three", [[(2, "A")], [], ["A", "B"]], ["C", "A", "B"], ps)
    # two types at one site
    ps = []
    for ma, mb, da, db in itertools.product(range(2), range(2), (-1, 0, 1), (-1, 0, 1)):
        if (da or db) and ma + da >= 0 and mb + db >= 0:
            ps.append(scen.bproc([O], [[(ma, "A"), (mb, "B")]], [[(da, "A"), (db, "B")]], 1.0 + .1 * len(ps)))
    for i in range(2):
        ring("two-types-%d" % i, ["A", ["B", (2, "A")], []], ["B", "A"], ps[i::2])
    # two sites: every hop of one or two particles over minima of both sites
    ps = []
    for ma, mb, d in itertools.product(range(1, 4), range(3), (1, 2)):
        if d <= ma:
            ps.append(scen.bproc([O, X], [(ma, "A"), (mb, "A")], [(-d, "A"), (d, "A")], 1.0 + .1 * len(ps)))
            ps.append(scen.bproc([O, mX], [(ma, "A"), (mb, "A")], [(-d, "A"), (d, "A")], 1.5 + .1 * len(ps)))
    for i in range(3):
        ring("hops-%d" % i, [(3, "A"), [], "A", [(2, "A")]], ["A"], ps[i::3])
    # reactions between sites, creation and annihilation, wildcards in all places
    for i, w in enumerate(itertools.product((0, 1), repeat=2)):
        a = "*" if w[0] else [(0, "A")]
        b = [(1, "*")] if w[1] else [(0, "B")]
        ring("reactions-%d" % i, [["A", "B"], "A", "B", [], [(2, "B")]], ["B", "C", "A"],
             [scen.bproc([O, X, mX], ["A", "B", a], [(-1, "A"), [(-1, "B"), (1, "C")], (0, "A")], 1.0),
              scen.bproc([O, mX, X], [b, (1, "C"), a], ["*" if w[1] else (0, "A"), [(-1, "C"), (1, "A"), (1, "B")], (0, "C")], 2.0),
              scen.bproc([O, X], [(2, "B"), b], [(-1, "B"), (1, "B")], 3.0)])
    # a plain process in a model of buckets
    ring("plain-in-buckets", [["A", "B"], "A", [], [(2, "B")], "B"], ["A", "B", "C"],
         [scen.flip("A", "B", .5), scen.hop(X, 1., a="A", v="B"), scen.bproc([O, X], ["B", [(0, "A")]], [(-1, "B"), (1, "B")], .7)])
    # a bucket process in a model that starts with one particle at each site, written as plain names
    ring("plain-start", ["A", "B", "A", "B"], ["A", "B"], [scen.bproc([O, X], ["A", [(0, "A")]], [(-1, "A"), (1, "A")], 1.), scen.bproc([O, mX], ["B", "*"], [(-1, "B"), (1, "B")], 1.)])
    ring("plain-start-empty", ["A", "A", "A"], ["A", "B"], [scen.bproc([O], ["A"], [(-1, "A")], 1.), scen.bproc([O], [(0, "A")], [(1, "B")], 1.), scen.bproc([O], ["B"], [(-1, "B")], 1.)])
    # several basis sites and dimensions
    b2 = [[0., 0., 0.], [.5, 0., 0.]]
    out.append(scen.sys_("two-basis-buckets", b2, (3, 1, 1), (True, False, False), [[(2, "A")], "B", [], [], "A", []], ["B", "A"],
                         [scen.bproc([O, [.5, 0, 0]], ["A", []], [(-1, "A"), (1, "A")], 1., basis=(0,)), scen.bproc([O, [.5, 0, 0]], ["A", (0, "B")], [(-1, "A"), (1, "A")], 2., basis=(1,)),
                          scen.bproc([O, [-.5, 0, 0], [.5, 0, 0]], ["B", (1, "A"), "*"], [(-1, "B"), (0, "A"), (1, "B")], .5, basis=(1,)),
                          scen.bproc([O, [1., 0, 0]], ["B", "*"], [(-1, "B"), (1, "B")], .5, basis=(0,))], buckets=True))
    out.append(scen.sys_("square-buckets", [O], (3, 3, 1), (True, True, False), [[(2, "A")]] + [[]] * 7 + ["B"], ["B", "A"],
                         [scen.bproc([O, v], ["A", (0, "A")], [(-1, "A"), (1, "A")], 1. + i) for i, v in enumerate((X, scen.Y, scen.mX, scen.mY))] +
                         [scen.bproc([O], ["A", ][:1] and [["A", "B"]], [[(-1, "A"), (-1, "B"), "C"]], 7.)], buckets=True))
    out[-1]["possible"] = ["C", "B", "A"]
    return out + scen.buckets()


def jobs():
    th = vp.thorough()
    js = []
    n = 8 if th else 4
    for i in range(n):
        js.append(dict(name="notation-%d" % i, kind="notation", tokens=4 if th else 3, part=[i, n]))
    for i in range(4):
        js.append(dict(name="removal-%d" % i, kind="removal", part=[i, 4]))
    for i in range(8):
        js.append(dict(name="many-%d" % i, kind="many", big=list(range(4, 260 if th else 90))[i::8] + ([1000, 5000] if i == 3 else []), other=[0, 1, 13 + 5 * i]))
    for s in families(th):
        for limit in ((3, 4, 6) if th else (3,)):
            js.append(dict(name="graph:%s:%d" % (s["name"], limit), kind="graph", spec=s, limit=limit, cap=30000 if th else 1500, steps=300000 if th else 6000))
        js.append(dict(name="traj:" + s["name"], kind="traj", spec=s, depth=4 if th else 3, cap=1500 if th else 60))
    for s in [x for x in families(th) if all(p.get("kind") == "b" for p in x["procs"])]:
        for f, cut in (("neighbours", 1.0), ("after_sensitive", 1.0)):
            for cache in (False, True):
                if not th and (len(s["name"]) + cache) % 2:
                    continue
                js.append(dict(name="rates:%s:%s:%s" % (s["name"], f, cache), kind="graph", spec=dict(s, calc=dict(func=f, cutoff=cut, cache=cache)), limit=3, cap=5000 if th else 200,
                               steps=50000 if th else 700))
    return js


if __name__ == "__main__":
    vp.main(PID, jobs(), job, floor=1000,
            bounds="every notation of occupations of up to 3 (4) tokens as contents, minimum match and update; all reachable occupations with up to 3 (6) particles per site of each listed model, up to the stated cap",
            assumptions=["wildcards stand alone in a match or update entry", "custom rates are used with bucket processes, not with plain processes, on sites of several particles"])

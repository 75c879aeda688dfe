"""C14: several models in one process do not disturb each other."""
import itertools, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vp, scen, explore, calcs
import sysm
from sysm import Sys, norm_spec
from ref import Ref

PID = "C14"
# draws: two numbers per step and a time step draw
U = [.11, .83, .52, .37, .96, .05, .61, .44, .29, .71, .18, .90, .33, .66, .07, .57, .78, .24, .49, .87, .02]


def draw(model, k, j):
    return U[(7 * model + 5 * k + 3 * j + k * k) % len(U)]


def close(a, b):
    return abs(a - b) <= 1e-11 * max(1.0, abs(a), abs(b))


def same(a, b):
    """Equal, with room for rounding in floating point numbers."""
    if isinstance(a, float) or isinstance(b, float):
        return close(a, b)
    if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    return a == b


def python_view(s):
    """What the user sees, through the public queries."""
    c = s.config
    t = c.types()
    return (tuple(tuple(sorted(x)) if isinstance(x, (list, tuple)) else x for x in t), tuple(int(x) for x in c.particlesPerType()),
            tuple(tuple(float(x) for x in r) for r in c.atomIDCoordinates()), tuple(tuple(x) if isinstance(x, (list, tuple)) else x for x in c.atomIDTypes()),
            tuple(c.movedAtomIDs()) if s.stepped else (), (c.latestEventProcess(), c.latestEventSite()) if s.stepped else ())


class Model(object):
    """One model with the operations new, step (time and event) and view."""
    def __init__(self, K, i, spec, sc, shared, mode):
        self.K, self.i, self.spec, self.sc, self.shared, self.mode = K, i, spec, sc, shared, mode
        self.s, self.k = None, 0

    def op(self, name):
        if name == "new":
            self.s = build(self.K, self.spec, self.sc, self.shared, self.mode)
            self.s.stepped = False
        elif name == "step":
            s = self.s
            if s.inter.totalAvailableSites() == 0:
                return ("dead",) + self.view()
            s.rng.set([draw(self.i, self.k, 0), draw(self.i, self.k, 1), draw(self.i, self.k, 2)])
            self.k += 1
            s.cpp.propagateTime()
            s.cpp.singleStep()
            s.stepped = True
        return self.view()

    def view(self):
        s = self.s
        return (s.state(), s.tables(), tuple(s.totals()), s.total(), s.ids(), s.timer.simulationTime()) + python_view(s)


def build(K, spec, sc, shared, mode, wrap=None):
    """A model of the spec, from shared parts according to the mode (shared is a dict of parts made so far).
    wrap: turns the class of the rate calculator into another one."""
    calc = None
    if sc is not None:
        if mode in ("calc", "inter", "all"):
            k = ("calc", repr(sorted(sc.items(), key=str)))
            if k not in shared:
                shared[k] = calcs.make_calc(K, sc)
                if wrap:
                    shared[k] = wrap(shared[k])
            calc = shared[k]
        else:
            calc = calcs.make_calc(K, sc)
            if wrap:
                calc = wrap(calc)
    inter = None
    if mode in ("procs", "inter", "all"):
        k = "procs"
        if k not in shared:
            shared[k] = [sysm.make_process(K, p) for p in spec["procs"]]
        if mode == "procs":
            inter = K.KMCInteractions(processes=shared[k], implicit_wildcards=bool(spec.get("implicit", True)))
            if calc is not None:
                inter.setRateCalculator(rate_calculator=calc)
        else:
            if "inter" not in shared:
                shared["inter"] = K.KMCInteractions(processes=shared[k], implicit_wildcards=bool(spec.get("implicit", True)))
                if calc is not None:
                    shared["inter"].setRateCalculator(rate_calculator=calc)
            inter = shared["inter"]
    config = None
    if mode in ("lattice", "all"):
        k = repr((spec.get("cell"), spec["basis"], spec["reps"], spec["periodic"]))
        if k not in shared:
            cell = spec.get("cell") or [[1., 0., 0.], [0., 1., 0.], [0., 0., 1.]]
            kc = "cell" + repr((cell, spec["basis"]))
            if kc not in shared:
                shared[kc] = K.KMCUnitCell(cell_vectors=cell, basis_points=[[float(x) for x in b] for b in spec["basis"]])
            shared[k] = K.KMCLattice(unit_cell=shared[kc], repetitions=tuple(spec["reps"]), periodic=tuple(spec["periodic"]))
        config = K.KMCConfiguration(lattice=shared[k], types=list(spec["types"]), possible_types=list(spec["possible"]))
    return Sys(spec, calc=calc, config=config, interactions=inter)


def merges(counts):
    """All interleavings of counts[i] operations of model i."""
    if not any(counts):
        yield []
        return
    for i, c in enumerate(counts):
        if c:
            for rest in merges(counts[:i] + [c - 1] + counts[i + 1:]):
                yield [i] + rest


def job_orders(params, out, K):
    specs = [norm_spec(s) for s in params["specs"]]
    calcs_ = [s.get("calc") for s in specs]
    alone = []
    for i, s in enumerate(specs):
        m = Model(K, i, s, calcs_[i], {}, "none")
        alone.append([m.op("new" if k == 0 else "step") for k in range(params["n"][i])])
        ref = Ref(s)
        for v in alone[-1]:
            st = v[0] if v[0] != "dead" else v[1]
            tb = v[1] if v[0] != "dead" else v[2]
            ev = sorted((p, x) for p, t in enumerate(tb) for x in t)
            if ev != sorted(ref.events(st)):
                out.violation("a model alone offers other events than its description says", scenario=s["name"], state=st, offered=ev, expected=sorted(ref.events(st)))
    for order in merges(list(params["n"])):
        shared = {}
        ms = [Model(K, i, s, calcs_[i], shared, params["mode"]) for i, s in enumerate(specs)]
        done = [0] * len(ms)
        for pos, i in enumerate(order):
            got = ms[i].op("new" if done[i] == 0 else "step")
            exp = alone[i][done[i]]
            done[i] += 1
            out.transitions += 1
            out.evals += 1
            if not same(got, exp):
                names = ["state", "available events", "rates", "total rate", "atoms at sites", "time", "types()", "particles per type", "coordinates of atoms",
                         "types of atoms", "moved atoms", "latest event"]
                bad = [(names[j] if len(got) == len(names) else j, g, e) for j, (g, e) in enumerate(zip(got, exp)) if not same(g, e)] or [(got, exp)]
                out.violation("a model behaves differently next to another model: " + str(bad[0][0]), scenarios=[s["name"] for s in specs], shared=params["mode"],
                              order=order[:pos + 1], model=i, operation=done[i] - 1, got_and_alone=bad[:2])
            # the others stay as they are
            for j, m in enumerate(ms):
                if j != i and done[j]:
                    if not same(m.view(), alone[j][done[j] - 1][-12:]):
                        out.violation("an operation on one model changed another", scenarios=[s["name"] for s in specs], shared=params["mode"], order=order[:pos + 1],
                                      changed=j, is_now=m.view(), was=alone[j][done[j] - 1])
                    out.evals += 1
        out.states += 1
        out.traces += 1
    out.outcome(params["mode"])
    out.sample(dict(interleavings=out.states, operations=params["n"]))


def job_tree(params, out, K):
    """Every history of steps of either model: at each point any event of any model."""
    specs = [norm_spec(s) for s in params["specs"]]
    refs = [Ref(s) for s in specs]
    rates = [calcs.RefRates(r, s["calc"]) if s.get("calc") else None for r, s in zip(refs, specs)]

    def weight(i, st):
        if rates[i] is None:
            return None
        return lambda e: rates[i].rate(st, tuple(e))

    def check(i, s, st, ids, hist):
        where = dict(scenarios=[x["name"] for x in specs], shared=params["mode"], model=i, history=hist)
        out.evals += 1
        if s.state() != st:
            out.violation("a model next to another has not the state its own history leads to", state=s.state(), expected=st, **where)
        if set(s.events()) != set(refs[i].events(st)) or len(s.events()) != len(refs[i].events(st)):
            out.violation("a model next to another does not offer the events of its own state", offered=s.events(), expected=sorted(refs[i].events(st)), **where)
        tot = s.totals()
        for p in range(len(refs[i].procs)):
            exp = sum((rates[i].rate(st, e) if rates[i] else refs[i].procs[p].rate) for e in refs[i].events(st) if e[0] == p)
            if abs(tot[p] - exp) > 1e-9 * max(exp, 1e-3):
                out.violation("a model next to another has other rates than its own state gives", process=p, rate=tot[p], expected=exp, **where)
        if ids is not None and s.ids() != ids[0]:
            out.violation("a model next to another moves its atoms differently", atoms=s.ids(), expected=ids[0], **where)

    n = len(specs)
    todo = [[]]
    while todo:
        prefix = todo.pop()
        shared = {}
        ss = [build(K, sp, sp.get("calc"), shared, params["mode"]) for sp in specs]
        sts = [r.initial() for r in refs]
        ids = [None if r.buckets else r.ids0() for r in refs]
        hist = []
        for i in range(n):
            check(i, ss[i], sts[i], ids[i], hist)
        for d in range(params["depth"]):
            ev = [(i, e) for i in range(n) for e in sorted(refs[i].events(sts[i])) if not refs[i].buckets or all(len(x) <= 4 for x in refs[i].apply(sts[i], e))]
            if params.get("alternate"):
                ev = [x for x in ev if x[0] == d % n] or ev
            if not ev:
                break
            if d < len(prefix):
                c = prefix[d]
            else:
                pick = ev
                if d == 0 and params.get("part"):
                    pick = ev[params["part"][0]::params["part"][1]]
                    if not pick:
                        break
                c = pick[0]
                todo += [hist + [x] for x in pick[1:]]
            i, e = c
            got = ss[i].fire(e, weight(i, sts[i]))
            out.transitions += 1
            hist = hist + [c]
            if got != tuple(e):
                out.violation("a model next to another performs another event than its own draws select", performed=got, selected=e, history=hist,
                              scenarios=[x["name"] for x in specs], shared=params["mode"])
            sts[i] = refs[i].apply(sts[i], tuple(e))
            if ids[i] is not None:
                ids[i] = refs[i].move_ids(ids[i], tuple(e))[0]
            for j in range(n):
                check(j, ss[j], sts[j], ids[j], hist)
        out.states += 1
        out.traces += 1
        if params.get("cap") and out.states >= params["cap"]:
            out.note("trees-capped")
            return
    out.note("trees-complete")
    out.outcome("tree")


def hooked(calc, note):
    """The calculator, calling note() at the start of each of its callbacks."""
    if isinstance(calc, str):
        return calc

    class Hooked(calc):
        def initialize(self):
            note()
            return calc.initialize(self)

        def cutoff(self):
            note()
            return calc.cutoff(self)

        def cacheRates(self):
            note()
            return calc.cacheRates(self)

        def excludeFromCaching(self):
            note()
            return calc.excludeFromCaching(self)

        def rate(self, *a):
            note()
            return calc.rate(self, *a)
    return Hooked


def job_nested(params, out, K):
    """A whole run of model 1 at every callback of a run of model 0 (analysis or breaker), and the reverse order of setup."""
    specs = [norm_spec(s) for s in params["specs"]]
    rng = vp.load()[1]

    def ctl(n):
        return K.KMCControlParameters(number_of_steps=n, seed=5)

    def stream(i, n):
        return [draw(i, k, j) for k in range(n) for j in range(3)]

    def one_run(i, s, n, hook=None, log=None):
        class An(K.KMCAnalysisPlugin):
            def setup(self, step, time, configuration):
                log.append((step, time, python_view(s)[:4]))
                if hook:
                    hook("setup")

            def registerStep(self, step, time, configuration):
                s.stepped = True
                log.append((step, time, python_view(s)))
                if hook:
                    hook(step)

        class Br(K.KMCBreakerPlugin):
            def evaluate(self, step, time, configuration):
                log.append((step, time, python_view(s)))
                if hook:
                    hook(-step)
                return False
        rng.set(stream(i, n))
        s.stepped = False
        with vp.quiet():
            try:
                s.model.run(control_parameters=ctl(n), analysis=[An()], breakers=[Br()])
            except K.Exceptions.Error.Error if hasattr(K, "Exceptions") else Exception as e:
                if "No more" not in str(e):
                    raise
                log.append("dead")

    n0, n1 = params["n"]
    alone = []
    for i, n in ((0, n0), (1, n1)):
        log = []
        one_run(i, build(K, specs[i], specs[i].get("calc"), {}, "none"), n, None, log)
        alone.append(log)
    # every callback of the rate calculator, in the construction and in the run
    count = []

    def counting(calc):
        def note(*where):
            count.append(0)
        return hooked(calc, note)
    points = ["setup"] + [k for k in range(1, n0 + 1)] + [-k for k in range(1, n0 + 1)]
    if specs[0].get("calc") and not specs[0]["calc"].get("builtin"):
        log = []
        one_run(0, build(K, specs[0], specs[0]["calc"], {}, "none", counting), n0, None, log)
        n = len(count)
        step = max(1, n // params.get("rates", 40))
        points += [("calc", k) for k in range(1, n + 1) if k <= 4 or k % step == 0 or k == n]
        out.outcome("calculator")
    for at in points:
        for made_first in (True, False):
            shared, calls = {}, [0]
            log0, log1 = [], []
            # what follows happens inside the construction or the run of model 0
            box = dict(s1=None, used=False, running=False)

            def inside():
                if box["used"] or not box.get("outer"):
                    return
                calls[0] += 1
                hook(("calc", calls[0]))
            if made_first:
                box["s1"] = build(K, specs[1], specs[1].get("calc"), shared, params["mode"], lambda c: hooked(c, inside))

            def hook(where):
                if where != at or box["used"]:
                    return
                box["used"] = True
                done = rng.pos() if box["running"] else 0
                if box["s1"] is None:
                    box["s1"] = build(K, specs[1], specs[1].get("calc"), shared, params["mode"], lambda c: hooked(c, inside))
                one_run(1, box["s1"], n1, None, log1)
                rng.set(stream(0, n0)[done:])
            box["outer"] = True
            s0 = build(K, specs[0], specs[0].get("calc"), shared, params["mode"], lambda c: hooked(c, inside))
            box["running"] = True
            one_run(0, s0, n0, hook, log0)
            out.states += 1
            out.traces += 1
            out.evals += len(log0) + len(log1)
            out.transitions += n0 + n1
            if box["used"]:
                for i, log in ((0, log0), (1, log1)):
                    if not same(tuple(log), tuple(alone[i])):
                        k = [j for j in range(min(len(log), len(alone[i]))) if not same(log[j], alone[i][j])]
                        out.violation("a run nested in a callback of another model's run changes what one of them does", scenarios=[x["name"] for x in specs],
                                      nested_at=at, second_made_before=made_first, model=i, got=log[k[0]] if k else len(log), alone=alone[i][k[0]] if k else len(alone[i]),
                                      shared=params["mode"])
    out.outcome("nested")


def scramble(x, seen=None):
    """Change a mutable object handed over or handed out as thoroughly as possible, in place."""
    try:
        import numpy
        if isinstance(x, numpy.ndarray):
            if x.flags.writeable:
                x[...] = -17 if x.dtype.kind in "if" else x
            return
    except ImportError:
        pass
    if isinstance(x, dict):
        for k in list(x):
            if isinstance(x[k], int):
                x[k] += 7
        x["zz"] = 99
    elif isinstance(x, list):
        for y in x:
            scramble(y)
        x.reverse()
        x.append("zz")
        x.pop(0)
    elif isinstance(x, tuple):
        for y in x:
            scramble(y)


def job_mutate(params, out, K):
    """Inputs changed after the constructors, outputs changed after the queries: nothing happens to the model."""
    import copy
    spec = norm_spec(params["spec"])
    ref = Ref(spec)
    sc = spec.get("calc")
    rr = calcs.RefRates(ref, sc) if sc else None
    cur = {}

    def make():
        cell = copy.deepcopy(spec.get("cell") or [[1., 0., 0.], [0., 1., 0.], [0., 0., 1.]])
        basis = [[float(x) for x in b] for b in spec["basis"]]
        if params["numpy"]:
            import numpy
            cell, basis = numpy.array(cell), numpy.array(basis)
        uc = K.KMCUnitCell(cell_vectors=cell, basis_points=basis)
        scramble(cell), scramble(basis)
        reps, per = list(spec["reps"]), list(spec["periodic"])
        lat = K.KMCLattice(unit_cell=uc, repetitions=reps, periodic=per)
        scramble(reps), scramble(per)
        types, poss = copy.deepcopy(list(spec["types"])), list(spec["possible"])
        if params.get("long"):
            nb, r = len(spec["basis"]), spec["reps"]
            default = spec["possible"][0]
            types = [(i // nb // r[2] // r[1], i // nb // r[2] % r[1], i // nb % r[2], i % nb, t) for i, t in enumerate(types) if t != default or i == 0]
            config = K.KMCConfiguration(lattice=lat, types=types, possible_types=poss, default_type=default)
        else:
            config = K.KMCConfiguration(lattice=lat, types=types, possible_types=poss)
        scramble(types), scramble(poss)
        procs = []
        for p in copy.deepcopy(spec["procs"]):
            co = [[float(x) for x in c] for c in p["coords"]]
            b = list(p["basis"])
            if params["numpy"]:
                import numpy
                co = numpy.array(co)
                b = numpy.array(b)
            if p.get("kind") == "b":
                args = dict(coordinates=co, minimum_match=p["match"], update=p["update"], basis_sites=b)
                procs.append(K.KMCBucketProcess(rate_constant=float(p["rate"]), **args))
            else:
                mv = None if p.get("move") is None else [(i, [float(x) for x in v]) for i, v in p["move"]]
                args = dict(coordinates=co, elements_before=list(p["before"]), elements_after=list(p["after"]), move_vectors=mv, basis_sites=b)
                procs.append(K.KMCProcess(rate_constant=float(p["rate"]), **args))
            for a in args.values():
                scramble(a)
        inter = K.KMCInteractions(processes=procs, implicit_wildcards=bool(spec.get("implicit", True)))
        if sc is not None:
            base = calcs.make_calc(K, sc)

            class Spoil(base):
                def rate(self, geometry, before, after, *rest):
                    r = base.rate(self, geometry, before, after, *rest)
                    for x in (geometry, before, after):
                        scramble(x)
                    return r
            inter.setRateCalculator(rate_calculator=Spoil)
        procs.reverse()
        procs.pop()
        s = Sys(spec, config=config, interactions=inter)
        return s

    def check(s, prev, e, st, hist):
        cur["st"] = st
        where = dict(scenario=spec["name"], history=list(hist)[-100:], state=st)
        exp = ref.initial() if e is None else (ref.apply(prev, tuple(e)) if tuple(e) in ref.events(prev) else st)
        out.evals += 1
        if st != exp:
            out.violation("changing lists after they were handed over, or results after they were handed out, changes the state of the model", expected=exp, event=e, **where)
        if sorted(s.events()) != sorted(ref.events(st)):
            out.violation("changing lists after they were handed over, or results after they were handed out, changes the events of the model", offered=s.events(),
                          expected=sorted(ref.events(st)), **where)
        tot = s.totals()
        for p in range(len(ref.procs)):
            x = sum((rr.rate(st, v) if rr else ref.procs[p].rate) for v in ref.events(st) if v[0] == p)
            if abs(tot[p] - x) > 1e-9 * max(x, 1e-3):
                out.violation("changing lists after they were handed over, or results after they were handed out, changes the rates of the model", process=p,
                              rate=tot[p], expected=x, **where)
        t = s.config.types()
        if (tuple(tuple(sorted(x)) for x in t) if ref.buckets else tuple(t)) != st:
            out.violation("types() differs from the state after earlier results were changed", types=t, **where)
        # everything the queries hand out
        c = s.config
        L = c.lattice()
        for x in (c.types(), c.atomIDTypes(), c.atomIDCoordinates(), c.particlesPerType(), c.cellRepetitions(), c.movedAtomIDs() if e is not None else None, s.cc.elements(),
                  s.cc.atomID(), s.cc.atomIDElements(), c.sites(), c.possibleTypes(), L.sites(), L.basis(), L.repetitions(), L.periodic(), L.unitCell().cellVectors()):
            scramble(x)
        for P in s.procs:
            scramble(P.sites())

    w = (lambda e: rr.rate(cur["st"], e)) if rr else None

    def bounded(s, st):
        return [e for e in set(s.events()) if e not in ref.events(st) or all(len(x) <= 3 for x in ref.apply(st, e))]
    full = explore.graph(make, check, out, cap=params["cap"], max_steps=params["steps"], weight=w, events=bounded if ref.buckets else None)
    out.note("graphs-complete" if full else "graphs-capped")
    out.outcome("mutate")


def job_successor(params, out, K):
    """After every short history a new model is made on the same configuration: it starts from the present state."""
    spec, spec2 = norm_spec(params["specs"][0]), norm_spec(params["specs"][1])
    ref = Ref(spec)
    ref2 = Ref(dict(spec, procs=spec2["procs"], implicit=spec2.get("implicit", True)))
    refs = [ref, ref2]
    todo = [[]]
    while todo:
        prefix = todo.pop()
        s = Sys(spec)
        inters = [s.interactions, K.KMCInteractions(processes=[sysm.make_process(K, p) for p in spec2["procs"]], implicit_wildcards=bool(spec2.get("implicit", True)))]
        st, ids, which, hist = ref.initial(), None if ref.buckets else ref.ids0(), 0, []
        for d in range(params["depth"] + 1):
            r = refs[which]
            where = dict(scenarios=[spec["name"], spec2["name"]], history=hist, state=st)
            out.evals += 1
            if s.state() != st:
                out.violation("models made one after the other on one configuration: wrong state", got=s.state(), **where)
            ev = sorted(s.events())
            if ev != sorted(r.events(st)):
                out.violation("a model made on a used configuration does not offer the events of the present state", offered=ev, expected=sorted(r.events(st)), **where)
            tot = s.totals()
            for p in range(len(r.procs)):
                x = sum(r.procs[p].rate for v in r.events(st) if v[0] == p)
                if abs(tot[p] - x) > 1e-9 * max(x, 1e-3):
                    out.violation("a model made on a used configuration has wrong rates", process=p, rate=tot[p], expected=x, **where)
            if ids is not None and s.ids() != ids[0]:
                out.violation("a model made on a used configuration has lost track of the atoms", atoms=s.ids(), expected=ids[0], **where)
            if d == params["depth"]:
                break
            ops = [("fire", e) for e in ev if not r.buckets or all(len(x) <= 3 for x in r.apply(st, e))]
            if not hist or hist[-1][0] != "new":
                ops += [("new", 0), ("new", 1)]
            if d < len(prefix):
                c = prefix[d]
            else:
                if not ops:
                    break
                c = ops[0]
                todo += [hist + [x] for x in ops[1:]]
            hist = hist + [c]
            out.transitions += 1
            if c[0] == "new":
                which = c[1]
                s = Sys(dict(spec, procs=[spec, spec2][which]["procs"]), config=s.config, interactions=inters[which])
                if s.timer.simulationTime() != 0.0:
                    out.violation("the time of a new model does not start at zero", time=s.timer.simulationTime(), **where)
            else:
                s.fire(c[1])
                st = r.apply(st, tuple(c[1]))
                if ids is not None:
                    ids = r.move_ids(ids, tuple(c[1]))[0]
        out.states += 1
        out.traces += 1
        if params.get("cap") and out.states >= params["cap"]:
            out.note("trees-capped")
            return
    out.note("trees-complete")
    out.outcome("successor")


def job(params, out):
    K, rng = vp.load()
    dict(orders=job_orders, tree=job_tree, nested=job_nested, mutate=job_mutate, successor=job_successor)[params["kind"]](params, out, K)


def calc(spec, func="neighbours", cutoff=1.0, **kw):
    return dict(spec, calc=dict(func=func, cutoff=cutoff, **kw), name=spec["name"] + "+" + func + ("-cached" if kw.get("cache") else ""))


def alt(spec, types, possible=None, reps=None, name="'"):
    s = dict(spec, types=types, name=spec["name"] + name)
    if possible:
        s["possible"] = possible
    if reps:
        s["reps"] = reps
    return s


def pairs():
    """(sharing mode, spec, spec)"""
    o = []
    ads, ring, b1d, tb, hexa, wild = scen.ads_des_hop(5), scen.ring_hop(5), scen.two_basis_1d(4), scen.two_basis(3), scen.hexagonal(3), scen.wild(5)
    g2, g3, b1, b2, rot = scen.grid2d(3), scen.grid3d(), scen.bucket1(), scen.bucket2(), scen.rotate3(5)
    # different models with nothing in common
    for a, b in ((ads, ring), (ads, tb), (ads, g3), (b1d, ads), (tb, hexa), (wild, g2), (b1, ads), (b2, b1), (rot, ads), (b1d, tb), (g3, b2), (scen.three_basis(3), g2),
                 (scen.range2(6), ring), (scen.flat_sheet(3), ads)):
        o.append(("none", a, b))
    for a, b in ((calc(ads), calc(b1d)), (calc(ads, cache=True), calc(ads, func="counting", cache=True)), (calc(tb), ads), (calc(b1), calc(ads, cache=True)), (calc(g2, cache=True), calc(ads, cutoff=2.0)),
                 (calc(b1d, cache=True), calc(b1d, func="after_sensitive", cache=True))):
        o.append(("none", a, b))
    # the same parts in both
    big = scen.ads_des_hop(7)
    variants = [(ads, alt(ads, ["A", "V", "A", "A", "V"])), (ads, alt(ads, ["A", "V", "A", "A", "V"], possible=["A", "V"])), (ads, alt(ads, ["A", "V", "A", "A", "V"], possible=["B", "A", "C", "V"])),
                (ads, big), (ring, alt(ring, ["V", "A", "A", "V", "A"], possible=["V", "A"])), (tb, alt(tb, ["A"] * 17 + ["V"])),
                (b1, alt(b1, [[(3, "A")], [], [], "A", "B"], possible=["C", "B", "A"])), (b2, alt(b2, ["B", "A", ["A", "B"], [], []], possible=["B", "C", "A"])),
                (wild, alt(wild, ["V", "B", "A", "A", "V"], possible=["B", "A", "V"])), (rot, alt(rot, ["V", "A", "B", "V", "A"], possible=["A", "B", "V", "C"])),
                (scen.grid2d(3), dict(scen.grid2d(4), name="grid2d-4")), (b1d, scen.two_basis_1d(5))]
    for a, b in variants:
        for m in ("procs", "inter", "lattice", "all"):
            o.append((m, a, b))
    for a, b in ((ads, alt(ads, ["A", "V", "A", "A", "V"])), (ads, alt(ads, ["A", "V", "A", "A", "V"], possible=["A", "V"])), (b1d, alt(b1d, ["V", "A"] * 4)), (b1, alt(b1, [[], "A", "A", "A", (2, "A")], possible=["B", "A"])),
                 (ads, big), (rot, alt(rot, ["V", "A", "B", "V", "A"]))):
        for kw in (dict(), dict(cache=True), dict(func="position"), dict(cache=True, exclude=[0])):
            for m in ("procs", "calc", "inter", "all"):
                o.append((m, calc(a, **kw), calc(b, **kw)))
    # one possible type list a permutation of the other, one basis smaller than the processes name
    o.append(("inter", scen.multi_basis_single(), alt(scen.multi_basis_single(), ["A", "V", "A", "V", "A", "V"], possible=["A", "V"])))
    small = dict(scen.ads_des_hop(5), procs=scen.multi_basis_single()["procs"], name="one-basis")
    o.append(("inter", scen.multi_basis_single(), small)) if False else None
    return o


def jobs():
    th = vp.thorough()
    js = []
    for i, (m, a, b) in enumerate(pairs()):
        nm = "%s:%s|%s" % (m, a["name"], b["name"])
        js.append(dict(name="orders:%d:%s" % (i, nm), kind="orders", specs=[a, b], mode=m, n=[6, 6] if th else [4, 4]))
        if th or i % 2 == 0:
            js.append(dict(name="tree:%d:%s" % (i, nm), kind="tree", specs=[a, b], mode=m, depth=4 if th else 3, cap=4000 if th else 120))
        if th or i % 2 == 1:
            js.append(dict(name="alternate:%d:%s" % (i, nm), kind="tree", specs=[a, b], mode=m, depth=5 if th else 4, alternate=True, cap=4000 if th else 120))
        if th or i % 3 == 0:
            js.append(dict(name="nested:%d:%s" % (i, nm), kind="nested", specs=[a, b], mode=m, n=[5, 4] if th else [3, 3]))
    ps = pairs()
    for i in range(0, len(ps) - 1, 1 if th else 6):
        (m, a, b), c = ps[i], ps[(i + 7) % len(ps)][1]
        js.append(dict(name="three:%d" % i, kind="orders", specs=[a, b, c] if m == "none" else [a, b, b], mode=m, n=[3, 3, 3] if th else [2, 3, 2]))
    for s in scen.plain()[:None if th else 14] + scen.buckets():
        for np in (False, True):
            js.append(dict(name="mutate:%s:%s" % (s["name"], np), kind="mutate", spec=s, numpy=np, cap=2000 if th else 60, steps=20000 if th else 300))
    for s in (calc(scen.ads_des_hop(5)), calc(scen.two_basis_1d(4), cache=True), calc(scen.bucket1()), calc(scen.bucket2(), cache=True)):
        js.append(dict(name="mutate:%s" % s["name"], kind="mutate", spec=s, numpy=False, cap=2000 if th else 100, steps=20000 if th else 400))
    for s in (scen.ads_des_hop(5), scen.two_basis(3), scen.wild(5), scen.grid3d()):
        js.append(dict(name="mutate-long:%s" % s["name"], kind="mutate", spec=s, numpy=False, long=True, cap=2000 if th else 60, steps=20000 if th else 300))
    for a, b in ((scen.ads_des_hop(5), scen.ring_hop(5)), (scen.two_basis_1d(4), scen.two_basis_1d(4)), (dict(scen.rotate3(5), possible=["V", "A", "B", "C"]), scen.two_species()), (scen.bucket1(), scen.bucket_wild()),
                 (dict(scen.wild(5), possible=["V", "C", "A", "B"]), scen.cyclic3()), (scen.grid2d(3), scen.ads_des_hop(5))):
        js.append(dict(name="successor:%s|%s" % (a["name"], b["name"]), kind="successor", specs=[a, b], depth=5 if th else 4, cap=20000 if th else 600))
    return js


if __name__ == "__main__":
    vp.main(PID, jobs(), job, floor=1000,
            bounds="all interleavings of construction and steps of two models (4 to 6 operations each) and of three; all joint event histories to the stated depth; a run nested at every callback (analysis, breaker, rate calculator) of a run; "
                   "all short histories of steps and new models on one configuration; every list handed over or handed out changed",
            assumptions=["each model is given the same random numbers as alone", "two live models do not share a configuration"])

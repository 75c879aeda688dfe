"""C12: a script written from a model rebuilds the same model in its current state."""
import itertools, math, os, shutil, sys, tempfile
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import numpy
import vp, scen, explore
from sysm import Sys, norm_spec, make_process, make_config
from ref import Ref

PID = "C12"
REL = 2e-14


def close(a, b):
    return a == b or abs(a - b) <= REL * max(abs(a), abs(b))


def arr_close(a, b):
    a, b = numpy.array(a, dtype=float), numpy.array(b, dtype=float)
    return a.shape == b.shape and all(close(x, y) or abs(x - y) < 1e-300 for x, y in zip(a.flat, b.flat))


def run_script(text):
    g = {}
    exec("from KMCLib import *\n" + text, g)
    return g


def same_lattice(a, b):
    return (tuple(a.repetitions()) == tuple(b.repetitions()) and tuple(a.periodic()) == tuple(b.periodic()) and arr_close(a.basis(), b.basis())
            and arr_close(a.unitCell().cellVectors(), b.unitCell().cellVectors()) and arr_close(a.sites(), b.sites()))


def mv_dict(p):
    return sorted((int(i), tuple(float(x) for x in v)) for i, v in (p.moveVectors() or []))


def process_differences(p, q):
    """What differs between two processes; site order is not part of the meaning, so compare as maps from coordinates."""
    d = []
    if type(p) is not type(q):
        return ["class"]
    if list(p.basisSites()) != list(q.basisSites()):
        d.append("basis sites")
    if not close(p.rateConstant(), q.rateConstant()):
        d.append("rate constant %r %r" % (p.rateConstant(), q.rateConstant()))

    def table(x):
        lc = x.localConfigurations()
        co = lc[0].coordinates()
        upd = x._update() if hasattr(x, "_update") else None
        mv = dict((i, tuple(v)) for i, v in mv_dict(x))
        rows = []
        for i in range(len(co)):
            rows.append([tuple(float(c) for c in co[i]), sorted(map(tuple, lc[0].types()[i])),
                         sorted(map(tuple, lc[1].types()[i])) if len(lc) > 1 else None,
                         sorted((k, int(upd[i][k])) for k in upd[i].keys() if upd[i][k]) if upd is not None and i < len(upd) else None, mv.get(i)])
        return sorted(rows, key=lambda r: tuple(round(c, 7) for c in r[0]))
    try:
        a, b = table(p), table(q)
    except Exception as e:
        return ["cannot compare: %r" % e]
    if len(a) != len(b):
        return ["number of sites"]
    for x, y in zip(a, b):
        if not arr_close(x[0], y[0]):
            d.append("coordinate %r %r" % (x[0], y[0]))
        if x[1:4] != y[1:4]:
            d.append("types %r %r" % (x[1:4], y[1:4]))
        if (x[4] is None) != (y[4] is None) or (x[4] is not None and not arr_close(x[4], y[4])):
            d.append("move vector %r %r" % (x[4], y[4]))
    return d


# ------------------------------------------------------------------------------------------- states
def states(params, out):
    spec = norm_spec(params["spec"])
    ref = Ref(spec)
    K, rng = vp.load()
    done = set()

    def check(s, prev, e, st, hist):
        where = dict(scenario=spec["name"], initial=spec["types"], history=list(hist)[-100:], state=st)
        # writing scripts must not disturb the model: it keeps following the reference
        if st not in done:
            done.add(st)
            out.evals += 1
            text = s.model._script()
            if text != s.model._script():
                out.violation("writing the script twice gives two different scripts", **where)
            if s.state() != st or s.tables() != tabs(s):
                out.violation("writing a script changed the model", **where)
            try:
                with vp.quiet():
                    g = run_script(text)
            except Exception as ex:
                out.violation("the script of a model cannot be executed: %r" % ex, script=text[-1500:], **where)
                return
            m = [x for x in g.values() if isinstance(x, K.KMCLatticeModel)]
            c = [x for x in g.values() if isinstance(x, K.KMCConfiguration)]
            i = [x for x in g.values() if isinstance(x, K.KMCInteractions)]
            if len(m) != 1 or len(c) != 1 or len(i) != 1:
                out.violation("the script does not define one model, one configuration and one set of interactions", found=(len(m), len(c), len(i)), **where)
                return
            if not same_lattice(c[0].lattice(), s.config.lattice()):
                out.violation("the rebuilt lattice differs", **where)
            if i[0].implicitWildcards() != s.interactions.implicitWildcards():
                out.violation("the rebuilt interactions differ in the use of implicit wildcards", **where)
            t = Sys(spec, config=c[0], interactions=i[0])
            if t.state() != st:
                out.violation("the model rebuilt from its script is in another state", rebuilt=t.state(), **where)
                return
            a, b = set(t.events()), set(s.events())
            if a != b:
                out.violation("the model rebuilt from its script offers other events", missing=sorted(b - a)[:6], extra=sorted(a - b)[:6], **where)
            for p, (x, y) in enumerate(zip(s.totals(), t.totals())):
                if abs(x - y) > 1e-12 * max(abs(x), abs(y)):
                    out.violation("the model rebuilt from its script has other rates", process=p, original=x, rebuilt=y, **where)
            if set(c[0].possibleTypes()) != set(s.config.possibleTypes()):
                out.violation("the rebuilt configuration has other possible types", rebuilt=sorted(c[0].possibleTypes()), **where)
            with vp.quiet():
                text2 = m[0]._script()
            if text2 != text:
                out.violation("the script of the rebuilt model differs from the script it was built from", **where)
            if not ref.buckets:
                atk(s, st, where)
            # the effect of the events in the rebuilt model
            ev = sorted(a & b)
            for n, e2 in enumerate(ev):
                if n >= params["fire"] and (len(done) + n) % max(1, len(ev) // 2):
                    continue
                if e2 not in ref.events(st):
                    continue
                if n:
                    with vp.quiet():
                        g = run_script(text)
                    t = Sys(spec, config=[x for x in g.values() if isinstance(x, K.KMCConfiguration)][0],
                            interactions=[x for x in g.values() if isinstance(x, K.KMCInteractions)][0])
                t.fire(e2)
                out.transitions += 1
                exp = ref.apply(st, e2)
                if t.state() != exp:
                    out.violation("an event of the rebuilt model has another effect", event=e2, got=t.state(), expected=exp, **where)
                elif not params.get("light") and set(t.events()) != set(ref.events(exp)) and set(s.events()) == set(ref.events(st)):
                    out.violation("the rebuilt model goes on with other available events", event=e2, **where)

    def tabs(s):
        return s.tables()

    def atk(s, st, where):
        """The exported ATK script: whole lattice vectors, and for each mapped atom identity its type and fractional unwrapped coordinate."""
        names = sorted(set(s.config.possibleTypes()) - {"*"})
        co, ty = [tuple(map(float, x)) for x in s.config.atomIDCoordinates()], list(s.config.atomIDTypes())
        reps = s.config.lattice().repetitions()
        cell = [[float(x) for x in v] for v in s.config.lattice().unitCell().cellVectors()]
        for k in range(len(names) + 1):
            if len(names) > 8 and k not in (1, len(names)):
                continue
            for chosen in itertools.combinations(names, k):
                with vp.quiet():
                    text = s.config._atkScript({n: "E%d" % names.index(n) for n in chosen})
                out.evals += 1
                got = {}
                env = {"E%d" % i: n for i, n in enumerate(names)}
                env.update(Angstrom=_Unit(), UnitCell=lambda *v: v, BulkConfiguration=lambda **kw: got.update(kw))
                try:
                    exec(text, env)
                except Exception as ex:
                    out.violation("the exported ATK script cannot be executed: %r" % ex, types=chosen, script=text[-600:], **where)
                    return
                exp = [(t, [x / r for x, r in zip(c, reps)]) for t, c in zip(ty, co) if t in chosen]
                if list(got["elements"]) != [e[0] for e in exp] or len(got["fractional_coordinates"]) != len(exp) or \
                        any(abs(x - y) > 1e-7 * max(1., abs(y)) for a, b in zip(got["fractional_coordinates"], exp) for x, y in zip(a, b[1])):
                    out.violation("the exported ATK script lists other atoms", types=chosen, expected=exp, got=repr(got)[:600], **where)
                    return
                if any(abs(x - r * y) > 1e-6 * max(1., abs(r * y)) for v, w, r in zip(got["bravais_lattice"], cell, reps) for x, y in zip(v.v, w)):
                    out.violation("the exported ATK script has another lattice", expected=cell, got=[v.v for v in got["bravais_lattice"]], **where)
                    return

    def bounded(s, st):
        return [e for e in set(s.events()) if e not in ref.events(st) or all(len(x) <= 3 for x in ref.apply(st, e))]

    full = explore.graph(lambda: Sys(spec), check, out, cap=params["cap"], max_steps=params["steps"], events=bounded if ref.buckets else None)
    out.note("graphs-complete" if full else "graphs-capped")
    out.traces += len(done)
    out.outcome(len(done))


class _Unit(object):
    def __rmul__(self, v):
        r = _Unit()
        r.v = list(v)
        return r


# ------------------------------------------------------------------------------------------- inputs
NUMBERS = [1. / 3, 0.1, 1e-17, 2.0 / 3 - 1, 12345.678901234567, 1.0000000000000002, 0.1 + 0.2, 5e-324, 1.7976931348623157e308, 1e-310, math.pi * 1e20, 123456789.0, 3.0000001]
NAMES = ["A", "Pt", "a b", "it's", 'say "x"', "back\\slash", "ü", "new\nline", "", "123", "[x]", "A,B", "#", "%s", "{0}", "types"]


def inputs(params, out):
    K, rng = vp.load()
    what = params["what"]
    scratch = tempfile.mkdtemp(prefix="vp-c12-")

    def rebuilt(obj, cls, label, **where):
        out.evals += 1
        out.states += 1
        text = obj._script()
        if text != obj._script():
            out.violation("writing the script of a %s twice gives two scripts" % label, **where)
        try:
            with vp.quiet():
                g = run_script(text)
        except Exception as ex:
            out.violation("the script of a %s cannot be executed: %r" % (label, ex), script=text[-1200:], **where)
            return None
        got = [x for x in g.values() if type(x) is cls]
        if len(got) < 1:
            out.violation("the script of a %s does not define one" % label, **where)
            return None
        if got[-1]._script() != text:
            out.violation("the script of a rebuilt %s differs from the script it was built from" % label, script=text[-800:], again=got[-1]._script()[-800:], **where)
        # a name for the variable
        with vp.quiet():
            g2 = run_script(obj._script(variable_name="my_variable_7"))
        if type(g2.get("my_variable_7")) is not cls:
            out.violation("the script of a %s does not use the given variable name" % label, **where)
        # and through a file
        fun = {K.KMCConfiguration: "KMCConfigurationFromScript", K.KMCInteractions: "KMCInteractionsFromScript", K.KMCLatticeModel: "KMCLatticeModelFromScript"}.get(cls)
        if fun:
            path = os.path.join(scratch, "script.py")
            with open(path, "w", encoding="utf-8") as f:
                f.write("# -*- coding: utf-8 -*-\nfrom KMCLib import *\n" + text)
            import KMCLib.Utilities.SaveAndReadUtilities as sr
            with vp.quiet():
                o = getattr(K, fun, getattr(sr, fun))(path)
            if type(o) is not cls or o._script() != text:
                out.violation("reading a %s back from a file gives another one than executing the script" % label, **where)
        return got[-1]

    try:
        if what == "cells":
            for a, b, c in itertools.product(NUMBERS[:8] if not params["th"] else NUMBERS, repeat=3):
                if not all(1e-6 < abs(x) < 1e6 for x in (a, b, c)):
                    vec = [[1.0, a, 0.], [b, 1., 0.], [0., c, 1.0]]
                    if any(abs(x) > 1e6 for x in (a, b, c)):
                        vec = [[a, 0., 0.], [0., 1.5, 0.], [0., 0., 1.0]]
                else:
                    vec = [[abs(a) + 1, 0.01 * b, 0.], [0., abs(b) + 1, 0.01 * c], [0.01 * a, 0., abs(c) + 1]]
                if any(x == 5e-324 or x > 1e300 for x in (a, b, c)):
                    continue
                bas = [[abs(x) % 1.0, abs(y) % 1.0, abs(z) % 1.0] for x, y, z in ((a, b, c), (b, c, a))]
                try:
                    uc = K.KMCUnitCell(cell_vectors=vec, basis_points=bas)
                except K.Exceptions.Error.Error if hasattr(K, "Exceptions") else Exception:
                    out.note("cell-rejected")
                    continue
                r = rebuilt(uc, K.KMCUnitCell, "unit cell", cell_vectors=vec, basis_points=bas)
                if r is not None and not (arr_close(r.cellVectors(), uc.cellVectors()) and arr_close(r.basis(), uc.basis())):
                    out.violation("a rebuilt unit cell differs", cell_vectors=vec, basis_points=bas, got=(r.cellVectors().tolist(), numpy.array(r.basis()).tolist()))
                if a != b:
                    continue
                for reps, per in itertools.product([(1, 2, 3), (4, 1, 1)], itertools.product((True, False), repeat=3)):
                    L = K.KMCLattice(unit_cell=uc, repetitions=reps, periodic=per)
                    r = rebuilt(L, K.KMCLattice, "lattice", cell_vectors=vec, basis_points=bas, repetitions=reps, periodic=per)
                    if r is not None and not same_lattice(r, L):
                        out.violation("a rebuilt lattice differs", cell_vectors=vec, basis_points=bas, repetitions=reps, periodic=per)
        elif what == "processes":
            cases = []
            for r in NUMBERS:
                cases.append(scen.hop([1., 0., 0.], r))
            for d in itertools.product((0.0, 1. / 3, -0.7, 1.0000000000000002, -2.0), repeat=3):
                if max(map(abs, d)) < 1e-9:
                    continue
                cases.append(scen.hop(list(d), 1.5, a="A", v="B", basis=(0, 2)))
                cases.append(scen.hop(list(d), 1.5, a="A", v="B", basis=(3,), move="explicit"))
            for bef, aft in itertools.product(itertools.product("AB*", repeat=3), repeat=2):
                if any((x == "*") != (y == "*") for x, y in zip(bef, aft)):
                    continue
                cases.append(scen.proc([[.1, .2, .3], [1.1, .2, .3], [.1, -.8, .3]], bef, aft, 2. / 3, basis=(1, 0)))
            for n1, n2 in itertools.permutations(NAMES, 2):
                cases.append(scen.proc([scen.O, scen.X], [n1, n2], [n2, n1], 1.0))
            for i in itertools.permutations(range(3)):
                mv = [(i[0], (1., 0., 0.)), (i[1], (1., 0., 0.)), (i[2], (-2., 0., 0.))]
                co = [None] * 3
                for k, x in zip(i, ([0., 0., 0.], [1., 0., 0.], [2., 0., 0.])):
                    co[k] = x
                bef, aft = [None] * 3, [None] * 3
                for k, (x, y) in zip(i, (("A", "V"), ("B", "A"), ("V", "B"))):
                    bef[k], aft[k] = x, y
                cases.append(scen.proc(co, bef, aft, .25, move=mv))
            for j in range(40):        # more sites than fit on a line of the script
                n = 2 + j % 14
                cases.append(scen.proc([[float(x), 0.1 * x, -.5 * (x % 2)] for x in range(n)], (["A", "B", "*"] * 14)[:n], (["B", "A", "*"] * 14)[:n], 1. + j, basis=tuple(range(1 + j % 9))))
            for p in cases[params["part"]::params["parts"]]:
                try:
                    q = make_process(K, p)
                except Exception as ex:
                    if type(ex).__name__ == "Error":
                        out.note("process-rejected")
                        continue
                    raise
                r = rebuilt(q, K.KMCProcess, "process", process=p)
                if r is not None:
                    d = process_differences(q, r)
                    if d:
                        out.violation("a rebuilt process differs", process=p, differences=d)
                    if not (q == r):
                        out.violation("a rebuilt process does not compare equal to the original", process=p)
                out.outcome(len(p["coords"]))
        elif what == "buckets":
            entries = ["A", (2, "A"), (0, "B"), ["A", "B"], [(2, "A"), (1, "B")], [], ["A", "A"], "*", (1, "*"), [(3, "long name"), "it's"]]
            upds = ["B", (-1, "A"), [(1, "A"), (-2, "B")], [(0, "A")], (2, "C"), [(-1, "A"), (1, "it's")]]
            cases = []
            for m1, m2, u1, u2 in itertools.product(entries, entries[:5] if not params["th"] else entries, upds, upds[:3] if not params["th"] else upds):
                cases.append(scen.bproc([scen.O, [0.3, -1.0, 1. / 3]], [m1, m2], [u1, u2], 2. / 3, basis=(0, 1)))
            for r in NUMBERS:
                cases.append(scen.bproc([scen.O], ["A"], [(-1, "A")], r))
            for p in cases[params["part"]::params["parts"]]:
                try:
                    q = make_process(K, p)
                except Exception as ex:
                    if type(ex).__name__ == "Error":
                        out.note("process-rejected")
                        continue
                    raise
                r = rebuilt(q, K.KMCBucketProcess, "bucket process", process=p)
                if r is not None:
                    d = process_differences(q, r)
                    if d:
                        out.violation("a rebuilt bucket process differs", process=p, differences=d)
                out.outcome(repr(p["match"][0])[:20])
        elif what == "configurations":
            uc = K.KMCUnitCell(cell_vectors=[[1., 0., 0.], [0., 1., 0.], [0., 0., 1.]], basis_points=[[0., 0., 0.], [.5, .5, .5]])
            L = K.KMCLattice(unit_cell=uc, repetitions=(2, 1, 2), periodic=(True, False, True))
            forms = []
            for pair in itertools.permutations([n for n in NAMES], 2):
                forms.append(dict(types=[pair[0]] * 3 + [pair[1]] * 5, possible_types=None))
                forms.append(dict(types=[pair[0]] * 8, possible_types=[pair[1], "zz", pair[0]]))
            for t in itertools.product("AB", repeat=4):
                forms.append(dict(types=list(t) * 2, possible_types=["B", "C", "A"]))
            for c in itertools.product(range(2), range(1), range(2), range(2)):
                for c2 in itertools.product(range(2), range(1), range(2), range(2)):
                    forms.append(dict(types=[c + ("A",), c2 + ("B",)], default_type="it's", possible_types=None))
            ent = ["A", (2, "A"), [], ["A", "B"], [(3, "B")], ["it's", (2, "A")]]
            for e1, e2, e3 in itertools.product(ent, repeat=3):
                forms.append(dict(types=[e1, e2, e3, "A", [], e1, e2, (1, "B")], possible_types=None if len(str(e1)) % 2 else ["x", "A", "B", "it's"]))
            forms.append(dict(types=["a_rather_long_type_name_%d" % (i % 3) for i in range(8)], possible_types=["a_rather_long_type_name_%d" % i for i in range(12)]))
            for f in forms[params["part"]::params["parts"]]:
                c = K.KMCConfiguration(lattice=L, **f)
                types = c.types()
                r = rebuilt(c, K.KMCConfiguration, "configuration", given=f)
                if r is not None:
                    n = lambda x: [sorted(t) if not isinstance(t, str) else t for t in x]
                    if n(r.types()) != n(types):
                        out.violation("a rebuilt configuration has other types", given=f, got=r.types(), expected=types)
                    if set(r.possibleTypes()) != set(c.possibleTypes()):
                        out.violation("a rebuilt configuration has other possible types", given=f, got=r.possibleTypes(), expected=c.possibleTypes())
                    if list(r.particlesPerType()) != list(c.particlesPerType()) and r.possibleTypes() == c.possibleTypes():
                        out.violation("a rebuilt configuration counts other particles per type", given=f)
                    if not same_lattice(r.lattice(), L):
                        out.violation("a rebuilt configuration has another lattice", given=f)
        elif what == "locals":
            for n in range(1, 8 if params["th"] else 6):
                for center in range(n):
                    for nums in itertools.islice(itertools.permutations([0., 1. / 3, -0.7, 1e-9, 12.25], 3), 0, 60, 3 if not params["th"] else 1):
                        co = [[nums[0] + i, nums[1] * i, nums[2]] for i in range(n)]
                        ty = [NAMES[(i * 5 + n) % len(NAMES)] for i in range(n)]
                        lc = K.KMCLocalConfiguration(coordinates=co, types=ty, center=center)
                        r = rebuilt(lc, K.KMCLocalConfiguration, "local configuration", coordinates=co, types=ty, center=center)
                        if r is not None and not (numpy.allclose(r.coordinates(), lc.coordinates(), rtol=0, atol=1e-12) and r.types() == lc.types()):
                            out.violation("a rebuilt local configuration differs", coordinates=co, types=ty, center=center)
        elif what == "interactions":
            ps = [scen.hop(scen.X, 1.25), scen.hop(scen.X, 2.5, basis=(0, 1)), scen.flip("A", "B", .1), scen.proc([scen.O, scen.X], ["A", "*"], ["B", "*"], .3)]
            bs = [scen.bproc([scen.O], ["A"], [(-1, "A")], 1.), scen.bproc([scen.O, scen.X], ["A", []], [(-1, "A"), "A"], 1. / 3)]
            lists = [list(c) for k in (1, 2, 3) for c in itertools.product(ps, repeat=k)] + [list(c) for k in (1, 2, 3) for c in itertools.product(bs, repeat=k)]
            lists += [(ps * 8)[:k] for k in (11, 13, 30)]
            for l in lists[params["part"]::params["parts"]]:
                for imp in (True, False):
                    inter = K.KMCInteractions(processes=[make_process(K, p) for p in l], implicit_wildcards=imp)
                    r = rebuilt(inter, K.KMCInteractions, "set of interactions", processes=l, implicit_wildcards=imp)
                    if r is None:
                        continue
                    if r.implicitWildcards() != imp:
                        out.violation("rebuilt interactions differ in the use of implicit wildcards", processes=l, implicit_wildcards=imp)
                    a, b = procs_of(inter), procs_of(r)
                    if a is not None and b is not None:
                        if len(a) != len(b) or any(process_differences(x, y) for x, y in zip(a, b)):
                            out.violation("rebuilt interactions have other processes", processes=l, implicit_wildcards=imp)
        elif what == "sizes":
            # every length of every list of a script, with names of several widths
            top = 420 if params["th"] else 130
            uc = K.KMCUnitCell(cell_vectors=[[1., 0., 0.], [0., 1., 0.], [0., 0., 1.]], basis_points=[[0., 0., 0.]])
            for n in range(1, top)[params["part"]::params["parts"]]:
                if n <= 60:
                    bas = [[float(i) / n, (7 * i % n) / float(n), 1. / (i + 2)] for i in range(n)]
                    uc2 = K.KMCUnitCell(cell_vectors=[[1., 0., 0.], [0., 1., 0.], [0., 0., 1.]], basis_points=bas)
                    r = rebuilt(uc2, K.KMCUnitCell, "unit cell", basis_points=n)
                    if r is not None and not arr_close(r.basis(), bas):
                        out.violation("a rebuilt unit cell differs", basis_points=bas, got=numpy.array(r.basis()).tolist())
                L = K.KMCLattice(unit_cell=uc, repetitions=(1, n, 1), periodic=(False, True, n % 2 == 0))
                r = rebuilt(L, K.KMCLattice, "lattice", repetitions=(1, n, 1))
                if r is not None and not same_lattice(r, L):
                    out.violation("a rebuilt lattice differs", repetitions=(1, n, 1))
                for names in (["A", "B"], ["a" * n, "bb", "c" * (n % 23 + 1)], ["t%d" % i for i in range(n)]):
                    t = [names[(i * i + i) % len(names)] for i in range(n)]
                    c = K.KMCConfiguration(lattice=L, types=t, possible_types=names)
                    r = rebuilt(c, K.KMCConfiguration, "configuration", sites=n, possible_types=names)
                    if r is not None and (r.types() != t or set(r.possibleTypes()) - {"*"} != set(names)):
                        out.violation("a rebuilt configuration has other types", given=t, got=r.types())
                t = [[(i % 4, "A"), ((i * i) % 3, "long name")] for i in range(n)]
                c = K.KMCConfiguration(lattice=L, types=t, possible_types=["A", "long name"])
                r = rebuilt(c, K.KMCConfiguration, "configuration", sites=n)
                if r is not None and [sorted(x) for x in r.types()] != [sorted(x) for x in c.types()]:
                    out.violation("a rebuilt configuration has other types", given=t, got=r.types(), expected=c.types())
                if n <= 60:
                    for w in ("A", "w" * 17):
                        p = scen.proc([[float(x), 0.1 * x, -.5 * (x % 2)] for x in range(n)], ([w, "B", "*"] * n)[:n], (["B", w, "*"] * n)[:n], 1. + n, basis=tuple(range(n)))
                        q = make_process(K, p)
                        r = rebuilt(q, K.KMCProcess, "process", sites=n)
                        if r is not None and process_differences(q, r):
                            out.violation("a rebuilt process differs", process=p, differences=process_differences(q, r))
                    p = scen.bproc([[float(x), 0.1 * x, -.5 * (x % 2)] for x in range(n)], ([[(1, "A"), (2, "long name")], [], "A"] * n)[:n], ([(-1, "A"), "long name", "A"] * n)[:n], 1. / n, basis=tuple(range(n)))
                    q = make_process(K, p)
                    r = rebuilt(q, K.KMCBucketProcess, "bucket process", sites=n)
                    if r is not None and process_differences(q, r):
                        out.violation("a rebuilt bucket process differs", process=p, differences=process_differences(q, r))
                    mv = [(i, (1., 0., 0.)) for i in range(n)] + [(n, (-float(n), 0., 0.))]
                    p = scen.proc([[float(x), 0., 0.] for x in range(n + 1)], ["A"] * n + ["B"], ["B"] + ["A"] * n, 2., move=mv)
                    q = make_process(K, p)
                    r = rebuilt(q, K.KMCProcess, "process with move vectors", sites=n + 1)
                    if r is not None and process_differences(q, r):
                        out.violation("a rebuilt process differs", process=p, differences=process_differences(q, r))
                ps = [scen.hop([1. + i, 0., 0.], .5 + i) if i % 3 else scen.flip("A", "B", 1. / (i + 1)) for i in range(n)]
                inter = K.KMCInteractions(processes=[make_process(K, p) for p in ps], implicit_wildcards=bool(n % 2))
                r = rebuilt(inter, K.KMCInteractions, "set of interactions", processes=n)
                if r is not None:
                    a, b = procs_of(inter), procs_of(r)
                    if r.implicitWildcards() != bool(n % 2) or (a is not None and b is not None and (len(a) != len(b) or any(process_differences(x, y) for x, y in zip(a, b)))):
                        out.violation("rebuilt interactions have other processes", processes=n)
                out.outcome(n % 16)
        elif what == "files":
            import KMCLib.Utilities.SaveAndReadUtilities as sr
            # files that hold several objects, each reader takes its own kind
            s = Sys(scen.ads_des_hop(5))
            parts = {"model": s.model._script(), "conf": s.config._script(), "inter": s.interactions._script()}
            for combo in itertools.permutations(("conf", "inter")):
                path = os.path.join(scratch, "both.py")
                with open(path, "w") as f:
                    f.write("from KMCLib import *\n" + "\n".join(parts[c] for c in combo))
                out.evals += 1
                out.states += 1
                with vp.quiet():
                    c, i, m = sr.KMCConfigurationFromScript(path), sr.KMCInteractionsFromScript(path), sr.KMCLatticeModelFromScript(path)
                if type(c) is not K.KMCConfiguration or c._script() != parts["conf"] or type(i) is not K.KMCInteractions or i._script() != parts["inter"] or m is not None:
                    out.violation("the readers do not take their own kind of object from a file", order=combo)
            # control parameters of every kind through a file
            for kw in [dict(number_of_steps=n, dump_interval=d, analysis_interval=a, seed=sd, rng_type=r) for n, d, a, sd, r in
                       itertools.product((0, 7), (1, 3), (2,), (None, 5), ("MT", "RANLUX24"))]:
                path = os.path.join(scratch, "control.py")
                with open(path, "w") as f:
                    f.write("from KMCLib import *\ncp = KMCControlParameters(%s)\n" % ", ".join("%s=%r" % x for x in kw.items()))
                out.evals += 1
                out.states += 1
                with vp.quiet():
                    c = sr.getScriptComponent(path, K.KMCControlParameters)
                    d = K.KMCControlParameters(**kw)
                if [c.numberOfSteps(), c.dumpInterval(), c.analysisInterval(), c.rngType(), c.timeSeed()] != [d.numberOfSteps(), d.dumpInterval(), d.analysisInterval(), d.rngType(), d.timeSeed()] \
                        or (kw["seed"] is not None and c.seed() != kw["seed"]):
                    out.violation("control parameters read from a file differ from those of the executed script", given=kw)
            # a missing file is reported by the library
            for fun in (sr.KMCConfigurationFromScript, sr.KMCInteractionsFromScript, sr.KMCLatticeModelFromScript):
                out.evals += 1
                try:
                    fun(os.path.join(scratch, "none.py"))
                    out.violation("reading a missing file gives no error")
                except Exception as ex:
                    if type(ex).__name__ != "Error":
                        out.violation("reading a missing file raises %s" % type(ex).__name__)
                with open(os.path.join(scratch, "nothing.py"), "w") as f:
                    f.write("x = 1\n")
                if fun(os.path.join(scratch, "nothing.py")) is not None:
                    out.violation("reading a file without the object gives something")
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    out.traces += out.states


def procs_of(inter):
    for k, v in vars(inter).items():
        if k.endswith("__processes") and isinstance(v, (list, tuple)):
            return v
    return None


def job(params, out):
    (states if params["mode"] == "states" else inputs)(params, out)


def odd_models():
    """Models whose numbers need full precision."""
    out = []
    third = 1. / 3
    s = scen.sys_("odd-numbers", [[0., 0., 0.], [third, 2 * third, .1]], (3, 3, 1), (True, True, False), ["V"] * 17 + ["A"], ["V", "A"],
                  [scen.hop([third, 2 * third, .1], third, basis=(0,)), scen.hop([-third, -2 * third, -.1], 1e-7 / 3, basis=(1,)), scen.flip("V", "A", 1.23456789012345, basis=(0,)),
                   scen.flip("A", "V", 9.87654321e9, basis=(1,))], cell=[[math.sqrt(2), 0., 0.], [-math.sqrt(2) / 2, 1.1, 0.], [1e-3 / 7, 0., math.pi]])
    out.append(s)
    s = scen.sys_("odd-names", [scen.O], (5, 1, 1), (True, False, False), ["it's", "a b", 'q"q', "a b", "a b"], ["a b", "it's", 'q"q', "spare"],
                  [scen.hop(scen.X, 1.0, a="it's", v="a b"), scen.flip("a b", 'q"q', .1), scen.flip('q"q', "a b", .2)])
    out.append(s)
    return out


def jobs():
    th = vp.thorough()
    js = []
    for s in scen.plain() + scen.buckets() + odd_models():
        js.append(dict(name="states:" + s["name"], mode="states", spec=s, cap=2000 if th else 60, steps=20000 if th else 300, fire=99 if th else 2))
    for s in scen.large() + scen.large_buckets():
        js.append(dict(name="states:" + s["name"], mode="states", spec=s, cap=8 if th else 2, steps=8 if th else 2, fire=1, light=True))
    for s in scen.families(th)[::1 if th else 3]:
        js.append(dict(name="states:" + s["name"], mode="states", spec=s, cap=40 if th else 3, steps=100 if th else 4, fire=2 if th else 1, light=True))
    js.append(dict(name="cells", mode="in", what="cells", th=th))
    for w, n in (("processes", 16), ("buckets", 8), ("configurations", 8), ("interactions", 4), ("sizes", 16)):
        for i in range(n):
            js.append(dict(name="%s:%d" % (w, i), mode="in", what=w, part=i, parts=n, th=th))
    js.append(dict(name="locals", mode="in", what="locals", th=th))
    js.append(dict(name="files", mode="in", what="files", th=th))
    return js


if __name__ == "__main__":
    vp.main(PID, jobs(), job, floor=500,
            bounds="every reachable state (up to the stated cap) of each listed model, every event in the rebuilt model (or the stated number); all listed combinations of numbers, names, formats and notations for each component; lists of every length up to 60 to 129 (419)",
            assumptions=["custom rate calculators are not part of scripts", "scripts are executed after importing everything from KMCLib"])

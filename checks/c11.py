"""C11: lattice indexing, neighbours and wrapping describe one consistent geometry."""
import itertools, math, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import numpy
import vp, scen, calcs
from sysm import Sys
from ref import Ref, Lattice

PID = "C11"
BASES = {
    1: [[0., 0., 0.]],
    2: [[.25, .5, .125], [.75, 0., .625]],
    3: [[0., 0., 0.], [1. / 3, 2. / 3, .5], [.9999, .1, .3]],
    4: [[.6, .6, .6], [.1, .1, .1], [.1, .6, .1], [.6, .1, .6]],
}
CELLS = [[[1., 0., 0.], [0., 1., 0.], [0., 0., 1.]], [[2., 0., 0.], [.7, 1.9, 0.], [.3, -.4, 3.1]], [[.5, -.5, .1], [.4, .6, 0.], [-.2, .3, 7.]]]


def make_lattice(K, b, reps, per, cell):
    uc = K.KMCUnitCell(cell_vectors=cell, basis_points=BASES[b])
    return K.KMCLattice(unit_cell=uc, repetitions=tuple(reps), periodic=tuple(per))


def wrapped_cells(c, sh, lat):
    """Cells within sh shells of cell c."""
    r = []
    for l in range(3):
        s = set()
        for x in range(c[l] - sh, c[l] + sh + 1):
            if lat.periodic[l]:
                s.add(x % lat.reps[l])
            elif 0 <= x < lat.reps[l]:
                s.add(x)
        r.append(sorted(s))
    return itertools.product(*r)


def lattice(params, out, b, reps, per, shells, cell):
    K, _ = vp.load()
    from KMCLib.Backend import Backend
    L = make_lattice(K, b, reps, per, cell)
    lat = Lattice(dict(basis=BASES[b], reps=reps, periodic=per))
    where = dict(basis=BASES[b], repetitions=list(reps), periodic=list(per))
    m = L._map()
    out.states += 1

    def bad(what, **kw):
        out.violation(what, **dict(where, **kw))

    # -- what the objects say about themselves
    if tuple(L.repetitions()) != tuple(reps) or tuple(L.periodic()) != tuple(per):
        bad("the lattice does not report its repetitions and periodicity", reported=(L.repetitions(), L.periodic()))
    if (m.nBasis(), m.repetitionsA(), m.repetitionsB(), m.repetitionsC()) != (lat.nb,) + tuple(reps) or \
            (bool(m.periodicA()), bool(m.periodicB()), bool(m.periodicC())) != tuple(per):
        bad("the lattice map does not have the repetitions and periodicity of the lattice")
    sites = numpy.array(L.sites())
    if sites.shape != (lat.n, 3):
        bad("wrong number of sites", shape=sites.shape)
        return
    cart = numpy.array(L.unitCell().transformToCartesian(sites))
    for idx in range(lat.n):
        i, j, k, bb = lat.cell(idx)
        c = lat.coord(idx)
        out.evals += 1
        if max(abs(sites[idx][l] - c[l]) for l in range(3)) > 1e-12:
            bad("the position of a site is not its cell plus its basis point", index=idx, position=list(sites[idx]), expected=c)
        if L._globalIndex(i, j, k, bb) != idx:
            bad("cell and basis do not give the global index", cell=(i, j, k, bb), index=L._globalIndex(i, j, k, bb), expected=idx)
        got = sorted(m.neighbourIndices(idx, 0))
        if got != [lat.index(i, j, k, x) for x in range(lat.nb)]:
            bad("the lattice map puts a site into a wrong cell", index=idx, cell_sites=got, expected=(i, j, k))
        if m.basisSiteFromIndex(idx) != bb:
            bad("the lattice map gives a wrong basis site", index=idx, basis_site=m.basisSiteFromIndex(idx), expected=bb)
        if bb == 0 and list(m.indicesFromCell(i, j, k)) != [lat.index(i, j, k, x) for x in range(lat.nb)]:
            bad("the lattice map gives wrong sites for a cell", cell=(i, j, k), sites=list(m.indicesFromCell(i, j, k)))
        exp = [sum(c[r] * cell[r][l] for r in range(3)) for l in range(3)]
        if max(abs(cart[idx][l] - exp[l]) for l in range(3)) > 1e-10:
            bad("the Cartesian position is not the combination of the cell vectors", index=idx, got=list(cart[idx]), expected=exp)
    if sorted(set(tuple(map(float, s)) for s in sites)) != sorted(tuple(map(float, s)) for s in sites):
        bad("two sites have the same position")
    # -- neighbours
    nbrs = {}
    for sh in shells:
        for idx in range(lat.n):
            c = lat.cell(idx)
            exp = sorted(lat.index(i, j, k, x) for i, j, k in wrapped_cells(c, sh, lat) for x in range(lat.nb))
            got = list(m.neighbourIndices(idx, sh))
            out.evals += 1
            out.transitions += len(got)
            fits = all(not lat.periodic[l] or lat.reps[l] >= 2 * sh + 1 for l in range(3))
            if (sorted(got) if fits else sorted(set(got))) != exp:
                bad("the neighbourhood of a site is not the cells around it", index=idx, shells=sh, got=sorted(got), expected=exp)
            nbrs[(sh, idx)] = set(exp)
            if b != 1 and idx % lat.nb:
                continue
        # symmetric
        for idx in range(lat.n):
            for o in nbrs[(sh, idx)]:
                if idx not in nbrs[(sh, o)]:
                    bad("harness: reference neighbourhood is not symmetric")
        # super set: all pairs (and the triple of first, middle, last)
        sets = [(a,) for a in range(lat.n)] + [(a, o) for a in range(0, lat.n, max(1, lat.n // 7)) for o in range(0, lat.n, max(1, lat.n // 11))]
        sets += [(lat.n - 1, 0, lat.n // 2), (0, 0, 0), tuple(range(lat.n)), ()]
        for s in sets:
            got = list(m.supersetNeighbourIndices(Backend.StdVectorInt(list(s)), sh))
            exp = sorted(set().union(*[nbrs[(sh, x)] for x in s]) if s else set())
            out.evals += 1
            if len(set(got)) != len(got) or sorted(got) != exp:
                bad("the joint neighbourhood of several sites is not the union of their neighbourhoods", sites=s, shells=sh, got=got[:40], expected=exp[:40])
    # -- wrapping of displacements
    for a in range(lat.n):
        for o in range(0, lat.n, 1 if lat.n <= 48 else 5):
            d = [lat.coord(o)[l] - lat.coord(a)[l] for l in range(3)]
            c = Backend.Coordinate(*d)
            m.wrap(c)
            w = (c.x(), c.y(), c.z())
            out.evals += 1
            for l in range(3):
                if not lat.periodic[l]:
                    ok = abs(w[l] - d[l]) < 1e-12
                else:
                    q = (w[l] - d[l]) / lat.reps[l]
                    ok = abs(q - round(q)) < 1e-9 and abs(w[l]) <= .5 * lat.reps[l] + 1e-9
                if not ok:
                    bad("a displacement is not wrapped to its shortest periodic image", displacement=d, direction=l, wrapped=w)
            for l in range(3):
                c1 = Backend.Coordinate(*d)
                m.wrap(c1, l)
                w1 = (c1.x(), c1.y(), c1.z())
                for l2 in range(3):
                    if l2 != l and abs(w1[l2] - d[l2]) > 1e-12:
                        bad("wrapping one direction changed another", displacement=d, direction=l, wrapped=w1)
                if lat.periodic[l] and abs(w1[l] - w[l]) > 1e-9:
                    bad("wrapping one direction alone differs from wrapping all", displacement=d, direction=l, wrapped=w1, all=w)
    # -- moving by whole cells
    for idx in range(lat.n):
        c = lat.cell(idx)
        for mv in itertools.product((-1, 0, 1), repeat=3):
            tgt, ok = [], True
            for l in range(3):
                x = c[l] + mv[l]
                if lat.periodic[l]:
                    x %= lat.reps[l]
                elif not 0 <= x < lat.reps[l]:
                    ok = False
                tgt.append(x)
            if not ok:
                continue
            for nb in range(lat.nb):
                out.evals += 1
                got = m.indexFromMoveInfo(idx, mv[0], mv[1], mv[2], nb - c[3])
                if got != lat.index(tgt[0], tgt[1], tgt[2], nb):
                    bad("moving from a site by whole cells ends at a wrong site", index=idx, cells=mv, basis_change=nb - c[3], got=got,
                        expected=lat.index(tgt[0], tgt[1], tgt[2], nb))


def end_to_end(params, out):
    """The geometry as a simulation uses it: the surroundings shown to a rate calculator, for every site."""
    K, _ = vp.load()
    for b, reps, per, cell, cut in params["cases"]:
        n = reps[0] * reps[1] * reps[2] * len(BASES[b])
        types = [("A", "B", "V")[(x * x + x // 3) % 3] for x in range(n)]
        procs = []
        for bb in range(len(BASES[b])):
            procs += [scen.flip(a, c, 1.0, basis=(bb,)) for a, c in (("A", "B"), ("B", "V"), ("V", "A"))]
        spec = scen.sys_("geometry", BASES[b], reps, per, types, ["V", "A", "B"], procs, cell=cell)
        sc = dict(func="counting", cutoff=cut)
        calc = calcs.make_calc(K, sc)
        calc.calls = []
        s = Sys(spec, calc=calc)
        ref = Ref(spec)
        rr = calcs.RefRates(ref, sc)
        st = s.state()
        out.states += 1
        where = dict(basis=BASES[b], repetitions=reps, periodic=per, cutoff=cut)
        seen = set()
        for call in calc.calls:
            proc, glob, env = call[0], call[1], call[2]
            site = ref.lat.locate(glob)
            out.evals += 1
            if site is None:
                out.violation("the rate calculator is given a position that is no site", position=glob, **where)
                continue
            seen.add(site)
            if (proc, site) not in ref.events(st) or list(env) != rr.env(st, (proc, site)):
                exp = rr.env(st, (proc, site)) if (proc, site) in ref._tgt else None
                out.violation("the surroundings of a site in a simulation are not those of the lattice", site=site, process=proc,
                              extra=[x for x in env if not exp or x not in exp][:5], missing=[x for x in exp or () if x not in env][:5], **where)
        if len(seen) != n:
            out.violation("not every site was seen by the rate calculator", seen=len(seen), sites=n, **where)
        # positions of the atoms of a fresh configuration and the sites of the configuration
        co = s.config.atomIDCoordinates()
        sites = s.config.sites()
        for i in range(n):
            c = ref.lat.coord(i)
            if max(abs(co[i][l] - c[l]) for l in range(3)) > 1e-12 or max(abs(sites[i][l] - c[l]) for l in range(3)) > 1e-12:
                out.violation("an atom of a fresh configuration is not at its site", site=i, **where)
        # the super cell and repetition queries
        if tuple(s.config.cellRepetitions()) != tuple(reps):
            out.violation("the configuration reports other repetitions than its lattice", **where)


ALIKE = {
    1: [[[0., 0., 0.]], [[.5, .25, 0.]], [[.1, .2, .3]]],
    2: [BASES[2], [[0., 0., 0.], [.5, .5, .5]], [[.75, 0., .625], [.25, .5, .125]]],
    3: [BASES[3], [[0., .5, .5], [.5, 0., .5], [.5, .5, 0.]]],
}


def alike(params, out):
    """Several lattices of the same shape live next to each other: each keeps its own geometry.  Every order of making
    two of the lattices, both asked after both were made, and the first one asked before, between and after."""
    K, _ = vp.load()
    for nb, reps, per in params["cases"]:
        kinds = [(b, c) for b in ALIKE[nb] for c in CELLS[:2]]
        for first, second in itertools.permutations(kinds, 2):
            made = []
            for basis, cell in (first, second):
                L = K.KMCLattice(unit_cell=K.KMCUnitCell(cell_vectors=cell, basis_points=basis), repetitions=tuple(reps), periodic=tuple(per))
                n = reps[0] * reps[1] * reps[2] * nb
                made.append((basis, cell, L, K.KMCConfiguration(lattice=L, types=["A"] * n, possible_types=["A", "B"])))
                for basis2, cell2, L2, C2 in made:
                    lat = Lattice(dict(basis=basis2, reps=reps, periodic=per))
                    out.evals += 1
                    for what, got in (("lattice", L2.sites()), ("configuration", C2.sites()), ("atoms", C2.atomIDCoordinates())):
                        for i in range(lat.n):
                            c = lat.coord(i)
                            if len(got) != lat.n or max(abs(got[i][l] - c[l]) for l in range(3)) > 1e-12:
                                out.violation("a lattice does not keep its own geometry next to one of the same shape", view=what, index=i, got=list(got[i]), expected=c,
                                              made=[m[:2] for m in made], repetitions=list(reps), periodic=list(per))
                                return
                    cart = numpy.array(L2.unitCell().transformToCartesian(numpy.array([lat.coord(i) for i in range(lat.n)])))
                    for i in range(lat.n):
                        c = lat.coord(i)
                        exp = [sum(c[r] * cell2[r][l] for r in range(3)) for l in range(3)]
                        if max(abs(cart[i][l] - exp[l]) for l in range(3)) > 1e-10:
                            out.violation("a lattice does not keep its own cell next to one of the same shape", index=i, got=list(cart[i]), expected=exp,
                                          made=[m[:2] for m in made])
                            return
            out.states += 2
            out.transitions += 2


def large(params, out):
    """Lattices with more cells than a test can hold in memory, through the lattice map alone: all cells at the corners,
    in the middle and next to the powers of two, with their neighbours and moves."""
    K, _ = vp.load()
    from KMCLib.Backend import Backend
    small = make_lattice(K, 1, (1, 1, 1), (True,) * 3, CELLS[0])._map()
    for nb, reps, per in params["cases"]:
        m = type(small)(nb, Backend.StdVectorInt(list(reps)), Backend.StdVectorBool(list(per)))
        lat = Lattice(dict(basis=[[.1 * x, 0., 0.] for x in range(nb)], reps=reps, periodic=per))
        ncell = reps[0] * reps[1] * reps[2]
        cells = set(itertools.product(*[[x for x in (0, 1, 2, n // 2, n - 3, n - 2, n - 1) if 0 <= x < n] for n in reps]))
        for p in range(31):
            for x in range(2 ** p - 2, 2 ** p + 3):
                for y in (x, x // nb, ncell - x, x // reps[2] * reps[2], x // (reps[1] * reps[2]) * reps[1] * reps[2]):
                    for z in (y - 1, y, y + 1):
                        if 0 <= z < ncell:
                            cells.add((z // (reps[1] * reps[2]), z // reps[2] % reps[1], z % reps[2]))
        for c in sorted(cells):
            out.states += 1
            for bb in range(nb):
                idx = lat.index(*c, bb)
                where = dict(n_basis=nb, repetitions=list(reps), periodic=list(per), cell=c, basis_site=bb, index=idx)
                for sh in (0, 1):
                    exp = sorted(set(lat.index(i, j, k, x) for i, j, k in wrapped_cells(c, sh, lat) for x in range(nb)))
                    got = sorted(set(m.neighbourIndices(idx, sh)))
                    out.evals += 1
                    out.transitions += len(got)
                    if got != exp:
                        out.violation("the neighbourhood of a site of a large lattice is not the cells around it", shells=sh, got=got, expected=exp, **where)
                        return
                if m.basisSiteFromIndex(idx) != bb or list(m.indicesFromCell(*c)) != [lat.index(*c, x) for x in range(nb)]:
                    out.violation("cell, basis site and index disagree on a large lattice", **where)
                    return
                for l in range(3):
                    for d in (-1, 1):
                        t = list(c)
                        t[l] += d
                        if lat.periodic[l]:
                            t[l] %= reps[l]
                        elif not 0 <= t[l] < reps[l]:
                            continue
                        mv = [0, 0, 0]
                        mv[l] = d
                        out.evals += 1
                        if m.indexFromMoveInfo(idx, mv[0], mv[1], mv[2], 0) != lat.index(*t, bb):
                            out.violation("moving from a site of a large lattice by one cell ends at a wrong site", cells=mv, **where)
                            return


def job(params, out):
    if params["mode"] == "large":
        large(params, out)
        out.traces += len(params["cases"])
    elif params["mode"] == "alike":
        alike(params, out)
        out.traces += len(params["cases"])
    elif params["mode"] == "lattice":
        for b, reps, per, shells, cell in params["cases"]:
            lattice(params, out, b, reps, per, shells, CELLS[cell])
            out.outcome((b, tuple(per)))
        out.traces += len(params["cases"])
    else:
        end_to_end(params, out)
        out.traces += len(params["cases"])


def jobs():
    th = vp.thorough()
    cases = []
    R = range(1, 6 if th else 5)
    lim = 400 if th else 130
    for b in BASES:
        for reps in itertools.product(R, repeat=3):
            n = reps[0] * reps[1] * reps[2] * len(BASES[b])
            if n > lim or (b > 1 and not th and (sum(reps) + b) % 3):
                continue
            for per in itertools.product((True, False), repeat=3):
                cases.append([b, reps, per, [1, 2] if th or n < 30 else [1 + sum(reps) % 2], sum(reps) % 3])
    for reps in ((7, 2, 1), (1, 9, 2), (2, 1, 11), (13, 1, 1), (6, 6, 1)):
        for per in itertools.product((True, False), repeat=3):
            cases.append([2, reps, per, [0, 1, 3], 1])
            cases.append([1, reps, per, [4, 5], 2])
    js = []
    k = 96
    for i in range(k):
        if cases[i::k]:
            js.append(dict(name="lattices:%d" % i, mode="lattice", cases=cases[i::k]))
    al = [[nb, reps, per] for nb in ALIKE for reps in ((2, 2, 1), (3, 1, 2), (1, 2, 3), (2, 3, 2)) for per in ((True,) * 3, (True, False, True), (False,) * 3)]
    for i in range(12):
        js.append(dict(name="alike:%d" % i, mode="alike", cases=al[i::12]))
    big = [[nb, reps, per] for nb, shapes in ((1, ((300, 300, 300), (30000, 1000, 1), (1, 1, 30000000), (1, 30000000, 1), (30000000, 1, 1), (3, 5477, 2000), (1290, 1290, 1290))),
                                              (2, ((400, 300, 200), (1000, 1000, 1000), (7, 1, 2500000))), (3, ((300, 211, 300), (2, 16777216, 5))), (4, ((512, 512, 512),)))
           for reps in shapes for per in (itertools.product((True, False), repeat=3) if th else ((True,) * 3, (False, True, False), (True, False, True)))]
    for i in range(12):
        js.append(dict(name="large:%d" % i, mode="large", cases=big[i::12]))
    e2e = []
    for b in BASES:
        for per in itertools.product((True, False), repeat=3):
            for cut in (.8, 1.0, 1.3) + ((1.9, 2.0) if th or b == 1 else ()):
                # reach: cells that sites within the cutoff can be away (basis offsets reach into the next cell)
                off = max(abs(x[l] - y[l]) for x in BASES[b] for y in BASES[b] for l in range(3))
                r = int(math.floor(cut + off + 1e-9)) if b > 1 else int(cut)
                for big in ((2 * r + 1, 2 * r + 2, 2 * r + 1), (2 * r + 2, 2 * r + 1, 2 * r + 3)):
                    reps = tuple(big[l] if per[l] else (1, 3, 2)[(l + b) % 3] for l in range(3))
                    if reps[0] * reps[1] * reps[2] * len(BASES[b]) <= (1200 if th else 260):
                        e2e.append([b, reps, per, CELLS[b % 3], cut])
    for i in range(32):
        if e2e[i::32]:
            js.append(dict(name="simulation:%d" % i, mode="e2e", cases=e2e[i::32]))
    return js


if __name__ == "__main__":
    vp.main(PID, jobs(), job, floor=300,
            bounds="all lattices with up to 4 (5) repetitions per direction within a size limit, all 8 periodicities, four bases, shells 0 to 5; every site, every pair of sites, every move by one cell")

"""Catalogue of small model descriptions (see ref.py for the format)."""
import itertools, math

T, F = True, False
O = [0., 0., 0.]


def hop(d, rate=1.0, a="A", v="V", basis=(0,), move="auto", o=O):
    p = dict(coords=[list(o), [o[i] + d[i] for i in range(3)]], before=[a, v], after=[v, a], basis=list(basis), rate=rate, move=None)
    if move == "explicit":
        p["move"] = [(0, tuple(d)), (1, tuple(-x for x in d))]
    return p


def flip(a, b, rate=1.0, basis=(0,)):
    return dict(coords=[O], before=[a], after=[b], basis=list(basis), rate=rate, move=None)


def proc(coords, before, after, rate=1.0, basis=(0,), move=None):
    return dict(coords=[list(map(float, c)) for c in coords], before=list(before), after=list(after), basis=list(basis), rate=rate, move=move)


def bproc(coords, match, update, rate=1.0, basis=(0,)):
    return dict(kind="b", coords=[list(map(float, c)) for c in coords], match=list(match), update=list(update), basis=list(basis), rate=rate)


def sys_(name, basis, reps, periodic, types, possible, procs, implicit=True, **kw):
    d = dict(name=name, basis=[list(map(float, b)) for b in basis], reps=list(reps), periodic=list(periodic), types=list(types),
             possible=list(possible), procs=procs, implicit=implicit)
    d.update(kw)
    return d


X, Y, Z = [1., 0., 0.], [0., 1., 0.], [0., 0., 1.]
mX, mY, mZ = [-1., 0., 0.], [0., -1., 0.], [0., 0., -1.]


def n_of(name, n):
    return name * 0 + str(n)


def ring_hop(n=5, types=None, per=(T, F, F)):
    types = types or ["A", "A"] + ["V"] * (n - 2)
    return sys_("ring%d-hop" % n, [O], (n, 1, 1), per, types, ["A", "V"], [hop(X, 1.3), hop(mX, 0.7)])


def ring_axis(axis, n=5):
    d = [0., 0., 0.]
    d[axis] = 1.0
    m = [-x for x in d]
    reps = [1, 1, 1]
    reps[axis] = n
    per = [F, F, F]
    per[axis] = T
    return sys_("ring%d-axis%d" % (n, axis), [O], reps, per, ["A", "B", "V", "V", "V"][:n], ["V", "A", "B"],
                [hop(d, 1.0), hop(m, 2.0), hop(d, 3.0, a="B"), hop(m, 0.1, a="B"), hop(d, 0.2, a="A", v="B")])


def ads_des_hop(n=5, per=(T, F, F), lat=(1, 1)):
    return sys_("adsdes%d" % n, [O], (n, 1, 1), per, ["V"] * n, ["V", "A"],
                [flip("V", "A", 0.25), flip("A", "V", 4.0), hop(X, 1.5), hop(mX, 1e-3)])


def two_species(n=4):
    n = 5
    return sys_("two-species", [O], (n, 1, 1), (T, F, F), ["V", "A", "B", "V", "A"], ["A", "V", "B"],
                [flip("V", "A", 0.3), flip("V", "B", 0.9), proc([O, X], ["A", "B"], ["V", "V"], 2.2),
                 proc([O, mX], ["A", "B"], ["V", "V"], 5.0), hop(X, 1.0), hop(mX, 1.0)])


def cyclic3(n=4):
    return sys_("cyclic3", [O], (5, 1, 1), (T, F, F), list("ABCAB"), ["A", "B", "C"],
                [flip("A", "B", 1.0), flip("B", "C", 2.0), flip("C", "A", 3.0),
                 proc([O, X, mX], ["A", "B", "C"], ["B", "C", "A"], 0.5)])


def ising2d(n=3):
    nb = [O, X, mX, Y, mY]
    procs, r = [], 0.5
    for c in itertools.product("UD", repeat=4):
        if c.count("U") >= 2:
            procs.append(proc(nb, ["U"] + list(c), ["D"] + list(c), r))
            r += 0.37
        else:
            procs.append(proc(nb, ["D"] + list(c), ["U"] + list(c), r))
            r += 0.11
    types = ["U"] * (n * n)
    return sys_("ising2d", [O], (n, n, 1), (T, T, F), types, ["U", "D"], procs)


def grid2d(n=3, types=None, axes=(0, 1)):
    d = [[0., 0., 0.], [0., 0., 0.]]
    d[0][axes[0]] = 1.0
    d[1][axes[1]] = 1.0
    reps, per = [1, 1, 1], [F, F, F]
    for a in axes:
        reps[a], per[a] = n, T
    procs = []
    for i, v in enumerate(d + [[-x for x in q] for q in d]):
        procs.append(hop(v, 1.0 + i))
    diag = [d[0][i] + d[1][i] for i in range(3)]
    procs.append(hop(diag, 0.3))
    types = types or ["A", "A"] + ["V"] * (n * n - 2)
    return sys_("grid2d-%d%d" % axes, [O], reps, per, types, ["V", "A"], procs)


def two_basis(n=3, implicit=True, origin=0.0):
    """Two sublattices; hops between them in all four directions (a in-cell offset of half a cell)."""
    b = [[origin, origin, 0.], [origin + 0.5, origin + 0.5, 0.]]
    h = [[.5, .5, 0.], [-.5, .5, 0.], [.5, -.5, 0.], [-.5, -.5, 0.]]
    procs = [hop(v, 1.0 + 0.1 * i, basis=(0,)) for i, v in enumerate(h)]
    procs += [hop(v, 2.0 + 0.1 * i, basis=(1,)) for i, v in enumerate(h)]
    procs += [flip("V", "A", 0.01, basis=(1,)), flip("A", "V", 0.02, basis=(0, 1))]
    types = ["V"] * (2 * n * n)
    types[0] = "A"
    return sys_("two-basis", b, (n, n, 1), (T, T, F), types, ["V", "A"], procs)


def two_basis_1d(n=4):
    b = [[0., 0., 0.], [.25, 0., 0.]]
    procs = [hop([.25, 0., 0.], 1.0, basis=(0,)), hop([-.25, 0., 0.], 2.0, basis=(1,)),
             hop([.75, 0., 0.], 0.5, basis=(1,)), hop([-.75, 0., 0.], 0.25, basis=(0,)),
             hop([1., 0., 0.], 0.125, basis=(1,)), flip("V", "A", 0.3, basis=(0,)), flip("A", "V", 0.7, basis=(1,))]
    return sys_("two-basis-1d", b, (n, 1, 1), (T, F, F), ["A"] + ["V"] * (2 * n - 1), ["V", "A"], procs)


def three_basis(n=3):
    b = [[0.1, 0.2, 0.3], [.4, 0.7, 0.3], [.9, 0.2, 0.8]]
    d01 = [.3, .5, 0.]
    d12 = [.5, -.5, .5]
    d20 = [.2, 0., -.5]
    neg = lambda v: [-x for x in v]
    procs = [hop(d01, 1.0, basis=(0,)), hop(neg(d01), 1.1, basis=(1,)), hop(d12, 1.2, basis=(1,)), hop(neg(d12), 1.3, basis=(2,)),
             hop(d20, 1.4, basis=(2,)), hop(neg(d20), 1.5, basis=(0,)), flip("V", "A", .1, basis=(2,)), flip("A", "V", .1, basis=(0,))]
    return sys_("three-basis", b, (n, 1, 1), (T, F, F), ["A"] + ["V"] * (3 * n - 1), ["V", "A"], procs)


def range2(n=5):
    return sys_("range2", [O], (n, 1, 1), (T, F, F), ["A", "A"] + ["V"] * (n - 2), ["V", "A"],
                [hop([2., 0., 0.], 1.0), hop([-2., 0., 0.], 2.0), proc([O, X, [2., 0., 0.]], ["A", "A", "V"], ["V", "A", "A"], 0.5),
                 proc([O, mX, [2., 0., 0.]], ["A", "V", "V"], ["V", "A", "A"], 0.7), flip("V", "A", 0.01), flip("A", "V", .01)])


def wild(n=5):
    return sys_("wildcards", [O], (n, 1, 1), (T, F, F), ["A", "B", "V", "V", "B"][:n], ["V", "A", "B"],
                [proc([O, X, mX], ["A", "*", "V"], ["V", "*", "A"], 1.0), proc([O, mX, X], ["A", "*", "V"], ["V", "*", "A"], 1.1),
                 proc([O, X, mX], ["*", "B", "V"], ["*", "V", "B"], 1.3), proc([O, X], ["*", "A"], ["*", "B"], 0.4),
                 proc([O, mX, X], ["B", "*", "*"], ["A", "*", "*"], 0.3)])


def nonper_full(n=5):
    """Non-periodic line with complete neighbour lists: no wildcard slot is needed."""
    nb = [O, mX, X]
    procs = []
    for c in ("A", "V"):
        procs.append(proc(nb, ["A", c, "V"], ["V", c, "A"], 1.0 if c == "A" else 1.5))
        procs.append(proc(nb, ["A", "V", c], ["V", "A", c], 2.0 if c == "A" else 2.5))
    procs += [flip("V", "A", .3), flip("A", "V", .7), proc([O, mX], ["A", "A"], ["V", "V"], 0.1)]
    return sys_("nonper-full", [O], (n, 1, 1), (F, F, F), ["A"] + ["V"] * (n - 1), ["V", "A"], procs)


def nonper_basis(n=3):
    """Non-periodic, two basis sites, in-cell hops only need positions that always exist."""
    b = [[0., 0., 0.], [.5, 0., 0.]]
    procs = [hop([.5, 0., 0.], 1.0, basis=(0,)), hop([-.5, 0., 0.], 2.0, basis=(1,)), flip("V", "A", .5, basis=(0, 1)),
             flip("A", "V", .25, basis=(0,))]
    return sys_("nonper-basis", b, (n, 1, 1), (F, F, F), ["A"] + ["V"] * (2 * n - 1), ["V", "A"], [procs[1], procs[2], procs[3]])


def mixed_periodic(per):
    """Single-site chemistry on every periodicity, plus complete-list pair process along a."""
    procs = [flip("V", "A", 1.0), flip("A", "B", 2.0), flip("B", "V", 3.0)]
    if per[0]:
        procs += [hop(X, 1.0), hop(mX, 1.5)]
    else:
        procs += [proc([O, mX], ["A", "V"], ["V", "A"], 0.5)]
    return sys_("mixedper-%d%d%d" % tuple(map(int, per)), [O], (3, 1, 1), per, ["V", "A", "B"], ["V", "A", "B"], procs)


def grid3d(per=(T, T, T), nvac=1):
    n = 27
    types = ["A"] * n
    for i in range(nvac):
        types[13 + i] = "V"
    procs = [hop(v, 1.0 + 0.01 * i) for i, v in enumerate([X, mX, Y, mY, Z, mZ])]
    procs.append(hop([1., 1., 1.], .3))
    return sys_("grid3d", [O], (3, 3, 3), per, types, ["A", "V"], procs)


def multi_basis_single():
    """One process on several basis sites (no implicit wildcards for it); complete lists."""
    b = [[0., 0., 0.], [.5, 0., 0.]]
    procs = [flip("V", "A", 1.0, basis=(0, 1)), flip("A", "V", 2.0, basis=(1, 0)),
             proc([O, [-.5, 0., 0.]], ["A", "V"], ["V", "A"], .5, basis=(0, 1)),
             proc([O, [-.5, 0., 0.], [.5, 0., 0.]], ["A", "A", "V"], ["V", "A", "A"], .7, basis=(0, 1))]
    return sys_("multi-basis", b, (3, 1, 1), (T, F, F), ["V"] * 6, ["V", "A"], procs)


def many_procs():
    """Duplicate processes and processes of vanishing weight."""
    procs = [hop(X, 1.0), hop(X, 1.0), hop(mX, 1e-12), flip("V", "A", 1e6), flip("A", "V", 1e-6), hop(mX, 3.0), proc([O, X, mX], ["V", "V", "V"], ["A", "V", "V"], 2.)]
    return sys_("many-procs", [O], (5, 1, 1), (T, F, F), ["V"] * 5, ["V", "A"], procs)


def rotate3(n=5):
    """Concerted moves of three atoms with explicit move vectors, including same-type exchanges."""
    mv = [(0, (1., 0., 0.)), (1, (1., 0., 0.)), (2, (-2., 0., 0.))]
    c = [O, X, [2., 0., 0.]]
    procs = [proc(c, ["A", "B", "V"], ["V", "A", "B"], 1.0, move=mv), proc(c, ["A", "A", "V"], ["V", "A", "A"], 1.5, move=mv),
             proc(c, ["B", "A", "V"], ["V", "B", "A"], 0.5, move=mv), hop(mX, .2), hop(mX, .3, a="B", move="explicit"), hop(X, .7, a="A", v="B"),
             proc([O, mX, X], ["V", "A", "A"], ["A", "A", "V"], .9, move=[(0, (1., 0., 0.)), (2, (-1., 0., 0.))])]
    return sys_("rotate3", [O], (n, 1, 1), (T, F, F), ["A", "B", "V", "A", "V"], ["V", "A", "B"], procs)


def oblique(n=3):
    s = grid2d(n)
    s["name"] = "oblique"
    s["cell"] = [[2.0, 0.0, 0.0], [0.7, 1.9, 0.0], [0.3, -0.4, 3.1]]
    return s


def hexagonal(n=3):
    a, b = 1. / 3, 2. / 3
    bas = [[0., 0., 0.], [a, b, 0.]]
    h0 = [[a, b, 0.], [a - 1, b - 1, 0.], [a, b - 1, 0.]]
    procs = [hop(v, 1.0 + .1 * i, basis=(0,)) for i, v in enumerate(h0)]
    procs += [hop([-x for x in v], 2.0 + .1 * i, basis=(1,)) for i, v in enumerate(h0)]
    procs += [flip("V", "A", .01, basis=(0,)), flip("A", "V", .01, basis=(1,))]
    types = ["V"] * (2 * n * n)
    types[3] = "A"
    return sys_("hexagonal", bas, (n, n, 1), (T, T, F), types, ["V", "A"], procs,
                cell=[[1., 0., 0.], [-.5, math.sqrt(3) / 2, 0.], [0., 0., 1.]])


def implicit_false(n=5):
    nb = [O, mX, X]
    procs = [proc(nb, ["A", "*", "V"], ["V", "*", "A"], 1.0), proc(nb, ["A", "V", "*"], ["V", "A", "*"], 2.0), flip("V", "A", .5), flip("A", "V", .25)]
    return sys_("implicit-false", [O], (n, 1, 1), (T, F, F), ["A"] + ["V"] * (n - 1), ["V", "A"], procs, implicit=False)


def flat_periodic(n=5):
    """Periodic in directions with a single repetition in which no process extends."""
    s = ads_des_hop(n)
    s["name"] = "flat-periodic"
    s["periodic"] = [T, T, T]
    return s


def flat_complete(n=5):
    """Periodic in all directions, a single repetition in two of them, complete lists without wildcards."""
    s = implicit_false(n)
    s["name"] = "flat-complete"
    s["periodic"] = [T, T, T]
    return s


def flat_sheet(n=3):
    """A sheet that is periodic also along its single layer; processes on several basis sites."""
    b = [[0., 0., 0.], [.5, .5, .3]]
    nb = site_offsets(b, 0, -1, 1, maxdist=.8, dims=(0, 1))
    procs = [flip("V", "A", 1.0, basis=(0, 1)), flip("A", "V", 2.0, basis=(1, 0)), proc([O] + nb[:2], ["A", "V", "A"], ["V", "A", "A"], .5, basis=(0,))]
    return sys_("flat-sheet", b, (n, n, 1), (T, T, T), ["V"] * 5 + ["A"] + ["V"] * (2 * n * n - 6), ["V", "A"], procs)


# ------------------------------------------------------------------------------------------------ buckets
def bucket1(n=4):
    procs = [bproc([O], [[(0, "A")]], [[(1, "A")]], 1.0), bproc([O], [[(1, "A")]], [[(-1, "A")]], 2.0),
             bproc([O, X], [[(1, "A")], [(0, "A")]], [[(-1, "A")], [(1, "A")]], .5)]
    return sys_("bucket1", [O], (5, 1, 1), (T, F, F), [[], "A", (2, "A"), "A", []], ["A", "B"], procs, buckets=True, cap={"A": 4})


def bucket2():
    procs = [bproc([O, X], ["A", "B"], [[(-1, "A"), (1, "C")], (-1, "B")], 1.0),
             bproc([O, mX], ["A", "B"], [[(-1, "A"), (1, "C")], (-1, "B")], 1.5),
             bproc([O], ["C"], [[(-1, "C"), (1, "A"), (1, "B")]], .7),
             bproc([O, X], [(1, "B"), (0, "A")], [(-1, "B"), (1, "B")], .3),
             bproc([O, mX], [(2, "A"), (0, "A")], [(-2, "A"), (2, "A")], .1)]
    return sys_("bucket2", [O], (5, 1, 1), (T, F, F), ["A", [(2, "A"), "B"], "B", [], ["B", "C"]], ["C", "A", "B"], procs, buckets=True)


def bucket_wild():
    procs = [bproc([O, X, mX], [(1, "A"), "*", (1, "B")], [(-1, "A"), (0, "A"), (1, "A")], 1.0),
             bproc([O, X, mX], ["*", (1, "A"), (0, "A")], [(0, "B"), (-1, "A"), (1, "A")], 2.0),
             bproc([O, mX], ["A", (1, "*")], ["B", (0, "B")], .3) if False else
             bproc([O, mX], ["A", (1, "*")], [[(-1, "A"), (1, "B")], (0, "B")], .3),
             bproc([O], [[(1, "B"), (1, "A")]], [[(-1, "B")]], .4)]
    return sys_("bucket-wild", [O], (5, 1, 1), (T, F, F), ["A", "B", [(2, "A"), "B"], [], "B"], ["A", "B"], procs, buckets=True)


def bucket_mixed():
    """Plain processes working on bucket sites."""
    procs = [hop(X, 1.0, a="A", v="B"), bproc([O], ["A"], [[(-1, "A"), (1, "B")]], .5), bproc([O], [[(2, "B")]], [[(-1, "B")]], .5)]
    return sys_("bucket-mixed", [O], (5, 1, 1), (T, F, F), ["A", "B", [(2, "B"), "A"], "B", "A"], ["A", "B"], procs[1:], buckets=True)


def bucket_basis():
    b = [[0., 0., 0.], [.5, 0., 0.]]
    procs = [bproc([O, [.5, 0., 0.]], [(1, "A"), (0, "A")], [(-1, "A"), (1, "A")], 1.0, basis=(0,)),
             bproc([O, [.5, 0., 0.]], [(2, "A"), (0, "A")], [(-1, "A"), (1, "A")], 2.0, basis=(1,)),
             bproc([O, [-.5, 0., 0.]], [(1, "A"), (0, "B")], [[(-1, "A"), (1, "B")], (1, "A")], .1, basis=(1,)),
             bproc([O], [(1, "B")], [(-1, "B")], .1, basis=(0, 1))]
    return sys_("bucket-basis", b, (3, 1, 1), (T, F, F), [(2, "A"), [], "A", "B", [], []], ["A", "B"], procs, buckets=True)


def near_sites(n=3):
    """Sites much nearer to each other than a cell, but further apart than the matching tolerance."""
    e = 2.0 ** -12
    b = [[0., 0., 0.], [e, 0., 0.], [0., e, 0.]]
    u, v = [e, 0., 0.], [0., e, 0.]
    w = [-e, e, 0.]
    neg = lambda x: [-y for y in x]
    add = lambda x, y: [p + q for p, q in zip(x, y)]
    cyc = [O, u, X]
    procs = [hop(u, 1.0), hop(neg(u), 1.1, basis=(1,)), hop(v, 1.2), hop(neg(v), 1.3, basis=(2,)), hop(w, .7, basis=(1,), move="explicit"), hop(neg(w), .8, basis=(2,)),
             hop(X, .5), hop(X, .4, basis=(1,)), hop(mX, .3, basis=(2,)), hop(add(X, u), .2), hop(add(mX, v), .25, a="B"),
             # cycles in which every destination has a neighbour that moves as well
             proc(cyc, ["A", "B", "V"], ["B", "V", "A"], 1.5, move=[(0, tuple(X)), (1, tuple(neg(u))), (2, tuple(add(mX, u)))]),
             proc(cyc, ["A", "B", "V"], ["V", "A", "B"], 1.7, move=[(0, tuple(u)), (1, tuple(add(X, neg(u)))), (2, tuple(mX))]),
             proc([O, u, v], ["B", "A", "A"], ["A", "B", "A"], .9, move=[(0, tuple(u)), (1, tuple(w)), (2, tuple(neg(v)))]),
             flip("V", "B", .1, basis=(1,)), flip("B", "V", .1, basis=(0,))]
    return sys_("near-sites", b, (n, 1, 1), (T, F, F), ["A", "V", "B"] + ["V", "A", "V"] * (n - 1), ["V", "A", "B"], procs)


def plain():
    out = [ring_hop(5), ring_hop(3, ["A", "V", "A"]), ads_des_hop(5), ads_des_hop(3), two_species(), cyclic3(), ising2d(3), grid2d(3), grid2d(3, axes=(0, 2)),
           grid2d(3, axes=(1, 2)), two_basis(3), two_basis_1d(4), three_basis(3), range2(5), range2(6), wild(5), nonper_full(5), nonper_basis(3),
           grid3d(), multi_basis_single(), many_procs(), rotate3(5), oblique(3), hexagonal(3), implicit_false(5), flat_periodic(5), flat_complete(5), flat_sheet(3), near_sites(3)]
    out += [ring_axis(a) for a in range(3)]
    out += [mixed_periodic(p) for p in itertools.product((T, F), repeat=3)]
    names = {}
    for s in out:
        n = s["name"]
        names[n] = names.get(n, 0) + 1
        if names[n] > 1:
            s["name"] = "%s#%d" % (n, names[n])
    return out


def buckets():
    return [bucket1(), bucket2(), bucket_wild(), bucket_mixed(), bucket_basis()]


def large():
    """Models that are large in one respect: processes, types, sites, coordinates of a process."""
    out = []
    pr = []
    for i in range(290):
        pr.append(flip(*(("V", "A"), ("A", "B"), ("B", "V"))[i % 3], rate=.01 * (i + 1)))
    pr += [hop(X, .5), hop(mX, .25, a="B")]
    out.append(sys_("large-processes", [O], (5, 1, 1), (T, F, F), ["V", "A", "B", "V", "A"], ["B", "V", "A"], pr))
    names = ["T%d" % ((7 * i) % 40) for i in range(40)]
    pr = [flip("T%d" % i, "T%d" % ((i + 1) % 40), rate=1.0 + .1 * i) for i in range(40)]
    pr += [proc([O, X], ["T%d" % i, "T%d" % j], ["T%d" % j, "T%d" % i], 2.0) for i, j in ((0, 39), (20, 5), (33, 32), (31, 33))]
    out.append(sys_("large-types", [O], (4, 1, 1), (T, F, F), ["T31", "T0", "T38", "T20"], names, pr))
    ty = [("A", "V", "V", "B", "V")[(i * i + i // 7) % 5] for i in range(1100)]
    out.append(sys_("large-ring", [O], (1100, 1, 1), (T, F, F), ty, ["V", "A", "B"], [hop(X), hop(mX, 2.), hop(mX, .5, a="B"), proc([O, X, mX], ["B", "A", "*"], ["A", "B", "*"], 3.)]))
    b = [[0., 0., 0.], [.5, .5, 0.]]
    ty = [("A", "V", "V")[(i * i + i // 11) % 3] for i in range(2 * 17 * 16)]
    out.append(sys_("large-sheet", b, (17, 16, 1), (T, T, F), ty, ["A", "V"], [hop([.5, .5, 0.], 1.), hop([-.5, -.5, 0.], 1., basis=(1,)), hop([0., 1., 0.], .5), hop([-1., 0., 0.], .3, basis=(1,))]))
    co = [O] + [[float(d * k), 0., 0.] for k in range(1, 17) for d in (1, -1)]
    n = len(co)
    before = ["A" if k % 4 in (0, 1) else "V" for k in range(n)]
    after = ["V" if x == "A" else "A" for x in before]
    ring = ["V"] * 41
    for c, t in zip(co, before):
        ring[int(c[0]) % 41] = t
    out.append(sys_("large-pattern", [O], (41, 1, 1), (T, F, F), ring, ["A", "V"],
                    [proc(co, before, after, 2.0), proc(co, after, before, 1.0), proc(co[:20], before[:20], after[:20], .5), proc(co[:20], after[:20], before[:20], .5), hop(X, .01)]))
    return out


def large_buckets():
    names = ["T%d" % ((3 * i) % 20) for i in range(20)]
    pr = [bproc([O], [(1, "T%d" % i)], [[(-1, "T%d" % i), (1, "T%d" % ((i + 1) % 20))]], 1.0 + .1 * i) for i in range(20)]
    pr += [bproc([O, X], [[(1, "T%d" % i), (1, "T%d" % j)], [(0, "T0")]], [(-1, "T%d" % i), (1, "T%d" % i)], .5) for i, j in ((19, 0), (3, 7), (12, 13))]
    return [sys_("large-bucket-types", [O], (3, 1, 1), (T, F, F), [["T0", "T19"], [(2, "T7"), "T3"], []], names, pr, buckets=True)]


# ------------------------------------------------------------------- families: every small process pattern
def chunks(l, n):
    return [l[i:i + n] for i in range(0, len(l), n)]


def toggle(before, types):
    """An 'after' list that changes exactly one site: the last non-wildcard one."""
    after = list(before)
    for i in reversed(range(len(before))):
        if before[i] != "*":
            after[i] = types[(types.index(before[i]) + 1) % len(types)]
            break
    return after


def family(name, basis, reps, per, offsets, types, centers=(0,), extra=2, wildcards=True, size=40, all_after=False, implicit=True, ntypes=None, start=None, maxn=None):
    """Systems whose processes are all patterns: the center plus every set of <= extra offsets, every
    assignment of types (and wildcards) to them.  offsets: {center basis: list of offset vectors}."""
    procs = []
    for c in centers:
        for n in range(extra + 1):
            for sub in itertools.combinations(offsets[c], n):
                alpha = list(types) + (["*"] if wildcards and n else [])
                for bef in itertools.product(alpha, repeat=n + 1):
                    if all(b == "*" for b in bef):
                        continue
                    # a trailing wildcard never restricts anything
                    procs.append((c, [O] + list(sub), bef))
    if maxn:
        step = max(1, len(procs) // maxn)
        procs = procs[::step]
    # interleave so that every chunk mixes shapes
    k = (len(procs) + size - 1) // size
    out = []
    nsite = reps[0] * reps[1] * reps[2] * len(basis)
    for i in range(k):
        ps = []
        for j, (c, co, bef) in enumerate(procs[i::k]):
            ps.append(proc(co, bef, toggle(bef, types), 0.5 + 0.013 * j, basis=(c,)))
        out.append(sys_("%s-%d/%d" % (name, i, k), basis, reps, per, start or [types[(s * s) % len(types)] for s in range(nsite)], types, ps, implicit=implicit))
    return out


def site_offsets(basis, c, lo, hi, maxdist=None, dims=(0, 1, 2)):
    """All offsets from basis site c to the sites of the cells lo..hi along dims."""
    out = []
    for i in (range(lo, hi + 1) if 0 in dims else [0]):
        for j in (range(lo, hi + 1) if 1 in dims else [0]):
            for k in (range(lo, hi + 1) if 2 in dims else [0]):
                for b in range(len(basis)):
                    d = [x + basis[b][l] - basis[c][l] for l, x in enumerate((i, j, k))]
                    if max(map(abs, d)) < 1e-9:
                        continue
                    if maxdist is None or math.sqrt(sum(x * x for x in d)) <= maxdist + 1e-9:
                        out.append([round(x, 12) for x in d])
    return out


def families(thorough=False):
    fam = []
    AV = ["A", "V"]
    ABV = ["A", "B", "V"]
    b1 = [O]
    # rings of range 1 and 2
    fam += family("fam-ring3", b1, (3, 1, 1), (T, F, F), {0: site_offsets(b1, 0, -1, 1, dims=(0,))}, ABV)
    fam += family("fam-ring5", b1, (5, 1, 1), (T, F, F), {0: site_offsets(b1, 0, -2, 2, dims=(0,))}, AV, size=60)
    fam += family("fam-ring4c", b1, (1, 1, 4), (F, F, T), {0: site_offsets(b1, 0, -1, 1, dims=(2,))}, AV)
    fam += family("fam-ring4b", b1, (1, 4, 1), (F, T, F), {0: site_offsets(b1, 0, -1, 1, dims=(1,))}, AV)
    # two basis points in the cell: every neighbour of every sublattice
    b2 = [[0., 0., 0.], [.5, 0., 0.]]
    offs = {c: site_offsets(b2, c, -1, 1, maxdist=1.0, dims=(0,)) for c in (0, 1)}
    fam += family("fam-2basis", b2, (3, 1, 1), (T, F, F), offs, AV, centers=(0, 1), size=60)
    b2 = [[.2, .3, .1], [.9, .6, .4]]
    offs = {c: site_offsets(b2, c, -1, 1, maxdist=1.2, dims=(0, 1)) for c in (0, 1)}
    fam += family("fam-2basis-general", b2, (3, 3, 1), (T, T, F), offs, AV, centers=(0, 1), extra=1 if not thorough else 2, size=60)
    # square lattice, all eight neighbours
    offs = {0: site_offsets(b1, 0, -1, 1, dims=(0, 1))}
    fam += family("fam-square", b1, (3, 3, 1), (T, T, F), offs, AV, extra=2, wildcards=False, size=60, maxn=None if thorough else 120)
    # simple cubic, all 26 neighbours, unequal repetitions
    offs = {0: site_offsets(b1, 0, -1, 1)}
    types3 = ["V"] * 60
    types3[7] = types3[30] = types3[59] = "A"
    fam += family("fam-cubic", b1, (3, 4, 5), (T, T, T), offs, AV, extra=1, wildcards=False, size=27, start=types3)
    return fam

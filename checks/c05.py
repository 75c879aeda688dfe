"""C05: atom ids follow the atoms: permutation, types, unwrapped coordinates, list of moved ids."""
import itertools, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vp, scen, explore
from sysm import Sys, norm_spec
from ref import Ref

PID = "C05"
TOL = 1e-7


def job(params, out):
    spec = norm_spec(params["spec"])
    ref = Ref(spec)
    track = {}

    def check(s, prev, e, st, hist):
        out.evals += 1
        if e is None:
            track["ids"] = ref.ids0()
            track["sum"] = {}
        where = dict(scenario=spec["name"], initial=spec["types"], history=list(hist)[-400:], length=len(hist), state=st)
        if e is not None:
            e = tuple(e)
            if e not in ref._tgt:
                return          # C01 decides
            track["ids"], moved = ref.move_ids(track["ids"], e)
        at, co = track["ids"]
        got = s.ids()
        if sorted(got) != list(range(ref.lat.n)):
            out.violation("the atom ids on the sites are not a permutation", ids=got, **where)
        if got != at:
            out.violation("atom ids are not where the moves put them", ids=got, expected=at, event=e, **where)
        types = s.atom_types()
        if tuple(s.config.atomIDTypes()) != types:
            out.violation("the two views of the atom types differ", **where)
        for site, a in enumerate(at):
            if types[a] != st[site]:
                out.violation("the type of an atom id is not the type at its site", atom=a, site=site, type=types[a], at_site=st[site], event=e, **where)
        gc = s.atom_coords()
        for a in range(ref.lat.n):
            if max(abs(gc[a][l] - co[a][l]) for l in range(3)) > TOL * (1 + max(map(abs, co[a]))):
                out.violation("the coordinate of an atom is not its start plus its moves", atom=a, coordinate=gc[a], expected=co[a], event=e, **where)
        if e is not None:
            ids = list(s.config.movedAtomIDs())
            vec = [(v.x(), v.y(), v.z()) for v in s.cc.recentMoveVectors()]
            if len(ids) != len(vec):
                out.violation("moved ids and move vectors differ in number", ids=ids, vectors=vec, **where)
            d = dict(zip(ids, vec))
            if len(d) != len(ids) or set(d) != set(moved):
                out.violation("the list of moved atoms is wrong", reported=ids, expected=sorted(moved), event=e, **where)
            for a in moved:
                if max(abs(d[a][l] - moved[a][l]) for l in range(3)) > TOL:
                    out.violation("the move vector of an atom is wrong", atom=a, reported=d[a], expected=moved[a], event=e, **where)
            out.outcome(len(moved))

    key = lambda s, st: (st, s.ids())
    if params["mode"] == "each":
        # many small models: every history to the depth of each
        for sp in params["specs"]:
            spec = norm_spec(sp)
            ref = Ref(spec)
            explore.tree(lambda: Sys(spec), check, out, params["depth"])
        out.sample(dict(models=len(params["specs"]), first=params["specs"][0]["name"]))
        return
    if params["mode"] == "graph":
        full = explore.graph(lambda: Sys(spec), check, out, cap=params["cap"], max_steps=params["steps"], key=key)
        out.note("graphs-complete" if full else "graphs-capped")
        out.sample(dict(initial=spec["types"], states_with_ids=out.states, complete=full))
    else:
        full = explore.tree(lambda: Sys(spec), check, out, params["depth"], cap=params.get("cap"))
        out.note("trees-complete" if full else "trees-capped")


def permutations_family():
    """Concerted moves along every permutation of up to four sites (explicit move vectors)."""
    out = []
    X = lambda x: [float(x), 0., 0.]
    for k, pos, n in ((2, [0, 1], 5), (3, [0, 1, -1], 5), (3, [0, 2, 1], 5), (4, [0, 1, -1, 2], 5), (3, [0, -2, 2], 5), (4, [0, 2, 1, -1], 5), (4, [0, 2, -1, 1], 5)):
        procs = []
        for perm in itertools.permutations(range(k)):
            if any(perm[i] == i for i in range(k)) and k < 4:
                pass
            for bef in itertools.product("AB", repeat=k):
                aft = list(bef)
                for i in range(k):
                    aft[perm[i]] = bef[i]
                if tuple(aft) == bef:
                    continue
                mv = [(i, tuple(float(pos[perm[i]] - pos[i]) if l == 0 else 0. for l in range(3))) for i in range(k) if perm[i] != i]
                # the order in which the vectors are given must not matter
                if len(procs) % 2:
                    mv = mv[::-1]
                procs.append(scen.proc([X(p) for p in pos], bef, aft, 1.0 + .01 * len(procs), move=mv))
        m = (len(procs) + 39) // 40
        for i in range(m):
            out.append(scen.sys_("perm-%s-%d" % ("".join(map(str, pos)), i), [scen.O], (n, 1, 1), (True, False, False), list("ABBAB")[:n], ["A", "B"], procs[i::m]))
    return out


def cycles_3d():
    """Three atoms that go round a triangle of sites in any direction of space (both senses)."""
    near = sorted((d for d in itertools.product((0, 1, -1), repeat=3) if any(d)), key=lambda d: (sum(map(abs, d)), d))
    for a, b in itertools.combinations(near, 2):
        pos = [(0, 0, 0), a, b]
        types = ["V"] * 27
        for d, t in zip(pos, "ABC"):
            i, j, k = (d[0] % 3, d[1] % 3, d[2] % 3)
            types[(i * 3 + j) * 3 + k] = t
        procs = []
        for perm in ((1, 2, 0), (2, 0, 1)):
            for bef in ("ABC", "CAB", "BCA"):
                aft = [None] * 3
                for i in range(3):
                    aft[perm[i]] = bef[i]
                mv = [(i, tuple(float(pos[perm[i]][l] - pos[i][l]) for l in range(3))) for i in range(3)]
                procs.append(scen.proc(pos, bef, aft, 1.0, move=mv[::-1] if perm[0] == 1 else mv))
        yield scen.sys_("cycle%s%s" % (a, b), [scen.O], (3, 3, 3), (True, True, True), types, ["A", "B", "C", "V"], procs)


def jobs():
    th = vp.thorough()
    js = []
    for s in scen.plain() + permutations_family():
        if s["name"].startswith("fam"):
            continue
        js.append(dict(name="graph:" + s["name"], mode="graph", spec=s, cap=100000 if th else 3000, steps=600000 if th else 9000))
        js.append(dict(name="tree:" + s["name"], mode="tree", spec=s, depth=7 if th else 4, cap=20000 if th else 250))
    for s in scen.large():
        js.append(dict(name="graph:" + s["name"], mode="graph", spec=s, cap=600 if th else 60, steps=6000 if th else 150))
    cyc = list(cycles_3d())
    n = 16
    for i in range(n):
        js.append(dict(name="each:cycles-%d" % i, mode="each", spec=cyc[i], specs=cyc[i::n], depth=4 if th else 2))
    return js


if __name__ == "__main__":
    vp.main(PID, jobs(), job, floor=3000, bounds="all reachable (types, atom ids) states of each listed model (or the stated cap), histories to the stated depth, all permutations of up to four atoms with explicit move vectors",
            assumptions=["single-occupancy models; move vectors describe a permutation of the moved atoms (what the constructor accepts)"])

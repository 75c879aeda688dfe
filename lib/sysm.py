"""Binding of a model description to the real KMCLib objects, with full control of the randomness."""
import vp
from ref import Ref, norm_bucket


def bucket_arg(e):
    """JSON gives lists where the API wants tuples: [n,'A'] inside a bucket entry."""
    if isinstance(e, str):
        return e
    if isinstance(e, (list, tuple)) and len(e) == 2 and isinstance(e[0], int):
        return (e[0], e[1])
    return [x if isinstance(x, str) else (x[0], x[1]) for x in e]


def norm_spec(spec):
    """After a JSON round trip: bucket entries back to tuples."""
    s = dict(spec)
    if s.get("buckets"):
        s["types"] = [bucket_arg(t) for t in s["types"]]
    procs = []
    for p in s["procs"]:
        p = dict(p)
        if p.get("kind") == "b":
            p["match"] = [bucket_arg(m) for m in p["match"]]
            p["update"] = [bucket_arg(m) for m in p["update"]]
        elif p.get("move") is not None:
            p["move"] = [(int(i), tuple(v)) for i, v in p["move"]]
        procs.append(p)
    s["procs"] = procs
    return s


def make_process(K, p):
    coords = [[float(x) for x in c] for c in p["coords"]]
    if p.get("kind") == "b":
        return K.KMCBucketProcess(coordinates=coords, minimum_match=p["match"], update=p["update"],
                                  basis_sites=list(p["basis"]), rate_constant=float(p["rate"]))
    mv = p.get("move")
    if mv is not None:
        mv = [(i, [float(x) for x in v]) for i, v in mv]
    return K.KMCProcess(coordinates=coords, elements_before=list(p["before"]), elements_after=list(p["after"]),
                        move_vectors=mv, basis_sites=list(p["basis"]), rate_constant=float(p["rate"]))


def make_config(K, spec):
    cell = spec.get("cell") or [[1., 0., 0.], [0., 1., 0.], [0., 0., 1.]]
    uc = K.KMCUnitCell(cell_vectors=cell, basis_points=[[float(x) for x in b] for b in spec["basis"]])
    lat = K.KMCLattice(unit_cell=uc, repetitions=tuple(spec["reps"]), periodic=tuple(spec["periodic"]))
    return K.KMCConfiguration(lattice=lat, types=list(spec["types"]),
                              possible_types=list(spec["possible"]) if spec.get("possible") else None)


class Sys(object):
    def __init__(self, spec, calc=None, config=None, interactions=None):
        self.K, self.rng = vp.load()
        K = self.K
        self.spec = spec
        self.config = config or make_config(K, spec)
        if interactions is None:
            procs = [make_process(K, p) for p in spec["procs"]]
            interactions = K.KMCInteractions(processes=procs, implicit_wildcards=bool(spec.get("implicit", True)))
            if calc is not None:
                interactions.setRateCalculator(rate_calculator=calc)
        self.interactions = interactions
        with vp.quiet():
            self.model = K.KMCLatticeModel(self.config, self.interactions)
            self.cpp = self.model._backend()
        self.cc = self.config._backend()
        self.buckets = bool(spec.get("buckets"))
        self.timer = None
        for v in vars(self.model).values():
            if hasattr(v, "simulationTime"):
                self.timer = v
        self.inter = self.cpp.interactions()
        self._procs()

    def _procs(self):
        self.procs = list(self.inter.processes())

    # ---- observation
    def state(self):
        el = self.cc.elements()
        if self.buckets:
            return tuple([tuple(sorted(e)) for e in el])
        return tuple([e[0] for e in el])

    def tables(self):
        return tuple([tuple(p.sites()) for p in self.procs])

    def events(self):
        """The events the implementation holds available, with multiplicity of listing."""
        return [(i, s) for i, p in enumerate(self.procs) for s in p.sites()]

    def totals(self):
        return [p.totalRate() for p in self.procs]

    def total(self):
        return self.inter.totalRate()

    def ids(self):
        return tuple(self.cc.atomID())

    def atom_types(self):
        return tuple(self.cc.atomIDElements())

    def atom_coords(self):
        return [tuple(c) for c in self.config.atomIDCoordinates()]

    def latest(self):
        return (self.cc.latestEventProcess(), self.cc.latestEventSite())

    # ---- control
    def step(self, u1, u2):
        self.rng.set2(u1, u2)
        self.cpp.singleStep()

    def aim(self, e, weight=None):
        """Random numbers that select event e, from the implementation's own tables.
        weight(e) gives the rate of an event when rates differ between the sites of a process."""
        p, s = e
        tot = self.totals()
        r = sum(tot)
        u1 = (sum(tot[:p]) + 0.5 * tot[p]) / r
        sites = list(self.procs[p].sites())
        k = sites.index(s)
        if weight is None:
            u2 = (k + 0.5) / len(sites)
        else:
            w = [weight((p, x)) for x in sites]
            u2 = (sum(w[:k]) + 0.5 * w[k]) / sum(w)
        return u1, u2

    def fire(self, e, weight=None):
        """Make the implementation perform event e; returns the event it says it performed."""
        u1, u2 = self.aim(e, weight)
        self.step(u1, u2)
        return self.latest()

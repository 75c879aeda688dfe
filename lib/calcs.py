"""Rate functions used by both the real plugin calculators and the reference.

A rate function works on an environment: a set of (rounded coordinate, type before, type after) triples
within the cutoff, the rate constant, the process number and the global coordinate of the center.
The coordinates are relative to the center.
"""
import math
import vp


def r6(c):
    return tuple(round(float(x), 5) + 0.0 for x in c)


def cnt(t, name):
    """How many particles of a type: plain sites are strings, bucket sites sorted tuples of names."""
    return (t == name) if isinstance(t, str) else t.count(name)


def site_type(t):
    """Normal form of what the calculator is given for one site."""
    return t if isinstance(t, str) else tuple(sorted(sum(([str(x)] * int(n) for n, x in t), [])))


def after_sensitive(env, rate, proc, glob):
    """Depends mostly on the types after the event."""
    e = 0.0
    for c, b, a in env:
        w = 1.0 + 0.23 * c[0] + 0.19 * c[1] - 0.07 * c[2]
        e += w * (0.7 * cnt(a, "A") + 0.3 * cnt(a, "B") - 0.2 * cnt(b, "V"))
    return rate * math.exp(0.2 * e)


def neighbours(env, rate, proc, glob):
    """Depends on the number and the position of A's in the environment."""
    e = 0.0
    for c, b, a in env:
        w = 1.0 + 0.31 * c[0] + 0.17 * c[1] + 0.11 * c[2]
        e += 0.9 * w * cnt(b, "A") - 0.4 * w * cnt(b, "B") + 0.015 * w * cnt(b, "C")
        if a != b:
            e += 0.05 * w * (1 if cnt(a, "A") > cnt(b, "A") else 2)
    return rate * math.exp(0.3 * e) * (1 + 0.01 * proc)


def counting(env, rate, proc, glob):
    n = sum(cnt(b, "A") for c, b, a in env)
    return rate * (1.0 + n) + 0.001 * len(env)


def position(env, rate, proc, glob):
    """Depends on where in the lattice the center is (must not be cached)."""
    return counting(env, rate, proc, glob) + 0.1 * glob[0] + 0.01 * glob[1] + 0.001 * glob[2]


def excl0(env, rate, proc, glob):
    """Process 0 and 3 depend on the place in the lattice (they must be excluded from caching), the others do not."""
    return position(env, rate, proc, glob) if proc in (0, 3) else neighbours(env, rate, proc, glob)


def steep(env, rate, proc, glob):
    """Differs by large factors between surroundings."""
    return rate * 3.0 ** sum(cnt(b, "A") * (2 if c[0] > 0 else 1) for c, b, a in env if c != (0.0, 0.0, 0.0))


def steep_left(env, rate, proc, glob):
    return rate * 5.0 ** sum(cnt(b, "A") for c, b, a in env if c[0] < 0)


def spread(env, rate, proc, glob):
    """Spans ten orders of magnitude over the places of the lattice, with an impossible one."""
    x = (int(round(glob[0])) + 2 * proc) % 6
    return rate * (1.0, 3e-10, 2e-5, 0.0, 0.7, 1e-8)[x] * (1.0 + .1 * sum(cnt(b, "A") for c, b, a in env if c[0] > 0))


def ising(env, rate, proc, glob):
    """The builtin C++ IsingTestCalculator."""
    up = sum(cnt(b, "U") for c, b, a in env if c != (0.0, 0.0, 0.0))
    d = (4 - up) - up if proc == 0 else up - (4 - up)
    return min(1.0, math.exp(d))


def buckets_builtin(env, rate, proc, glob):
    """The builtin C++ BucketsTestCalculator: hops (1 right, 2 left, 3 up, 4 down) are slow to occupied sites."""
    if proc == 0:
        return 0.1
    to = {1: (1.0, 0.0, 0.0), 2: (-1.0, 0.0, 0.0), 3: (0.0, 1.0, 0.0), 4: (0.0, -1.0, 0.0)}.get(proc)
    return 0.1 if any(c == to and cnt(b, "P") for c, b, a in env) else 1.0


FUNCS = dict(ising=ising, buckets_builtin=buckets_builtin, steep=steep, steep_left=steep_left, spread=spread, excl0=excl0, after_sensitive=after_sensitive, neighbours=neighbours, counting=counting, position=position)


def make_calc(K, spec_calc):
    """spec_calc: dict(func, cutoff, cache, exclude, log)."""
    if spec_calc.get("builtin"):
        return str(spec_calc["builtin"])
    func = FUNCS[spec_calc["func"]]
    base = K.KMCRateCalculatorPlugin

    class Calc(base):
        calls = None
        prev = None

        def rate(self, geometry, elements_before, elements_after, rate_constant, process_number, global_coordinate):
            env = sorted((r6(c), site_type(b), site_type(a)) for c, b, a in zip([list(g) for g in geometry], elements_before, elements_after))
            v = func(env, rate_constant, process_number, r6(global_coordinate))
            if Calc.calls is not None:
                Calc.calls.append((process_number, r6(global_coordinate), tuple(env), rate_constant,
                                   (len(geometry), len(elements_before), len(elements_after)), r6(geometry[0]) if len(geometry) else None,
                                   self.configuration))
            return v

        if spec_calc.get("cutoff") is not None:
            def cutoff(self):
                return spec_calc["cutoff"]
        if spec_calc.get("cache"):
            def cacheRates(self):
                return True
        if spec_calc.get("exclude"):
            def excludeFromCaching(self):
                return spec_calc["exclude"]
    return Calc


def surroundings(ref, e, cutoff):
    """(relative coordinate, site) of all sites within the cutoff of the center of an event."""
    p, s = ref.procs[e[0]], e[1]
    lat = ref.lat
    cut = max(cutoff, p.extent)
    cache = ref.__dict__.setdefault("_surr", {})
    k = (cut, s)
    if k not in cache:
        center = lat.coord(s)
        cell = lat.cell(s)[:3]
        span = int(math.ceil(cut)) + 1
        r = [range(-span, span + 1) if lat.reps[l] > 1 else (0,) for l in range(3)]
        out = []
        for i in r[0]:
            for j in r[1]:
                for kk in r[2]:
                    for b in range(lat.nb):
                        c0 = [cell[l] + (i, j, kk)[l] + lat.basis[b][l] for l in range(3)]
                        d = [c0[l] - center[l] for l in range(3)]
                        for l in range(3):      # all images along a single repetition are the same site
                            if lat.periodic[l] and lat.reps[l] == 1:
                                d[l] -= math.floor(d[l] + 0.5)
                        if math.sqrt(sum(x * x for x in d)) > cut + 1e-5:
                            continue
                        t = lat.locate(c0)
                        if t is not None:
                            out.append((r6(d), t))
        cache[k] = sorted(out)
    return cache[k]


def ref_env(ref, st, e, cutoff):
    """The environment a calculator should see for event e in state st."""
    st2 = ref.apply(st, e)
    return sorted((d, st[t], st2[t]) for d, t in surroundings(ref, e, cutoff))


class RefRates(object):
    def __init__(self, ref, spec_calc):
        self.ref, self.sc, self.func = ref, spec_calc, FUNCS[spec_calc["func"]]
        self.cut = spec_calc.get("cutoff")
        if self.cut is None:
            self.cut = 1.0
        self._c = {}

    def env(self, st, e):
        k = (st, e)
        if k not in self._c:
            if len(self._c) > 200000:
                self._c.clear()
            self._c[k] = ref_env(self.ref, st, e, self.cut)
        return self._c[k]

    def rate(self, st, e):
        return self.func(self.env(st, e), self.ref.procs[e[0]].rate, e[0], r6(self.ref.lat.coord(e[1])))

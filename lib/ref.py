"""Reference semantics of a lattice KMC model, in plain Python, independent of the implementation.

Works on a JSON-able model description:
  cell, basis, reps, periodic, types (str per site, or list of str per site when buckets), possible, buckets,
  procs: [{coords, before, after, move|None, basis, rate}] or [{coords, match, update, basis, rate, kind:'b'}]
  implicit (bool), calc (optional name of a rate function in calcs.py)
All coordinates are fractional (units of the primitive cell vectors).
"""
import math

EPS = 1.0e-5


def norm_bucket(e):
    """'A' | (n,'A') | [..] -> dict type -> n (first occurrence order kept)."""
    out = {}
    for x in (e if isinstance(e, list) else [e]):
        if isinstance(x, str):
            n, t = 1, x
        else:
            n, t = x
        out[t] = out.get(t, 0) + n
    return out


class Lattice(object):
    def __init__(self, spec):
        self.basis = [tuple(float(x) for x in b) for b in spec["basis"]]
        self.reps = tuple(spec["reps"])
        self.periodic = tuple(spec["periodic"])
        self.nb = len(self.basis)
        self.n = self.reps[0] * self.reps[1] * self.reps[2] * self.nb

    def index(self, i, j, k, b):
        return ((i * self.reps[1] + j) * self.reps[2] + k) * self.nb + b

    def cell(self, idx):
        b = idx % self.nb
        idx //= self.nb
        k = idx % self.reps[2]
        idx //= self.reps[2]
        return idx // self.reps[1], idx % self.reps[1], k, b

    def coord(self, idx):
        i, j, k, b = self.cell(idx)
        return tuple(c + x for c, x in zip((i, j, k), self.basis[b]))

    def locate(self, pos):
        """Index of the site at fractional position pos, or None."""
        for b, bc in enumerate(self.basis):
            cell, ok = [], True
            for l in range(3):
                d = pos[l] - bc[l]
                r = int(math.floor(d + 0.5))
                if abs(d - r) > EPS:
                    ok = False
                    break
                if self.periodic[l]:
                    r %= self.reps[l]
                elif not 0 <= r < self.reps[l]:
                    ok = False
                    break
                cell.append(r)
            if ok:
                return self.index(cell[0], cell[1], cell[2], b)
        return None

    def delta(self, a, b):
        """Shortest displacement components from site a to site b (periodic directions only)."""
        ca, cb = self.coord(a), self.coord(b)
        d = []
        for l in range(3):
            x = cb[l] - ca[l]
            if self.periodic[l]:
                x -= self.reps[l] * math.floor(x / self.reps[l] + 0.5)
            d.append(x)
        return tuple(d)


class RefProc(object):
    def __init__(self, p, number):
        c0 = p["coords"][0]
        self.number = number
        self.coords = [tuple(c[l] - c0[l] for l in range(3)) for c in p["coords"]]
        self.basis = list(p["basis"])
        self.rate = float(p["rate"])
        self.bucket = p.get("kind") == "b"
        if self.bucket:
            self.match = [norm_bucket(m) for m in p["match"]]
            self.update = [norm_bucket(u) for u in p["update"]]
            self.move = {}
        else:
            self.before, self.after = list(p["before"]), list(p["after"])
            mv = p.get("move")
            self.explicit_move = mv is not None
            if mv is None:
                mv = []
                ch = [i for i in range(len(self.before)) if self.before[i] != self.after[i]]
                if len(ch) == 2 and self.before[ch[0]] == self.after[ch[1]] and self.before[ch[1]] == self.after[ch[0]]:
                    a, b = self.coords[ch[0]], self.coords[ch[1]]
                    mv = [(ch[0], tuple(b[l] - a[l] for l in range(3))), (ch[1], tuple(a[l] - b[l] for l in range(3)))]
            self.move = {i: tuple(v) for i, v in mv}
        self.extent = max(math.sqrt(sum(x * x for x in c)) for c in self.coords)


class Ref(object):
    def __init__(self, spec):
        self.spec = spec
        self.lat = Lattice(spec)
        self.procs = [RefProc(p, i) for i, p in enumerate(spec["procs"])]
        self.buckets = bool(spec.get("buckets"))
        self._tgt = {}
        for p in self.procs:
            for s in range(self.lat.n):
                if s % self.lat.nb not in p.basis:
                    continue
                base = self.lat.coord(s)
                t = [self.lat.locate(tuple(base[l] + c[l] for l in range(3))) for c in p.coords]
                if all(x is not None for x in t):
                    self._tgt[(p.number, s)] = t
        self._ev = {}

    def targets(self, p, s):
        return self._tgt.get((p, s))

    # state: tuple per site; a site is a str (plain) or a sorted tuple of str (buckets)
    def initial(self):
        if self.buckets:
            return tuple(tuple(sorted(expand(t))) for t in self.spec["types"])
        return tuple(self.spec["types"])

    def _matches(self, p, t, state):
        if self.buckets:
            for tt, i in zip(t, range(len(t))):
                occ = state[tt]
                if p.bucket:
                    m = p.match[i]
                    if m.get("*", 0) > 0:
                        continue
                    for typ, n in m.items():
                        if typ != "*" and occ.count(typ) < n:
                            return False
                else:
                    if p.before[i] != "*" and occ.count(p.before[i]) < 1:
                        return False
            return True
        if p.bucket:
            for i, tt in enumerate(t):
                m = p.match[i]
                if m.get("*", 0) > 0:
                    continue
                for typ, n in m.items():
                    if n > (1 if state[tt] == typ else 0):
                        return False
            return True
        b = p.before
        for i, tt in enumerate(t):
            if b[i] != "*" and state[tt] != b[i]:
                return False
        return True

    def events(self, state):
        ev = self._ev.get(state)
        if ev is None:
            ev = frozenset(k for k, t in self._tgt.items() if self._matches(self.procs[k[0]], t, state))
            if len(self._ev) < 300000:
                self._ev[state] = ev
        return ev

    def apply(self, state, e):
        p, t = self.procs[e[0]], self._tgt[e]
        st = list(state)
        for i, tt in enumerate(t):
            if self.buckets:
                occ = list(st[tt])
                if p.bucket:
                    for typ, n in p.update[i].items():
                        if typ == "*":
                            continue
                        for _ in range(n):
                            occ.append(typ)
                        for _ in range(-n):
                            occ.remove(typ)
                else:
                    if p.before[i] != "*" and p.before[i] != p.after[i]:
                        occ.remove(p.before[i])
                        occ.append(p.after[i])
                st[tt] = tuple(sorted(occ))
            elif p.bucket:
                for typ, n in p.update[i].items():
                    if n > 0:
                        st[tt] = typ
            elif p.after[i] != "*":
                st[tt] = p.after[i]
        return tuple(st)

    def ids0(self):
        n = self.lat.n
        return (tuple(range(n)), tuple(self.lat.coord(i) for i in range(n)))

    def move_ids(self, ids, e):
        """Atom-id bookkeeping of an event: (id per site, coordinate per id), set of touched ids with vectors."""
        at, co = list(ids[0]), list(ids[1])
        p, t = self.procs[e[0]], self._tgt[e]
        moved = {}
        dest = {}
        for i, tt in enumerate(t):
            a = ids[0][tt]
            if i in p.move:
                v = p.move[i]
                co[a] = tuple(co[a][l] + v[l] for l in range(3))
                moved[a] = v
                to = tuple(p.coords[i][l] + v[l] for l in range(3))
                for j in p.move:
                    if j != i and all(abs(p.coords[j][l] - to[l]) < 1e-6 for l in range(3)):
                        dest[t[j]] = a
            elif p.before[i] != p.after[i] and p.before[i] != "*":
                moved[a] = (0.0, 0.0, 0.0)
        for site, a in dest.items():
            at[site] = a
        return (tuple(at), tuple(co)), moved


def expand(t):
    out = []
    for typ, n in norm_bucket(t).items():
        out += [typ] * n
    return out

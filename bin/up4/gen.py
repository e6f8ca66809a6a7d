"""Seeded generators of sessions. They choose inputs only; what is right is decided by the
specification. Inputs whose exact answer a floating point implementation may legitimately miss
(positions on a cell face whose coordinate is not representable, ties, ...) are not generated."""
import math
import random
from fractions import Fraction
from itertools import product

UNDEF = 1000000007
DYADIC = ["1", "0.5", "0.25", "2", "8"]
PLAIN = ["0.1", "0.3", "0.0173", "1.7", "37.5"]
WHOLE = False       # only whole numbers: sessions on the Python interface
BIG = None          # "parts", "steps", "cells" or "ids": what is large in magnified sessions


def magnified(make, kinds, each=3):
    """Sessions with many particles, time steps or cells, or with large identities, as well."""
    def both(rng, n):
        global BIG
        out = make(rng, n)
        for BIG in kinds:
            more = make(rng, {"cells": 2 * each, "ids": 4 * each}.get(BIG, each))
            out += [enlarge(rng, s) for s in more] if BIG == "ids" else more
        BIG = None
        return out
    return both


def extended(make, more):
    """A few long sessions as well."""
    return lambda rng, n: make(rng, n) + more(rng)


def enlarge(rng, s):
    """Large identities and types, and properties that nearly agree."""
    top = rng.choice([256, 65536, 16777216])
    ident = lambda i: i if i < 3 else i + top
    kind = lambda i: i if i < 2 else i + (300 if top == 65536 else 256)
    for d in ("ds", "ds2"):
        for step in s.get(d, {"steps": []})["steps"]:
            for q in step["parts"]:
                q["id"], q["ty"] = ident(q["id"]), kind(q["ty"])
    for o in s.get("ops", [s]):
        if "default" not in o.get("sel", {"default": 1}):
            o["sel"] = dict(o["sel"], ids=[ident(i) for i in o["sel"]["ids"]])
        for k in ("ta", "tb"):
            if k in o:
                o[k] = kind(o[k])
    for q in s.get("queries", []):
        if "id" in q:
            q["id"] = ident(q["id"])
    s["ua"] = rng.choice([["1", "0.00000001"], ["0.5", "0.0000000001"], ["3000000", "0.01"]])
    if s["kind"] == "selector":
        s["ut"] = rng.choice(["0.0000000001", "0.1", "700000.1"])
    return s


def late(rng, P, T, pl):
    """In magnified sessions only few of the early samples lie inside."""
    def place(k, n):
        if BIG not in ("parts", "steps") or k >= P - 9 and n >= T - 9 or rng.random() < 0.03:
            return pl.draw()
        return list(rng.choice(pl.outs)) if pl.outs else [UNDEF, 0, 0]
    return place


def is_square(n):
    return n >= 0 and math.isqrt(n) ** 2 == n


class Units:
    """Unit and origin of the lattice. `exact`: all coordinates are represented exactly."""

    def __init__(self, rng, exact=None, scale_ok=True):
        if WHOLE:
            self.exact, self.u, self.off = True, "1", ["0", "0", "0"]
            return
        self.exact = rng.random() < 0.5 if exact is None else exact
        if self.exact:
            self.u = rng.choice(DYADIC)
            self.off = [str(float(self.u) * rng.choice([0, 0, 3, -5, 8])) for _ in range(3)]
        else:
            self.u = rng.choice(PLAIN)
            self.off = [str(round(float(self.u) * rng.choice([0, 0.37, -2.9, 7.3]), 6)) for _ in range(3)]

    def into(self, s):
        s["u"], s["off"] = self.u, self.off
        return s


def axis_ok(x, lo, hi, n, exact):
    """May coordinate x be looked up on an axis [lo,hi] with n cells?"""
    if x <= lo or x >= hi:
        return True
    if (x - lo) * n % (hi - lo):
        return True
    # on a face: only where every intermediate number is exact or rounds well in any usual formula
    if not exact or (hi - lo) % n:
        return False
    k, w = (x - lo) * n // (hi - lo), hi - lo
    return all(int(y) == k for y in ((x - lo) / w * n, (x - lo) * (n / w), (x - lo) / (w / n)))


def cart_grid(rng, maxn=5, maxcells=40, maxext=12):
    while True:
        cells = [rng.choice([1, 1, 2, 3, 4, 5, 7][:maxn + 2] if maxn < 8 else [1, 3, 8, 9, 11, maxn]) for _ in range(3)]
        cells = [min(c, maxn) for c in cells]
        if cells[0] * cells[1] * cells[2] <= maxcells:
            break
    lim = []
    for a in range(3):
        lo = rng.randint(-6, 6)
        ext = rng.choice([cells[a] * rng.randint(1, 3), rng.randint(1, maxext)])
        lim.append([lo, lo + ext])
    return {"kind": "cart", "cells": cells, "lim": lim}


def cyl_grid(rng, maxcells=60, big=False):
    while True:
        cells = [rng.randint(1, 5), rng.choice([1, 2, 3, 4, 6, 8, 12]), rng.randint(1, 4)]
        if cells[0] * cells[1] * cells[2] <= maxcells:
            break
    lim = []
    for a in range(2):
        lo = rng.randint(-8, 6)
        lim.append([lo, lo + (rng.randint(8, 14) if big else rng.randint(2, 9))])
    lo = rng.randint(-4, 4)
    lim.append([lo, lo + rng.choice([cells[2], 2 * cells[2], rng.randint(1, 8)])])
    return {"kind": "cyl", "cells": cells, "lim": lim}


def long_grid(rng, kind):
    """Many cells along one axis (of a cylinder: radius or height)."""
    a = rng.randrange(3) if kind == "cart" else rng.choice([0, 2])
    n = rng.choice([257, 300, 520])
    cells = [1, 1, 1]
    cells[a] = n
    lim = [[lo, lo + rng.randint(1, 3)] for lo in (rng.randint(-6, 6) for _ in range(3))]
    if kind == "cart" or a == 2:
        lim[a][1] = lim[a][0] + rng.choice([n, 2 * n])
    else:
        r = rng.choice([20, 24, 30])
        lim[0] = [-r, r]
        lim[1] = [-r // 2, r // 2]
    return {"kind": kind, "cells": cells, "lim": lim}


def any_grid(rng, maxcells=30, pcyl=0.4):
    if BIG == "cells":
        return long_grid(rng, "cyl" if rng.random() < pcyl else "cart")
    return cyl_grid(rng, maxcells) if rng.random() < pcyl else cart_grid(rng, maxcells=maxcells)


def cyl_xy(g, p):
    x = 2 * p[0] - g["lim"][0][0] - g["lim"][0][1]
    y = 2 * p[1] - g["lim"][1][0] - g["lim"][1][1]
    r = max(g["lim"][0][1] - g["lim"][0][0], g["lim"][1][1] - g["lim"][1][0])
    return x, y, r


def on_sector_boundary(x, y, n):
    """Whether (x, y) lies on a boundary between two of n sectors (not the seam at pi)."""
    if x == 0 and y == 0:
        return n > 1
    if y == 0 and x < 0:
        return False
    if y == 0:
        return n % 2 == 0
    if x == 0:
        return n % 4 == 0
    if abs(x) == abs(y):
        return n % 8 == 0
    return False


def pos_ok(g, p, un):
    """May the position be looked up in the grid (no unrepresentable tie)?"""
    if UNDEF in p:
        return True
    if g["kind"] == "cart":
        return all(axis_ok(p[a], g["lim"][a][0], g["lim"][a][1], g["cells"][a], un.exact) for a in range(3))
    x, y, r = cyl_xy(g, p)
    rr = x * x + y * y
    if rr > 0 and rr <= r * r:
        if rr == r * r:
            if not un.exact:
                return False
        elif rr * g["cells"][0] % (r * r) == 0:
            return False
    if rr <= r * r and (on_sector_boundary(x, y, g["cells"][1]) or y == 0 and x < 0 and not un.exact):
        return False
    return axis_ok(p[2], g["lim"][2][0], g["lim"][2][1], g["cells"][2], un.exact)


def positions(g, un, margin=2):
    """Lattice positions around the grid that may be looked up."""
    rng3 = []
    for a in range(3):
        lo, hi = g["lim"][a]
        if g["kind"] == "cyl" and a < 2:
            r = max(g["lim"][0][1] - g["lim"][0][0], g["lim"][1][1] - g["lim"][1][0])
            mid = (lo + hi) // 2
            lo, hi = mid - r // 2 - 1, mid + r // 2 + 1
        rng3.append(range(lo - margin, hi + margin + 1))
    return [[x, y, z] for x, y, z in product(*rng3) if pos_ok(g, [x, y, z], un)]


class Places:
    """Random positions of a grid: mostly inside, some on limits, outside or undefined."""

    def __init__(self, rng, g, un, inside=0.75, undef=0.05, keep=None):
        self.rng, self.g = rng, g
        self.all = [p for p in positions(g, un) if keep is None or keep(p)]
        self.ins = [p for p in self.all if self.inside(p)]
        self.outs = [p for p in self.all if not self.inside(p)]
        self.pin, self.undef = inside, undef

    def inside(self, p):
        g = self.g
        if not g["lim"][2][0] <= p[2] <= g["lim"][2][1]:
            return False
        if g["kind"] == "cart":
            return all(g["lim"][a][0] <= p[a] <= g["lim"][a][1] for a in range(2))
        x, y, r = cyl_xy(g, p)
        return x * x + y * y <= r * r

    def ok(self):
        return len(self.ins) > 0

    def draw(self):
        rng = self.rng
        if rng.random() < self.undef:
            p = list(rng.choice(self.all))
            p[rng.randrange(3)] = UNDEF
            return p
        if self.outs and rng.random() > self.pin:
            return list(rng.choice(self.outs))
        return list(rng.choice(self.ins or self.all))


# ---------------------------------------------------------------------------------------------
# C01, C02

def geom(rng, n, kind, pos_per=60):
    out = []
    while len(out) < n:
        un = Units(rng)
        if BIG:
            g = long_grid(rng, kind)
        elif kind == "cart":
            g = cart_grid(rng, maxn=7, maxcells=400)
            if rng.random() < 0.3:      # many or odd numbers of cells along one axis
                a = rng.randrange(3)
                g["cells"] = [1, 1, 1]
                g["cells"][a] = rng.choice([10, 11, 13, 29, 41, 47, 48])
                ext = rng.choice([g["cells"][a], 2 * g["cells"][a], rng.randint(20, 60)])
                g["lim"][a][1] = g["lim"][a][0] + ext
        else:
            g = cyl_grid(rng, maxcells=400)
            if rng.random() < 0.2:
                g["cells"][0] = rng.choice([6, 7, 9, 12])
        ps = positions(g, un)
        if not ps:
            continue
        rng.shuffle(ps)
        pos = ps[:pos_per]
        # corners and limits matter
        for corner in product(*[(0, 1)] * 3):
            p = [g["lim"][a][corner[a]] for a in range(3)]
            if pos_ok(g, p, un):
                pos.append(p)
        for a in range(3):
            p = list(rng.choice(ps))
            p[a] = UNDEF
            pos.append(p)
        out.append(un.into({"kind": "geom", "g": g, "pos": pos}))
    return out


# ---------------------------------------------------------------------------------------------
# C03, C04, C05

def small(rng):
    return rng.choice([[rng.randint(-6, 9), 1]] * 3 + [[rng.choice([-3, -1, 1, 3, 5]), 2]])


def content(rng, n, nan=0.1):
    return [[0, 0] if rng.random() < nan else small(rng) for _ in range(n)]


def weights(rng, n, zero=0.25):
    return [[0 if rng.random() < zero else rng.choice([1, 1, 2, 3, 4]), 1] for _ in range(n)]


def history(rng, mix, length, maxcells=18, vector=None, inf=False):
    """One history of grid operations; mix = weights of the kinds of operations."""
    while True:
        un = Units(rng)
        g = any_grid(rng, maxcells)
        pl = Places(rng, g, un, undef=0.04)
        if pl.ok():
            break
    n = g["cells"][0] * g["cells"][1] * g["cells"][2]
    vec = (rng.random() < 0.15 if vector is None else vector)
    if rng.random() < 0.35:
        init = {"val": [[0, 1]] * n, "wt": [[0, 1]] * n}
        inits = [init] * (3 if vec else 1)
    else:
        inits = [{"val": content(rng, n), "wt": weights(rng, n)} for _ in range(3 if vec else 1)]
    s = un.into({"kind": "ops", "g": g, "vector": 1 if vec else 0, "init": inits})
    ops, divided, averaged = [], 0, False
    kinds = [k for k, w in mix.items() for _ in range(w)]
    while len(ops) < length:
        k = rng.choice(kinds)
        o = {"op": k}
        if k == "add":
            o.update(pos=pl.draw(), v=small(rng))
        elif k == "addcell":
            o.update(cell=[rng.randrange(c) for c in g["cells"]], v=small(rng))
        elif k == "insert":
            o.update(pos=pl.draw(), v=small(rng) if rng.random() < 0.9 else [0, 0])
        elif k == "traj":
            o.update(pos=pl.draw(), pos2=pl.draw(), v=small(rng))
        elif k == "divscalar":
            o.update(v=rng.choice([[2, 1], [-1, 1], [1, 2], [4, 1], [3, 1] if not divided else [2, 1], [0, 1] if inf else [2, 1]]))
            if o["v"] == [3, 1]:
                divided += 1
        elif k == "divarray":
            if divided >= 2 or averaged:
                continue
            divided += 1
            o.update(arr=[rng.choice([[1, 1], [2, 1], [3, 1], [-2, 1], [1, 2], [0, 1] if inf else [1, 1]]) for _ in range(n)])
        elif k == "divweight":
            if divided >= 2 or averaged:
                continue
            divided += 1
        elif k == "setdata":
            if vec:
                continue
            o.update(arr=content(rng, n))
            divided = 0
            averaged = False
        elif k == "setweights":
            o.update(arr=weights(rng, n))
        elif k == "outlier":
            mode = rng.choice([0, 1, 2, 2]) if not averaged and divided < 2 else rng.choice([0, 1])
            averaged |= mode == 2
            o.update(mode=mode, v=rng.choice([[rng.randint(-3, 7), 1], [rng.choice([1, 3, 5, 7]), 2]]))
        elif k == "refused":
            what = rng.choice(["data", "data2", "weights", "weights2", "axes", "mode"])
            o.update(what=what, mode=rng.choice([3, 4, 17]))
        elif k == "zeros":
            divided, averaged = 0, False
        elif k == "observe":
            o.update(observation(rng, g, un, pl, vec))
            if averaged and o["what"] not in ("get", "slice", "sliceidx"):
                continue
        ops.append(o)
    s["ops"] = ops
    return s


def observation(rng, g, un, pl, vec):
    what = rng.choice(["collapse", "cw", "c2", "c2w", "sliceidx", "slice", "slice", "get"] + (["vcw", "vc2", "vc2w"] if vec else []))
    a = rng.randint(1, 3)
    b = rng.choice([x for x in (1, 2, 3) if x != a])
    o = {"what": what, "a": a, "b": b, "i": rng.randrange(g["cells"][a - 1]), "x": 0}
    if what == "get":
        o["pos"] = pl.draw()
    if what == "slice":
        xs = slice_coords(g, a, un)
        o["x"] = rng.choice(xs)
    return o


def slice_coords(g, a, un):
    """Coordinates along axis a inside the limits that may be looked up."""
    lo, hi = g["lim"][a - 1]
    n = g["cells"][a - 1]
    if g["kind"] == "cart" or a == 3:
        return [x for x in range(lo, hi + 1) if axis_ok(x, lo, hi, n, un.exact)]
    if a == 2:
        return [x for x in range(-24, 25) if abs(x) == 24 or (x + 24) * n % 48]
    r = cyl_xy(g, [0, 0, 0])[2]
    return [x for x in range(0, r + 1) if x in (0, r) or x * x * n % (r * r)]


MIX_C03 = {"add": 6, "addcell": 2, "insert": 2, "traj": 4, "divscalar": 1, "divarray": 1, "divweight": 1,
           "setdata": 1, "setweights": 1, "zeros": 1, "refused": 1, "observe": 1}
MIX_C04 = {"add": 3, "addcell": 1, "traj": 1, "setdata": 1, "setweights": 1, "divweight": 1, "observe": 10, "zeros": 0}
MIX_C05 = {"add": 2, "addcell": 1, "setdata": 2, "setweights": 2, "outlier": 6, "divweight": 1, "refused": 1}


def histories(rng, n, mix, length=(8, 14), **kw):
    return [history(rng, mix, rng.randint(*length), **kw) for _ in range(n)]


# ---------------------------------------------------------------------------------------------
# selectors

def filt(rng, off, values):
    k = rng.random()
    if k < 0.35:
        return [off] + (rng.sample(values, 1) if rng.random() < 0.2 else [])
    if k < 0.55:
        return [rng.choice(values)]
    if k < 0.8:
        a, b = rng.choice(values), rng.choice(values)
        return [min(a, b), max(a, b)] if rng.random() < 0.9 else [a, b]
    return rng.sample(values, min(len(values), rng.randint(3, 4)))


def selector(rng, tmax, free=False):
    s = {"radius": filt(rng, -1, [1, 2, 3, 4]), "clouds": filt(rng, -1, [0, 1, 2, 3]),
         "density": filt(rng, -1, [1, 2, 3, 5]), "ids": filt(rng, 0, [1, 2, 3, 4, 5])}
    if free or rng.random() < 0.35:     # let most particles through
        for k, off in (("radius", -1), ("clouds", -1), ("density", -1), ("ids", 0)):
            if rng.random() < 0.8:
                s[k] = [off]
    if rng.random() < 0.5:
        s["time"] = [-1, tmax + 1]
    else:
        a = rng.randint(0, tmax)
        s["time"] = [a, rng.randint(a, tmax + 1)]
    return s


def any_selector(rng, tmax):
    if BIG == "ids":
        s = selector(rng, tmax, free=True)
        s.update(radius=[-1], clouds=[-1], density=[-1], ids=[0])
        if rng.random() < 0.3:
            s[rng.choice(["radius", "clouds", "density"])] = [rng.choice([1, 2, 3])]
        elif rng.random() < 0.6:
            s["ids"] = rng.choice([[3], [4], [2, 4], [5, 1, 3], [1, 2, 3, 4]])
        s["time"] = [-10, tmax + 1]
        return s
    k = rng.random() * (0.3 if BIG else 1)
    if k < 0.15:
        return {"default": 1}
    return selector(rng, tmax, free=k < 0.6)


def selectors(rng, n):
    out = []
    for _ in range(n):
        sel = {"default": 1} if rng.random() < 0.05 else selector(rng, 10, free=rng.random() < 0.3)
        # wide value ranges so that the filters disagree
        qs = []
        for _ in range(rng.randint(20, 40)):
            k = rng.random()
            if k < 0.75:
                q = {"q": "particle", "r": rng.randint(-1, 5), "c": rng.randint(-1, 4), "d": rng.randint(-1, 6), "id": rng.randint(0, 6)}
                if rng.random() < 0.5 and "default" not in sel:     # near a selected particle
                    for f, key in (("radius", "r"), ("clouds", "c"), ("density", "d"), ("ids", "id")):
                        if rng.random() < 0.85:
                            q[key] = max(rng.choice(sel[f]), 0)
                if rng.random() < 0.05:
                    q[rng.choice("rcd")] = UNDEF
            elif k < 0.9:
                q = {"q": "time", "t": rng.randint(-2, 12)}
            else:
                a = rng.randint(-1, 9)
                q = {"q": "settime", "a": a, "b": rng.randint(a - 1, 11)}
            qs.append(q)
        out.append({"kind": "selector", "sel": sel, "queries": qs})
    return out


# ---------------------------------------------------------------------------------------------
# datasets

FAST = [(0, 0, 0), (3, 4, 0), (130, 0, 0), (255, 0, 0), (256, 0, 0), (180, 240, 0), (0, 0, 299), (290, 0, 0)]


def signed(rng, v):
    v = list(v)
    rng.shuffle(v)
    return [x if rng.random() < 0.5 else -x for x in v]


POOL_ALL = [(0, 0, 0), (1, 0, 0), (2, 0, 0), (5, 0, 0), (7, 0, 0), (3, 4, 0), (6, 8, 0), (5, 12, 0)]
POOL_ABS = POOL_ALL + [(1, 2, 2), (2, 3, 6), (4, 4, 7), (1, 4, 8), (2, 6, 9), (3, 4, 12)]


class Kinematics:
    """Speeds whose measures are whole numbers; with a unit that is not exact they are even, so
    that odd thresholds never tie."""

    def __init__(self, rng, pool=None):
        self.rng = rng
        self.exact = rng.random() < 0.6 or WHOLE
        self.uv = "1" if WHOLE else rng.choice(["1", "0.5", "2"]) if self.exact else rng.choice(["0.1", "0.3", "1.7"])
        self.pool = pool or POOL_ALL
        self.nan = rng.choice([0, 0.1])

    def draw(self):
        v = signed(self.rng, self.rng.choice(self.pool))
        if not self.exact:
            v = [2 * x for x in v]
        if self.rng.random() < self.nan:
            for a in self.rng.sample(range(3), self.rng.choice([1, 1, 3])):
                v[a] = UNDEF
        return v

    def threshold(self, lo, hi):
        t = self.rng.randint(lo, hi)
        return t if self.exact else 2 * t + 1


def times(rng, n, step=4, even=None):
    t, out = rng.choice([0, 0, 0, step, 3, -2, -7]), []
    even = rng.random() < 0.5 if even is None else even
    d = rng.randint(1, step)
    for _ in range(n):
        out.append(t)
        t += d if even else rng.randint(1, step)
    return out


def dataset(rng, place, kin, nsteps, nparts, step=4, counts=None, types=(1, 2, 3), ids="const", even=None, plain=0):
    ts = times(rng, nsteps, step, even)
    attrs = [{"r": rng.randint(1, 4), "c": rng.randint(0, 3), "d": rng.choice([1, 2, 3, 5]), "id": k + 1,
              "ty": rng.choice(types)} for k in range(nparts)]
    for a in attrs[:plain]:         # of no type in particular
        a["ty"] = 7
    if ids == "const" and rng.random() < 0.3:      # identities that are not the order of the records
        for a, i in zip(attrs, rng.sample(range(0, nparts + 3), nparts)):
            a["id"] = i
    steps = []
    for n in range(nsteps):
        m = nparts if counts is None else counts[n]
        parts = []
        for k in range(m):
            q = dict(attrs[k])
            if rng.random() < 0.1:
                q.update(rng.choice([{"c": rng.randint(0, 3)}, {"r": rng.randint(1, 4)}, {"d": rng.choice([1, 2, 3, 5])},
                                     {"ty": rng.choice(types)}]))
            if ids == "vary" and rng.random() < 0.08:
                q["id"] = rng.randint(1, nparts + 1)
            q["p"], q["v"] = place(k, n), kin.draw()
            parts.append(q)
        steps.append({"t": ts[n], "parts": parts})
    return {"steps": steps, "dims": [[-50, 50]] * 3, "vmag": [0, rng.randint(0, 9), 40]}


def counts(rng, nsteps, nparts):
    """Numbers of particles: constant, growing, shrinking, or both."""
    k = rng.random() * (0.5 if BIG == "parts" else 1)
    if k < 0.5:
        return None
    if k < 0.7:
        return sorted(rng.randint(0, nparts) for _ in range(nsteps))
    if k < 0.85:
        return sorted((rng.randint(0, nparts) for _ in range(nsteps)), reverse=True)
    return [rng.randint(0, nparts) for _ in range(nsteps)]


def session(rng, un, ds, ops, kin, ut="1"):
    return un.into({"kind": "analysis", "ds": ds, "uv": kin.uv, "ut": ut, "ops": ops})


def setting(rng, pool=None, maxcells=24, pcyl=0.35, exact=None, inside=0.8, big=False, keep=None, undef=0.05):
    while True:
        un = Units(rng, exact)
        wide = maxcells > 8 and not big and keep is None and rng.random() < 0.03
        g = (any_grid(rng, maxcells, pcyl) if BIG == "cells" and not big else cart_grid(rng, 12, 300, 24) if wide
             else any_grid(rng, maxcells, pcyl) if not big else cyl_grid(rng, maxcells, big=True))
        pl = Places(rng, g, un, inside=inside, undef=undef, keep=keep and (lambda p, g=g: keep(g, p)))
        if len(pl.ins) >= min(2, g["cells"][0]):
            break
    return un, g, pl, Kinematics(rng, pool)


def tmax(ds):
    return max([s["t"] for s in ds["steps"]] + [0])


LONG = None            # numbers of time steps instead


def extent(rng, nsteps, nparts):
    """Time steps and particles of a dataset; a few have many."""
    if BIG in ("parts", "steps"):
        many = rng.choice([280, 300, 310])
        return (rng.randint(1, 2), many) if BIG == "parts" else (many, 1)
    if BIG == "cells":
        return rng.randint(1, 3), rng.randint(2, 4)
    if LONG:
        return rng.choice(LONG), rng.randint(1, 3)
    k = rng.random()
    if k < 0.006 and nparts != 8:       # (the Lacey index has ever longer fractions)
        return rng.randint(41, 150), rng.randint(1, 2)
    if k < 0.012 and nparts != 8:
        return rng.randint(1, 2), rng.randint(40, 140)
    if k < 0.035:
        return rng.randint(12, 40), rng.randint(1, 3)
    if k < 0.06:
        return rng.randint(1, 3), rng.randint(9, 24)
    return rng.randint(1, nsteps), rng.randint(1, nparts)


def dirty(rng):
    return 1 if rng.random() < 0.3 else 0


UT = ["1", "0.5", "0.1", "0.003", "60", "0.00000001"]
MODES = ["absolute", "x", "y", "z", "r", "theta", "xy", "xz", "yz"]


def c07(rng, n):
    out = []
    for _ in range(n):
        absolute = rng.random() < 0.3
        un, g, pl, kin = setting(rng, POOL_ABS if absolute else POOL_ALL)
        T, P = extent(rng, 6, 6)
        ds = dataset(rng, lambda k, n: pl.draw(), kin, T, P, counts=counts(rng, T, P))
        ops = []
        for _ in range(rng.randint(1, 3)):
            mode = rng.choice(["absolute", "x", "y", "z"]) if absolute else rng.choice(MODES + ["speed", "w"] * (rng.random() < 0.2))
            o = {"op": "velocity", "g": g, "sel": any_selector(rng, tmax(ds)), "dirty": dirty(rng), "mode": mode, "vmin": -1000, "vmax": 1000}
            if rng.random() < 0.6:
                o["vmin"] = kin.threshold(-6, 5)
                o["vmax"] = o["vmin"] + 2 * rng.randint(0, 6)
            ops.append(o)
        out.append(session(rng, un, ds, ops, kin, rng.choice(UT)))
    return out


def c08(rng, n):
    out = []
    for _ in range(n):
        if rng.random() < 0.5:
            def ok(g, p):
                x, y, r = cyl_xy(g, p)
                rr = x * x + y * y
                return rr > r * r or (rr > 0 and is_square(rr))
            un, g, pl, kin = setting(rng, POOL_ABS, maxcells=36, big=True, keep=ok)
        else:
            un, g, pl, kin = setting(rng, POOL_ABS, pcyl=0)
        T, P = extent(rng, 5, 5)
        ds = dataset(rng, late(rng, P, T, pl), kin, T, P, counts=counts(rng, T, P))
        ops = [{"op": "vector", "g": g, "sel": any_selector(rng, tmax(ds)), "dirty": dirty(rng)} for _ in range(rng.randint(1, 2))]
        out.append(session(rng, un, ds, ops, kin, rng.choice(UT)))
    return out


def c09(rng, n):
    out = []
    for _ in range(n):
        un, g, pl, kin = setting(rng, POOL_ABS, maxcells=40)
        T, P = extent(rng, 7, 7)
        ds = dataset(rng, lambda k, n: pl.draw(), kin, T, P, counts=counts(rng, T, P))
        ops = []
        for _ in range(rng.randint(1, 4)):
            o = {"op": rng.choice(["number", "number", "showcase", "meanvel"]), "g": g, "sel": any_selector(rng, tmax(ds)), "dirty": dirty(rng)}
            ops.append(o)
        out.append(session(rng, un, ds, ops, kin, rng.choice(UT)))
    return out


def c10(rng, n):
    out = []
    while len(out) < n:
        un, g, pl, kin = setting(rng, POOL_ABS, maxcells=12)
        if BIG == "cells":
            g, kin = any_grid(rng, 8), Kinematics(rng, FAST)
            pl = Places(rng, g, un)
        T, P = extent(rng, 6, 7)
        lo = rng.choice([0, 0, 1, 2, 3]) if kin.exact else rng.choice([0, 1, 3])
        top = lo + rng.randint(1, 14) * (1 if kin.exact else 2)
        speeds = sorted({math.isqrt(sum(x * x for x in v)) * (1 if kin.exact else 2) for v in kin.pool})
        opts = []
        for bins in (1, 2, 3, 4, 5, 7, 10) if BIG != "cells" else (260, 300):
            for hi in (top, lo + bins, lo + 2 * bins):
                if not kin.exact and (hi - lo) % 2 == (0 if lo % 2 else 1) and False:
                    continue
                ties = [v for v in speeds if lo <= v <= hi and (v - lo) * bins % (hi - lo) == 0]
                if kin.exact and (hi - lo) % bins == 0 or not [v for v in ties if not (v == 0 == lo)]:
                    opts.append((bins, hi))
        if not opts:
            continue
        ds = dataset(rng, lambda k, n: pl.draw(), kin, T, P, counts=counts(rng, T, P))
        bins, hi = rng.choice(opts)
        ds["vmag"] = [lo, rng.randint(lo, hi), hi]
        ops = []
        for _ in range(rng.randint(1, 3)):
            bins2, hi2 = rng.choice([x for x in opts if x[1] == hi] if rng.random() < 0.4 else opts)
            ops.append({"op": "histogram", "g": g, "sel": any_selector(rng, tmax(ds)), "dirty": dirty(rng), "bins": bins2,
                        "vmax": 0 if hi2 == hi and rng.random() < 0.5 else hi2,
                        "prop": "velocity" if rng.random() < 0.93 else rng.choice(["speed", "", "Velocity"])})
        out.append(session(rng, un, ds, ops, kin, rng.choice(UT)))
    return out


def c11(rng, n):
    out = []
    for _ in range(n):
        homog = rng.random() < 0.4 and not BIG
        un, g, pl, kin = setting(rng, POOL_ABS, maxcells=12 if homog else 24, inside=rng.choice([0.8, 1.0]))
        T, P = rng.randint(2, 4 if homog else 6), rng.randint(1, 3 if homog else 6)
        if BIG in ("parts", "steps"):
            T, P = extent(rng, T, P)
            T = max(T, 2)
        ds = dataset(rng, lambda k, n: pl.draw(), kin, T, P, step=1 if homog else 4, counts=counts(rng, T, P))
        ops = []
        for _ in range(rng.randint(1, 2)):
            ops.append({"op": "homogeneity" if homog and rng.random() < 0.8 else "occupancy", "g": g,
                        "sel": any_selector(rng, tmax(ds)), "dirty": dirty(rng),
                        "vmin": kin.threshold(0, 6) if rng.random() < 0.5 else 0})
        out.append(session(rng, un, ds, ops, kin, rng.choice(["1", "0.5", "4"] if homog else UT)))
    return out


def c12(rng, n):
    out = []
    for _ in range(n):
        un, g, pl, kin = setting(rng, POOL_ABS, maxcells=rng.choice([1, 4, 24]))
        kin.pool = rng.choice([kin.pool, kin.pool[:2], [rng.choice(kin.pool)]])
        T, P = extent(rng, 5, 6)
        ds = dataset(rng, late(rng, P, T, pl), kin, T, P, counts=counts(rng, T, P))
        ops = [{"op": "gtemp", "g": g, "sel": any_selector(rng, tmax(ds)), "dirty": dirty(rng),
                "mode": rng.choice(["x", "y", "z", "xyz"] * 4 + ["xy", "absolute"])} for _ in range(rng.randint(1, 2))]
        out.append(session(rng, un, ds, ops, kin, rng.choice(UT)))
    return out


def tie_free(ts, lag, den=1):
    """No recorded time lies exactly between two steps for this lag (lag in 1/den)."""
    for t in ts:
        d = sorted(abs(x * den - t * den - lag) for x in ts)
        if len(d) > 1 and d[0] == d[1]:
            return False
    return True


def lags(rng, ts):
    span = ts[-1] - ts[0]
    c = [x for x in range(0, span + 2) if tie_free(ts, x)]
    return c


def c13(rng, n):
    out = []
    for _ in range(n):
        un, g, pl, kin = setting(rng, POOL_ALL, maxcells=8, inside=0.9)
        T, P = extent(rng, 5, 5)
        ds = dataset(rng, late(rng, P, T, pl), kin, T, P, counts=counts(rng, T, P))
        ls = lags(rng, [s["t"] for s in ds["steps"]])
        ops = [{"op": "dispersion", "g": g, "sel": any_selector(rng, tmax(ds)), "dirty": dirty(rng), "lag": rng.choice(ls)}
               for _ in range(rng.randint(1, 3))]
        out.append(session(rng, un, ds, ops, kin, rng.choice(["1", "0.5", "4"])))
    return out


def c14(rng, n):
    out = []
    for _ in range(n):
        un, g, pl, kin = setting(rng, POOL_ALL, maxcells=12, inside=0.9)
        T, P = extent(rng, 6, 5)
        T = min(T, 120)
        curve = {"step": 1, "even": True} if BIG == "steps" else {}
        ds = dataset(rng, lambda k, n: pl.draw(), kin, T, P, counts=counts(rng, T, P), **curve)
        ts = [s["t"] for s in ds["steps"]]
        ls = lags(rng, ts)
        ops = []
        for _ in range(rng.randint(1, 3)):
            o = {"op": "msdfield", "g": g, "sel": any_selector(rng, tmax(ds)), "dirty": dirty(rng), "lag": rng.choice(ls)}
            if rng.random() < 0.4 or curve:
                steps = rng.randint(1, 4) if not curve else rng.choice([40, 70])
                a, d = (rng.choice(ls), rng.randint(1, 3)) if not curve else (rng.choice(ls[:100]), rng.randint(1, 2))
                want = [a + k * d for k in range(steps)]
                if all(x in ls for x in want):
                    o.update(op="msd", lag=a, lag2=want[-1] if steps > 1 else a + d, steps=steps)
            ops.append(o)
        out.append(session(rng, un, ds, ops, kin, rng.choice(["1", "0.5", "4"])))
    return out


TYPES = [(1, 2), (1, 2, 3), (0, 1, 2), (2, 5), (1,), (0, 1, 2, 3, 4), (0, 3, 9, 20)]


def type_pair(rng, types):
    """Two types to compare, usually among those that occur."""
    pool = list(types) + [t for t in (0, 1, 2, 6) if t not in types][:rng.choice([0, 0, 1, 2])]
    return rng.sample(pool if len(pool) > 1 else [pool[0], pool[0] + 1], 2)


def c15(rng, n):
    out = []
    while len(out) < n:
        un, g, pl, kin = setting(rng, POOL_ALL, maxcells=8, inside=0.9)
        if g["cells"][0] * g["cells"][1] * g["cells"][2] < 2:
            continue
        types = rng.choice(TYPES)
        T, P = extent(rng, 5, 8)
        ds = dataset(rng, late(rng, P, T, pl), kin, T, P, types=types, counts=counts(rng, T, P), plain=P - 9 if BIG == "parts" else 0)
        ops = []
        for _ in range(rng.randint(1, 2)):
            ta, tb = type_pair(rng, types)
            ops.append({"op": "lacey", "g": g, "sel": any_selector(rng, tmax(ds)), "dirty": dirty(rng), "ta": ta, "tb": tb,
                        "thr": rng.choice([0, 0, 1, 1, 2, 3])})
        out.append(session(rng, un, ds, ops, kin, rng.choice(UT)))
    return out


def c16(rng, n):
    out = []
    for _ in range(n):
        un, g, pl, kin = setting(rng, POOL_ALL, maxcells=18, inside=0.85)
        T, P = extent(rng, 6, 8)
        types = rng.choice(TYPES)
        ds = dataset(rng, lambda k, n: pl.draw(), kin, T, P, types=types, counts=counts(rng, T, P))
        ops = []
        for _ in range(rng.randint(1, 2)):
            ta, tb = type_pair(rng, types)
            ops.append({"op": "concentration", "g": g, "sel": any_selector(rng, tmax(ds)), "dirty": dirty(rng), "ta": ta, "tb": tb})
        out.append(session(rng, un, ds, ops, kin, rng.choice(UT)))
    return out


def walk(rng, lo, hi, axis):
    """Positions that keep crossing boundaries along one axis."""
    state = {}

    def place(k, n):
        x = state.get(k, rng.randint(lo, hi))
        p = rng.random()
        if p < 0.45:
            x = rng.randint(lo, hi)
        elif p < 0.9:
            x = max(lo, min(hi, x + rng.choice([-2, -1, 1, 2])))
        state[k] = x
        q = [rng.randint(-3, 3) for _ in range(3)]
        q[axis - 1] = x if rng.random() > 0.03 else UNDEF
        return q
    return place


def circ(rng, n, two):
    out = []
    while len(out) < n:
        un = Units(rng)
        kin = Kinematics(rng)
        axis = rng.randint(1, 3)
        T, P = rng.randint(1, 22), rng.randint(1, 5)
        if BIG in ("parts", "steps"):
            T, P = (260, 2) if BIG == "steps" else (8, 260)
        cs = counts(rng, T, P) if rng.random() < 0.5 else None
        ds = dataset(rng, walk(rng, -3, 3, axis), kin, T, P, counts=cs, ids=rng.choice(["const", "const", "vary"]))
        dims = [[rng.randint(-60, -3), rng.randint(3, 60)] for _ in range(3)]
        dims[axis - 1] = [-3, 3]
        ds["dims"] = dims
        ops = []
        for _ in range(rng.randint(1, 3)):
            sel = any_selector(rng, tmax(ds)) if rng.random() < 0.5 else {"default": 1}
            b = rng.choice([-1, 0, 0, 1, -2, 2])
            if two:
                b2 = b + rng.choice([1, 1, 2, 3])
                if rng.random() < 0.05:
                    b, b2 = rng.choice([(-4, 0), (0, 4), (-4, 4), (-3, 3), (-3, -3), (3, 3)])
                ops.append({"op": "circ2", "sel": sel, "axis": axis, "b": b, "b2": min(b2, 4)})
            else:
                if rng.random() < 0.08:
                    b = rng.choice([-4, 4, -3, 3])
                ops.append({"op": "circ", "sel": sel, "axis": axis, "b": b})
        out.append(session(rng, un, ds, ops, kin, rng.choice(["1", "0.5", "4", "0.1"])))
    return out


def c19(rng, n):
    out = []
    for _ in range(n):
        un, g, pl, kin = setting(rng, POOL_ABS, undef=0.1)
        T, P = rng.randint(1, 8), rng.randint(1, 6)
        if BIG:
            T, P = extent(rng, T, P)
        ds = dataset(rng, lambda k, n: pl.draw(), kin, T, P)
        ops = []
        for _ in range(rng.randint(1, 4)):
            a = rng.randint(0, T) if not BIG else 0
            b = rng.randint(a, T + 2) if not BIG else T
            ops.append({"op": "extract", "particle": rng.randrange(P) if BIG != "parts" else P - 1 - rng.randrange(5), "from": a, "to": b})
        out.append(session(rng, un, ds, ops, kin, rng.choice(UT)))
    return out


def c20(rng, n):
    out = []
    for _ in range(n):
        m = rng.choice([1, 2, 3, 4, 5, 8, 16, 17, 33, 60]) if not BIG else rng.choice([300, 1000])
        ts, t = [], rng.choice([0, 0, -5, 7, 100])
        even = rng.random() < 0.4
        d = rng.randint(1, 9)
        for _ in range(m):
            ts.append(t)
            t += d if even else rng.choice([1, 2, 3, 9, 50])
        qs = set(ts[:12]) | {ts[0] - 1, ts[0], ts[-1], ts[-1] + 1}
        qs |= {rng.randint(ts[0] - 2, ts[-1] + 2) for _ in range(60)}
        if m > 1:
            for k in rng.sample(range(m - 1), min(m - 1, 20)):
                mid = (ts[k] + ts[k + 1]) // 2
                qs |= {mid, mid + 1}
        exact = rng.random() < 0.6
        ut, ot = (rng.choice(DYADIC), rng.choice(["0", "0", "16"])) if exact else (rng.choice(PLAIN), rng.choice(["0", "0.7", "-3.3"]))
        out.append({"kind": "time", "times": ts, "queries": sorted(qs), "ut": ut, "ot": ot})
    return out


def c21(rng, n):
    """Sequences of different calculations on one dataset, on clean and dirty grids, the same
    dataset with its particles in another order, and the parts of a split time window."""
    out = []
    while len(out) < n:
        un, g, pl, kin = setting(rng, POOL_ALL, maxcells=12, inside=0.85, undef=0.04)
        g2 = g
        if rng.random() < 0.3:
            h = any_grid(rng, 12)
            h["lim"] = g["lim"]
            if h["kind"] == g["kind"] and all(pos_ok(h, p, un) for p in pl.all):
                g2 = h
        T, P = rng.randint(2, 5), rng.randint(1, 5)
        ds = dataset(rng, lambda k, n: pl.draw(), kin, T, P)
        ts = [s["t"] for s in ds["steps"]]
        ls = lags(rng, ts)
        sel = selector(rng, tmax(ds), free=True)
        sel["time"] = [-1, tmax(ds) + 1]

        def op(dirtiness, s):
            k = rng.choice(["velocity", "vector", "number", "occupancy", "gtemp", "dispersion", "msdfield", "histogram",
                            "concentration", "lacey"])
            if k == "vector" and g["kind"] == "cyl":
                k = "number"
            o = {"op": k, "g": rng.choice([g, g2]), "sel": s, "dirty": dirtiness}
            if k == "velocity":
                o.update(mode=rng.choice(["absolute", "x", "yz"]), vmin=-1000, vmax=1000)
            elif k == "gtemp":
                o.update(mode=rng.choice(["x", "z", "xyz"]))
            elif k in ("dispersion", "msdfield"):
                o.update(lag=rng.choice(ls))
            elif k == "occupancy":
                o.update(vmin=0)
            elif k == "histogram":
                o.update(prop="velocity", vmax=42, bins=1)
            elif k in ("concentration", "lacey"):
                o.update(ta=1, tb=2, thr=1)
                if k == "lacey" and o["g"]["cells"] == [1, 1, 1]:
                    o.update(op="concentration")
            return o
        ops = []
        for _ in range(rng.randint(2, 4)):
            o = op(1, sel)
            ops.append(o)
            if rng.random() < 0.4:      # again, and on a clean grid
                ops.append(dict(o, dirty=rng.choice([0, 1])))
            if rng.random() < 0.4:      # restricted to two disjoint windows
                m = rng.randint(ts[0], ts[-1])
                ops.append(dict(o, sel=dict(sel, time=[-1, m])))
                ops.append(dict(o, sel=dict(sel, time=[m + 1, tmax(ds) + 1])))
        out.append(session(rng, un, ds, ops, kin, rng.choice(["1", "0.5"])))
        # the same data with the particles in another order
        perm = list(range(P))
        rng.shuffle(perm)
        ds2 = dict(ds, steps=[{"t": s["t"], "parts": [s["parts"][k] for k in perm]} for s in ds["steps"]])
        out.append(session(rng, un, ds2, ops, kin, "1"))
    return out


def c22(rng, n):
    def nums(k, nan=0.2, some=True):
        v = [UNDEF if rng.random() < nan else rng.randint(-20, 20) for _ in range(k)]
        if some and all(x == UNDEF for x in v) and v:
            v[rng.randrange(k)] = rng.randint(-9, 9)
        return v
    out = []
    for _ in range(n):
        what = rng.choice(["stats", "stats", "minmax", "meshgrid", "meshgrid3d", "flatten2d", "flatten3d"])
        s = {"kind": "helper", "what": what}
        if what == "stats":
            sh = [rng.randint(1, 4) for _ in range(3)]
            s.update(shape=sh, vals=nums(sh[0] * sh[1] * sh[2], rng.choice([0, 0.3, 0.8]), some=False))
        elif what == "minmax":
            s.update(vals=nums(rng.randint(1, 12), rng.choice([0, 0.3, 0.7])))
        elif what.startswith("mesh"):
            s.update(x=nums(rng.randint(0, 5), 0.05, False), y=nums(rng.randint(0, 5), 0.05, False), z=nums(rng.randint(0, 4), 0.05, False))
        elif what == "flatten2d":
            sh = [rng.randint(1, 5) for _ in range(2)]
            s.update(shape=sh, vals=nums(sh[0] * sh[1], 0.1))
        else:
            sh = [rng.randint(1, 4) for _ in range(3)]
            s.update(shape=sh, vals=nums(sh[0] * sh[1] * sh[2], 0.1))
        out.append(s)
    return out


def c22_long(rng):
    """Large arrays."""
    nums = lambda k, nan, far=900: [UNDEF if rng.random() < nan else rng.randint(-far, far) for _ in range(k)]
    out = []
    for sh in ([7, 10, 5], [1, 300, 1], [13, 1, 25]):
        k = sh[0] * sh[1] * sh[2]
        v = lambda nan: nums(k, nan)
        out.append({"kind": "helper", "what": "stats", "shape": sh, "vals": nums(k, rng.choice([0, 0.5]), 20)})
        out.append({"kind": "helper", "what": "stats", "shape": sh, "vals": nums(k, 0.99, 20)})
        # what is alike but for one far away
        vals = v(0.2)
        vals[rng.randrange(3, k)] = rng.choice([-30000, 30000])
        out.append({"kind": "helper", "what": "minmax", "vals": vals})
        out.append({"kind": "helper", "what": "flatten3d", "shape": sh, "vals": v(0.1)})
    for sh in ([17, 19], [1, 300], [270, 1]):
        out.append({"kind": "helper", "what": "flatten2d", "shape": sh, "vals": nums(sh[0] * sh[1], 0.1)})
        out.append({"kind": "helper", "what": "meshgrid", "x": nums(sh[0], 0.05), "y": nums(sh[1], 0.05), "z": []})
    out.append({"kind": "helper", "what": "meshgrid3d", "x": nums(9, 0.05), "y": nums(6, 0), "z": nums(7, 0)})
    return out


ANGLES = [([0, 1], [1, 1]), ([1, 1], [0, 1]), ([-1, 1], [0, 1]), ([0, 1], [-1, 1]),
          ([3, 5], [4, 5]), ([-4, 5], [3, 5]), ([5, 13], [-12, 13]), ([8, 17], [15, 17]), ([-7, 25], [-24, 25])]


def c23(rng, n):
    out = []
    for _ in range(n):
        an = []
        for _ in range(3):
            s, c = rng.choice(ANGLES[:4] if rng.random() < 0.5 else ANGLES)
            an.append({"sin": s, "cos": c, "turns": rng.choice([0, 0, 0, 1, -1])})
        v3 = lambda: [rng.randint(-9, 9) for _ in range(3)]
        out.append({"kind": "rotate", "pos": v3(), "vel": v3(), "anchor": v3() if rng.random() < 0.8 else [0, 0, 0], "angles": an})
    return out


def c24(rng, n):
    out = []
    while len(out) < n:
        if rng.random() < 0.5:
            sh = [rng.randint(1, 4) for _ in range(3)]
            k = sh[0] * sh[1] * sh[2]
            style = rng.random()
            vals = [0 if rng.random() < rng.choice([0.1, 0.6]) else rng.randint(-2 if style < 0.2 else 1, 9 if style < 0.7 else 3) for _ in range(k)]
            if style > 0.95:
                vals = [0] * k
            q = rng.choice([[a, 8] for a in range(9)] + [[1, 16], [-1, 8], [9, 8], [0, 1], [1, 1]])
            out.append({"kind": "threshold", "shape": sh, "vals": vals, "q": q})
            continue
        un, g, pl, kin = setting(rng, POOL_ALL, maxcells=18)
        T, P = rng.randint(1, 4), rng.randint(1, 5)
        mk = lambda: dataset(rng, lambda k, n: pl.draw(), kin, rng.randint(1, 4), rng.randint(1, 5))
        s = un.into({"kind": "compare", "ds": mk(), "ds2": mk(), "g": g, "uv": kin.uv, "ut": "1", "dirty": dirty(rng),
                     "mode": rng.choice(MODES) if rng.random() < 0.95 else "speed", "vmin": -1000, "vmax": 1000})
        if rng.random() < 0.5:
            s["vmin"] = kin.threshold(-4, 3)
            s["vmax"] = s["vmin"] + 2 * rng.randint(0, 6)
        out.append(s)
    return out


def c24_long(rng):
    """Many cells, of few values or of many."""
    out = []
    for sh in ([7, 7, 6], [300, 1, 1], [2, 3, 50], [5, 11, 5]):
        k = sh[0] * sh[1] * sh[2]
        hi = rng.choice([3, 40, 900])
        vals = [0 if rng.random() < 0.2 else rng.randint(1, hi) for _ in range(k)]
        for q in ([1, 8], [7, 8], [rng.randint(2, 6), 8]):
            out.append({"kind": "threshold", "shape": sh, "vals": vals, "q": q})
    return out


# ---- data files -------------------------------------------------------------------------------
B_SMALL, B_REAL = 4, 20000


def particle(rng, k):
    v = lambda: rng.randint(-20, 20)
    return {"p": [v(), v(), v()], "v": [v(), v(), v()], "r": rng.randint(1, 9), "d": rng.randint(2, 9), "c": rng.randint(2, 9),
            "ty": rng.randint(1, 5), "id": rng.choice([k, k + 10, rng.randint(0, 99)])}


def file_stats(rng, n):
    v = lambda k: [rng.randint(-50, 50) for _ in range(k)]
    return {"dims": [v(3), v(3)], "vel": [v(3), v(3), v(3)], "vmag": v(3), "time": [rng.randint(-9, 9), rng.randint(10, 90)], "n": n,
            "rate": rng.randint(1, 99)}


def edges(rng, steps, b):
    """A step: often one around the edges of the windows the buffers move through."""
    if rng.random() < 0.5:
        return rng.randrange(steps)
    return min(steps - 1, max(0, rng.randrange(steps // b + 2) * b + rng.choice([-1, -1, 0, 0, 1])))


def reads(rng, steps, b, length, stats=0.1):
    calls, ready = [], []
    last = None
    names = rng.sample([0, 1, 2, 3, 7, 50], 3)
    while len(calls) < length:
        x = rng.random()
        t = edges(rng, steps, b)
        if last is not None and rng.random() < 0.3:
            t = min(steps - 1, max(0, last + rng.choice([-1, 1, 1, b, -b])))
        if x < stats:
            calls.append({"c": "stats"})
            continue
        elif x < 0.25:
            calls.append({"c": "single", "t": t})
        elif x < 0.35:
            n = rng.choice(names)
            calls.append({"c": "setup", "b": n})
            ready.append(n)
            continue
        elif x < 0.65 and ready:
            calls.append({"c": "buffer", "t": t, "b": rng.choice(ready)})
        else:
            calls.append({"c": "get", "t": t})
        last = t
    return calls


def optional(mgr):
    return ["density"] if mgr == "t" else ["density", "radius", "particletype"]


def readers(rng, n, mgr):
    out = []
    for _ in range(n):
        steps, parts = rng.choice([1, 2, 3, 4, 5, 7, 8, 9, 11, 12, 14]), rng.randint(1, 4)
        fixed = mgr == "p" or rng.random() < 0.5
        ts, t = [], rng.randint(-5, 5)
        for _ in range(steps):
            ts.append(t)
            t += rng.randint(1, 4)
        f = {"steps": [{"t": t, "parts": [particle(rng, k) for k in range(parts if fixed else rng.randint(0, 4))]} for t in ts],
             "stats": file_stats(rng, parts), "ints": rng.randint(0, 1)}
        f["without"] = [x for x in optional(mgr) if rng.random() < 0.2]
        out.append({"kind": "reader", "small": 1, "mgr": mgr, "file": f, "calls": reads(rng, steps, B_SMALL, rng.randint(3, 18))})
    for _ in range(max(2, n // 60)):
        steps = rng.choice([2 * B_REAL + 5000, 2 * B_REAL, B_REAL + 1, B_REAL])
        f = {"gen": {"t": steps, "n": 1}, "stats": file_stats(rng, 1)}
        out.append({"kind": "reader", "mgr": mgr, "file": f, "calls": reads(rng, steps, B_REAL, 12, 0)})
    return out


def readers_long(mgr):
    """Many particles, many windows of the buffers, and large identities."""
    def more(rng):
        out = []
        for steps, parts in ((70, 2), (9, 300), (130, 1), (33, 20)):
            ids = rng.sample([254, 255, 256, 257, 32768, 65535, 65536, 70000, 16777215] + list(range(300, 640)), parts)
            count = lambda: parts if mgr == "p" or parts == 300 or rng.random() < 0.5 else rng.randint(0, parts)
            f = {"steps": [{"t": 3 * t, "parts": [dict(particle(rng, k), id=ids[k], ty=rng.choice([1, 255, 256, 300]), v=[rng.randint(-9000, 9000) for _ in range(3)])
                                                  for k in range(count())]} for t in range(steps)],
                 "stats": file_stats(rng, parts), "ints": rng.randint(0, 1)}
            f["without"] = [x for x in optional(mgr) if rng.random() < 0.1]
            out.append({"kind": "reader", "small": 1, "mgr": mgr, "file": f, "calls": reads(rng, steps, B_SMALL, 8 if parts == 300 else 40)})
        return out
    return more


# ---- conversions ------------------------------------------------------------------------------
DIRECTIONS = [(2, 3, 6), (1, 4, 8), (2, 10, 11), (6, 2, 9), (3, 4, 0), (0, 5, 12), (8, 0, 6), (1, 2, 2), (7, 0, 0)]


def rt(x, d=1):
    f = Fraction(x) / d
    return [f.numerator, f.denominator]


def direction(rng):
    d = list(rng.choice(DIRECTIONS))
    rng.shuffle(d)
    return [x * rng.choice([-1, 1]) for x in d]


def table(rng, rows, width):
    """Rows of `width` numbers in shuffled columns among others."""
    cols = width + rng.choice([0, 0, 1, 2])
    place = rng.sample(range(cols), width)
    out = []
    for row in rows:
        line = [[rng.randint(-99, 99), 1] for _ in range(cols)]
        for k, x in zip(place, row):
            line[k] = x
        out.append(line)
    notes = sorted(rng.sample(range(len(rows) + 1), min(len(rows) + 1, rng.choice([0, 0, 1, 2]))))
    return {"cols": cols, "rows": out, "delim": rng.choice([",", ";", "\t"]), "header": rng.randint(0, 1),
            "comment": rng.choice(["#", "%"]), "notes": notes}, place


def kinematics(rng, d):
    """Position and velocity whose speed is a small rational, in units of 1/d."""
    k = rng.choice([-2, -1, 0, 1, 1, 2, 3])
    return [rt(rng.randint(-60, 60), d) for _ in range(3)] + [rt(x * k, d) for x in direction(rng)]


def unit_of(rng):
    return rng.choice([1, 1, 2, 4, 10])


def walk_times(rng, n, flaws):
    """Times of n samples: mostly increasing; with flaws some are repeated."""
    t = rng.choice([0, 0, 1, 5, 40, -3, -30])
    out = []
    for _ in range(n):
        out.append(t)
        t += rng.choice([0, 1, 2, 3]) if flaws else rng.randint(1, 5)
    return out


def csv_session(rng, mode, rows, width, **more):
    s = {"kind": "convert", "mode": mode, "vel": 0, "interp": 0, "means": 1, "back": 1, "radius": rt(rng.randint(0, 9), rng.choice([1, 2, 10]))}
    s["text"], s["columns"] = table(rng, rows, width)
    s.update(more)
    return s


def many_repeats(rng, mode):
    """More rows at repeated times than would be refused in a row."""
    d, t, rows = unit_of(rng), rng.randint(0, 3), []
    for _ in range(rng.randint(260, 300)):
        rows += [[rt(t)] + kinematics(rng, d) for _ in range(3)]
        t += rng.randint(1, 2)
    return csv_session(rng, mode, rows, 7, sampling=9)


def c27(rng, n):
    out = [many_repeats(rng, "csv")]
    while len(out) < n:
        d = unit_of(rng)
        many = rng.random() < 0.05     # sorting is another matter for longer tables
        ts = walk_times(rng, rng.randint(25, 60) if many else rng.randint(2, 10), many or rng.random() < 0.4)
        if many or rng.random() < 0.3:
            rng.shuffle(ts)
        if len(set(ts)) < 2:
            continue
        dt = rng.choice([1, 1, 2, 10, 1000])
        out.append(csv_session(rng, "csv", [[rt(t, dt)] + kinematics(rng, d) for t in ts], 7, sampling=9))
    return out


def c29(rng, n):
    out = [many_repeats(rng, "chain")]
    while len(out) < n:
        d, dt, mode = unit_of(rng), rng.choice([1, 1, 2, 10]), rng.choice(["chain", "id_line"])
        same = rng.random() < 0.6
        count = rng.randint(1, 4)
        length = rng.randint(10, 13) if mode == "chain" else rng.randint(25, 40) if rng.random() < 0.08 else rng.randint(2, 8)
        flaws = length > 20 or rng.random() < 0.3
        ts = walk_times(rng, length, flaws)
        cs = []
        for _ in range(count):
            if not same:
                length = rng.choice([3, 9, 10, 11, 12]) if mode == "chain" else rng.randint(2, 8)
                ts = walk_times(rng, length, flaws)
            cs.append(ts)
        if mode == "chain":
            if any(b[0] >= a[-1] for a, b in zip(cs, cs[1:])) or not any(len(c) >= 10 for c in cs):
                continue
            rows = [[rt(t, dt)] + kinematics(rng, d) for c in cs for t in c]
        else:
            ids = rng.sample([0, 1, 2, 3, 5, 9, 10, 77], count)
            rows = [[rt(t, dt), rt(i)] + kinematics(rng, d) for i, c in zip(ids, cs) for t in c]
            if rng.random() < 0.6:
                rng.shuffle(rows)
        kept = [len(set(c)) for c in cs if mode != "chain" or len(c) >= 10]
        if min(kept) < 2:
            continue
        out.append(csv_session(rng, mode, rows, 7 if mode == "chain" else 8, back=int(len(set(kept)) == 1 and same)))
    return out


def fit(seq, w):
    """Velocities along the line of motion, to see which sessions have small rationals only."""
    h, out = w // 2, []
    for m in range(h, len(seq) - h):
        win = seq[m - h:m + h + 1]
        gaps = [b[0] - a[0] for a, b in zip(win, win[1:])]
        slopes = [(b[1] - a[1]) / g for a, b, g in zip(win, win[1:], gaps)]
        if len(set(slopes)) == 1:
            out.append(slopes[0])
        elif len(set(gaps)) == 1:
            out.append(sum(k * (seq[m + k][1] - seq[m - k][1]) for k in range(1, h + 1)) / (2 * sum(k * k for k in range(1, h + 1)) * gaps[0]))
        elif w == 3:
            out.append((slopes[0] * gaps[1] + slopes[1] * gaps[0]) / (gaps[0] + gaps[1]))
        else:
            return None
    return out


def resample(seq, top, steps, straight=False):
    out = [seq[0]]
    for k in range(1, steps - 1):
        t = top * k / steps
        n = min(range(1, len(seq)), key=lambda j: (abs(t - seq[j][0]), -j))
        if n == len(seq) - 1:
            return None
        if not straight and abs(t - seq[n][0]) == abs(t - seq[n - 1][0]) and n > 1:
            return None     # the nearest sample is a matter of rounding
        a, b = seq[n - 1], seq[n + 1]
        out.append((t, a[1] + (b[1] - a[1]) / (b[0] - a[0]) * (t - a[0])))
    return out + [seq[-1]]


def small_numbers(xs, den, num):
    return all(x.denominator <= den and abs(x.numerator) <= num for x in xs)


def c30(rng, n):
    """Motions along a line (so that speeds are rational) with fitted velocities."""
    out = []
    while len(out) < n:
        mode, interp, shape = rng.choice(["csv", "csv", "chain", "id_line"]), rng.random() < 0.5, rng.choice(["line", "free", "free"])
        w = 9 if mode != "csv" else rng.choice([3, 3, 5, 7, 9])
        count = 1 if mode == "csv" else rng.randint(1, 3)
        if mode != "csv" and interp:
            shape = "line"
        length = rng.randint(max(w + 1, 3 if mode == "csv" else 10), w + 6 if w > 3 else 12)
        uniform = shape == "free" and w > 3 or rng.random() < 0.3
        apart = mode != "csv" and rng.random() < 0.7
        top, cs = None, []
        for _ in range(count):
            step, t0 = rng.randint(1, 3), 0 if mode != "csv" else rng.choice([0, 0, 1, -4, 7])
            ts = [t0]
            burst = interp and mode == "csv" and shape == "free" and rng.random() < 0.7
            if burst:       # several samples within one of the new steps
                w, gap, wide = 3, rng.choice([9, 11, 15, 19]), [rng.randint(0, 4)]
                for _ in range(rng.choice([0, 1, 1, 2])):
                    wide.append(wide[-1] + rng.randint(3, 6))
                length = wide[-1] + rng.randint(2, 5)
            for k in range(length - 1):
                if burst:
                    ts.append(ts[-1] + length * (gap if k in wide else 1))
                    continue
                ts.append(ts[-1] + (step if uniform else rng.choice([1, 1, 2, 2, 3] if w > 3 else [1, 1, 2, 4])))
            if top is not None and interp:
                # about the same times, so that all reach up to the last ones
                ts = [x + rng.choice([0, 0, 1]) for x in cs[0][0]] if apart else cs[0][0]
            elif interp and apart:
                ts = [3 * x for x in ts]
            top = max(top or 0, ts[-1])
            k, c = rng.choice([-3, -2, -1, 1, 2, 3]), rng.randint(-5, 5)
            a = [Fraction(k * t + c) if shape == "line" else Fraction(rng.randint(-6, 6)) for t in ts]
            if burst:
                a = [math.lcm(2 * length, (gap + 1) * length) * Fraction(rng.randint(-3, 3)) for t in ts]
            if shape == "free" and not burst and rng.random() < 0.3:
                q = rng.choice([1, -1, 2])
                a = [Fraction(q * (t - t0) ** 2 + k * t + c) for t in ts]
                if max(abs(x) for x in a) > 300:
                    a = None
                    break
            cs.append((ts, a))
        if len(cs) < count or cs[-1][1] is None:
            continue
        dt = rng.choice([1, 1, 2, 10]) if not interp else rng.choice([1, 2])
        vs, ok, base, every = [], True, [], []
        for ts, a in cs:
            seq = [(Fraction(t, dt), x) for t, x in zip(ts, a)]
            if interp:
                lo = seq[0][0] if mode == "csv" else 0
                seq = [(t - lo, x) for t, x in seq]
                seq = resample(seq, seq[-1][0] if mode == "csv" else Fraction(top, dt), len(seq), shape == "line")
            if seq is None or any(a[0] == b[0] for a, b in zip(seq, seq[1:])):
                ok = False
                break
            v = fit(seq, w)
            if v is None or not small_numbers(v, 600, 2500) or not small_numbers([x for p in seq for x in p], 600, 6000):
                ok = False
                break
            vs += v
            every.append(v)
        if not ok or len(vs) < 2:
            continue
        rows, means = [], []
        for (ts, a), v in zip(cs, every):
            d, o = direction(rng), [rng.randint(-9, 9) for _ in range(3)]
            means += [[x * y for x in v] for y in d + [math.isqrt(sum(y * y for y in d))]]
            for t, x in zip(ts, a):
                row = [rt(t, dt)] + [rt(y * x + z) for y, z in zip(d, o)]
                rows.append(row if mode != "id_line" else row[:1] + [rt(len(base))] + row[1:])
            base.append(0)
        sums = [sum(m, Fraction(0)) for m in means] + [sum(map(abs, m), Fraction(0)) for m in means]
        mean = [sum((abs(y) if x == 3 else y for m in means[x::4] for y in m), Fraction(0)) / len(vs) for x in range(4)]
        if mode == "chain" and count > 1 and not all(b[0][0] < a[0][-1] for a, b in zip(cs, cs[1:])):
            continue
        if mode == "id_line":
            rng.shuffle(rows)
        elif mode == "csv" and rng.random() < 0.3:
            rng.shuffle(rows)
        kept = {len(v) for v in every}
        if mode == "csv" and len(every[0]) < 2 or min(kept) < 2:
            continue
        out.append(csv_session(rng, mode, rows, 5 if mode == "id_line" else 4, vel=1, interp=int(interp), sampling=w,
                               means=int(all(m.denominator <= 2000 for m in mean) and small_numbers(sums, 2000, 200000)), back=int(len(kept) == 1 and not (interp and apart))))
        if mode == "chain" and rng.random() < 0.6:
            out[-1]["small"] = 1      # some trajectories are long enough to be fitted in parallel
    return out


def steps_session(rng, count=None, parts=None):
    d = unit_of(rng)
    most = max(20, parts or 0)
    same = parts is not None
    count = count or rng.randint(1, 5)
    parts = parts or rng.randint(1, 5)
    files, style = [], None
    place = None
    for _ in range(count):
        k = parts if same or rng.random() < 0.7 else rng.randint(1, 5)
        rows = [[rt(i)] + kinematics(rng, d) for i in rng.sample(range(most), k)]
        if place is None:
            f, place = table(rng, rows, 7)
            style = f
        else:
            lines = []
            for row in rows:
                line = [[rng.randint(-99, 99), 1] for _ in range(style["cols"])]
                for c, x in zip(place, row):
                    line[c] = x
                lines.append(line)
            f = dict(style, rows=lines, notes=[rng.randint(0, k)] if rng.random() < 0.3 else [])
        files.append(f)
    dt = rng.choice([1, 2, 10])
    ts, t = [], rng.choice([0, 0, 3, -5])
    for _ in range(count):
        ts.append(rt(t, dt))
        t += rng.randint(1, 5)
    if rng.random() < 0.1:
        place = place[:4]           # no velocities
    return {"kind": "convert", "mode": "steps", "files": files, "times": ts, "columns": place, "vel": 0, "interp": 0, "means": 1, "back": 1,
            "radius": rt(rng.randint(0, 9), rng.choice([1, 2]))}


def late_disorder(rng, ts):
    """In order for long, then not."""
    ts = sorted(ts)
    k = rng.randrange(2 * len(ts) // 3, len(ts) - 1)
    kind = rng.choice(["swap", "early", "tail", "turn"])
    if kind == "swap":
        ts[k], ts[k + 1] = ts[k + 1], ts[k]
    elif kind == "early":
        ts.insert(k, ts.pop(0))
    elif kind == "tail":
        ts[k:] = rng.sample(ts[k:], len(ts) - k)
    else:
        ts.append(ts.pop(rng.randrange(len(ts) // 2)))
    return ts


def c27_long(rng):
    out = []
    for k in range(5):
        d = unit_of(rng)
        ts = walk_times(rng, rng.choice([70, 130, 260, 300]), k % 2)
        ts = rng.sample(ts, len(ts)) if k == 4 else late_disorder(rng, ts)
        out.append(csv_session(rng, "csv", [[rt(t)] + kinematics(rng, d) for t in ts], 7, sampling=9))
    return out


def c28_long(rng):
    """Many particles, many files, large identities and step numbers."""
    out = [steps_session(rng, 2, 300), steps_session(rng, rng.choice([110, 140]), rng.randint(1, 2)), steps_session(rng, 260, 1)]
    out += [vtk_session(rng, ids=[250, 251, 255, 256, 257, 511, 512, 1]), vtk_session(rng, ids=[32767, 32768, 65535, 65536, 65537, 70000, 3]),
            vtk_session(rng, ids=[0] + list(range(65530, 65541)))]
    for unit in (1000, 10 ** 6, 10 ** 9):       # step numbers that need more than 32 bits, in steps of so many
        out.append(dict(vtk_session(rng), ustep=str(unit)))
    out.append(vtk_session(rng, ids=list(range(300)), count=290))
    out.append(vtk_session(rng, files=rng.choice([120, 140])))
    return out


def c29_long(rng):
    out = []
    for k in range(5):
        d, mode = unit_of(rng), ["chain", "id_line", "id_line", "chain", "id_line"][k]
        count, length = [(2, 150), (3, 90), (5, 40), (12, 20), (40, 4)][k]
        cs = []
        for c in range(count):
            ts = walk_times(rng, length, 0)
            cs.append([t - ts[0] for t in ts] if mode == "chain" else ts)
        if mode == "chain":
            rows = [[rt(t)] + kinematics(rng, d) for c in cs for t in c]
        else:
            ids = rng.sample([0, 1, 255, 256, 257, 300, 65535, 65536, 65537, 70000, 16777216, 16777215] + list(range(400, 440)), count)
            rows = [[rt(t), rt(i)] + kinematics(rng, d) for i, c in zip(ids, cs) for t in c]
            if k == 1:      # in order for long, then not
                rows = [r for i in ids for r in zip_late(rng, [r for r in rows if r[1] == rt(i)])]
            elif rng.random() < 0.5:
                rng.shuffle(rows)
        out.append(csv_session(rng, mode, rows, 7 if mode == "chain" else 8, back=1))
    return out


def zip_late(rng, rows):
    order = late_disorder(rng, list(range(len(rows))))
    return [rows[k] for k in order]


def c30_long(rng):
    """Wide windows and long trajectories."""
    out = []
    for w in (11, 13, 15, 17, 21, 3, 9, 5):
        length = w + rng.randint(2, 4) if w > 9 else rng.choice([60, 120])
        shape = rng.choice(["line", "free", "square"]) if w > 9 else "line"
        step = rng.randint(1, 3)
        ts = [rng.randint(-3, 3)]
        for _ in range(length - 1):
            ts.append(ts[-1] + (step if shape != "line" else rng.choice([1, 1, 2, 3])))
        k, c, q = rng.choice([-3, -2, -1, 1, 2, 3]), rng.randint(-5, 5), rng.choice([1, -1])
        a = [k * t + c if shape == "line" else q * (t - ts[0]) ** 2 + k * t + c if shape == "square" else rng.randint(-6, 6) for t in ts]
        d, o = direction(rng), [rng.randint(-9, 9) for _ in range(3)]
        rows = [[rt(t)] + [rt(y * x + z) for y, z in zip(d, o)] for t, x in zip(ts, a)]
        if w <= 9 and rng.random() < 0.5:
            rows = zip_late(rng, rows)
        out.append(csv_session(rng, "csv", rows, 4, vel=1, interp=0, sampling=w, means=int(shape == "line"), back=1))
    return out


def vtk_session(rng, ids=range(12), count=6, files=5):
    pool, most = list(ids), count
    xml = rng.random() < 0.5
    d = rng.choice([1, 2, 4])
    if files > 5:
        steps = sorted(rng.sample(range(400), files))
    else:
        steps = sorted(rng.sample([0, 1, 2, 3, 8, 9, 10, 11, 20, 99, 100, 101, 1000], rng.randint(1, files)))
    files = []
    for x in steps:
        ids = rng.sample(pool, most if most > 6 else rng.randint(1, min(most, len(pool))))
        parts = []
        for i in ids:
            kin = kinematics(rng, d)
            parts.append({"id": rt(i), "r": rt(rng.randint(1, 9), d), "ty": rt(rng.randint(0, 5)), "p": kin[:3], "v": kin[3:]})
        pieces = [parts]
        if xml and rng.random() < 0.5:
            cut = rng.randint(0, len(parts))
            pieces = [parts[:cut], parts[cut:]]
        files.append({"step": x, "pieces": pieces})
    folder = rng.random() < 0.5
    if folder or rng.random() < 0.2:
        rng.shuffle(files)
    return {"kind": "convert", "mode": "xml" if xml else "legacy", "vel": 0, "interp": 0, "means": 1, "back": 1, "files": files,
            "dt": rng.choice([[1, 1], [1, 2], [1, 10], [1, 1000], [3, 1]]), "vtk": rng.choice(["poly", "grid"]) if xml else "poly",
            "ext": rng.choice(["vtk", "vtu", "vtp"]) if xml else "vtk", "diameter": rng.randint(0, 1), "types": rng.randint(0, 1),
            "folder": int(folder), "slash": rng.randint(0, 1), "decoys": rng.randint(0, 1), "wide": rng.randint(0, 1)}


def c28(rng, n):
    return [steps_session(rng) if rng.random() < 0.35 else vtk_session(rng) for _ in range(n)]


def read_back(rng_seed, mgr):
    """Makes a session of what the model of the buffers printed."""
    def adapt(s):
        f = {"gen": {"t": s["T"], "n": 2}, "stats": file_stats(random.Random(rng_seed), 2)}
        return {"kind": "reader", "small": 1, "mgr": mgr, "file": f, "calls": s["calls"]}
    return adapt

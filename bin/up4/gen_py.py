"""Seeded generators of sessions on the Python interface (C31-C38); see gen.py."""
import contextlib
import json
import os

from . import gen

UNDEF = gen.UNDEF
SEARCHED = {"vectorfield": "vector", "numberfield": "number", "velocityfield": "velocity", "occupancyfield": "occupancy",
            "homogenity_index": "homogeneity", "dispersion": "dispersion", "histogram": "histogram",
            "granular_temperature": "gtemp", "lacey_mixing_index": "lacey", "concentration_field": "concentration",
            "msd_field": "msdfield", "msd": "msd", "circulation_time": "circ", "circulation_time_two_boundary": "circ2",
            "extract": "extract", "mean_velocity": "meanvel"}
METHOD = {v: k for k, v in SEARCHED.items()}


@contextlib.contextmanager
def whole():
    gen.WHOLE = True
    try:
        yield
    finally:
        gen.WHOLE = False


# ---------------------------------------------------------------- arguments
def i(v):
    return {"t": "int", "v": v}


def s(v):
    return {"t": "str", "v": v}


def f(v, d=1):
    return {"t": "num", "v": [v, d]}


def li(vs, t="list"):
    return {"t": t, "v": vs}


def ref(k):
    return {"t": "ref", "v": k}


NONE = {"t": "none"}


def fl(rng, v):
    """A whole number where a float is expected."""
    return i(v) if rng.random() < 0.4 else f(v)


def bunch(rng, vs, one=i):
    return li([one(v) for v in vs], rng.choice(["list", "array"]))


class Calls:
    """Builds the calls of a session; the k-th call makes the object k."""

    def __init__(self, rng):
        self.rng, self.calls, self.kind, self.grid_of = rng, [], {}, {}

    def add(self, on, name, args, order=(), kind=None, shape=None):
        """args: by parameter name; `order`: the parameters' names in their order."""
        pos, kw = [], dict(args)
        for p in order:
            if p not in kw or self.rng.random() < 0.4:
                break
            pos.append(kw.pop(p))
        self.calls.append({"c": name, "on": on, "pos": pos, "kw": kw})
        k = len(self.calls)
        if kind:
            self.kind[k], self.grid_of[k] = kind, shape
        return k

    def of(self, *kinds, shape=None):
        return [k for k, v in self.kind.items() if v in kinds and (shape is None or self.grid_of[k] == shape)]


def wrong(rng, c):
    """A call with a wrong argument: missing, unknown or of another type."""
    c = {"c": c["c"], "on": c["on"], "pos": list(c["pos"]), "kw": dict(c["kw"])}
    k = rng.random()
    if k < 0.3:
        c["kw"]["unknown"] = i(1)
    elif k < 0.5 and c["pos"]:
        c["pos"] = []
    elif k < 0.6:
        c["pos"] += [i(0)] * 12
    elif c["kw"]:
        x = rng.choice(sorted(c["kw"]))
        c["kw"][x] = rng.choice([s("no"), i(-1), f(1, 2), li([i(1)])])
        if c["kw"][x]["t"] in ("int", "num"):        # these may be meant
            c["kw"][x] = li([s("no")])
    else:
        c["kw"]["unknown"] = NONE
    return c


# ---------------------------------------------------------------- files
def data_file(rng, ds, name="a.h5", mgr=None):
    """Laid out by time steps, or by particles where that is possible."""
    ns = {len(t["parts"]) for t in ds["steps"]}
    if mgr is None:
        mgr = "p" if len(ns) == 1 and ns != {0} and rng.random() < 0.4 else "t"
    if mgr == "p":
        # identities are the order of the records, clouds are not recorded
        steps = [{"t": t["t"], "parts": [dict(q, id=k, c=1) for k, q in enumerate(t["parts"])]} for t in ds["steps"]]
        ds = dict(ds, steps=steps)
    out = {"name": name, "mgr": mgr, "ds": ds}
    if rng.random() < 0.95:
        out["type"] = {"t": 1, "p": 2}[mgr] if rng.random() < 0.97 else 3
    return out


def opened(rng, c, fl):
    """Opens the file; mostly finding out what it is."""
    right = {"t": 1, "p": 2}[fl["mgr"]] == fl.get("type")
    if right and rng.random() < 0.7:
        name = "Data"
    else:
        name = {"t": "Data.from_tdata", "p": "Data.from_pdata"}[fl["mgr"]]
        if rng.random() < 0.3:
            c.add(0, "Data", {"filename": s(fl["name"])}, ["filename"])
    if rng.random() < 0.03:
        c.add(0, rng.choice(["Data", "Data.from_tdata", "Data.from_pdata"]), {"filename": s("missing.h5")}, ["filename"])
    return c.add(0, name, {"filename": s(fl["name"])}, ["filename"], "data")


GRID_ORDER = ["data", "num_cells", "grid_style", "cell_size", "limits", "xlim", "ylim", "zlim"]


def grid_call(rng, c, g, data=None, dims=None):
    """One of the ways to make the grid g."""
    lim, cells = g["lim"], g["cells"]
    a = {}
    if g["kind"] == "cyl" or rng.random() < 0.2:
        a["grid_style"] = s({"cart": "cartesian", "cyl": "cylindrical"}[g["kind"]])
    flat = [x for d in lim for x in d]
    same = [dims is not None and dims[d] == lim[d] for d in range(3)]
    k = rng.random()
    if data and (all(same) or rng.random() < 0.4):
        a["data"] = ref(data)
    if "data" in a and k < 0.7:
        for d, x in enumerate(("xlim", "ylim", "zlim")):
            if not same[d] or rng.random() < 0.15:
                a[x] = bunch(rng, lim[d], lambda v: fl(rng, v))
    elif k < 0.75:
        a["limits"] = bunch(rng, flat, lambda v: fl(rng, v))
        if "data" in a and rng.random() < 0.3:
            a["zlim"] = bunch(rng, [0, 1])
    else:
        a.update({x: bunch(rng, lim[d], lambda v: fl(rng, v)) for d, x in enumerate(("xlim", "ylim", "zlim"))})
    size = [sized(lim[d], cells[d]) for d in range(3)]
    if all(size) and rng.random() < 0.35:
        a["cell_size"] = li(size, rng.choice(["list", "array"]))
        if rng.random() < 0.3:
            a["num_cells"] = rng.choice([NONE, bunch(rng, [1, 2, 3])])
    else:
        a["num_cells"] = bunch(rng, cells)
    return c.add(0, "Grid", a, GRID_ORDER, "grid", shape_of(g))


def shape_of(g):
    return (g["kind"], tuple(g["cells"]), tuple(map(tuple, g["lim"])))


def sized(lim, n):
    """The size of a cell if it is exact."""
    ext = lim[1] - lim[0]
    if ext % n == 0:
        return i(ext // n)
    for d in (2, 4):
        if ext * d % n == 0:
            return f(ext * d // n, d)
    return None


def odd_grid(rng, data, dims):
    """Arguments for a grid that may not determine one."""
    a = {}
    for x, p in (("limits", 0.4), ("xlim", 0.35), ("ylim", 0.35), ("zlim", 0.35)):
        if rng.random() < p:
            n = 6 if x == "limits" else 2
            n = n if rng.random() < 0.9 else rng.choice([0, 1, 3, 5, 7])
            v = []
            for _ in range((n + 1) // 2):
                lo = rng.randint(-5, 4)
                v += [lo, lo + rng.choice([1, 2, 4, 6])]
            v = v[:n]
            if x != "limits" and n == 2 and rng.random() < 0.15:
                v.reverse()
            a[x] = bunch(rng, v, lambda y: fl(rng, y))
            if rng.random() < 0.04:
                a[x] = rng.choice([li(a[x]["v"], "tuple"), s("no"), i(3)])
    if rng.random() < 0.5:
        a["data"] = ref(data) if rng.random() < 0.95 else rng.choice([s("a.h5"), i(1)])
    k = rng.random()
    if k < 0.7:
        a["num_cells"] = bunch(rng, [rng.randint(1, 4) for _ in range(3 if rng.random() < 0.93 else rng.choice([2, 4]))])
    elif k < 0.73:
        a["num_cells"] = rng.choice([li([i(2)] * 3, "tuple"), s("no"), i(5)])
    if rng.random() < 0.4:
        n = 3 if rng.random() < 0.92 else 2
        a["cell_size"] = bunch(rng, [rng.choice([1, 2, 4, 1]) for _ in range(n)]) if rng.random() < 0.8 else li([f(1, 2), i(1), f(3, 2)][:n])
        if "num_cells" not in a and rng.random() < 0.5:
            a["num_cells"] = NONE
    if rng.random() < 0.4:
        a["grid_style"] = s(rng.choice(["cartesian", "cylindrical", "cylindrical"] * 5 + ["Cartesian", ""])) if rng.random() < 0.97 else i(1)
    if "num_cells" not in a and "cell_size" not in a:
        a["num_cells"] = li([i(1), i(1), i(1)])        # the default is large
    return a


def odd_ok(a, dims):
    """At least one cell each, on axes of some length; sizes where rounding does not matter."""
    lims = {}
    for d, x in enumerate(("xlim", "ylim", "zlim")):
        lims[d] = tuple(dims[d])
        if x in a and a[x]["t"] in ("list", "array"):
            v = [y["v"] if y["t"] == "int" else y["v"][0] for y in a[x]["v"]]
            if len(v) == 2:
                lims[d] = tuple(v)
    if "limits" in a and a["limits"]["t"] in ("list", "array"):
        v = [y["v"] if y["t"] == "int" else y["v"][0] for y in a["limits"]["v"]]
        if len(v) == 6:
            lims = {d: (v[2 * d], v[2 * d + 1]) for d in range(3)}
    if any(hi <= lo for lo, hi in lims.values()):
        return "data" not in a or True if any(hi < lo for lo, hi in lims.values()) else False
    if "cell_size" in a and len(a["cell_size"]["v"]) == 3:
        for d in range(3):
            y = a["cell_size"]["v"][d]
            w = y["v"] if y["t"] == "int" else y["v"][0] / y["v"][1]
            n = (lims[d][1] - lims[d][0]) / w
            if n < 1 or n > 12:
                return False
    return True


# ---------------------------------------------------------------- analyses
DEFAULTS = {"velocityfield": {"mode": s("absolute"), "min_velocity": f(-1000000), "max_velocity": f(1000000)},
            "occupancyfield": {"min_vel": f(0)}, "homogenity_index": {"min_vel": f(0)},
            "histogram": {"property": s("velocity"), "bins": i(100), "limit": f(0)},
            "granular_temperature": {"mode": s("xyz")},
            "lacey_mixing_index": {"type_a": i(0), "type_b": i(1), "threshold": i(10)},
            "circulation_time": {"axis": i(0)}, "circulation_time_two_boundary": {"axis": i(0)},
            "concentration_field": {"type_a": i(1), "type_b": i(2)},
            "msd": {"min_time": f(0), "max_time": f(0), "steps": i(100)}}


def op_args(rng, o):
    """The arguments of an analysis, in order."""
    n = METHOD[o["op"]]
    num = lambda v: fl(rng, v)
    a = {"velocity": lambda: {"mode": s(o["mode"]), "min_velocity": num(o["vmin"]), "max_velocity": num(o["vmax"])},
         "occupancy": lambda: {"min_vel": num(o["vmin"])},
         "homogeneity": lambda: {"min_vel": num(o["vmin"])},
         "dispersion": lambda: {"time_for_dispersion": num(o["lag"])},
         "histogram": lambda: {"property": s(o["prop"]), "bins": i(o["bins"]), "limit": num(o["vmax"])},
         "gtemp": lambda: {"mode": s(o["mode"])},
         "lacey": lambda: {"type_a": i(o["ta"]), "type_b": i(o["tb"]), "threshold": i(o["thr"])},
         "concentration": lambda: {"type_a": i(o["ta"]), "type_b": i(o["tb"])},
         "msdfield": lambda: {"time": num(o["lag"])},
         "msd": lambda: {"min_time": num(o["lag"]), "max_time": num(o["lag2"]), "steps": i(o["steps"])},
         "circ": lambda: {"position": num(o["b"]), "axis": i(o["axis"] - 1)},
         "circ2": lambda: {"position": li([num(o["b"]), num(o["b2"])], "tuple"), "axis": i(o["axis"] - 1)},
         "extract": lambda: {"particle_id": i(o["particle"]), "timestep": li([i(o["from"]), i(o["to"])], "tuple")},
         }.get(o["op"], dict)()
    return n, a


FIELDS = ("velocity", "number", "occupancy", "gtemp", "concentration", "msdfield")


def analyse(rng, c, data, ds, grid, o):
    name, a = op_args(rng, o)
    order = list(a)
    # what is the default can be left out
    for k, v in DEFAULTS.get(name, {}).items():
        if k in a and (same_value(a[k], v) and rng.random() < 0.5 or rng.random() < (0.4 if "_vel" in k else 0.25) and k not in ("bins", "limit", "steps", "max_time", "min_time")):
            del a[k]
    if o["op"] in ("lacey", "concentration") and len({(a.get(k) or DEFAULTS[name][k])["v"] for k in ("type_a", "type_b")}) < 2:
        a = op_args(rng, o)[1]         # of two types
    if o["op"] == "histogram" and rng.random() < 0.4:
        # a hundred bins no speed lies between
        top = rng.choice([17, 19])
        a.pop("bins", None)
        if ds["vmag"][2] - ds["vmag"][0] == top and rng.random() < 0.5:
            a.pop("limit", None)
        else:
            a["limit"] = fl(rng, ds["vmag"][0] + top)
    if o["op"] == "msd" and rng.random() < 0.3:
        for k in ("min_time", "max_time"):
            a.pop(k, None)
        if rng.random() < 0.3:
            a.pop("steps", None)
    if grid is not None:
        # a grid that already holds a result is as good
        again = c.of("grid", shape=c.grid_of[grid])
        a, order = dict({"grid": ref(rng.choice(again) if rng.random() < 0.3 else grid)}, **a), ["grid"] + order
    kind = "vec" if o["op"] == "vector" else "grid" if o["op"] in FIELDS else None
    return c.add(data, name, a, order, kind, grid and c.grid_of[grid])


def same_value(a, b):
    val = lambda x: x["v"][0] if x["t"] == "num" else x["v"]
    return a["t"] in ("int", "num", "str") and val(a) == val(b)


def window(rng, c, data, ds, sel):
    """Sets the time window of a selector; a window after the recording is refused."""
    if "default" in sel:
        return
    a, b = sel["time"]
    if rng.random() < 0.04:
        a = ds["steps"][-1]["t"] + rng.randint(1, 3)
    c.add(data, "set_time", {"min_time": fl(rng, a), "max_time": fl(rng, b)}, ["min_time", "max_time"])


ANALYSES = [gen.c07, gen.c08, gen.c09, gen.c10, gen.c11, gen.c12, gen.c13, gen.c14, gen.c15, gen.c16, gen.c19,
            lambda rng, n: gen.circ(rng, n, False), lambda rng, n: gen.circ(rng, n, True)]


def analysis_session(rng, make):
    with whole():
        src = make(rng, 1)[0]
    ds = src["ds"]
    gs = [o["g"] for o in src["ops"] if "g" in o]
    if gs and rng.random() < 0.7:
        ds = dict(ds, dims=[list(x) for x in gs[0]["lim"]])
    if any(o["op"] == "histogram" for o in src["ops"]) and rng.random() < 0.3:
        ds = dict(ds, vmag=[ds["vmag"][0], ds["vmag"][1], ds["vmag"][0] + rng.choice([17, 19])])
    fl_ = data_file(rng, ds)
    c = Calls(rng)
    data = opened(rng, c, fl_)
    analyses(rng, c, data, fl_["ds"], src["ops"])
    return {"kind": "python", "files": [fl_], "calls": c.calls}


def analyses(rng, c, data, ds, ops):
    grids = {}
    for o in ops:
        if o["op"] not in METHOD:
            continue
        grid = None
        if "g" in o and o["op"] != "meanvel":
            key = shape_of(o["g"])
            if key not in grids:
                grids[key] = grid_call(rng, c, o["g"], data, ds["dims"])
            grid = grids[key]
        window(rng, c, data, ds, o.get("sel", {"default": 1}))
        k = analyse(rng, c, data, ds, grid, o)
        if rng.random() < 0.06:
            c.calls[k - 1] = wrong(rng, c.calls[k - 1])
            c.kind.pop(k, None)


def c36(rng, n):
    return [analysis_session(rng, ANALYSES[k % len(ANALYSES)]) for k in range(n)]


@contextlib.contextmanager
def long_files():
    """Recordings longer than read buffers of 4 steps, often ending with one, or one step later."""
    gen.LONG = [3, 4, 5, 6, 7, 8, 8, 9, 9, 11, 12, 13, 16, 17, 19]
    try:
        yield
    finally:
        gen.LONG = None


def c40(rng, n):
    """Analyses and lookups of files of several windows of the read buffers, in any order."""
    out = []
    with long_files():
        for k in range(n):
            one = analysis_session(rng, ANALYSES[k % len(ANALYSES)])
            T = len(one["files"][0]["ds"]["steps"])
            # lookups in between leave the windows anywhere
            calls, moved = [], {}
            data = next((x["on"] for x in one["calls"] if x["on"]), None)
            for j, x in enumerate(one["calls"], 1):
                if moved and data in moved and rng.random() < 0.5:
                    calls.append({"c": "getitem", "on": moved[data], "pos": [index(rng, T)], "kw": {}})
                calls.append(moved_refs(x, moved))
                moved[j] = len(calls)
            out.append(dict(one, calls=calls, small=1))
    return out


def moved_refs(x, to):
    def go(a):
        if a["t"] == "ref":
            return dict(a, v=to[a["v"]])
        if isinstance(a.get("v"), list) and a["t"] in ("list", "tuple"):
            return dict(a, v=[go(y) for y in a["v"]])
        return a
    return dict(x, on=to.get(x["on"], 0), pos=[go(a) for a in x["pos"]], kw={k: go(a) for k, a in x["kw"].items()})


# ---------------------------------------------------------------- data
def index(rng, n):
    """What to put into the brackets."""
    k = rng.random()
    one = lambda: rng.randint(-n - 1, n) if rng.random() < 0.12 else rng.randint(-n, n - 1)
    if k < 0.35:
        return i(one())
    if k < 0.6:
        return li([i(one()) for _ in range(rng.randint(0, 4))])
    if k < 0.97:
        e = lambda: UNDEF if rng.random() < 0.3 else rng.randint(-n - 2, n + 2)
        return {"t": "slice", "v": [e(), e(), rng.choice([UNDEF, UNDEF, 1, 2, 3, -1, -1, -2, -3, 0])]}
    return rng.choice([s("0"), f(1), NONE, li([s("a")]), f(1, 2)])


def c34(rng, n):
    out = []
    asked = ["dimensions", "min_position", "max_position", "nparticles", "len", "time", "str", "stats", "mean_velocity", "list"]
    for _ in range(n):
        with whole():
            un, g, pl, kin = gen.setting(rng, gen.POOL_ABS)
            k = rng.random()
            T, P = (rng.randint(10, 30), rng.randint(1, 2)) if k < 0.1 else (rng.randint(1, 6), rng.randint(1, 5))
            ds = gen.dataset(rng, lambda k, n: pl.draw(), kin, T, P, counts=gen.counts(rng, T, P))
        ds["dims"] = [sorted(rng.sample(range(-9, 9), 2)) for _ in range(3)]
        fl_ = data_file(rng, ds)
        ds = fl_["ds"]
        c = Calls(rng)
        data = opened(rng, c, fl_)
        for _ in range(rng.randint(3, 9)):
            k = rng.random()
            if k < 0.35:
                c.add(data, rng.choice(asked), {})
            elif k < 0.75:
                c.add(data, "getitem", {})
                c.calls[-1]["pos"] = [index(rng, T)]
            elif k < 0.87:
                a = rng.randint(0, T - 1) if rng.random() < 0.9 else T
                m = min(len(t["parts"]) for t in ds["steps"])
                if m:
                    c.add(data, "extract", {"particle_id": i(rng.randrange(m)), "timestep": li([i(a), i(rng.randint(a, T) if rng.random() < 0.8 else T + 1)], "tuple")},
                          ["particle_id", "timestep"])
            else:
                t0 = ds["steps"][0]["t"]
                last = ds["steps"][-1]["t"]
                a = rng.randint(t0 - 1, last + 2)
                c.add(data, "set_time", {"min_time": fl(rng, a), "max_time": fl(rng, rng.randint(a, last + 3))}, ["min_time", "max_time"])
            last = c.calls[-1]
            if rng.random() < 0.03 and last["on"] and last["c"] not in ("len", "list", "str", "getitem"):
                c.calls[-1] = wrong(rng, last)
        out.append({"kind": "python", "files": [fl_], "calls": c.calls})
    return out


# ---------------------------------------------------------------- grids
def view(rng, c, k, g):
    """Looks at a grid in one of the ways there are."""
    cells, lim = g["cells"], g["lim"]
    vec = c.kind[k] == "vec"
    names = ["to_numpy", "cell_positions", "shape", "slice", "slice_pos", "collapse"]
    if not vec:
        names += ["weights_to_numpy", "xpositions", "ypositions", "zpositions", "str", "is_inside", "cell_id", "collapse_two", "plot", "slice",
                  "collapse", "is_inside", "cell_id"]
    m = rng.choice(names)
    axis = rng.randrange(3) if rng.random() < 0.95 else rng.randint(3, 4)
    with whole():
        un = gen.Units(rng)
    if m == "slice":
        n = cells[axis] if axis < 3 else 1
        c.add(k, m, {"axis": i(axis), "index": i(rng.randrange(n) if rng.random() < 0.9 else n)}, ["axis", "index"])
    elif m == "slice_pos":
        axis = rng.choice([0, 1, 2]) if g["kind"] == "cart" else 2
        at = gen.slice_coords(g, axis + 1, un)
        if not at:
            return
        c.add(k, m, {"axis": i(axis), "position": fl(rng, rng.choice(at))}, ["axis", "position"])
    elif m in ("collapse", "plot"):
        c.add(k, m, {"axis": i(axis)}, ["axis"])
    elif m == "collapse_two":
        a, b = rng.sample(range(3), 2)
        c.add(k, m, {"axis1": i(a), "axis2": i(b)}, ["axis1", "axis2"])
    elif m in ("is_inside", "cell_id"):
        with whole():
            p = gen.Places(rng, g, un, inside=0.8, undef=0).draw()
        if m == "is_inside":
            c.add(k, m, {"position": bunch(rng, p if rng.random() < 0.95 else p[:2], lambda v: fl(rng, v))}, ["position"])
        else:
            c.add(k, m, dict(zip("xyz", (fl(rng, v) for v in p))), ["x", "y", "z"])
    else:
        c.add(k, m, {})


def filled(rng, c, data, ds, grid, g, kinds=("number", "vector", "vector", "velocity")):
    """A field on the grid."""
    o = {"op": rng.choice(kinds)}
    if o["op"] == "velocity":
        o.update(mode=rng.choice(["x", "y", "z"]), vmin=-1000, vmax=1000)
    return analyse(rng, c, data, ds, grid, dict(o, g=g))


def scene(rng, pool=None, P=4, T=2, maxcells=18, pcyl=0.3, undef=0.0, inside=0.9):
    """A grid and some data on it."""
    def ok(g, p):
        x, y, r = gen.cyl_xy(g, p)
        rr = x * x + y * y
        return rr > r * r or rr > 0 and gen.is_square(rr)
    with whole():
        # velocities around the axis of a cylinder need whole distances from it
        cyl = rng.random() < pcyl
        un, g, pl, kin = gen.setting(rng, pool or gen.POOL_ABS, maxcells=maxcells, pcyl=0, undef=undef, inside=inside,
                                     big=cyl, keep=ok if cyl else None)
        kin.nan = 0.0
        if cyl:         # fractions stay small
            P, T = min(P, 3), 1
        T = rng.randint(1, T)
        ds = gen.dataset(rng, lambda k, n: pl.draw(), kin, T, rng.randint(1, P))
    ds["dims"] = [list(x) for x in g["lim"]]
    if rng.random() < 0.4:
        ds["dims"][rng.randrange(3)] = sorted(rng.sample(range(-9, 9), 2))
    return un, g, ds


def c35(rng, n):
    out = []
    for _ in range(n):
        un, g, ds = scene(rng, undef=0.05)
        fl_ = data_file(rng, ds)
        ds = fl_["ds"]
        c = Calls(rng)
        data = c.add(0, {"t": "Data.from_tdata", "p": "Data.from_pdata"}[fl_["mgr"]], {"filename": s(fl_["name"])}, ["filename"], "data")
        if rng.random() < 0.45:
            for _ in range(rng.randint(2, 5)):
                a = odd_grid(rng, data, ds["dims"])
                if odd_ok(a, ds["dims"]):
                    c.add(0, "Grid", a, GRID_ORDER)
            if len(c.calls) == 1:
                c.add(data, "len", {})
        else:
            k = grid_call(rng, c, g, data, ds["dims"])
            for _ in range(rng.randint(0, 2)):
                view(rng, c, k, g)
            h = filled(rng, c, data, ds, k, g)
            for _ in range(rng.randint(2, 6)):
                view(rng, c, rng.choice([h, h, h, k]), g)
                if c.kind[h] == "grid" and rng.random() < 0.12:
                    th = rng.choice([i(1), i(2), i(0), f(1, 2), i(5)])
                    c.add(h, "remove_outliers", {"mode": i(rng.choice([0, 0, 1, 2] if g["kind"] == "cart" else [0, 1])), "threshold": th}, ["mode", "threshold"])
            if rng.random() < 0.05:
                c.calls[-1] = wrong(rng, c.calls[-1])
        out.append({"kind": "python", "files": [fl_], "calls": c.calls})
    return out


# ---------------------------------------------------------------- plots
PLOT_ORDER = {"quiver_plot": ["axis", "selection", "index", "scaling_mode", "min_size", "max_size", "colour_map", "layout", "style"],
              "scalar_map": ["axis", "selection", "index", "colour_map", "layout", "style"],
              "parity_plot": ["comparison_grid", "axis", "selection", "index", "layout", "style"],
              "parity_map": ["comparison_grid", "axis", "selection", "index", "colour_map", "layout", "style"]}
PLOT_ORDER["unit_vector_plot"] = PLOT_ORDER["quiver_plot"]
PLOT_ORDER["scalar_contour"] = PLOT_ORDER["scalar_map"]
PLOT_ORDER["parity_contour"] = PLOT_ORDER["parity_map"]
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "..", "spec", "colours.json")) as _f:
    COLOURS = sorted(json.load(_f))


def colour_name(rng):
    n = rng.choice(COLOURS)
    k = rng.random()
    if k < 0.6:
        return {"t": "str", "v": n, "low": n}
    return {"t": "str", "v": n.capitalize() if k < 0.75 else n.upper() if k < 0.9 else "".join(x.upper() if rng.random() < 0.3 else x for x in n), "low": n}


def looks(rng, a):
    """What the figure looks like is passed on."""
    if rng.random() < 0.2:
        a["layout"] = {"t": "dict", "v": dict(rng.sample([("width", rng.choice([350, 700, 1000])), ("height", 500), ("font_size", 12)], rng.randint(1, 2)))}
    if rng.random() < 0.15:
        a["style"] = {"t": "dict", "v": {"opacity": rng.choice([1, 0])}}


def plane_args(rng, g, axis):
    """Averaged over the depth, or one plane of it."""
    a = {"axis": i(axis)}
    if rng.random() < 0.45:
        a.update(selection=s("plane"), index=i(rng.randrange(g["cells"][axis])))
    else:
        if rng.random() < 0.4:
            a["selection"] = s("depth_average")
        if rng.random() < 0.1:
            a["index"] = rng.choice([NONE, i(rng.randint(0, 3))])       # not used
    return a


def length(rng):
    return rng.choice([i(1), i(2), i(3), f(1, 2), f(3, 2), f(1, 4), f(5, 2)])


def arrow_args(rng, g, axis):
    a = {}
    across = [g["cells"][d] for d in range(3) if d != axis]
    modes = ["min", "max", "minmax"] * 2
    if min(across) > 1 and g["kind"] == "cart":
        modes += ["half_node", "full_node"] * 2        # the distance of neighbouring cells
    if rng.random() < 0.8:
        a["scaling_mode"] = s(rng.choice(modes))
    m = a.get("scaling_mode", {}).get("v")
    if m in ("min", "minmax") or rng.random() < 0.1:
        a["min_size"] = length(rng)
    if m in ("max", "minmax") or rng.random() < 0.1:
        a["max_size"] = length(rng)
    if m == "minmax" and rng.random() < 0.8 and val_of(a["min_size"]) > val_of(a["max_size"]):
        a["min_size"], a["max_size"] = a["max_size"], a["min_size"]
    return a


def val_of(a):
    return a["v"] if a["t"] == "int" else a["v"][0] / a["v"][1]


def plotting(rng, kinds, undef=0.03, **kw):
    """Data with a grid and fields of the given kinds on it, each with a plotter."""
    un, g, ds = scene(rng, undef=undef, **kw)
    fl_ = data_file(rng, ds)
    ds = fl_["ds"]
    c = Calls(rng)
    data = c.add(0, {"t": "Data.from_tdata", "p": "Data.from_pdata"}[fl_["mgr"]], {"filename": s(fl_["name"])}, ["filename"], "data")
    grid = grid_call(rng, c, g, data, ds["dims"])
    fields = []
    for kind in kinds:
        if len(ds["steps"]) > 1 and rng.random() < 0.4:
            ts = [t["t"] for t in ds["steps"]]
            a = rng.randint(ts[0] - 1, ts[-1])
            c.add(data, "set_time", {"min_time": fl(rng, a), "max_time": fl(rng, rng.randint(a, ts[-1] + 1))}, ["min_time", "max_time"])
        fields.append(filled(rng, c, data, ds, grid, g, [kind]))
    return g, ds, fl_, c, data, grid, fields


def plotter(c, k):
    return c.add(0, "Plotter2D", {"field": ref(k)}, ["field"], "plotter", c.grid_of[k])


def draw(c, p, name, a):
    return c.add(p, name, a, PLOT_ORDER[name], "fig")


SMALL = dict(pool=[(0, 0, 1), (0, 3, 4), (1, 2, 2), (0, 0, 2), (0, 0, 0), (0, 5, 12), (2, 3, 6)], P=4, T=2)


def c31(rng, n):
    out = []
    for _ in range(n):
        g, ds, fl_, c, data, grid, fs = plotting(rng, [rng.choice(["number", "velocity", "vector", "vector", "velocity"])], **SMALL)
        p = plotter(c, fs[0])
        for _ in range(rng.randint(1, 4)):
            axis = rng.randrange(3)
            if c.kind[fs[0]] == "grid" and rng.random() < 0.2:
                c.add(fs[0], "plot", {"axis": i(axis)}, ["axis"])
                continue
            a = plane_args(rng, g, axis)
            if rng.random() < 0.5:
                a["colour_map"] = colour_name(rng)
            looks(rng, a)
            draw(c, p, rng.choice(["scalar_map", "scalar_contour"]), a)
        out.append({"kind": "python", "files": [fl_], "calls": c.calls})
    return out


def c32(rng, n):
    out = []
    for _ in range(n):
        g, ds, fl_, c, data, grid, fs = plotting(rng, ["vector"], **SMALL)
        p = plotter(c, fs[0])
        for _ in range(rng.randint(1, 4)):
            axis = rng.randrange(3)
            a = plane_args(rng, g, axis)
            a.update(arrow_args(rng, g, axis))
            if rng.random() < 0.4:
                a["colour_map"] = colour_name(rng)
            looks(rng, a)
            flat = g["kind"] == "cyl" or min(g["cells"][d] for d in range(3) if d != axis) < 2
            draw(c, p, "quiver_plot" if flat or rng.random() < 0.5 else "unit_vector_plot", a)
        out.append({"kind": "python", "files": [fl_], "calls": c.calls})
    return out


def c33(rng, n):
    out = []
    for _ in range(n):
        kinds = ["vector", "vector"] if rng.random() < 0.5 else [rng.choice(["number", "velocity"]) for _ in range(2)]
        g, ds, fl_, c, data, grid, fs = plotting(rng, kinds, **SMALL)
        p = plotter(c, fs[0])
        for _ in range(rng.randint(1, 4)):
            a = plane_args(rng, g, rng.randrange(3))
            a["comparison_grid"] = ref(rng.choice([fs[1]] * 4 + [fs[0]]))
            name = rng.choice(["parity_plot", "parity_plot", "parity_map", "parity_contour"])
            if name != "parity_plot" and rng.random() < 0.3:
                a["colour_map"] = colour_name(rng)
            looks(rng, a)
            draw(c, p, name, a)
        out.append({"kind": "python", "files": [fl_], "calls": c.calls})
    return out


def askew(rng, c, g, a, name, own):
    """Arguments of a plot, some of them not allowed."""
    for _ in range(rng.choice([0, 1, 1, 2])):
        x = rng.choice(PLOT_ORDER[name] + ["axis", "selection", "index", "colour_map"])
        if x not in PLOT_ORDER[name]:
            continue
        a[x] = {"axis": lambda: rng.choice([i(3), i(-1), s("x"), NONE]),
                "selection": lambda: rng.choice([s("plane"), s("Plane"), s(""), s("depth"), s("plane"), NONE, i(0)]),
                "index": lambda: rng.choice([NONE, i(-1), i(max(g["cells"])), s("1"), f(1, 2)]),
                "scaling_mode": lambda: rng.choice([s("min"), s("max"), s("minmax"), s("MAX"), s("none"), s("node"), i(1)]),
                "min_size": lambda: rng.choice([NONE, NONE, s("small"), li([i(1)])]),
                "max_size": lambda: rng.choice([NONE, NONE, s("large"), li([i(1)])]),
                "colour_map": lambda: rng.choice([s("rainbow"), s(""), s("viridis "), s("bluegreen"), i(3), NONE]),
                "layout": lambda: rng.choice([NONE, {"t": "dict", "v": {"width": 300}}]),
                "style": lambda: rng.choice([NONE, {"t": "dict", "v": {"opacity": 1}}]),
                "comparison_grid": lambda: rng.choice([NONE, i(1), ref(rng.choice(own)), s("grid")])}[x]()
    if rng.random() < 0.1:
        del a[rng.choice(sorted(a))]
    if rng.random() < 0.05:
        a["unknown"] = i(1)
    return a


def c38(rng, n):
    out = []
    for _ in range(n):
        kinds = [rng.choice(["vector", "vector", "number", "velocity"]) for _ in range(rng.randint(1, 2))]
        g, ds, fl_, c, data, grid, fs = plotting(rng, kinds, P=2, T=2, maxcells=8, pool=SMALL["pool"])
        # an empty grid can be drawn too
        own = [data, grid] + fs
        ps = [plotter(c, k) for k in fs]
        if rng.random() < 0.2:
            c.add(0, "Plotter2D", {"field": rng.choice([ref(data), i(1), NONE, s("field"), ref(ps[0])])}, ["field"])
        for _ in range(rng.randint(2, 6)):
            k = rng.random()
            f_ = rng.randrange(len(fs))
            vec = c.kind[fs[f_]] == "vec"
            names = ["scalar_map", "scalar_contour", "parity_plot", "parity_map", "parity_contour"]
            flat = g["kind"] == "cyl" or min(g["cells"]) < 2
            names += ["quiver_plot"] * 3 + ([] if flat and vec else ["unit_vector_plot"] * 3)
            name = rng.choice(names if vec or rng.random() < 0.3 else names[:5])
            axis = rng.randrange(3)
            a = plane_args(rng, g, axis)
            if "scaling_mode" in PLOT_ORDER[name]:
                a.update(arrow_args(rng, g, axis))
            if "colour_map" in PLOT_ORDER[name] and rng.random() < 0.4:
                a["colour_map"] = colour_name(rng)
            if "comparison_grid" in PLOT_ORDER[name]:
                a["comparison_grid"] = ref(rng.choice(fs))
            looks(rng, a)
            k = draw(c, ps[f_], name, askew(rng, c, g, a, name, own))
            if rng.random() < 0.3:
                for _ in range(rng.randint(1, 2)):
                    b = {"fig": ref(k), "filename": s("fig%d.png" % rng.randint(1, 3))}
                    for x, vs in (("dpi", [100, 300, 600]), ("border_width", [0, 10, 20]), ("paper_width", [100, 210])):
                        if rng.random() < 0.4:
                            b[x] = i(rng.choice(vs))
                    c.add(0, "save_fig", b, ["fig", "filename", "dpi", "border_width", "paper_width"])
        out.append({"kind": "python", "files": [fl_], "calls": c.calls})
    return out


def c39(rng, n):
    """Long histories of objects of two recordings."""
    out = []
    for _ in range(n):
        un, g, ds = scene(rng, undef=0.03, maxcells=8, T=3, P=3, pool=SMALL["pool"])
        files = [data_file(rng, ds, "a.h5")]
        if rng.random() < 0.5:
            # the same steps in another order of the particles' velocities
            steps = [{"t": t["t"] + 1, "parts": [dict(q, v=v["v"]) for q, v in zip(t["parts"], t["parts"][::-1])]} for t in ds["steps"]]
            if g["kind"] == "cart":
                files.append(data_file(rng, dict(ds, steps=steps), "b.h5"))
        c = Calls(rng)
        data = {}
        for fl_ in files + [rng.choice(files) for _ in range(rng.randint(0, 1))]:
            name = {"t": "Data.from_tdata", "p": "Data.from_pdata"}[fl_["mgr"]]
            data[c.add(0, name, {"filename": s(fl_["name"])}, ["filename"], "data")] = fl_["ds"]
        first = min(data)
        grids = [grid_call(rng, c, g, first, data[first]["dims"]) for _ in range(rng.randint(1, 2))]
        for _ in range(rng.randint(6, 16)):
            k = rng.random()
            d = rng.choice(sorted(data))
            fields = [x for x in c.of("grid", "vec") if x not in grids]
            if k < 0.2:
                ts = [t["t"] for t in data[d]["steps"]]
                a = rng.randint(ts[0] - 1, ts[-1] + (rng.random() < 0.1))
                c.add(d, "set_time", {"min_time": fl(rng, a), "max_time": fl(rng, rng.randint(a, ts[-1] + 1))}, ["min_time", "max_time"])
            elif k < 0.45 or not fields:
                filled(rng, c, d, data[d], rng.choice(grids), g, ["number", "vector", "velocity"])
            elif k < 0.6:
                x = rng.choice(c.of("grid"))
                c.add(x, "remove_outliers", {"mode": i(rng.choice([0, 0, 1, 2] if g["kind"] == "cart" else [0, 1])),
                                             "threshold": rng.choice([i(0), i(1), i(2), f(1, 2)])}, ["mode", "threshold"])
            elif k < 0.7:
                plotter(c, rng.choice(fields))
            elif k < 0.85 and c.of("plotter"):
                p = rng.choice(c.of("plotter"))
                draw(c, p, rng.choice(["scalar_map", "scalar_contour"]), plane_args(rng, g, rng.randrange(3)))
            elif k < 0.9:
                c.add(d, rng.choice(["len", "time", "nparticles", "dimensions"]), {})
            else:
                c.add(rng.choice(fields), "to_numpy", {})
        for x in c.of("grid", "vec")[:4]:
            c.add(x, "to_numpy", {})
        out.append({"kind": "python", "files": files, "calls": c.calls})
    return out


def tells(rng, c, k):
    c.add(k, rng.choice(["str", "repr"]), {})


def c42(rng, n):
    """What is printed of data and grids."""
    out = []
    for _ in range(n):
        small = rng.random() < 0.6
        un, g, ds = scene(rng, undef=0.05, maxcells=rng.choice([1, 4, 8]) if small else 18, T=3, P=4)
        fl_ = data_file(rng, ds)
        ds = fl_["ds"] = dict(fl_["ds"], vmag=sorted(rng.randint(0, 30) for _ in range(3)))
        if rng.random() < 0.5:
            ds["dims"] = [sorted(rng.sample(range(-99, 1000), 2)) for _ in range(3)]
        c = Calls(rng)
        data = c.add(0, {"t": "Data.from_tdata", "p": "Data.from_pdata"}[fl_["mgr"]], {"filename": s(fl_["name"])}, ["filename"], "data")
        said = lambda k: c.add(k, rng.choice(["str", "repr", "stats"]), {}) if k == data else tells(rng, c, k)
        if rng.random() < 0.7:
            said(data)
        k = grid_call(rng, c, g, data, ds["dims"])
        if rng.random() < 0.4:
            tells(rng, c, k)
        if rng.random() < 0.3:
            window(rng, c, data, ds, {"time": sorted(rng.randint(ds["steps"][0]["t"] - 1, ds["steps"][-1]["t"]) for _ in range(2))})
            if rng.random() < 0.5:
                said(data)
        held = [k]
        for _ in range(rng.randint(1, 3)):
            h = filled(rng, c, data, ds, k, g, ("number", "number", "vector", "velocity", "velocity"))
            held.append(h)
            tells(rng, c, h)
            if c.kind[h] == "grid" and rng.random() < 0.4:
                c.add(h, "remove_outliers", {"mode": i(rng.choice([0, 0, 1, 2] if g["kind"] == "cart" else [0, 1])),
                                             "threshold": rng.choice([i(1), i(2), i(0), f(1, 2), i(5)])}, ["mode", "threshold"])
                tells(rng, c, h)
        if rng.random() < 0.4:
            said(rng.choice(held + [data]))
        out.append({"kind": "python", "texts": 1, "files": [fl_], "calls": c.calls})
    return out


# ---------------------------------------------------------------- conversions
CONVERT_ORDER = {
    "csv": ["filename", "outname", "columns", "delimiter", "header", "comment", "vel", "interpolate", "radius", "sampling_steps"],
    "csv_multi": ["filename", "outname", "columns", "delimiter", "header", "comment", "vel", "interpolate", "radius", "method"],
    "csv_multi_files": ["filenames", "outname", "times", "columns", "delimiter", "header", "comment", "vel", "interpolate", "radius"],
    "vtk": ["filenames", "timestep", "outname", "filter", "velocity_field_name", "radius_field_name", "id_field_name", "type_field_name", "diameter_field_name"]}
CONVERT_ORDER["vtk_from_folder"] = ["folder"] + CONVERT_ORDER["vtk"][1:]
CONVERT_DEFAULTS = {"columns": [0, 1, 2, 3], "delimiter": ",", "header": 1, "comment": "#", "vel": 0, "interpolate": 0, "radius": [0, 1], "sampling_steps": 9,
                    "method": "chain", "filter": "(\\d+).vtk", "velocity_field_name": "v", "radius_field_name": "radius", "id_field_name": "id",
                    "type_field_name": "type", "diameter_field_name": None}


def path(name):
    return {"t": "str", "v": name, "in": 1}


def boolean(v):
    return {"t": "bool", "v": v}


def rational(rng, v):
    return i(v[0]) if v[1] == 1 and rng.random() < 0.4 else {"t": "num", "v": v}


def call_of(rng, name, plain, odd=0.04):
    """Arguments: mostly without those that are the default."""
    tag = {"columns": lambda v: li([i(x) for x in v], rng.choice(["list", "tuple"])), "header": boolean, "vel": boolean, "interpolate": boolean,
           "radius": lambda v: rational(rng, v), "sampling_steps": i, "diameter_field_name": lambda v: NONE if v is None else s(v)}
    a = {}
    for k, v in plain.items():
        if k in CONVERT_DEFAULTS and v == CONVERT_DEFAULTS[k] and rng.random() < 0.6:
            continue
        a[k] = v if isinstance(v, dict) else tag.get(k, s)(v)
    c = Calls(rng)
    c.add(0, name, a, CONVERT_ORDER[name])
    c = c.calls[0]
    if rng.random() < odd:
        c = wrong(rng, c)
        if any(x.get("t") == "list" and x["v"] and x["v"][0].get("v") == "no" for k, x in c["kw"].items() if k in ("filenames",)):
            c["kw"]["unknown"] = i(1)
        for k in ("filter", "outname"):
            if c["kw"].get(k, {}).get("v") == "no":        # this may be meant
                c["kw"][k] = li([i(1)])
    del c["on"]
    return c


def usual(rng, text, columns, style):
    """The table with what the defaults expect."""
    text = dict(text)
    if rng.random() < 0.6 or style.get("delim"):
        text["delim"] = ","
    if rng.random() < 0.6:
        text["comment"] = "#"
    if rng.random() < 0.5:
        text["header"] = 1
    if rng.random() < 0.5:
        # the chosen columns first
        order = columns + [k for k in range(text["cols"]) if k not in columns]
        text["rows"] = [[row[k] for k in order] for row in text["rows"]]
        columns = list(range(len(columns)))
    return text, columns


def text_call(rng, src):
    name = "csv" if src["mode"] == "csv" else "csv_multi"
    text, columns = usual(rng, src["text"], src["columns"], {})
    a = {"filename": path("data.csv"), "outname": s("converted.hdf5"), "columns": columns, "delimiter": text["delim"], "header": text["header"],
         "comment": text["comment"], "vel": src["vel"], "interpolate": src["interp"], "radius": src["radius"] if rng.random() < 0.7 else [0, 1]}
    if name == "csv":
        a["sampling_steps"] = src["sampling"]
    else:
        a["method"] = src["mode"]
    k = rng.random()
    if k < 0.05 and not text["header"] and src["vel"] == 0 and len(text["rows"]) > 12:
        a["header"] = 1             # the first row is not a header
    elif k < 0.09 and name == "csv":
        a["sampling_steps"] = rng.choice([2, 4, 8, 10])
    elif k < 0.12:
        a["filename"] = path("dat.csv")
    elif k < 0.15 and name == "csv_multi":
        a["method"] = rng.choice(["Chain", "idline", ""])
    elif k < 0.19:
        a["vel"] = 1 - a["vel"]
    elif k < 0.22:
        a["columns"] = columns[:rng.choice([3, 4, 5, 6])] if src["vel"] == 0 else columns[:3]
    return {"files": [{"name": "data.csv", "text": text}], "call": call_of(rng, name, a), "vel": src["vel"], "means": src["means"]}


def steps_call(rng, src):
    names = ["step %d.csv" % k for k in range(len(src["files"]))]
    files, columns = [], None
    style = {x: rng.random() for x in ("delim", "comment", "header")}
    common = rng.random() < 0.5
    first = src["files"][0]
    delim, comment, header = (("," if style["delim"] < 0.6 else first["delim"]), "#" if style["comment"] < 0.6 else first["comment"], 1 if style["header"] < 0.5 else first["header"])
    for n, t in zip(names, src["files"]):
        t = dict(t, delim=delim, comment=comment, header=header)
        files.append({"name": n, "text": t})
    columns = src["columns"]
    a = {"filenames": li([path(n) for n in names], rng.choice(["list", "tuple"])), "outname": s("converted.hdf5"),
         "times": li([rational(rng, t) for t in src["times"]], rng.choice(["list", "tuple"])), "columns": columns, "delimiter": delim, "header": header,
         "comment": comment, "vel": 0, "interpolate": 0, "radius": src["radius"] if rng.random() < 0.7 else [0, 1]}
    k = rng.random()
    if k < 0.05:
        a["times"]["v"] = a["times"]["v"][:-1]
    elif k < 0.1:
        a["filenames"]["v"][rng.randrange(len(names))] = path("missing.csv")
    elif k < 0.14:
        a["columns"] = columns[:rng.choice([3, 5, 6])]
    elif k < 0.3:
        a["columns"] = columns[:4]
    elif k < 0.34:
        # in another order
        p = rng.sample(range(len(names)), len(names))
        a["filenames"]["v"] = [a["filenames"]["v"][x] for x in p]
    return {"files": files, "call": call_of(rng, "csv_multi_files", a), "vel": 0, "means": 1}


VECTORS, NUMBERS, SIZES = ["v", "vel"], ["id", "pid", "type", "kind"], ["radius", "size", "diameter"]


def vtk_call(rng, src):
    ext = rng.choice(["vtk", "vtk", "vtu", "vtp"])
    content = {"vtk": "legacy", "vtu": "grid", "vtp": "poly"}[ext]
    if rng.random() < 0.05:
        content = rng.choice(["legacy", "grid", "poly"]) if ext != "vtk" else "grid"
    if ext == "vtk" and content != "grid":
        content = "legacy"
    folder = src["folder"]
    wide, files = rng.randint(0, 1), []
    d = rng.choice([1, 2])
    left = [x for x in VECTORS + NUMBERS + SIZES if x == "v" or rng.random() < 0.95]
    for f in src["files"]:
        pieces = []
        for p in f["pieces"] if content != "legacy" else [[q for x in f["pieces"] for q in x]]:
            parts = []
            for q in p:
                one = lambda: gen.rt(rng.randint(0, 30))
                e = {"v": q["v"], "vel": gen.kinematics(rng, d)[3:], "id": q["id"], "pid": None, "type": q["ty"], "kind": one(), "radius": q["r"],
                     "size": gen.rt(rng.randint(1, 9)), "diameter": gen.rt(rng.randint(1, 9), 2)}
                parts.append({"p": q["p"], "f": {k: v for k, v in e.items() if k in left}})
            pieces.append(parts)
        ids = rng.sample(range(40), sum(map(len, pieces)))
        for q in (q for p in pieces for q in p):
            if "pid" in q["f"]:
                q["f"]["pid"] = gen.rt(ids.pop())
        files.append({"name": "in/step_%d.%s" % (f["step"], ext), "folder": "in", "ext": ext, "step": f["step"], "other": False, "content": content, "pieces": pieces,
                      "names": sorted(left), "vectors": VECTORS, "ints": NUMBERS, "wide": wide})
    names = [f["name"] for f in files]
    if rng.random() < 0.3:
        files.append(dict(files[0], name="in/step_%d_boundingBox.%s" % (files[0]["step"], ext), content="other", other=True))
    pattern = {"t": "str", "v": "(\\d+).vtk", "ext": "vtk"} if ext == "vtk" and rng.random() < 0.5 else \
        {"t": "str", "v": rng.choice(["(\\d+).%s", "step_(\\d+).%s", "step_(\\d+)\\.%s$"]) % ext, "ext": ext}
    k = rng.random()
    if k < 0.04:
        pattern = {"t": "str", "v": "(\\d+)", "ext": "none"}
    elif k < 0.08:
        other = rng.choice([x for x in ("vtk", "vtu", "vtp") if x != ext])
        pattern = {"t": "str", "v": "(\\d+).%s" % other, "ext": other}
    a = {"timestep": rational(rng, src["dt"]), "outname": s("converted.hdf5"), "filter": pattern,
         "velocity_field_name": rng.choice(["v", "v", "vel"]), "radius_field_name": rng.choice(["radius", "radius", "size"]), "id_field_name": rng.choice(["id", "id", "pid"]),
         "type_field_name": rng.choice(["type", "type", "kind"]), "diameter_field_name": rng.choice([None, None, "diameter", "size"])}
    if folder:
        a = dict({"folder": {"t": "str", "v": "in", "in": 1}}, **a)
        if rng.random() < 0.03:
            a["folder"]["v"] = "elsewhere"
    else:
        if rng.random() < 0.04:
            names[rng.randrange(len(names))] = "in/step_7777.%s" % ext
        a = dict({"filenames": li([path(n) for n in names], rng.choice(["list", "tuple"]))}, **a)
    name = "vtk_from_folder" if folder else "vtk"
    c = call_of(rng, name, a)
    if pattern["v"] == CONVERT_DEFAULTS["filter"] and rng.random() < 0.6:
        c["kw"].pop("filter", None)
    return {"files": files, "call": c, "vel": 0, "means": 1}


def c37(rng, n):
    out = []
    while len(out) < n:
        k = rng.random()
        if k < 0.4:
            src = rng.choice([gen.c27, gen.c29, gen.c30, gen.c30])(rng, 2)[1]
            if len(src["text"]["rows"]) > 80:
                continue
            x = text_call(rng, src)
        elif k < 0.55:
            x = steps_call(rng, gen.steps_session(rng))
        else:
            x = vtk_call(rng, gen.vtk_session(rng))
        out.append(dict(x, kind="pyconvert"))
    return out


# ---------------------------------------------------------------- from measured data to fields
def clean(rng, ds):
    """Nothing undefined, with whole speeds."""
    ps = [q["p"] for t in ds["steps"] for q in t["parts"] if UNDEF not in q["p"]]
    if not ps:
        return None

    def fix(q):
        v = [0 if x == UNDEF else x for x in q["v"]]
        if not gen.is_square(sum(x * x for x in v)):
            v = gen.signed(rng, rng.choice(gen.POOL_ABS))
        return dict(q, p=rng.choice(ps) if UNDEF in q["p"] else q["p"], v=v, d=1, c=1)
    return [{"t": t["t"], "parts": [fix(q) for q in t["parts"]]} for t in ds["steps"]]


def numbers(vs):
    return [gen.rt(v) for v in vs]


def as_text(rng, name, rows):
    text, columns = gen.table(rng, rows, len(rows[0]))
    text, columns = usual(rng, text, columns, {})
    return {"name": name, "folder": "", "text": text}, columns


def text_args(rng, text, columns, radius):
    return {"columns": columns, "delimiter": text["delim"], "header": text["header"], "comment": text["comment"], "vel": 0, "interpolate": 0,
            "radius": gen.rt(radius)}


def measured(rng, name, steps, odd):
    """The recording as input files, and the call that converts them; with what it becomes."""
    ns = {len(t["parts"]) for t in steps}
    n, T = max(ns), len(steps)
    ways = ["vtk", "vtk"] if steps[0]["t"] >= 0 else []
    if len(ns) == 1:
        ways += ["steps", "steps"]
        if T > 1:
            ways += ["id_line", "id_line"] + ["csv"] * 4 * (n == 1) + ["chain"] * 6 * (n > 1 and 10 <= T <= 20)
    if not ways:
        return None
    way = rng.choice(ways)
    radius = rng.choice([0, 1, 2, 3])
    out = {"outname": s(name + ".hdf5")}
    if way in ("csv", "chain", "id_line"):
        ty = 0 if way == "id_line" else 1
        steps = [{"t": t["t"], "parts": [dict(q, id=k, r=radius, ty=ty) for k, q in enumerate(t["parts"])]} for t in steps]
        row = lambda t, q: [t["t"]] + q["p"] + q["v"]
        if way == "id_line":
            ids = sorted(rng.sample(range(n + 20), n))
            rows = [[t["t"], ids[k]] + q["p"] + q["v"] for t in steps for k, q in enumerate(t["parts"])]
        else:
            rows = [row(t, t["parts"][k]) for k in range(n) for t in steps]
        if way != "chain" and rng.random() < 0.8:
            rng.shuffle(rows)
        f_, columns = as_text(rng, name + ".csv", [numbers(r) for r in rows])
        a = dict({"filename": path(f_["name"])}, **out, **text_args(rng, f_["text"], columns, radius))
        if way != "csv":
            a["method"] = way
        return steps, [f_], call_of(rng, "csv" if way == "csv" else "csv_multi", a, odd), "p"
    if way == "steps":
        ids = rng.sample(range(n + 3), n)
        steps = [{"t": t["t"], "parts": [dict(q, id=ids[k], r=radius, ty=0, c=0) for k, q in enumerate(t["parts"])]} for t in steps]
        rows = [[numbers([q["id"]] + q["p"] + q["v"]) for q in t["parts"]] for t in steps]
        first, columns = as_text(rng, "", [r for x in rows for r in x])
        text, at, files = first["text"], 0, []
        for k, x in enumerate(rows):
            files.append({"name": "%s%d.csv" % (name, k), "folder": "",
                          "text": dict(text, rows=text["rows"][at:at + len(x)], notes=[rng.randint(0, len(x))] if rng.random() < 0.2 else [])})
            at += len(x)
        a = {"filenames": li([path(x["name"]) for x in files], rng.choice(["list", "tuple"])), **out,
             "times": li([rational(rng, gen.rt(t["t"])) for t in steps], rng.choice(["list", "tuple"])),
             **text_args(rng, text, columns, radius)}
        return steps, files, call_of(rng, "csv_multi_files", a, odd), "t"
    # identities are counted from 1 (the largest one is the number of particles)
    ids = rng.sample(range(1, n + 1), n)
    steps = [{"t": t["t"], "parts": sorted((dict(q, id=ids[k], c=1) for k, q in enumerate(t["parts"])), key=lambda q: q["id"])} for t in steps]
    dt = rng.choice([d for d in (1, 1, 2, 3, 4) if all(t["t"] % d == 0 for t in steps)])
    ext = rng.choice(["vtk", "vtk", "vtu", "vtp"])
    names, diameter = ["v", "radius", "id", "type"], rng.random() < 0.3
    if diameter:
        names[1] = "diameter"
    wide, files = rng.randint(0, 1), []
    for t in steps:
        parts = [{"p": numbers(q["p"]), "f": {"v": numbers(q["v"]), names[1]: gen.rt(q["r"] * (2 if diameter else 1)), "id": gen.rt(q["id"]), "type": gen.rt(q["ty"])}}
                 for q in rng.sample(t["parts"], len(t["parts"]))]
        cut = rng.randint(0, len(parts)) if ext != "vtk" and rng.random() < 0.5 else 0
        x = t["t"] // dt
        files.append({"name": "%s/step_%d.%s" % (name, x, ext), "folder": name, "ext": ext, "step": x, "other": False, "wide": wide,
                      "content": {"vtk": "legacy", "vtu": "grid", "vtp": "poly"}[ext], "pieces": [parts[:cut], parts[cut:]] if cut else [parts],
                      "names": names, "vectors": ["v"], "ints": ["id", "type"]})
    a = {"timestep": rational(rng, gen.rt(dt)), **out,
         "filter": {"t": "str", "v": rng.choice(["(\\d+).%s", "step_(\\d+)\\.%s$"]) % ext, "ext": ext},
         "velocity_field_name": "v", "radius_field_name": "radius", "id_field_name": "id", "type_field_name": "type",
         "diameter_field_name": "diameter" if diameter else None}
    if rng.random() < 0.5:
        rng.shuffle(files)
        call = call_of(rng, "vtk_from_folder", dict({"folder": path(name)}, **a), odd)
    else:
        call = call_of(rng, "vtk", dict({"filenames": li([path(x["name"]) for x in files], rng.choice(["list", "tuple"]))}, **a), odd)
    return steps, files, call, "t"


def summary(steps):
    """What a conversion records of it."""
    qs = [q for t in steps for q in t["parts"]]
    speeds = [sum(x * x for x in q["v"]) ** 0.5 for q in qs]
    return {"steps": steps, "dims": [[min(q["p"][x] for q in qs), max(q["p"][x] for q in qs)] for x in range(3)], "vmag": [int(min(speeds)), 0, int(max(speeds))]}


def binned(rng, ds, o):
    """A histogram whose bins no speed lies between by rounding."""
    speeds = {round(sum(x * x for x in q["v"]) ** 0.5) for t in ds["steps"] for q in t["parts"]}
    lo, hi = ds["vmag"][0], ds["vmag"][2]
    opts = []
    for b in (1, 2, 3, 4, 5, 7, 10):
        for top in (hi, lo + b, lo + 2 * b):
            if top > lo and ((top - lo) % b == 0 or all((v - lo) * b % (top - lo) for v in speeds if lo < v <= top)):
                opts.append((b, top))
    b, top = rng.choice(opts)
    return dict(o, bins=b, vmax=0 if top == hi and rng.random() < 0.5 else top)


def pipeline_session(rng, make):
    """None if the recording has no such form."""
    with whole():
        src = make(rng, 1)[0]
    steps = clean(rng, src["ds"])
    if steps is None or any(not t["parts"] for t in steps) or sum(len(t["parts"]) for t in steps) > 80:
        return None
    name = rng.choice(["a", "b"])
    m = measured(rng, name, steps, 0)
    if m is None:
        return None
    steps, files, call, mgr = m
    ds = summary(steps)
    c = Calls(rng)
    inputs = list(files)
    used = lambda call: c.calls.append(dict(call, c="Converter." + call["c"], on=0))
    if rng.random() < 0.1:
        # not there yet
        c.add(0, "Data", {"filename": s(name + ".hdf5")}, ["filename"])
    if rng.random() < 0.2:
        # another recording before, perhaps replaced
        other = measured(rng, "c", [{"t": t["t"], "parts": [dict(q, v=q["v"][::-1]) for q in t["parts"]]} for t in steps], 0.3)
        inputs += other[1]
        k = other[2]
        if rng.random() < 0.5:
            at = [j for j, x in enumerate(k["pos"]) if x == s("c.hdf5")]
            if at:
                k["pos"][at[0]] = s(name + ".hdf5")
            elif "outname" in k["kw"]:
                k["kw"]["outname"] = s(name + ".hdf5")
        used(k)
    used(call)
    fl_ = {"name": name + ".hdf5", "mgr": mgr, "type": {"t": 1, "p": 2}[mgr], "ds": ds}
    data = opened(rng, c, fl_)
    analyses(rng, c, data, ds, [binned(rng, ds, o) if o["op"] == "histogram" else o for o in src["ops"]])
    if rng.random() < 0.4:
        for x in rng.sample(["dimensions", "min_position", "max_position", "time", "len", "list"], 2):
            c.add(data, x, {})
    return {"kind": "python", "inputs": inputs, "files": [], "calls": c.calls}


def fitted_session(rng):
    """Positions of one particle, as they are tracked; its velocities are computed."""
    w, dt = rng.choice([3, 3, 5, 9]), rng.choice([1, 1, 2])
    h = (w - 1) // 2
    way = rng.choice([(1, 0, 0), (0, 1, 0), (0, 0, 1), (0, -1, 0), (3, 4, 0), (0, 4, -3)])
    if w == 9:
        way = rng.choice([(1, 0, 0), (0, 1, 0), (0, 0, 1)])
    T = rng.randint(2 * h + 2, 2 * h + 8)
    # the slopes are whole
    unit = dt * {3: 2, 5: 10, 9: 60}[w]
    far, d = [0], rng.choice([0, 1])
    while len(far) < T:
        d = rng.choice([-1, 0, 1, 1, 2]) if rng.random() < 0.5 else d
        far.append(far[-1] + d)
    t0, start = rng.choice([0, 0, 3, -4]), [2 * rng.randint(-4, 4) + 1 for _ in range(3)]
    samples = [[t0 + k * dt] + [start[x] + unit * far[k] * way[x] for x in range(3)] for k in range(T)]
    rows = [numbers(r) for r in samples]
    if rng.random() < 0.7:
        rng.shuffle(rows)
    text, columns = as_text(rng, "a.csv", rows)
    a = dict({"filename": path("a.csv"), "outname": s("a.hdf5")}, **text_args(rng, text["text"], columns, rng.randint(0, 2)))
    a.update(vel=1, sampling_steps=w)
    c = Calls(rng)
    c.calls.append(dict(call_of(rng, "csv", a, 0), c="Converter.csv", on=0))
    data = opened(rng, c, {"name": "a.hdf5", "mgr": "p", "type": 2})
    kept = samples[h:T - h]
    lim, cells = [], []
    for x in range(3):
        lo, hi = min(r[x + 1] for r in kept), max(r[x + 1] for r in kept)
        lo, n = lo - 1 - 2 * rng.randint(0, 2), rng.randint(1, 3)
        size = -(-(hi + 1 - lo) // n)
        size += size % 2
        lim.append([lo, lo + size * n])
        cells.append(n)
    g = {"kind": "cart", "lim": lim, "cells": cells}
    ds = {"steps": [{"t": r[0]} for r in kept], "dims": [[min(r[x] for r in kept), max(r[x] for r in kept)] for x in (1, 2, 3)]}
    ops = []
    for _ in range(rng.randint(2, 4)):
        op = rng.choice(["number", "vector", "vector", "velocity", "extract"])
        a, b = sorted(rng.randint(kept[0][0] - 1, kept[-1][0]) for _ in range(2))
        o = {"op": op, "g": g, "sel": {"default": 1} if rng.random() < 0.5 else {"time": [a, b]}, "mode": rng.choice(["absolute", "x", "y", "z"]), "vmin": -1000000, "vmax": 1000000,
             "particle": 0, "from": 0, "to": rng.randint(1, len(kept))}
        if op == "extract":
            del o["g"]
        ops.append(o)
    analyses(rng, c, data, ds, ops)
    for x in rng.sample(["dimensions", "time", "len", "list"], 2):
        c.add(data, x, {})
    return {"kind": "python", "vel": 1, "inputs": [text], "files": [], "calls": c.calls}


def c41(rng, n):
    """Measured data converted, opened and analysed."""
    out, k = [], 0
    while len(out) < n:
        k += 1
        one = fitted_session(rng) if k % 6 == 0 else pipeline_session(rng, ANALYSES[k % len(ANALYSES)])
        if one:
            out.append(one)
    return out

"""driver.py IN OUT: runs sessions on the Python interface, with the freshly built library.

Decides nothing: every call of a session is made as it stands there, what comes back is listed.
Environment: UP4_LIB (the library), UP4_REPO (where the package up4 is)."""
import cmath
import ctypes
import json
import math
import os
import re
import shutil
import sys
import tempfile

sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
UNDEF = 1000000007
MAX, MAXDEN = 2147000000.0, 300000.0


def rat(v, rel=4e-13):
    """The small rational a float represents, as in harness/src/num.rs."""
    v = float(v)
    if math.isnan(v):
        return [0, 0]
    if math.isinf(v):
        return [1 if v > 0 else -1, 0]
    tol = rel * max(abs(v), 1.0)
    p0, q0, p1, q1, x = 0.0, 1.0, 1.0, 0.0, v
    for _ in range(40):
        a = math.floor(x)
        p, q = a * p1 + p0, a * q1 + q0
        if q > MAXDEN or abs(p) > MAX:
            break
        if abs(v - p / q) <= tol:
            return [int(p), int(q)]
        p0, q0, p1, q1 = p1, q1, p, q
        frac = x - a
        if frac <= 0.0:
            break
        x = 1.0 / frac
    return [int(round(max(-MAX, min(MAX, v * 1000.0)))), -1]


# ---------------------------------------------------------------- files
def num(i):
    return None if i == UNDEF else float(i)


class Files:
    def __init__(self, lib):
        self.lib = lib
        lib.hdf5_stub_dump.restype = ctypes.c_void_p

    def load(self, name, node):
        self.lib.hdf5_stub_load(name.encode(), json.dumps(node).encode())

    def dump(self, name):
        p = self.lib.hdf5_stub_dump(name.encode())
        if not p:
            return None
        text = ctypes.string_at(p).decode()
        self.lib.hdf5_stub_free(ctypes.c_void_p(p))
        return json.loads(text)

    def forget(self):
        self.lib.hdf5_stub_forget()


def item(k, shape, d):
    return {"k": k, "s": shape, "d": d}


def rows(v):
    return item("f64", [len(v), 3], [num(x) for r in v for x in r])


def flat(v):
    return item("f64", [len(v)], [num(x) for x in v])


def node(f):
    """A data file of a session, laid out by time steps ("t") or by particles ("p")."""
    ds, steps = f["ds"], f["ds"]["steps"]
    n = max([len(s["parts"]) for s in steps] + [0])
    ts = [s["t"] for s in steps]
    attrs = {
        "dimensions": item("f64", [2, 3], [float(ds["dims"][a][k]) for k in (0, 1) for a in range(3)]),
        "velocity": item("f64", [3, 3], [0.0] * 9),
        "velocity magnitude": flat(ds["vmag"]),
        "time": flat([ts[0], ts[-1]]),
        "particle number": item("u64", [], [n]),
        "timesteps": item("u64", [], [len(ts)]),
        "sample rate": item("f64", [], [1.0]),
    }
    if "type" in f:
        attrs["hdf5_up4_type"] = item("i32", [], [f["type"]])
    groups = {}
    names = (("radius", "r"), ("density", "d"), ("ppcloud", "c"), ("particletype", "ty"), ("id", "id"))
    if f["mgr"] == "t":
        for k, s in enumerate(steps):
            ps = s["parts"]
            groups["timestep %d" % k] = {"datasets": dict(
                {"time": item("f64", [], [float(s["t"])]), "position": rows([p["p"] for p in ps]), "velocity": rows([p["v"] for p in ps])},
                **{x: flat([p[y] for p in ps]) for x, y in names})}
    else:
        for k in range(n):
            ps = [s["parts"][k] for s in steps]
            groups["particle %d" % k] = {"datasets": dict(
                {"time": flat(ts), "position": rows([p["p"] for p in ps]), "velocity": rows([p["v"] for p in ps])},
                **{x: flat([p[y] for p in ps]) for x, y in names})}
    return {"attrs": attrs, "datasets": {"time array": flat(ts)}, "groups": groups}


# ---------------------------------------------------------------- arguments
def decode(a, objs, np):
    t, v = a["t"], a.get("v")
    if t in ("int", "str"):
        return v
    if t == "bool":
        return v == 1
    if t == "num":
        return float(v[0]) / float(v[1]) if v[1] else (math.nan if v[0] == 0 else math.inf * v[0])
    if t == "none":
        return None
    if t == "ref":
        return objs[v - 1]
    if t == "slice":
        return slice(*[None if x == UNDEF else x for x in v])
    if t == "dict":
        return dict(v)
    out = [decode(x, objs, np) for x in v]
    return np.asarray(out) if t == "array" else tuple(out) if t == "tuple" else out


# ---------------------------------------------------------------- results
def colour(c):
    if isinstance(c, str) and c.startswith("#") and len(c) == 7:
        return [int(c[k:k + 2], 16) for k in (1, 3, 5)]
    return {"black": [0, 0, 0], "white": [255, 255, 255]}.get(str(c).lower(), [-1, -1, -1])


def scale(c):
    return [[rat(e[0]), colour(e[1])] for e in c] if isinstance(c, list) else []


def val(x):
    return math.nan if x is None else x


def both(x):
    """A number and its square."""
    return [rat(val(x)), rat(val(x) * val(x))]


def signed(x):
    """Sign and square."""
    return [0 if x != x else (x > 0) - (x < 0), rat(x * x)]


def points(t):
    """The values of a map by position. A map is given by a list of points, or by a list of rows
    for the two lists of coordinates; of another shape it shows nothing."""
    x, y, z = t["x"], t["y"], t["z"]
    if z and isinstance(z[0], list):
        if len(z) != len(y) or any(len(r) != len(x) for r in z):
            return []
        p = [(x[i], y[j], z[j][i]) for i in range(len(x)) for j in range(len(y))]
    elif len(x) == len(y) == len(z):
        p = list(zip(x, y, z))
    else:
        return []
    p.sort(key=lambda q: (val(q[0]), val(q[1])))
    return [[rat(val(a)), rat(val(b))] + both(c) for a, b, c in p]


def arrow(t):
    z = [complex(val(a), val(b)) for a, b in zip(t["x"], t["y"])]
    base, tip = z[0], z[1]
    d = tip - base
    out = {"base": [rat(base.real), rat(base.imag)], "fill": colour(t.get("fillcolor")),
           "line": colour(t.get("line", {}).get("color")), "closed": 1}
    if d != d:
        return dict(out, d=[[0, [0, 0]], [0, [0, 0]]], head=[])
    # the tip is computed next to the base: differences carry the rounding of the base
    size = max(1.0, abs(base.real), abs(base.imag))
    clean = complex(*(0.0 if abs(w) < 1e-14 * size else w for w in (d.real, d.imag)))
    head = sorted((cmath.phase((tip - w) / d), abs((tip - w) / d)) for w in z[2:4]) if clean else []
    return dict(out, d=[signed(clean.real), signed(clean.imag)], closed=1 if z[4] == tip else 0,
                head=[[rat(math.degrees(a), 1e-7), rat(r, 1e-8)] for a, r in head] if clean else
                     [[rat(abs(w - tip) + 7.0), [0, 1]] for w in z[2:4]])


def figure(d):
    out = {"t": "fig", "maps": [], "arrows": [], "marks": [], "lines": [], "other": 0}
    for t in d["data"]:
        kind, n = t["type"], len(t["x"])
        if kind in ("heatmap", "contour"):
            m = {"type": kind, "pts": points(t), "scale": scale(t.get("colorscale"))}
            if kind == "contour":
                c = t.get("contours", {})
                a, b, s = (val(c.get(k)) for k in ("start", "end", "size"))
                m["levels"] = [both(a), both(b), rat((b - a) / s if s else math.nan)]
                m["auto"] = 1 if t.get("autocontour", True) else 0
            out["maps"].append(m)
        elif kind == "scatter" and t.get("mode") == "lines" and t.get("fill") == "toself" and n == 5:
            out["arrows"].append((val(t["x"][0]), val(t["y"][0]), arrow(t)))
        elif kind == "scatter" and t.get("mode") == "lines":
            out["lines"].append({"x": [rat(val(x)) for x in t["x"]], "y": [rat(val(x)) for x in t["y"]]})
        elif kind == "scatter" and t.get("mode") == "markers":
            m = t.get("marker", {})
            p = sorted(zip(map(val, t["x"]), map(val, t["y"])), key=str)
            out["marks"].append({"pts": [[rat(a), rat(b)] for a, b in p], "even": 1 if n == len(t["y"]) else 0,
                                 "range": [both(m[k]) if k in m else [] for k in ("cmin", "cmax")],
                                 "show": 1 if m.get("showscale") else 0, "scale": scale(m.get("colorscale"))})
        else:
            out["other"] += 1
    out["arrows"] = [a[2] for a in sorted(out["arrows"], key=lambda a: a[:2])]
    return out


NUMBER = re.compile(r"[-+]?(?:\d+\.?\d*(?:[eE][-+]?\d+)?|inf\b|nan\b)", re.I)
NAMES = [(k, re.compile(p, re.S if k == "dims" else 0)) for k, p in (
    ("dims", r"Dimensions of the system:+(.*?\]\])"), ("x", r"\|x(.*)"), ("y", r"\|y(.*)"), ("z", r"\|z(.*)"), ("time", r"max time[^:]*:(.*)"),
    ("particles", r"Number of Particles:(.*)"), ("steps", r"Number of Timesteps:(.*)"), ("vmean", r"Mean velocity[^:]*:(.*)"),
    ("vmin", r"Minimum velocity(.*)"), ("vmax", r"Maximum Velocity(.*)"), ("cells", r"Cells:(.*)"), ("xlim", r"xlim:(.*)"), ("ylim", r"ylim:(.*)"),
    ("zlim", r"zlim:(.*)"), ("mean", r"Mean:(.*)"), ("std", r"Std:(.*)"), ("min", r"Min:(.*)"), ("max", r"Max:(.*)"))]


def numbers(text):
    """The numbers of a text by what they are called there."""
    out = {}
    for k, p in NAMES:
        m = p.search(text)
        if m:
            out[k] = [both(float(x)) for x in NUMBER.findall(m.group(1))]
    return out


class Encoder:
    def __init__(self, up4, rust, np, go):
        self.up4, self.rust, self.np, self.go, self.rel = up4, rust, np, go, 4e-13

    def rats(self, a):
        return [rat(x, self.rel) for x in self.np.asarray(a, dtype=float).ravel()]

    def grid(self, g):
        out = {"cells": [int(x) for x in g.shape()], "pos": [self.rats(p) for p in g.cell_positions()]}
        if isinstance(g, self.rust.RustGrid):
            return dict(out, t="grid", val=self.rats(g.to_numpy()), sq=self.rats(g.to_numpy() ** 2), wt=self.rats(g.weights_to_numpy()))
        return dict(out, t="vec", val=[self.rats(x) for x in g.to_numpy()])

    def raw(self, g):
        if isinstance(g, self.rust.RustGrid):
            return g.to_numpy().tobytes() + g.weights_to_numpy().tobytes()
        if isinstance(g, self.rust.RustVectorGrid):
            return b"".join(x.tobytes() for x in g.to_numpy())
        return b""

    def __call__(self, r):
        np = self.np
        if isinstance(r, (self.rust.RustGrid, self.rust.RustVectorGrid)):
            return self.grid(r)
        if isinstance(r, self.go.Figure):
            enc = lambda x: {"t": "none"} if x is None else {"t": "dict", "v": x}
            return dict(figure(r.d), updates=[[enc(s), enc(l)] for s, l, i in r.updates if i is None])
        if isinstance(r, bool):
            return {"t": "bool", "v": 1 if r else 0}
        if isinstance(r, (int, np.integer)):
            return {"t": "int", "v": int(r)}
        if isinstance(r, (float, np.floating)):
            return {"t": "num", "v": rat(r), "sq": rat(r * r)}
        if r is None:
            return {"t": "none"}
        if isinstance(r, np.ndarray):
            return {"t": "arr", "shape": list(r.shape), "v": self.rats(r)}
        if isinstance(r, (list, tuple)):
            return {"t": "seq", "v": [self(x) for x in r]}
        if isinstance(r, dict):
            return {"t": "dict", "v": {k: rat(v) for k, v in r.items()}}
        if isinstance(r, str):
            return {"t": "str", "n": numbers(r)}
        return {"t": "obj"}


def printed(f, pos, kw):
    """What a call gives and what it prints."""
    sys.stdout.flush()
    with tempfile.TemporaryFile() as h:
        old = os.dup(1)
        os.dup2(h.fileno(), 1)
        try:
            out = f(*pos, **kw)
            sys.stdout.flush()
        finally:
            os.dup2(old, 1)
            os.close(old)
        h.seek(0)
        return out, h.read().decode(errors="replace")


def run(s, up4, files, enc, plots, where=None):
    for f in s["files"]:
        files.load(f["name"], node(f))
    if where:
        write_inputs(s["inputs"], where)
    objs, out, raw = [], [], []
    for c in s["calls"]:
        made, res = None, {"ok": False}
        try:
            pos = [decode(place(a, where), objs, enc.np) for a in c["pos"]]
            kw = {k: decode(place(a, where), objs, enc.np) for k, a in dict(c["kw"]).items()}
            name = c["c"]
            if c["on"] == 0:
                f = up4
                for part in name.split("."):
                    f = getattr(f, part)
            elif name in ("len", "getitem", "str", "repr", "list"):
                f = {"len": len, "getitem": lambda o, i: o[i], "str": str, "repr": repr, "list": list}[name]
                pos = [objs[c["on"] - 1]] + pos
            else:
                f = getattr(objs[c["on"] - 1], name)
            made, said = printed(f, pos, kw) if name == "stats" else (f(*pos, **kw), None)
            # changed in place
            res = {"ok": True, "res": enc(objs[c["on"] - 1] if name == "remove_outliers" else made)}
            if said is not None:
                res["res"]["n"] = numbers(said)
            if name == "plot" and os.path.exists(plots):
                with open(plots) as h:
                    res["res"] = dict(figure(json.loads(h.read().splitlines()[-1])), updates=[])
                os.remove(plots)
            if name == "save_fig":
                res["res"] = {"t": "images", "v": [[n, rat(k)] for n, k in (pos[0] if pos else kw["fig"]).images]}
        except BaseException as e:      # panics of the library are no Exceptions
            if isinstance(e, (KeyboardInterrupt, MemoryError)):
                raise
            if os.environ.get("UP4_DEBUG"):
                res["why"] = repr(e)
        before, raw = raw, [enc.raw(o) for o in objs]
        changed = [k + 1 for k in range(len(raw)) if raw[k] != before[k] and k + 1 != c["on"]]
        objs.append(made)
        raw.append(enc.raw(made))
        out.append(dict(res, changed=changed))
    return out


# ---------------------------------------------------------------- conversions
def text_of(v):
    """A number of an input file."""
    return str(v[0]) if v[1] == 1 else repr(float(v[0]) / float(v[1]))


def csv_text(t):
    out = []

    def note(k):
        out.extend([t["comment"] + " note"] * t["notes"].count(k))
    if t["header"] == 1:
        out.append(t["delim"].join("column%d" % k for k in range(t["cols"])))
    for k, row in enumerate(t["rows"]):
        note(k)
        out.append(t["delim"].join(map(text_of, row)))
    note(len(t["rows"]))
    return "\n".join(out) + "\n"


def listing(f):
    """What the stand-in for vtkio reads."""
    out = ["dataset " + {"grid": "UnstructuredGrid", "other": "ImageData"}.get(f["content"], "PolyData")]
    for parts in f["pieces"]:
        out += ["piece", "points F64 " + " ".join(text_of(x) for q in parts for x in q["p"])]
        if f["content"] == "legacy":
            out.append("field FieldData")
        for name in sorted(parts[0]["f"]) if parts else f["names"]:
            vs = [q["f"][name] for q in parts]
            vec = name in f["vectors"]
            ints = name in f["ints"]
            flat = [x for v in vs for x in v] if vec else vs
            out.append("array %s %s %d %s" % (name, ("U64" if f["wide"] else "I32") if ints else "F64", 3 if vec else 1, " ".join(map(text_of, flat))))
    return "\n".join(out) + "\n"


def place(a, where):
    """File names of arguments lie in the scratch directory."""
    if a["t"] in ("list", "tuple"):
        return dict(a, v=[place(x, where) for x in a["v"]])
    return dict(a, v=os.path.join(where, a["v"])) if a.get("in") else a


def content(d, q):
    v = [q(x) for x in d["d"]]
    n = len(d["s"])
    return v[0] if n == 0 else v if n == 1 else [v[k:k + d["s"][1]] for k in range(0, len(v), d["s"][1])]


def write_inputs(fs, where):
    for f in fs:
        path = os.path.join(where, f["name"])
        os.makedirs(os.path.dirname(path), exist_ok=True)
        with open(path, "w") as h:
            h.write(csv_text(f["text"]) if "text" in f else listing(f))


def convert(s, up4, files, np, where):
    write_inputs(s["files"], where)
    c = s["call"]
    try:
        getattr(up4.Converter, c["c"])(*[decode(place(a, where), [], np) for a in c["pos"]],
                                       **{k: decode(place(a, where), [], np) for k, a in dict(c["kw"]).items()})
    except BaseException as e:
        if isinstance(e, (KeyboardInterrupt, MemoryError)):
            raise
        return dict({"ok": False}, **({"why": repr(e)} if os.environ.get("UP4_DEBUG") else {}))
    f = files.dump("converted.hdf5")
    if f is None:
        return {"ok": False}
    # fitted velocities carry the rounding of the fit
    q = (lambda x: rat(x, 1e-9)) if s["vel"] == 1 else rat
    kind = "particle" if "particle 0" in f["groups"] else "timestep"
    groups = []
    while "%s %d" % (kind, len(groups)) in f["groups"]:
        g = f["groups"]["%s %d" % (kind, len(groups))]["datasets"]
        groups.append({n: content(g[n], q) if n in g else [] for n in ("time", "id", "radius", "ppcloud", "particletype", "velocity", "position")})
    out = {"ok": True, "by": kind, "groups": groups, "back": []}
    for key, name in (("type", "hdf5_up4_type"), ("dims", "dimensions"), ("n", "particle number"), ("steps", "timesteps"),
                      ("rate", "sample rate"), ("time", "time"), ("vel", "velocity"), ("vmag", "velocity magnitude")):
        out[key] = content(f["attrs"][name], q) if name in f["attrs"] else "missing"
    out["axis"] = content(f["datasets"]["time array"], q) if "time array" in f["datasets"] else "missing"
    return out


def main():
    src, dst = sys.argv[1:3]
    lib = os.environ["UP4_LIB"]
    site = os.path.join(os.getcwd(), "site-%d" % os.getpid())
    os.makedirs(site)
    os.symlink(lib, os.path.join(site, "upppp_rust.so"))
    plots = os.path.join(site, "plots")
    os.environ["UP4_PLOTS"] = plots
    sys.path[:0] = [site, os.path.join(HERE, "site"), os.environ.get("UP4_REPO", "/repo")]
    try:
        import numpy as np
        import plotly.graph_objects as go
        import upppp_rust as rust
        import up4
    finally:
        os.remove(os.path.join(site, "upppp_rust.so"))
    files = Files(ctypes.CDLL(rust.__file__ if os.path.exists(rust.__file__) else lib))
    enc = Encoder(up4, rust, np, go)
    if not os.environ.get("UP4_DEBUG"):
        null = os.open(os.devnull, os.O_WRONLY)
        os.dup2(null, 1)
        os.dup2(null, 2)
    with open(src) as f, open(dst, "w") as o:
        for line in f:
            if not line.strip():
                continue
            s = json.loads(line)
            files.forget()
            if s["kind"] == "pyconvert" or "inputs" in s:
                where = tempfile.mkdtemp(dir=os.getcwd(), prefix="in")
                try:
                    # fitted velocities carry the rounding of the fit
                    enc.rel = 1e-9 if s.get("vel") else 4e-13
                    s["out"] = convert(s, up4, files, np, where) if s["kind"] == "pyconvert" else run(s, up4, files, enc, plots, where)
                finally:
                    shutil.rmtree(where)
            else:
                enc.rel = 4e-13
                s["out"] = run(s, up4, files, enc, plots)
            o.write(json.dumps(s, separators=(",", ":"), allow_nan=False) + "\n")
            o.flush()
    if os.path.exists(plots):
        os.remove(plots)
    os.rmdir(site)


if __name__ == "__main__":
    main()

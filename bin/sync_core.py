#!/usr/bin/env python3
"""sync_core.py [core|io|readers|full]: mirrors the part of /repo's crate that builds offline into build/up4NAME.

core: same selection as the project's own offline build: the modules that need the unavailable git
dependencies (hdf5, plotly, vtkio) are left out by commenting out their declarations. Everything
else is copied verbatim. The mirrored manifest additionally declares the `up4_verif*` features that
guard the verification hooks.

io: additionally the HDF5 data managers and the converters, on the stand-ins for hdf5 and vtkio in
stubs/; only plotting and the Python classes are left out. The feature `up4_small_buffer`, which
only this mirror knows, makes the read buffers of the data managers a few steps long and fits
velocities in parallel from 12 samples on.

readers: as io (and in its place), without the converters.

full: everything but the command line program, on stand-ins for hdf5, vtkio and plotly; the library
Python loads (it knows `up4_small_buffer` too). The stand-in for hdf5 also hands files in and out for the driver.

Files are rewritten only when they change."""
import os
import re
import shutil
import sys

REPO = os.environ.get("UP4_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WHAT = sys.argv[1] if len(sys.argv) > 1 else "core"
OUT = os.path.join(VERIF, "build", {"core": "up4core", "full": "up4full"}.get(WHAT, "up4io"))
DROP = {"src/lib.rs": ["plotly", "plotting", "pylib"]}
SKIP = ("src/main.rs", "src/plotting", "src/pylib")
STUBS = {}
if WHAT == "full":
    DROP, SKIP = {}, ("src/main.rs",)
elif WHAT != "io":
    DROP["src/lib.rs"].append("converter")
    SKIP += ("src/converter",)
if WHAT == "core":
    DROP["src/datamanager.rs"] = ["pdata", "tdata"]
    SKIP += ("src/datamanager/pdata.rs", "src/datamanager/tdata.rs")
else:
    STUBS = {x: '"../../stubs/%s"' % x for x in ("hdf5", "vtkio")}
if WHAT == "full":
    STUBS["hdf5"] += ', features = ["ffi"]'
    STUBS["plotly"] = '"../../stubs/plotly"'


def put(rel, text):
    path = os.path.join(OUT, rel)
    os.makedirs(os.path.dirname(path), exist_ok=True)
    if os.path.exists(path):
        with open(path, encoding="utf-8", newline="") as f:
            if f.read() == text:
                return
    with open(path, "w", encoding="utf-8", newline="") as f:
        f.write(text)


def get(rel):
    with open(os.path.join(REPO, rel), encoding="utf-8", newline="") as f:
        return f.read()


toml = get("Cargo.toml")
for name, path in STUBS.items():
    toml = re.sub(r"^%s\s*=.*$" % name, "%s = { path = %s }" % (name, path), toml, flags=re.M)
toml = re.sub(r"^([\w-]+\s*=.*\bgit\s*=)", r"# \1", toml, flags=re.M)
if WHAT != "full":
    toml = re.sub(r'"cdylib",\s*', "", toml)
toml = toml.split("[profile.release]")[0]
toml += ("" if "[features]" in toml else "\n[features]\n")
toml += "".join("up4_verif%s = []\n" % x for x in ("", "_compare", "_rotate"))
toml += "up4_small_buffer = []\n" if WHAT != "core" else ""
if WHAT == "full":
    toml += "\n[workspace]\n"
    with open(os.path.join(VERIF, "harness_py", "Cargo.lock"), encoding="utf-8") as f:
        put("Cargo.lock", f.read())
put("Cargo.toml", toml)
kept = {"Cargo.toml"}
for top, _, names in os.walk(os.path.join(REPO, "src")):
    for name in names:
        rel = os.path.relpath(os.path.join(top, name), REPO)
        if not name.endswith(".rs") or rel.startswith(SKIP):
            continue
        text = get(rel)
        for mod in DROP.get(rel, ()):
            text = re.sub(
                rf"^((?:pub )?(?:mod {mod};|use {mod}::[^;\n]*;|extern crate {mod};))",
                r"// \1", text, flags=re.M)
        if WHAT != "core" and rel.startswith("src/datamanager/"):
            text = re.sub(r"^((?:pub(?:\(\w+\))? )?const BUFFERSIZE: usize = )(\w+);", r'\1if cfg!(feature = "up4_small_buffer") { 4 } else { \2 };',
                          text, flags=re.M)
        if WHAT == "io" and rel.startswith("src/converter/"):
            # trajectories that are fitted in parallel
            text = re.sub(r"(\.len\(\)) < (200_?000)\b", r'\1 < (if cfg!(feature = "up4_small_buffer") { 12 } else { \2 })', text)
        put(rel, text)
        kept.add(rel)
for top, _, names in os.walk(os.path.join(OUT, "src")):
    for name in names:
        path = os.path.join(top, name)
        if os.path.relpath(path, OUT) not in kept:
            os.remove(path)

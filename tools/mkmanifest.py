#!/usr/bin/env python3
"""Writes MANIFEST.json from the registered properties."""
import json
import os
import subprocess
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(VERIF, "bin"))
from up4.props import PROPS      # noqa: E402

hooks = [x.split(" ", 1)[0] for x in
         subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%H %s"], check=True, text=True,
                        stdout=subprocess.PIPE).stdout.splitlines() if "verification hooks" in x]
checks = []
for pid, p in sorted(PROPS.items()):
    models = sorted({m.module[:-4] for m in p.models})
    checks.append({
        "property": pid,
        "quick_cmd": "bin/check " + pid,
        "thorough_cmd": "bin/check " + pid,
        "evidence_file": "evidence/%s.json" % pid,
        "technique": "TLA+ specification: TLC model checking of %s, behaviours replayed on the real code, recorded traces "
                     "validated by TLC against %s" % (", ".join(models), p.trace[:-4]),
        "level": "model_checking",
        "level_note": ({"python": "On stand-ins for the hdf5, vtkio and plotly crates and packages, which are not installed. ", True: "On stand-ins for the hdf5 and vtkio crates, which are not installed. "}.get(p.io, "")) + "Exhaustive on the specification within the constants of the configurations; the implementation is "
                     "bound by replaying printed behaviours and seeded sessions and validating every recorded result with TLC. "
                     "Assumes that the sessions reach the behaviour; exact rounding ties are left out.",
    })
manifest = {
    "version": 1,
    "setup_cmd": "bin/setup",
    "hooks": {
        "guard": "up4_verif",
        "enable": "cargo features up4_verif, up4_verif_compare and up4_verif_rotate, declared only in the manifest that "
                  "bin/sync_core.py writes for its mirror of /repo's sources in build/up4core; harness/Cargo.toml switches them on",
        "source_commits": hooks,
    },
    "checks": checks,
    "not_applicable": [],
    "notes": "TLA+ with TLC. See DESIGN.md. bin/replay FILE runs a violation again.",
}
with open(os.path.join(VERIF, "MANIFEST.json"), "w") as f:
    json.dump(manifest, f, indent=1)
    f.write("\n")

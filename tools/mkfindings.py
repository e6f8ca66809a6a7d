#!/usr/bin/env python3
"""Writes KNOWN_FINDINGS.txt from the fix commits of /repo and the properties they restore."""
import os
import subprocess
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPERTY = {     # subject of the fix commit -> property
    "cloud and density ranges": "C06", "cartesian cell lookup": "C01", "slice finds the plane": "C04",
    "new_zeros also clears": "C03", "cylindrical cell lookup": "C02", "outlier removal no longer": "C05",
    "cylindrical velocity components": "C08", "timestep_at_seconds_closest": "C20",
    "vectorfield does not mix": "C21", "vectorfield skips undefined": "C08",
    "granular temperature does not mix": "C21", "granular temperature skips": "C12",
    "dispersion does not mix": "C21", "dispersion skips undefined": "C13", "histogram counts": "C10",
    "occupancyfield uses every": "C11", "concentration_field includes": "C16", "lacey_mixing includes": "C15",
    "lacey_mixing accepts": "C15", "msd_field averages": "C14", "msd_field skips": "C14",
    "msd_field considers": "C14", "circulation times include crossings": "C17", "extract can include": "C19",
    "circulations between two": "C18", "circulation times accept": "C17", "dispersion accepts": "C13",
    "msd_field accepts": "C14", "binary_threshold takes": "C24", "circulation times do not start": "C17",
    "reads through a further buffer": "C25", "further read buffers are found": "C25", "unbuffered reads of": "C26",
    "missing densities": "C26", "extents and velocity ranges": "C27", "the time range of converted": "C27",
    "converters keep a first": "C27", "converted trajectories store their": "C27", "the sample rate of": "C28",
    "all datasets of a converted": "C27", "ignored rows leave": "C29", "csv chains": "C29",
    "converted trajectories store how": "C29", "the fitted velocity": "C30", "interpolation takes": "C30",
    "place depth-averaged arrows": "C32", "place parity maps": "C33", "use the documented defaults when": "C37",
    "check the largest size": "C38", "accept names of colour": "C38", "allow grids with negative": "C35",
    "count cells of a given size": "C35", "slice recorded time": "C34", "refuse time steps that": "C34",
    "draw parity maps in": "C33",
    "fit velocities of long": "C30", "xml vtk folders": "C28", "csv files of timesteps": "C28",
}
PROPERTY.update(dict(x.split("=") for x in sys.argv[1:]))
HEAD = """# Genuine defects found in /repo, see DESIGN.md. "fixed:" entries are repaired and suppress nothing.
# "known: property=<id> <digest of the session> <what fails>" would list a recorded one.
"""
log = subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%H %s"], check=True, text=True,
                     stdout=subprocess.PIPE).stdout.splitlines()
out = []
for line in log:
    h, subject = line.split(" ", 1)
    if subject.startswith("fix: "):
        text = subject[5:]
        ids = [v for k, v in PROPERTY.items() if text.startswith(k)]
        if len(ids) != 1:
            sys.exit("no property for: " + text)
        out.append("fixed: property=%s %s %s" % (ids[0], h, text))
with open(os.path.join(VERIF, "KNOWN_FINDINGS.txt"), "w") as f:
    f.write(HEAD + "\n".join(out) + "\n")

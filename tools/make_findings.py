"""Write known_findings.json from the table below. Run by hand; no check writes to it."""
import json
import os

FIXED = [
    ("C05", "17283cc", "close particle search in a periodic box missed near pairs of particles with radius above one"),
    ("C06", "cbd55e9", "the drag-only resistance scalars were loaded (and had to exist) even when not asked for"),
    ("C11", "f0e8d6f", "the drag-only far-field resistance lacked its factor 6 pi"),
    ("C10", "f75224c", "a periodic system of dumbbells only raised an exception when solved"),
    ("C10", "fbc32e4", "extracting the force on walls returned too few quantities, so the caller failed to unpack them"),
    ("C10", "d0e22dc", "the extract-force command-line argument was overwritten"),
    ("C13", "53836cc", "Adams-Bashforth steps with dumbbells raised an exception"),
    ("C13", "db5ed4f", "the stages of a Runge-Kutta step took the background flow at the start configuration"),
    ("C12", "046bd9e", "the rotation vectors of a sphere that wrapped round the box were left behind"),
    ("C14", "8e05d2a", "positions were wrapped into the box as sheared one step earlier"),
    ("C23", "0aef656", "nothing was saved, or the run failed, for some starts and intervals of saving"),
    ("C23", "78e2a99", "a run resumed from a checkpoint repeated or skipped frames"),
    ("C17", "210a4c5", "every simulation in a periodic box stopped with a typing error in the helper that shears the box vectors, which was compiled even with Numba off"),
    ("C21", "a4dbfa8", "the xi log xi coefficient of Y12M broke the exchange symmetry (728 for 748)"),
    ("C20", "ab01c9d", "a single sphere could not be placed at random"),
    ("C20", "e2bb148", "randomly placed periodic dumbbells whose centre lay below the box were moved by a million units in y"),
    ("C20", "55cdeb4", "placing small periodic dumbbells stopped in the debugger"),
    ("C20", "2b61204", "placing dumbbells inside a quadrilateral returned nothing"),
    ("C17", "3814531", "periodic sphere-dumbbell couplings used the two radii the wrong way round"),
    ("C17", "9b77f54", "the periodic rotational mobility kept the wave-space self term"),
    ("C16", "e013926", "the periodic force-torque and force-stresslet couplings had no wave-space part"),
    ("C22", "24aabbc", "the particle-size check raised an exception instead of reporting when only one of the two ratios of a pair was missing (radii 0.3 and 3)"),
]

out = [dict(property=p, key="fixed-" + h, status="fixed", commit=h, what=w, line="fixed: property=%s %s %s" % (p, h, w)) for p, h, w in FIXED]
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "known_findings.json"), "w") as f:
    json.dump(out, f, indent=1)
    f.write("\n")

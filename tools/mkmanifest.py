#!/usr/bin/env python3
"""write MANIFEST.json from the table of checks below"""
import json, os
os.chdir(os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
PT = "property-based testing (proptest)"
CHECKS = {
 "C01": (PT + " against reference Butcher tableaus", "random smooth ODE systems and both example systems; agreement to rounding; trusts the tableaus in harness/src/tab.rs"),
 "C02": (PT + " against a reference walk composed of tableau steps", "random ODEs, steps and schedules; agreement to rounding"),
 "C07": (PT + ": observed convergence order against an accurate reference solution", "groups of random smooth ODEs; order observed with a margin of one half over an eightfold refinement"),
 "C03": (PT + ": every recorded adaptive step replayed against the embedded tableau", "random ODEs, example systems, configurations and schedules; agreement to rounding; trusts the tableaus in harness/src/tab.rs"),
 "C04": (PT + ": acceptance of every recorded step re-decided from the tableau's error estimates", "random ODEs and configurations including exhausted trial limits; decisions within rounding of a tolerance are not judged"),
 "C05": (PT + ": step lengths of whole walks against a reference controller", "random ODEs, configurations, schedules, zero-error systems; agreement to rounding"),
 "C06": (PT + " over systems, solvers and schedules; invariants of the records", "schedules that do not begin before the current time; adaptive tolerances that can be met"),
 "C08": (PT + ": accuracy of adaptive walks against an accurate reference solution", "groups of problems; the bound must hold for the majority of a group, because error estimates may vanish by accident on one problem"),
 "C09": (PT + ": energy balance over random networks", "closed networks of 3 or 6 masses, up to two reservoirs, random topology; agreement to rounding"),
 "C10": (PT + ": range, direction, equilibrium and relaxation over random networks", "monotone step sizes for the range; agreement to rounding"),
 "C11": (PT + ": invariants over every record", "random networks and ODE systems; agreement to rounding"),
 "C12": (PT + " against the prescribed boundary temperature and the composed steps of the driven equations", "random parameters; start in [0, 3], spans up to 4"),
 "C13": (PT + ", stateful: random histories of walks, manual steps and copies against the uninterrupted walk", "bitwise equality of all states and histories"),
 "C14": (PT + ", stateful: round trips of every type and format, and random histories with reloads against the uninterrupted walk", "YAML and bincode exact; JSON up to two units in the last place because of a recorded finding"),
 "C16": (PT + " of bare clones against a field-by-field model", "random systems with random histories at random points of a walk"),
 "C22": (PT + ": recorded solver histories against replayed steps, and metamorphic toggling of the save flags", "random ODEs, example systems, configurations and schedules"),
 "C23": (PT + ", metamorphic: pairs of runs related by a symmetry of the equations", "monotone step sizes; adaptive decisions close to a tolerance set aside unless the transformation is exact"),
 "C15": (PT + ": mutated valid documents, arbitrary input, wrong types, truncation, surplus text and file names, each with its expected outcome", "all public types; JSON compared up to two units in the last place"),
 "C17": (PT + ", stateful: random operation sequences against a plain vector of states", "finite numbers"),
 "C24": (PT + ": defining relations of grids and differences", "magnitudes up to 1e102; agreement to rounding"),
 "C25": (PT + ": the defining condition and metamorphic relations", "pairs within rounding of the tolerance are not judged"),
 "C28": (PT + ": random directory trees, run sequences and command lines, compared file by file", "the driver binary itself is not run with the overwrite request (its baselines take hours); the example runs are"),
 "C18": (PT + ", stateful, over generated system definitions compiled against the tree; model: entries appended by hand", "random programs: field orders, markings, component types, nesting; finite values"),
 "C19": (PT + ", stateful, over generated system definitions compiled against the tree; model: fields edited by hand", "random programs; sums and products agree to rounding, everything else exactly"),
 "C20": (PT + ": generated macro inputs, accepted or rejected by the compiler as predicted", "each case is one compiler run; the Python API is judged with the pyo3 feature off"),
 "C26": (PT + ", differential: generated programs run by the Python module and by the library", "bitwise equality; both are compiled by the same compiler"),
 "C27": (PT + ": generated programs for the Python module against a model of every class", "finite numbers; the module under CPython 3.12"),
 "C21": (PT + ", stateful, over generated topologies and component types compiled against the tree", "random programs; sums agree to rounding"),
}
exec(open("tools/checks_extra.py").read()) if os.path.exists("tools/checks_extra.py") else None
props = [json.loads(l) for l in open("properties.jsonl")]
m = {
 "version": 1,
 "setup_cmd": "./setup",
 "checks": [{"property": p["id"], "quick_cmd": f"./check {p['id']}", "thorough_cmd": f"env VERIF_TIER=thorough ./check {p['id']}",
             "technique": CHECKS[p["id"]][0], "level": "exploration", "level_note": CHECKS[p["id"]][1]}
            for p in props if p["id"] in CHECKS],
 "not_applicable": [{"property": p["id"], "reason": "check not built yet"} for p in props if p["id"] not in CHECKS],
 "notes": "./check ID --replay FILE reruns one saved case. No hooks in /repo."
}
json.dump(m, open("MANIFEST.json", "w"), indent=1)

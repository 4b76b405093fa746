"""Writes MANIFEST.json from the list of checks (claimed = a module gsim/<id>.py exists)."""
import json
import os

here = os.path.dirname(os.path.abspath(__file__))
TECH = {
    "C01": "deterministic simulation: seeded query histories on shared objects, refinement against a pristine-process oracle",
    "C02": "deterministic simulation with fault injection: read errors, memory errors and interrupts at seeded points of queries; pristine-process oracle",
    "C03": "deterministic simulation of thread schedules: seeded switch points between bytecodes of real threads; serial oracle",
    "C04": "deterministic simulation: seeded histories of constructions, queries and hostile caller writes; pristine-process oracle",
    "C05": "deterministic simulation with fault injection: seeded histories of queries, reassignments and rejected or interrupted reassignments; oracle rebuilt from the model state",
    "C06": "deterministic simulation with crashes: seeded datasets saved, process killed at the return, loaded in another process, compared with a model",
    "C07": "deterministic simulation with storage faults: n-th write/truncate/open fails, is torn or short, or an interrupt hits the save",
    "C08": "deterministic simulation with storage faults: n-th read fails or an interrupt hits the load, files cut short",
    "C09": "deterministic simulation of the wall clock and hash seed: seeded clock settings and jumps around load and query",
    "C10": "deterministic simulation with fault injection: seeded shift histories against a reference model of the time axis",
    "C11": "deterministic simulation: long seeded query histories with memory measured under a counting allocator",
}
NOTE = "seeded search; holds on everything explored, no claim of exhaustiveness; bounds and coverage in evidence and DESIGN.md"
PURE = {
    "C20": "pure function of grid, points and field: no scheduling, time, I/O, fault or history for the simulator to decide",
    "C21": "pure function of grid and point (history dependence of the search is C01): nothing for the simulator to decide",
    "C22": "pure arithmetic on axis and query; the history, fault and clock side is C09/C10",
    "C23": "pure function of the faces array; the history and crash side is C05/C06",
    "C24": "pure function of the file's contents; the fault side is C08",
    "C25": "pure function of the point set; nothing nondeterministic is involved",
}
checks, na = [], []
for p, t in TECH.items():
    if os.path.exists(os.path.join(here, "gsim", p.lower() + ".py")):
        checks.append({"property": p, "quick_cmd": f"python3 check.py {p} --tier quick",
                       "thorough_cmd": f"python3 check.py {p} --tier thorough", "technique": t,
                       "level": "exploration", "level_note": NOTE})
    else:
        na.append({"property": p, "reason": "check not built yet"})
na += [{"property": p, "reason": r} for p, r in PURE.items()]
m = {"version": 1, "setup_cmd": "python3 -c \"from gsim import boot; boot.build_shim()\"", "checks": checks,
     "not_applicable": na,
     "notes": "No hooks in /repo: every seam is outside it (LD_PRELOAD shim, sys.settrace, stand-in data sources)."}
with open(os.path.join(here, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")

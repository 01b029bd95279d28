"""MANIFEST.json from properties.jsonl and the checks that exist"""
import importlib
import json
import os
import sys
V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, V)
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
TECH = {
    "C01": "deterministic simulation: seeded schedules of pool threads and forked workers",
    "C02": "deterministic simulation with fault injection (worker death, start failure, interrupt, failing calls)",
    "C03": "deterministic simulation: histories of cap changes and simulated pools against a reference model",
    "C04": "deterministic simulation with fault injection (helper processes, pipes, disk)",
    "C05": "deterministic simulation with fault injection (helper processes, pipes, torn files)",
    "C06": "deterministic simulation with fault injection (helper processes, torn headers)",
    "C07": "deterministic simulation of pipes and helper processes with deadlock detection",
    "C08": "deterministic simulation with fault injection, leak invariants after every call",
    "C09": "deterministic simulation: seeded histories with failing loads against fresh objects",
    "C10": "deterministic simulation: seeded histories and line-level thread interleavings",
    "C11": "deterministic simulation: seeded histories and line-level thread interleavings",
    "C12": "deterministic simulation: seeded histories, thread interleavings and faults inside calls",
    "C13": "deterministic simulation of the command line and its worker pool with fault injection",
    "C14": "deterministic simulation of the command line, pool, helpers and disk with fault injection",
    "C15": "deterministic simulation: the random stream is the controlled nondeterminism",
    "C16": "deterministic simulation with fault injection (short reads, short writes, full disk)",
    "C25": "deterministic simulation with fault injection (torn input, helpers, interrupts, closed or full standard output) of command chains",
}
NA = {"C17": 1, "C18": 1, "C19": 1, "C20": 1, "C21": 1, "C22": 1, "C23": 1,
      "C24": 1}
WHY = ("pure function of its arguments: no scheduling, clock, I/O, fault or "
       "randomness can influence whether it holds, so simulated runs would "
       "only be input sampling")
checks, na = [], []
for p in props:
    i = p["id"]
    if i in NA:
        na.append(dict(property=i, reason=WHY))
    elif os.path.exists(os.path.join(V, "checks", i.lower() + ".py")):
        src = {}
        mod = importlib.import_module("checks." + i.lower())
        cmd = "/opt/venv/bin/python /verif/run_check.py " + i
        checks.append(dict(
            property=i, quick_cmd=cmd, thorough_cmd=cmd + " --tier thorough",
            evidence_file=f"evidence/{i}.json", technique=TECH[i],
            level="exploration",
            level_note="seeded search over simulated runs of the real code: "
            "no counterexample found in the runs counted in the evidence "
            "file; a failing run is reported with its seed and a minimised, "
            "exactly repeatable replay file. Assumes: " +
            "; ".join(mod.ASSUME)))
    else:
        na.append(dict(property=i, reason="no check built yet"))
json.dump(dict(version=1, setup_cmd="/opt/venv/bin/python /verif/run_check.py"
               " --setup", checks=checks, not_applicable=na,
               notes="No hooks in /repo: every seam is patched from outside "
               "(sim/prims.py, sim/popen.py)."),
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "n/a")

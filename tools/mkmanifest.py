"""Writes /verif/MANIFEST.json from the catalogue."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, V + "/tools")
import catalog
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
NA = {"C21": "A pure function of one point and two CRS names: no schedule, clock, I/O fault, crash or history can influence it, so there is nothing for a simulator to decide (C01-C03, C06 and C13 exercise the transformation and the unit lookup inside simulated runs).",
      "C22": "A pure function of a unit string: no schedule, clock, I/O, fault or history; generating strings would be input testing dressed as simulation."}
checks = []; na = []
for p in props:
    i = p["id"]
    if i in catalog.CHECKS:
        s = catalog.CHECKS[i]
        checks.append({"property": i, "quick_cmd": f"python3 check.py {i} quick", "thorough_cmd": f"python3 check.py {i} thorough", "technique": s.get("technique", "deterministic simulation with fault injection: seeded histories and fault schedules against a reference model"), "level": "exploration",
            "level_note": s.get("note", "Seeded sample of simulated runs of the real code over a simulated disk, checked step by step against an independent in-memory reference model; trusts the reference model (sim/gmodel.hh, sim/psim.py) and the libc-level seam (sim/simio.cc). Not exhaustive.")})
    else: na.append({"property": i, "reason": NA.get(i, "Simulation for this property is still under construction; not claimed yet.")})
json.dump({"version": 1, "setup_cmd": "python3 tools/build.py", "checks": checks, "not_applicable": na,
  "notes": "No hooks in /repo: the seams are the libc boundary (link-time / LD_PRELOAD), operator new, subprocess and clock of Python. Replay: python3 check.py replay <file>. VERIF_SEED drives every random choice."}, open(V + "/MANIFEST.json", "w"), indent=1)

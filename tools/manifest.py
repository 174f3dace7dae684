#!/usr/bin/env python3
"""Writes MANIFEST.json from checks.py and properties.jsonl."""
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from checks import CHECKS, TECH  # noqa: E402

VERIF = os.path.dirname(HERE)
NA = {
    "C90": "pure function of its input: no schedule, clock, fault or history "
           "is involved, so there is nothing for a simulator to decide",
    "C91": "pure function of its input: no schedule, clock, fault or history "
           "is involved, so there is nothing for a simulator to decide",
}
NOT_YET = "no check has been built for it yet"


def main():
    props = [json.loads(x)["id"] for x in open(VERIF + "/properties.jsonl")]
    checks = []
    for p in props:
        if p not in CHECKS:
            continue
        checks.append({
            "property": p,
            "quick_cmd": f"python3 tools/check.py {p}",
            "thorough_cmd": f"VERIF_TIER=thorough python3 tools/check.py {p}",
            "evidence_file": f"evidence/{p}.json",
            "technique": TECH + ": seeded search over schedules and faults",
            "level": "exploration",
            "level_note": "Seeded simulated executions of the real code with "
                          + CHECKS[p]["what"] + ". A clean run is evidence "
                          "over the sampled schedules, faults and workloads, "
                          "not a proof; trusted: the simulator's model of "
                          "threads and files, and the harness's reference "
                          "model.",
        })
    na = [{"property": p, "reason": NA.get(p, NOT_YET)}
          for p in props if p not in CHECKS]
    m = {"version": 1,
         "setup_cmd": "python3 tools/build.py",
         "hooks": {"guard": "none: no hooks were added to /repo; the "
                            "simulator interposes the C library",
                   "enable": "nothing to enable", "source_commits": []},
         "checks": checks, "not_applicable": na}
    with open(VERIF + "/MANIFEST.json", "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


main()

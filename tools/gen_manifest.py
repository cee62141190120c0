#!/usr/bin/env python3
"""writes MANIFEST.json from lib/config.py and properties.jsonl"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "lib"))
from config import PROPS
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl")) if l.strip()]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in PROPS:
        c = PROPS[i]
        checks.append({
            "property": i,
            "quick_cmd": "VERIF_TIER=quick python3 check.py " + i,
            "thorough_cmd": "VERIF_TIER=thorough python3 check.py %s --tier thorough" % i,
            "technique": c.get("technique", "runtime monitors and ASan/UBSan/TSan builds under a controlled scheduler and native stress"),
            "level": "exploration",
            "level_note": c.get("note", "Explored executions only: random workloads and random/PCT schedules with deterministic replay; monitors trust libstdc++, the compilers and the sanitizer runtimes. Interleavings are sequentially consistent; weaker orderings are judged by ThreadSanitizer's happens-before analysis."),
        })
    else:
        na.append({"property": i, "reason": "check not built yet"})
m = {
    "version": 1,
    "setup_cmd": "python3 tools/setup.py",
    "hooks": {"guard": "VS_CONTROLLED", "enable": "No hook is committed in /repo: the harness compiles /repo/include with -DVS_CONTROLLED, which makes harness/vshim.hpp replace std::atomic, std::mutex, std::condition_variable and std::thread before the library headers are read.", "source_commits": []},
    "checks": checks, "not_applicable": na,
    "notes": "Every check is check.py <property>: it builds the drivers in harness/ against /repo/include in several sanitizer builds, runs sharded workloads with fixed case counts, and judges them by the monitors. See DESIGN.md.",
}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")

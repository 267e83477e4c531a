#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the checks the harness has."""
import json, subprocess, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
have = [l.split()[0] for l in subprocess.check_output([V + "/.build/gevverif", "list"], text=True).splitlines()]
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
TECH = json.load(open(V + "/tools/techniques.json"))
hooks = subprocess.check_output(["git", "-C", "/repo", "log", "--format=%H", "--grep=^verif:"], text=True).split()
checks, na = [], []
for p in props:
    i = p["id"]
    if i in have:
        t = TECH.get(i, {})
        checks.append({
            "property": i,
            "quick_cmd": f"./run.sh {i}",
            "thorough_cmd": f"VERIF_TIER=thorough ./run.sh {i}",
            "technique": t.get("technique", "runtime monitoring of the real library under generated workloads"),
            "level": "exploration",
            "level_note": t.get("note", "Held on the executions observed; says nothing about executions not driven."),
        })
    else:
        na.append({"property": i, "reason": "check not built yet"})
m = {
    "version": 1,
    "setup_cmd": "./run.sh --build",
    "hooks": {"guard": "verif", "enable": "go build -tags verif (the harness module replaces github.com/Allenxuxu/gev by /repo)", "source_commits": hooks},
    "checks": checks,
    "not_applicable": na,
}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1, ensure_ascii=False)
open(V + "/MANIFEST.json", "a").write("\n")
print(len(checks), "checks", len(na), "not claimed")

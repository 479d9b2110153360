#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the table below."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l)["id"] for l in open(root + "/properties.jsonl")]
T = json.load(open(root + "/tools/claims.json"))
checks, na = [], []
for p in props:
    if p in T and (os.path.exists(f"{root}/harness/src/bin/{p.lower()}.rs") or os.path.exists(f"{root}/checks/{p}.sh")):
        c = T[p]
        checks.append({
            "property": p,
            "quick_cmd": f"./run {p}",
            "thorough_cmd": f"VERIF_TIER=thorough ./run {p}",
            "technique": c["technique"],
            "level": "exploration",
            "level_note": c["note"],
        })
    else:
        na.append({"property": p, "reason": T.get(p, {}).get("reason", "no check built yet")})
m = {
    "version": 1,
    "setup_cmd": "./run --setup",
    "hooks": {
        "guard": "mysql_connector_exact_buffers (a cfg flag)",
        "enable": "RUSTFLAGS='--cfg mysql_connector_exact_buffers', set by checks/C30.sh for the builds with sanitizers",
        "source_commits": ["e9a50a8"],
    },
    "checks": checks,
    "not_applicable": na,
}
json.dump(m, open(root + "/MANIFEST.json", "w"), indent=1)
open(root + "/MANIFEST.json", "a").write("\n")
print(len(checks), "claimed,", len(na), "not")

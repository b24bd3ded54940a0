import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools"))
import notes
checks = []
for l in open(os.path.join(V, "properties.jsonl")):
    i = json.loads(l)["id"]
    tech, level, n = notes.note(i)
    checks.append({"property": i, "quick_cmd": f"python3 check.py {i}", "thorough_cmd": f"VERIF_TIER=thorough python3 check.py {i} thorough", "technique": tech, "level": level, "level_note": n})
m = {"version": 1, "setup_cmd": "bash setup.sh", "hooks": {"guard": "vp_hooks (rustc cfg)", "enable": "RUSTFLAGS=\"--cfg vp_hooks\"", "source_commits": ["5b740f4"]}, "checks": checks, "not_applicable": []}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)

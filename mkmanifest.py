"""Write MANIFEST.json from the check modules present in checks/."""
import glob, importlib, json, os, re, sys
here = os.path.dirname(os.path.abspath(__file__))
props = [json.loads(line) for line in open(os.path.join(here, "properties.jsonl"))]
checks, missing = [], []
for prop in props:
    path = os.path.join(here, "checks", prop["id"].lower() + ".py")
    if not os.path.exists(path):
        missing.append(prop["id"])
        continue
    text = open(path).read()
    technique = re.search(r'^TECHNIQUE = \(?\s*"(.*)"', text, re.M)
    note = re.search(r'^NOTE = \(?\s*"(.*)"', text, re.M)
    checks.append({
        "property": prop["id"],
        "quick_cmd": f"VERIF_TIER=quick ./check {prop['id']}",
        "thorough_cmd": f"VERIF_TIER=thorough ./check {prop['id']}",
        "evidence_file": f"evidence/{prop['id']}.json",
        "technique": technique.group(1) if technique else "runtime monitoring: online oracles over generated workloads on the real code",
        "level": "exploration",
        "level_note": note.group(1) if note else "Decides the executions it generates (inputs and histories), by comparison with an independent reference model.",
    })
manifest = {"version": 1, "setup_cmd": "/opt/venv/bin/python -c 'import qldpc'", "checks": checks,
            "not_applicable": [{"property": p, "reason": "check not built yet"} for p in missing]}
json.dump(manifest, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed; missing", missing)

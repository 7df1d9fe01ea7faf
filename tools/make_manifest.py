"""Write MANIFEST.json from pbt/meta.py and properties.jsonl."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
sys.dont_write_bytecode = True
from pbt import meta
props = [json.loads(x) for x in open(f"{ROOT}/properties.jsonl")]
checks, na = [], []
for p in props:
    i = p["id"]
    c = meta.CHECKS.get(i)
    if c is None:
        na.append(dict(property=i, reason=meta.NA.get(i, "check not built yet")))
        continue
    checks.append(dict(property=i, quick_cmd=f"python3 pbt/run.py {i} --tier quick",
                       thorough_cmd=f"python3 pbt/run.py {i} --tier thorough",
                       technique=c["technique"], level=c.get("level", "exploration"), level_note=c["note"]))
m = dict(version=1, setup_cmd="python3 pbt/build.py " + " ".join(sorted({"main"} | {
    c.get("variant", "main") for c in meta.CHECKS.values()} | {v for c in meta.CHECKS.values() for v in c.get("also_build", [])})),
    checks=checks, not_applicable=na)
json.dump(m, open(f"{ROOT}/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks", len(na), "n/a")

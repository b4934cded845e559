"""Writes MANIFEST.json from lib/checks.py and properties.jsonl."""
import json, os, sys
R = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
sys.path.insert(0, os.path.join(R, "lib"))
sys.dont_write_bytecode = True
from checks import CHECKS
props = [json.loads(l)["id"] for l in open(os.path.join(R, "properties.jsonl"))]
NA = json.load(open(os.path.join(R, "tools", "not_applicable.json")))
m = dict(version=1, setup_cmd="bash setup.sh",
    hooks=dict(guard="none", enable="no hooks: the checks use public extension points only (events, subclasses, callbacks)", source_commits=[]),
    checks=[dict(property=p, quick_cmd=f"python3 run.py {p}", thorough_cmd=f"python3 run.py {p} --tier thorough",
                 evidence_file=f"evidence/{p}.json", technique=CHECKS[p].technique, level="model_checking",
                 level_note=CHECKS[p].note) for p in props if p in CHECKS],
    not_applicable=[dict(property=p, reason=NA.get(p, "check under construction")) for p in props if p not in CHECKS],
    notes="Language: TLA+ checked with TLC. See DESIGN.md.")
json.dump(m, open(os.path.join(R, "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]), "checks")

"""Writes MANIFEST.json from the property modules that exist."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = json.load(open(os.path.join(ROOT, "tools", "techniques.json")))
checks, na = [], []
for line in open(os.path.join(ROOT, "properties.jsonl")):
    i = json.loads(line)["id"]
    if i in T and os.path.exists(os.path.join(ROOT, "mc", "props", i.lower() + ".py")):
        t = T[i]
        checks.append(dict(property=i, quick_cmd=f"bash run.sh {i} quick",
                           thorough_cmd=f"bash run.sh {i} thorough",
                           technique=t[0], level=t[1], level_note=t[2]))
    else:
        na.append(dict(property=i, reason="No check has been built yet."))
m = dict(version=1, setup_cmd="bash setup.sh",
         hooks=dict(guard="none",
                    enable="No hooks are compiled into /repo: checks use public interfaces, "
                           "and the RDRAND and entropy variants are built with -include of a "
                           "shim header from /verif.",
                    source_commits=[]),
         checks=checks, not_applicable=na)
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)

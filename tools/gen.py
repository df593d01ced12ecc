#!/usr/bin/env python3
"""Write properties.jsonl and MANIFEST.json from meta.py and props/."""
import json, os, sys
sys.dont_write_bytecode = True
here = os.path.dirname(os.path.abspath(__file__)); V = os.path.dirname(here)
sys.path.insert(0, here)
import glob, importlib
from meta import P
for f in sorted(glob.glob(here + "/meta_*.py")): importlib.import_module(os.path.basename(f)[:-3])
ids = sorted(P)
with open(V + "/properties.jsonl", "w") as f:
    for i in ids: f.write(json.dumps(P[i]["entry"]) + "\n")
checks = [dict(property=i, quick_cmd=f"python3 run.py {i}", thorough_cmd=f"python3 run.py {i} --thorough", technique=P[i]["technique"], level="model_checking", level_note=P[i]["note"]) for i in ids if os.path.exists(f"{V}/props/{i}.py")]
na = [dict(property=i, reason=P[i].get("reason", "not built yet")) for i in ids if not os.path.exists(f"{V}/props/{i}.py")]
m = dict(version=1, setup_cmd="python3 -c 'import json; json.load(open(\"MANIFEST.json\"))'", checks=checks, not_applicable=na, notes="TLA+ checked with TLC; see DESIGN.md")
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
import subprocess
for src, sch in (("MANIFEST.json", "MANIFEST"),):
    r = subprocess.run(["python3-vt", "-c", "import json,jsonschema;jsonschema.validate(json.load(open('%s/MANIFEST.json')),json.load(open('/root/.vp/MANIFEST.schema.json')));s=json.load(open('/root/.vp/PROPERTIES.schema.json'));[jsonschema.validate(json.loads(l),s) for l in open('%s/properties.jsonl')]" % (V, V)])
    assert r.returncode == 0
print(len(ids), "properties,", len(checks), "claimed")

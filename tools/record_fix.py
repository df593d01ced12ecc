import json,subprocess
rows=[l.split(" ",1) for l in subprocess.check_output(["git","-C","/repo","log","--format=%h %s","6fb41f4..HEAD"],text=True).strip().split("\n")]
pid={"c5e89d2":"C02","d573b08":"C02","f9de86f":"C04","3832f6a":"C03","d63be74":"C03","cf37527":"C02","432908b":"C02","596be0d":"C06","34ba6a7":"C06","5f4ca6f":"C18","540b7f9":"C18","d7203b1":"C19","29c87b4":"C19","e9d4414":"C12","fcb02e9":"C12","8dbf200":"C20"}
try: k=json.load(open("/verif/KNOWN_FINDINGS.json"))
except Exception: k={"findings":[],"fixed":[]}
old={l.split()[2] for l in k["fixed"]}
import sys
pid.update(a.split("=") for a in sys.argv[1:] if "=" in a); dflt=[a for a in sys.argv[1:] if "=" not in a]
for h,s in reversed(rows):
    if h not in old: k["fixed"].append(f"fixed: property={pid.get(h) or dflt[0]} {h} {s[5:]}")
json.dump(k,open("/verif/KNOWN_FINDINGS.json","w"),indent=1)

import json,re
props={json.loads(l)["id"]:json.loads(l) for l in open('/verif/properties.jsonl')}
checks=set(re.findall(r'"(C\d\d)": func',open('/verif/gover/check/props.go').read()))
checks|=set(re.findall(r'Checks\["(C\d\d)"\]',"".join(open(f).read() for f in __import__("glob").glob('/verif/gover/check/*.go'))))
T={"default":"contracts over go/ssa, verification conditions discharged by z3/cvc5"}
N={}
exec(open('/verif/manifest_notes.py').read())
out={"version":1,"setup_cmd":"bin/setup.sh","hooks":{"guard":"verif","enable":"no hooks were added to /repo; contracts live in /verif/contracts, tagged verif","source_commits":[]},"checks":[],"not_applicable":[]}
for p in sorted(props):
    if p in checks:
        out["checks"].append({"property":p,"quick_cmd":"bin/check.sh "+p,"thorough_cmd":"VERIF_TIER=thorough bin/check.sh "+p,"evidence_file":"evidence/%s.json"%p,"technique":T.get(p,T["default"]),"level":L.get(p,"proof"),"level_note":N[p]})
    else:
        out["not_applicable"].append({"property":p,"reason":NA.get(p,"check not built yet")})
json.dump(out,open('/verif/MANIFEST.json','w'),indent=1,ensure_ascii=False)
open('/verif/MANIFEST.json','a').write("\n")
print(len(out["checks"]),"claimed")

import json
T={}
T['*']="value-graph equivalence with a reviewed reference (gated SSA, BDD path conditions, polynomial integers, solved loops) plus effect analysis"
props=[json.loads(l)['id'] for l in open('/verif/properties.jsonl')]
EXTRA=json.load(open('/verif/devel/technique.json'))
NOTE="Static: every function in the property's scope is decided from /repo's current source. Discharged obligation = provably the same meaning as the implementation in /verif/ref that was reviewed against the property; a finding names the construct that changed meaning. Code restructured beyond what the normal form relates is listed as open in the evidence and judged by the property's own rules only. Trusts the review of /verif/ref, the library summaries in analyzer/models.go, and go/ssa."
m={"version":1,"setup_cmd":"./check.sh C19 quick > /dev/null","checks":[],"not_applicable":[],
"notes":"All checks are one analyzer (/verif/analyzer) run per property; nothing of /repo is executed."}
for p in props:
    e=EXTRA.get(p,{})
    m["checks"].append({"property":p,"quick_cmd":f"./check.sh {p} quick","thorough_cmd":f"./check.sh {p} thorough",
      "technique":T['*']+("; "+e['technique'] if e.get('technique') else ""),"level":"other","level_note":NOTE+(" "+e['note'] if e.get('note') else "")})
json.dump(m,open('/verif/MANIFEST.json','w'),indent=1)

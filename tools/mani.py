import json,sys,os
sys.path.insert(0,'/verif/mc')
import registry
props=[json.loads(l) for l in open('/verif/properties.jsonl')]
have=[p['id'] for p in props if p['id'] in registry.EXPLORE or os.path.exists(f"/verif/mc/probe_{p['id'].lower()}.py")]
tech={}
note={}
base="Explicit-state exploration of the real generated code (compiled from /repo's working tree) against a bit-level reference model: every transition of the bounded space is executed on both and compared. Complete for the enumerated declarations, states and arguments (bounds in evidence and DESIGN.md); wider storages use boundary alphabets. Trusts rustc and the reference model."
for p in have:
    tech[p]="explicit-state model checking of generated code against a reference model"
    note[p]=base
tech["C14"]="inductive-step and breadth-first reachability exploration of operation histories, plus two-copy non-interference"
tech["C15"]="exhaustive product exploration of storage variants in lock-step"
tech["C18"]="exhaustive input enumeration of generated bitflag enums against a reference model"
tech["C19"]="exhaustive enumeration of the flag-configuration space, API presence observed by the compiler per configuration"
tech["C20"]="exhaustive enumeration of feature configurations, each built and explored against the configuration model"
tech["C21"]="exhaustive enumeration of a bounded declaration grid, compiler verdict compared with the acceptance model"
tech["C22"]="exhaustive enumeration of access/visibility configurations, API presence compared with the access model"
tech["C25"]="explicit-state replay of model traces in compile-time evaluation and in a no_std build"
tech["C26"]="explicit-state exploration of original/clone pairs with an allocation monitor, against a reference model"
tech["C27"]="exhaustive enumeration of attribute configurations and state pairs, compiler and run-time observation compared with the model"
tech["C28"]="explicit-state exploration of systematically renamed declarations against a name-independent reference model"
tech["C29"]="explicit-state exploration of systematically respelled declarations against a spelling-independent reference model"
conf="Every configuration of the bounded space is compiled with the macro built from /repo's working tree and what the compiler resolves (presence, visibility, acceptance, values) is compared with an independent model of the documentation. Complete within the stated bounds; trusts rustc name resolution and the model."
for k in ("C19","C20","C21","C22"): note[k]=conf
m={"version":1,"setup_cmd":"python3 mc/setup.py","checks":[{"property":p,"quick_cmd":f"python3 mc/check.py {p} --tier quick","thorough_cmd":f"python3 mc/check.py {p} --tier thorough","technique":tech[p],"level":"model_checking","level_note":note[p]} for p in have],
"not_applicable":[{"property":p['id'],"reason":"driver not built yet"} for p in props if p['id'] not in have],
"notes":"No hooks in /repo: the checks use the public macros only."}
json.dump(m,open('/verif/MANIFEST.json','w'),indent=1)
print(len(have))

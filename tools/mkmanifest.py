#!/usr/bin/env python3
"""Write MANIFEST.json from harness/checks.json, properties.jsonl and tools/not_applicable.json."""
import json
checks=json.load(open('/verif/harness/checks.json'))
na=json.load(open('/verif/tools/not_applicable.json'))
props=[json.loads(l) for l in open('/verif/properties.jsonl')]
out=[]
for p in props:
    c=checks.get(p['id'])
    if not c: continue
    bounds='; '.join(h['fn']+': '+h.get('bound','')+' '+json.dumps(h.get('quick') or {}) for h in c['harnesses'])
    e={'property':p['id'],'quick_cmd':f"bash /verif/check.sh {p['id']} quick",'thorough_cmd':f"bash /verif/check.sh {p['id']} thorough",
       'evidence_file':f"evidence/{p['id']}.json",'technique':'symbolic execution of the real functions (go/ssa) with SMT-decided branches and assertions (z3, cvc5 cross-check)',
       'level':'model_checking','level_note':'Bounded. '+bounds+'. Outside: '+c.get('outside','')}
    if c.get('nothorough'): del e['thorough_cmd']
    out.append(e)
m={'version':1,'setup_cmd':'bash /verif/setup.sh','hooks':{'guard':'verif','enable':'no hooks in /repo: the harnesses are added to the package with a build overlay','source_commits':[]},
 'checks':out,'not_applicable':[x for x in na if x['property'] not in checks],
 'notes':'Engine in /verif/engine, harnesses and bounds in /verif/harness, findings in /verif/known-findings.txt.'}
open('/verif/MANIFEST.json','w').write(json.dumps(m,indent=1)+'\n')

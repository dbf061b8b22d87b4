# writes MANIFEST.json from contracts.py
import json, os, sys
here=os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0, os.path.join(here,'..'))
import contracts
props=[json.loads(l) for l in open(os.path.join(here,'..','properties.jsonl'))]
checks=[]; na=[]
for p in props:
    c=contracts.PROPS.get(p['id'])
    if c:
        checks.append(dict(property=p['id'], quick_cmd=f"python3-vt lvc/driver.py {p['id']} --tier quick", thorough_cmd=f"python3-vt lvc/driver.py {p['id']} --tier thorough",
            evidence_file=f"evidence/{p['id']}.json", technique=c.get('technique', contracts.TECHNIQUE), level=c['level'], level_note=c.get('note', contracts.NOTE)))
    else:
        na.append(dict(property=p['id'], reason=contracts.NOT_APPLICABLE.get(p['id'], 'no contract built yet')))
m=dict(version=1, setup_cmd="python3-vt lvc/selftest.py", checks=checks, not_applicable=na,
  notes="No hooks in /repo: the verifier takes the unmodified sources. See DESIGN.md.")
json.dump(m, open(os.path.join(here,'..','MANIFEST.json'),'w'), indent=1)

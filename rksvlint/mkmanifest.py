import json
props=[json.loads(l) for l in open('/verif/properties.jsonl')]
NA={}
exec(open('/verif/rksvlint/na.py').read())
import sys; sys.path.insert(0,'/verif')
from rksvlint import core, rules
rules.load()
served={}
for r in core.RULES:
    for p in r.props: served.setdefault(p,[]).append(r)
checks=[]; na=[]
for p in props:
    i=p['id']
    if i in NA: na.append({'property':i,'reason':NA[i]}); continue
    if i not in served: na.append({'property':i,'reason':'no rule registered yet'}); continue
    checks.append({'property':i,'quick_cmd':'python3 -m rksvlint %s'%i,'thorough_cmd':'python3 -m rksvlint %s --thorough'%i,'evidence_file':'evidence/%s.json'%i,
     'technique':'static analysis: '+TECH.get(i,'gated value-numbering dataflow (abstract interpretation) against a rule, no execution'),
     'level':'other','level_note':NOTE.get(i, DEFNOTE)})
json.dump({'version':1,'setup_cmd':'python3 -m compileall -q rksvlint','checks':checks,'not_applicable':na,
 'notes':'rksvlint parses /repo on every run; nothing of /repo is executed. See DESIGN.md.'},open('/verif/MANIFEST.json','w'),indent=1)
print(len(checks),'claimed;',[x['property'] for x in na])

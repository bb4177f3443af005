#!/usr/bin/env python3
"""Single source for properties.jsonl and MANIFEST.json (run by hand; both outputs are committed)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe, level=None, technique=None, note=None, na=None, hook=None, state=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files,
                  mech=mech, observe=observe, level=level, technique=technique, note=note, na=na, hook=hook, state=state))
exec(open(os.path.join(V, 'tools', 'props.py')).read())
seen=set()
with open(os.path.join(V,'properties.jsonl'),'w') as f:
    for p in P:
        assert p['id'] not in seen; seen.add(p['id'])
        assert len(p['title'])<=80, (p['id'], len(p['title']))
        a=dict(files=p['files'], mechanism=[dict(name=n,where=w) for n,w in p['mech']], observe_at=p['observe'], hook_needed=p['hook'])
        if p['state']: a['state']=[dict(name=n,meaning=m,where=w) for n,m,w in p['state']]
        for x in p['files']:
            assert os.path.exists('/repo/'+x), (p['id'],x)
        f.write(json.dumps(dict(id=p['id'],title=p['title'],statement=p['statement'],
            quantifier=dict(over=p['over'],text=p['qtext']),why_tests_cant=p['why'],anchors=a),ensure_ascii=False)+'\n')
checks=[]; na=[]
for p in P:
    if p['level']:
        checks.append(dict(property=p['id'],quick_cmd=f"./check.sh {p['id']} quick",thorough_cmd=f"./check.sh {p['id']} thorough",
            technique=p['technique'],level=p['level'],level_note=p['note']))
    else:
        na.append(dict(property=p['id'],reason=p['na'] or 'check under construction'))
m=dict(version=1,setup_cmd="./setup.sh",checks=checks,not_applicable=na,
  notes="The checks are three Rust binaries (mc/, mcrt/ with runtime time tables enabled, mcffi/ for the C interface) linked against /repo's crate, rebuilt from the working tree by check.sh. Exhaustive bounded enumeration on the real code; see DESIGN.md. No hooks are needed in /repo.")
json.dump(m,open(os.path.join(V,'MANIFEST.json'),'w'),indent=1,ensure_ascii=False); open(os.path.join(V,'MANIFEST.json'),'a').write('\n')
try:
    import jsonschema
    s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
    for l in open(os.path.join(V,'properties.jsonl')): jsonschema.validate(json.loads(l),s)
    jsonschema.validate(m,json.load(open('/root/.vp/MANIFEST.schema.json')))
    print('schemas ok', len(checks),'checks',len(na),'n/a')
except ImportError: print('no jsonschema')

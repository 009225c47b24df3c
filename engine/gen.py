"""Write properties.jsonl and MANIFEST.json from specs/props.py and specs/registry.py."""
import json
import os
import sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE + '/specs')
import props
import registry

with open(HERE + '/properties.jsonl', 'w') as f:
    for p in props.PROPS:
        d = dict(id=p['id'], title=p['title'], statement=p['statement'],
                 quantifier=dict(over=p['over'], text=p['text']), why_tests_cant=p['why'],
                 anchors=dict(files=p['files'], mechanism=[dict(name=a, where=b) for a, b in p['mech']], observe_at=p.get('obs', []), hook_needed=None))
        assert len(d['title']) <= 80, d['title']
        f.write(json.dumps(d) + '\n')
have = {x for h in registry.HARNESS for x in h['props']} | {registry.SAFETY}
checks, na = [], []
for p in props.PROPS:
    i = p['id']
    if i in have and i not in props.NOT_CLAIMED:
        hs = [h for h in registry.HARNESS if i in h['props'] or i == registry.SAFETY and h.get('safety', True)]
        c = dict(property=i, quick_cmd='python3 engine/check.py %s --tier quick' % i,
                 thorough_cmd='python3 engine/check.py %s --tier thorough' % i,
                 technique='contract-based deductive verification: contracts in /verif/specs on the real functions, verification conditions generated from the LLVM IR of /repo\'s current sources, discharged by z3 and cvc5 for all inputs and all iterations',
                 level='proof',
                 level_note=p['note'])
        c['theorems'] = ['%s (specs/%s)' % (h['h'], h['spec']) for h in hs]
        checks.append(c)
    else:
        na.append(dict(property=i, reason=props.NOT_CLAIMED.get(i, 'contracts for this property are not written yet')))
m = dict(version=1, setup_cmd='true', hooks=dict(guard='none', enable='no hooks: the verified text is the unmodified source', source_commits=[]), checks=checks, not_applicable=na)
json.dump(m, open(HERE + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'claimed', len(na), 'not claimed')

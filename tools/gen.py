#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json; only properties with a check in checks/ are claimed."""
import json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, over, text, why, files, mech, technique, note, state=None, observe=None, hook=None):
    assert len(title) <= 80, (id, len(title))
    a = dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech])
    if state: a['state'] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    if observe: a['observe_at'] = observe
    a['hook_needed'] = hook
    P.append((dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why, anchors=a), technique, note))
exec(open(os.path.join(V, 'tools/props.py')).read())
ids = [p[0]['id'] for p in P]; assert len(ids) == len(set(ids))
have = [p for p in P if os.path.exists('%s/checks/%s.py' % (V, p[0]['id'].lower()))]
with open(V + '/properties.jsonl', 'w') as f:
    for p in have: f.write(json.dumps(p[0]) + '\n')
m = dict(version=1, setup_cmd='true', hooks=dict(guard='PP_USE_HOOKS', enable='-DPP_USE_HOOKS -I/verif/hooks (see lib/vbuild.py)', source_commits=HOOKS),
         checks=[dict(property=p[0]['id'], quick_cmd='python3 checks/%s.py' % p[0]['id'].lower(), thorough_cmd='python3 checks/%s.py thorough' % p[0]['id'].lower(), technique=p[1], level='exploration', level_note=p[2]) for p in have],
         not_applicable=[])
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
print(len(have), 'claimed of', len(P))

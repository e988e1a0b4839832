#!/usr/bin/env python3
"""Regenerates properties.jsonl and MANIFEST.json from vf/props.py."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import props, registry
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for p in props.P:
        assert len(p['title']) <= 80, (p['id'], len(p['title']))
        f.write(json.dumps({'id': p['id'], 'title': p['title'], 'statement': p['statement'], 'quantifier': {'over': p['over'], 'text': p['text']},
                            'why_tests_cant': p['why'], 'anchors': {'files': p['files'], 'mechanism': [{'name': a, 'where': b} for a, b in p['mech']]}}) + '\n')
checks, na = [], []
for p in props.P:
    if p['na']:
        na.append({'property': p['id'], 'reason': p['na']})
        continue
    assert p['id'] in registry.PROPS, p['id']
    cmd = 'python3 vf/check.py ' + p['id']
    checks.append({'property': p['id'], 'quick_cmd': cmd, 'thorough_cmd': cmd, 'technique': p['technique'], 'level': p['level'], 'level_note': p['note']})
assert set(registry.PROPS) == {c['property'] for c in checks}, set(registry.PROPS) ^ {c['property'] for c in checks}
json.dump({'version': 1, 'setup_cmd': 'python3 vf/setup.py', 'checks': checks, 'not_applicable': na}, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)

out = [open(os.path.join(V, 'vf', 'design_head.md')).read(), '## The properties\n']
for p in props.P:
    out.append('### %s – %s\n\n%s\n' % (p['id'], p['title'], p['statement']))
    if p['na']:
        out.append('*Not applicable:* %s\n' % p['na'])
        continue
    r = registry.PROPS[p['id']]
    exp = os.path.join(V, 'expected', p['id'] + '.txt')
    n = len(open(exp).read().split('\n')) - 1 if os.path.exists(exp) else 0
    out.append('* **Decided by:** %s.\n* **Bounds:** %s. %d obligations.\n* **Beyond tests:** %s\n* **Assumes:** %s\n' % (r['note'], p['text'], n, p['why'], p['note']))
out.append(open(os.path.join(V, 'vf', 'design_tail.md')).read())
bugs = os.path.join(V, 'vf', 'bugs.json')
if os.path.exists(bugs):
    b = json.load(open(bugs))
    out.append('Each was written from the property and the code alone, and kept whether or not a check caught it at first.\n\n| bug | property | what it breaks | needs | caught by |\n|---|---|---|---|---|')
    for k in sorted(b):
        out.append('| %s | %s | %s | %s | %s |' % (k, b[k]['property'], b[k]['what'], b[k]['needs'], b[k]['caught']))
open(os.path.join(V, 'DESIGN.md'), 'w').write('\n'.join(out) + '\n')

#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the one table below."""
import json, os
here = os.path.dirname(os.path.abspath(__file__))
P = []   # claimed
N = []   # not applicable

def claim(id, title, statement, over, text, why, files, mech, technique, note):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text),
        why_tests_cant=why, anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech]),
        _t=technique, _n=note))

def na(id, title, statement, over, text, why, files, mech, reason):
    N.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text),
        why_tests_cant=why, anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech]), _r=reason))

exec(open(os.path.join(here, 'proptable.py')).read())

def pub(p): return {k: v for k, v in p.items() if not k.startswith('_')}
with open(os.path.join(here, 'properties.jsonl'), 'w') as f:
    for p in sorted(P + N, key=lambda p: p['id']):
        assert len(p['title']) <= 80, p['id']
        f.write(json.dumps(pub(p)) + '\n')
m = dict(version=1, setup_cmd='./setup.sh', checks=[], not_applicable=[dict(property=p['id'], reason=p['_r']) for p in N],
    notes='Every check is a static analysis of the Go program in /repo, loaded from source and type-checked on every run; nothing of /repo is executed. See DESIGN.md.')
for p in sorted(P, key=lambda p: p['id']):
    m['checks'].append(dict(property=p['id'], quick_cmd='./check.sh ' + p['id'], thorough_cmd='VERIF_TIER=thorough ./check.sh ' + p['id'],
        evidence_file='evidence/%s.json' % p['id'], technique=p['_t'], level='other', level_note=p['_n']))
with open(os.path.join(here, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1); f.write('\n')

#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS, CHECKS, NA = [], [], []


def P(id, title, statement, over, quant, why, files, mech, observe, tech=None, level='other', note=None, na=None, state=None):
    a = dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=observe, hook_needed=False)
    if state: a['state'] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    PROPS.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=quant), why_tests_cant=why, anchors=a))
    if na: NA.append(dict(property=id, reason=na)); return
    CHECKS.append(dict(property=id, quick_cmd='./run.sh %s quick' % id, thorough_cmd='./run.sh %s thorough' % id,
                       evidence_file='evidence/%s.json' % id, technique=tech, level=level, level_note=note))


exec(open(os.path.join(V, 'tools', 'props_table.py')).read())

with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for p in PROPS: f.write(json.dumps(p, ensure_ascii=False) + '\n')
m = dict(version=1, setup_cmd='./setup.sh', checks=CHECKS, not_applicable=NA,
         notes='Static analysis only: the sources of /repo and small witness units are compiled to LLVM IR on every run and '
               'analysed by analyzer/ (abstract interpretation and dataflow); nothing of the library is executed. No hooks are used.')
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
ids = [p['id'] for p in PROPS]
assert len(ids) == len(set(ids))
for p in PROPS: assert len(p['title']) <= 80, p['title']
print(len(PROPS), 'properties', len(CHECKS), 'checks', len(NA), 'not applicable')

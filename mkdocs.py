#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the definitions below (a property is claimed when its module exists)."""
import json
import os
import importlib
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
P = []


def prop(id, title, statement, over, text, why, files, mechanism, observe, na=None, note=None, state=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement, quantifier={'over': over, 'text': text}, why_tests_cant=why,
                  anchors={'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mechanism], 'observe_at': observe, 'hook_needed': None},
                  na=na, note=note))


exec(open(os.path.join(HERE, 'propdefs.py')).read())

claimed, na = [], []
with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
    for p in P:
        have = os.path.exists(os.path.join(HERE, 'sim', 'props', p['id'].lower() + '.py'))
        if not have and p['na'] is None:
            continue
        q = {k: v for k, v in p.items() if k not in ('na', 'note')}
        f.write(json.dumps(q, ensure_ascii=False) + '\n')
        if have:
            claimed.append(p)
        else:
            na.append({'property': p['id'], 'reason': p['na']})

TECH = 'deterministic simulation with fault injection: seeded runs of simulated writers, crashes and faulty media against the real reader, checked against a reference model'
checks = []
for p in claimed:
    checks.append({'property': p['id'], 'quick_cmd': 'python3 check.py %s --tier quick' % p['id'], 'thorough_cmd': 'python3 check.py %s --tier thorough' % p['id'],
                   'technique': TECH, 'level': 'exploration', 'level_note': p['note']})
src = []
man = {'version': 1, 'setup_cmd': 'python3 setup_check.py', 'checks': checks, 'not_applicable': na,
       'hooks': {'guard': 'none (the code already takes its input as file objects; no hook was added to /repo)',
                 'enable': 'not needed: the checks import /repo as it is', 'source_commits': src},
       'notes': 'Checks import the code from /repo\'s working tree. VERIF_SEED selects the batch; every run is a pure function of (seed, property, run number).'}
with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
    json.dump(man, f, indent=1, ensure_ascii=False)
    f.write('\n')
print('claimed', [p['id'] for p in claimed], 'n/a', [x['property'] for x in na])

#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the definitions below."""
import json, sys
from pathlib import Path
V = Path(__file__).resolve().parent.parent
sys.path.insert(0, str(V)); sys.path.insert(0, str(V / 'tools'))
from propdefs import P, NA, CLAIM
from units import UNITS, PROPS
out = []
for p in P:
    out.append(dict(id=p['id'], title=p['title'], statement=p['statement'], quantifier=dict(over=p['over'], text=p['for']),
                    why_tests_cant=p['why'], anchors=dict(files=p['files'], mechanism=[dict(name=a, where=b) for a, b in p['mech']])))
(V / 'properties.jsonl').write_text(''.join(json.dumps(x) + '\n' for x in out))
checks = []
for p in P:
    i = p['id']
    if i in NA or i not in PROPS: continue
    us = [u for u in UNITS if i in u['props']]
    pr = sorted({u['enforce'].split('/')[0] for u in us if u.get('mode') != 'bounded' and u.get('enforce')})
    bd = sorted({u['name'] for u in us if u.get('mode') == 'bounded'})
    lemma = sorted({u['name'] for u in us if u.get('mode') != 'bounded' and not u.get('enforce')})
    note = []
    if pr: note.append('Contracts discharged without a bound for: ' + ', '.join(pr) + '.')
    if lemma: note.append('Obligations over whole call sequences discharged without a bound: ' + ', '.join(lemma) + '.')
    if bd: note.append('Bounded stand-ins (bounds in the evidence file): ' + ', '.join(bd) + '.')
    note.append(PROPS[i].get('note', ''))
    level = PROPS[i].get('level') or ('proof' if pr or lemma else 'model_checking')
    checks.append(dict(property=i, quick_cmd=f'python3 run.py {i} --tier quick', thorough_cmd=f'python3 run.py {i} --tier thorough',
                       technique='CBMC code contracts (goto-instrument --dfcc) on the real functions' + ('' if pr else ', bounded harnesses'),
                       level=level, level_note=' '.join(note).strip()))
na = [dict(property=p['id'], reason=NA[p['id']]) for p in P if p['id'] in NA]
missing = [p['id'] for p in P if p['id'] not in NA and p['id'] not in PROPS]
if missing: print('neither claimed nor N/A:', missing)
m = dict(version=1, setup_cmd='python3 run.py --setup', checks=checks, not_applicable=na)
(V / 'MANIFEST.json').write_text(json.dumps(m, indent=1) + '\n')
import jsonschema
jsonschema.validate(m, json.load(open('/root/.vp/MANIFEST.schema.json')))
s = json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in out: jsonschema.validate(x, s)
print(len(out), 'properties', len(checks), 'checks')

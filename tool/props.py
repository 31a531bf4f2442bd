#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json: run it after editing."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, qtext, why, files, mech, over=('inputs',), note='', level='proof', technique=None, observe=None):
    P.append(dict(id=id, title=title, statement=statement, over=list(over), qtext=qtext, why=why, files=files, mech=mech, note=note, level=level, technique=technique, observe=observe))
def na(id, title, statement, qtext, why, files, mech, reason, over=('inputs',)):
    P.append(dict(id=id, title=title, statement=statement, over=list(over), qtext=qtext, why=why, files=files, mech=mech, na=reason, observe=None))
exec(open(os.path.join(ROOT, 'tool', 'props_data.py')).read())
P.sort(key=lambda p: p['id'])
with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
    for p in P:
        a = {'files': p['files'], 'mechanism': [{'name': n, 'where': w} for n, w in p['mech']], 'hook_needed': None}
        if p['observe']: a['observe_at'] = p['observe']
        assert len(p['title']) <= 80, p['id']
        f.write(json.dumps({'id': p['id'], 'title': p['title'], 'statement': p['statement'], 'quantifier': {'over': p['over'], 'text': p['qtext']}, 'why_tests_cant': p['why'], 'anchors': a}) + '\n')
T = 'Verus contracts on the functions extracted from /repo on every run; every obligation discharged by Z3'
NOTE = 'All inputs, unbounded. Trusts the C++-to-Verus translation (tool/transpile.py), the assumed contracts of the C++ core language and libstdc++ (tool/cxx.rs), Verus and Z3.'
man = {'version': 1, 'setup_cmd': 'python3 -m py_compile tool/transpile.py tool/check.py && verus --version && clang++ --version && g++ --version',
       'checks': [{'property': p['id'], 'quick_cmd': 'python3 tool/check.py ' + p['id'], 'thorough_cmd': 'VERIF_TIER=thorough python3 tool/check.py ' + p['id'],
                   'technique': p['technique'] or T, 'level': p['level'], 'level_note': NOTE + (' ' + p['note'] if p['note'] else '')} for p in P if 'na' not in p],
       'not_applicable': [{'property': p['id'], 'reason': p['na']} for p in P if 'na' in p],
       'notes': 'No hooks in /repo: contracts live in specs/*.spec and are attached mechanically; see DESIGN.md.'}
json.dump(man, open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)

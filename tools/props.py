#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the tables below (run by hand after editing)."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def p(id, title, statement, over, text, why, files, mech, observe=None):
    assert len(title) <= 80, title
    d = {'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': text}, 'why_tests_cant': why,
         'anchors': {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech]}}
    if observe:
        d['anchors']['observe_at'] = observe
    P.append(d)


exec(open(os.path.join(HERE, 'tools', 'props_table.py')).read())

have = [x for x in P if os.path.exists(os.path.join(HERE, 'harness', x['id'].lower() + '.py'))]
NA = globals().get('NOT_APPLICABLE', {})
with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
    for x in P:
        f.write(json.dumps(x) + '\n')
NOTES = globals().get('LEVEL_NOTES', {})
m = {'version': 1, 'setup_cmd': 'bash setup.sh', 'checks': [], 'not_applicable': [],
     'hooks': {'guard': 'none', 'enable': 'No hooks: the checks re-read the source of /repo and rewrite it in memory.', 'source_commits': []},
     'notes': 'Every check: python3-vt check.py <property>. Engine in symex/, harnesses in harness/, see DESIGN.md.'}
for x in P:
    if x in have:
        m['checks'].append({'property': x['id'], 'quick_cmd': 'python3-vt check.py %s --tier quick' % x['id'], 'thorough_cmd': 'python3-vt check.py %s --tier thorough' % x['id'],
                            'technique': 'symbolic execution of the real source + SMT (z3)', 'level': 'model_checking',
                            'level_note': NOTES.get(x['id'], 'Bounded: holds for every input within the bounds listed in the evidence file; trusts z3 and the symbolic semantics in symex/ (path models are re-run on the unpatched code).')})
    else:
        m['not_applicable'].append({'property': x['id'], 'reason': NA.get(x['id'], 'No check built yet.')})
json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
print(len(P), 'properties,', len(have), 'claimed')

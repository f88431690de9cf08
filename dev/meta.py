#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from the table below (claimed = has a check in engine/props.py)"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + '/engine')
import props

P = []


def p(id, title, statement, over, q, why, files, mech):
    P.append({'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over.split(), 'text': q}, 'why_tests_cant': why,
              'anchors': {'files': files.split(), 'mechanism': [{'name': n, 'where': w} for n, w in mech]}})


exec(open(V + '/dev/proptext.py').read())

ids = [x['id'] for x in P]
assert len(set(ids)) == len(ids)
for k in props.PROPS:
    assert k in ids, k
claimed = [x for x in P if x['id'] in props.PROPS]
with open(V + '/properties.jsonl', 'w') as f:
    for x in sorted(P, key=lambda x: x['id']):
        if x['id'] in props.PROPS or x['id'] in NA:
            f.write(json.dumps(x) + '\n')
TECH = 'static analysis: gated value-flow graphs from the clang AST, compared with a reference model by congruence partitioning'
NOTE = ('Decides the property for all inputs from the source: abstract interpretation of the functions named in the evidence into value graphs '
        '(conditions as decision diagrams, loops as recurrences) and a partition-refinement congruence against the committed reference model. '
        'Trusted: the clang front end, the models of std/JSON/OpenFst calls in engine/models.py, integers that do not wrap, and the reference model in specs/.')
checks = []
for x in sorted(claimed, key=lambda x: x['id']):
    o = props.PROPS[x['id']]
    checks.append({'property': x['id'], 'quick_cmd': 'python3 engine/check.py ' + x['id'], 'thorough_cmd': 'VERIF_TIER=thorough python3 engine/check.py ' + x['id'],
                   'technique': o.get('technique', TECH), 'level': 'other', 'level_note': o.get('note', NOTE)})
json.dump({'version': 1, 'setup_cmd': 'bash tool/build.sh', 'checks': checks,
           'not_applicable': [{'property': k, 'reason': v} for k, v in sorted(NA.items()) if k not in props.PROPS]},
          open(V + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks', len(NA), 'not applicable')

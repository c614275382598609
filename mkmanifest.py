#!/usr/bin/env python3
"""Regenerates MANIFEST.json: claimed properties and the reason for each unclaimed one."""
import json, os
H = os.path.dirname(os.path.abspath(__file__))
TV = 'symbolic execution of the generated machine code against the WebAssembly reference semantics, decided by z3 (translation validation)'
NOTE = ('for every listed program the machine code the compiler under test emits agrees with the reference semantics on all paths '
        'within the step bound, for all inputs; the programs are a bounded family of shapes, see evidence and DESIGN.md')
CH = 'symbolic execution of the compiled C code over symbolic inputs and histories, assertions decided by z3'
CNOTE = 'all inputs within the sizes and step counts the evidence states'
CLAIMED = json.load(open(H + '/claimed.json'))
PENDING = 'no check is registered for it yet'
props = [json.loads(l) for l in open(H + '/properties.jsonl')]
m = dict(version=1, setup_cmd='true', checks=[], not_applicable=[])
for p in props:
    i = p['id']
    if i in CLAIMED['checks']:
        c = CLAIMED['checks'][i]
        tv = c.get('kind', 'tv') == 'tv'
        m['checks'].append(dict(property=i, quick_cmd='./check.py %s --tier quick' % i, thorough_cmd='./check.py %s --tier thorough' % i,
                                technique=c.get('technique', TV if tv else CH),
                                level='translation_validation' if tv else 'model_checking', level_note=c.get('note', NOTE if tv else CNOTE)))
    else:
        m['not_applicable'].append(dict(property=i, reason=CLAIMED['na'].get(i, PENDING)))
json.dump(m, open(H + '/MANIFEST.json', 'w'), indent=1)
print(len(m['checks']), 'claimed', len(m['not_applicable']), 'not')

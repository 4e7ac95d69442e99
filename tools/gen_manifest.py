#!/usr/bin/env python3
"""write MANIFEST.json from properties.jsonl and sa/checks/"""
import importlib, json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
NA = {
    'N01': 'Rounding error of floating point conversions quantifies over run-'
           'time numbers; no dataflow or type rule bounds it, and deciding it '
           'means computing with the values.',
    'N02': 'Equality of written and re-read byte sequences quantifies over all '
           'contents; the static parts (same header layout in both directions,'
           ' framing) are claimed as R01 and R02, the equality itself is an '
           'input/output relation no static rule in reach can decide.',
    'N03': 'Visual agreement with the rendering of another program has no '
           'specification in the source to decide it against.',
}
checks, na = [], []
for l in open(os.path.join(HERE, 'properties.jsonl'), encoding='utf-8'):
    p = json.loads(l)
    i = p['id']
    if os.path.exists(os.path.join(HERE, 'sa/checks', i + '.py')):
        m = importlib.import_module('sa.checks.' + i)
        checks.append({
            'property': i,
            'quick_cmd': 'python3 check.py %s --tier quick' % i,
            'thorough_cmd': 'python3 check.py %s --tier thorough' % i,
            'evidence_file': 'evidence/%s.json' % i,
            'technique': m.TECHNIQUE,
            'level': 'other',
            'level_note': m.LEVEL_NOTE,
        })
    else:
        na.append({'property': i, 'reason': NA.get(
            i, 'No check has been built for this property yet.')})
m = {'version': 1, 'setup_cmd': 'python3 tools/setup.py', 'checks': checks,
     'not_applicable': na,
     'notes': 'Static analysis only: every check parses /repo/src/hwp5 anew '
              'and decides its rules on the syntax tree, the value-flow graph '
              'or tables derived from them; no code of /repo is executed.'}
json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'claimed', len(na), 'not applicable')

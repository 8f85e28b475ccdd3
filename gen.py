"""Writes MANIFEST.json and properties.jsonl from props.py."""
import json, os
from props import PROPS, NA
HERE = os.path.dirname(os.path.abspath(__file__))
WHY = 'Existing tests sample a few scripts and only detect crashes.'
with open(HERE + '/properties.jsonl', 'w') as f:
    for pid, p in sorted(list(PROPS.items()) + list(NA.items())):
        d = {'id': pid, 'title': p['title'], 'statement': p['statement'], 'quantifier': p['quantifier'], 'why_tests_cant': p['why'] or WHY,
             'anchors': {'files': p['files'], 'mechanism': [{'name': a, 'where': b} for a, b in p['mech']]}}
        assert len(p['title']) <= 80, p['title']
        f.write(json.dumps(d) + '\n')
m = {'version': 1, 'setup_cmd': 'python3 setup.py',
     'checks': [{'property': pid, 'quick_cmd': 'python3 check.py %s quick' % pid, 'thorough_cmd': 'python3 check.py %s thorough' % pid, 'evidence_file': 'evidence/%s.json' % pid,
                 'technique': p.get('technique', 'contract-based deductive verification of the C sources (contracts, loop invariants, ghost state; SMT-discharged obligations), with randomised replay of the compiled code'),
                 'level': p.get('level', 'proof'), 'level_note': p.get('note') or 'Contracts on the functions listed in the evidence are proved for all inputs; the parts outside contract reach are replayed concretely (bounded): ' + p.get('bounded', '')}
                for pid, p in sorted(PROPS.items())],
     'not_applicable': [{'property': pid, 'reason': p['reason']} for pid, p in sorted(NA.items())]}
json.dump(m, open(HERE + '/MANIFEST.json', 'w'), indent=1)

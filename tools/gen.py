#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from tools/simdefs.py"""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, 'tools'))
import simdefs as D

with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
    for pid in sorted(D.PROPS):
        p = D.PROPS[pid]
        assert len(p['title']) <= 80, (pid, len(p['title']))
        o = {'id': pid, 'title': p['title'], 'statement': p['statement'], 'quantifier': {'over': p['over'], 'text': p['qtext']}, 'why_tests_cant': p['why'],
             'anchors': {'files': p['files'], 'mechanism': [{'name': a, 'where': b} for a, b in p['mech']], 'observe_at': p.get('observe', ['public API']), 'hook_needed': None}}
        for x in p['files']:
            assert os.path.exists(os.path.join('/repo', x)), x
        f.write(json.dumps(o) + '\n')
m = {'version': 1, 'setup_cmd': 'python3 check.py --build',
     'notes': 'No hooks in /repo: every seam the simulators use (stepper, system, observer, container, resizer, algebra, operations, allocator, OpenMP runtime, boost::mpi) is a template parameter, a function object or a link-time seam.',
     'checks': [], 'not_applicable': []}
for pid in sorted(D.PROPS):
    if pid in D.PLAN:
        m['checks'].append({'property': pid, 'quick_cmd': 'python3 check.py %s quick' % pid, 'thorough_cmd': 'python3 check.py %s thorough' % pid,
                            'technique': D.PROPS[pid].get('technique', 'deterministic simulation with fault injection (seeded schedule search, reference-model oracle)'),
                            'level': 'exploration', 'level_note': D.PROPS[pid].get('note', 'Seeded search over simulated runs: evidence, not proof. Trusts the simulated environment and the oracle written from the property; tolerances absorb rounding only.')})
    else:
        m['not_applicable'].append({'property': pid, 'reason': D.NOT_APPLICABLE[pid]})
json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
try:
    import jsonschema
    s = json.load(open('/root/.vp/MANIFEST.schema.json')); jsonschema.validate(m, s)
    s = json.load(open('/root/.vp/PROPERTIES.schema.json'))
    for l in open(os.path.join(HERE, 'properties.jsonl')):
        jsonschema.validate(json.loads(l), s)
    print('valid')
except ImportError:
    print('written (jsonschema not available)')

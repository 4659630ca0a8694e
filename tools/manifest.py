"""writes MANIFEST.json"""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(x) for x in open(os.path.join(HERE, 'properties.jsonl'))]
NA = {'C19': 'kernel functions are pure functions of two vectors: no schedule, fault, clock, I/O, randomness or history '
             'enters the result, so there is nothing for a simulator to decide',
      'C20': 'matrix operations (centering, normalization, alignment...) are pure functions of their arguments: no schedule, '
             'fault or history enters the result',
      'C22': 'argument validation is a pure function of the argument; no schedule, fault or history for a simulator to vary '
             '(that a refusal leaves state unchanged is C04 and C08)'}
THREADS = {'C05', 'C09', 'C11', 'C12', 'C21', 'C24', 'C25'}
CRASH = {'C15'}
checks = []
for p in props:
    i = p['id']
    if i in NA:
        continue
    t = 'deterministic simulation with fault injection: seeded search over operation histories and faults'
    if i in THREADS:
        t += ' and thread interleavings'
    if i in CRASH:
        t += ', with crash and restore from a checkpoint'
    checks.append({'property': i, 'quick_cmd': './check %s --tier quick' % i,
                   'thorough_cmd': './check %s --tier thorough' % i, 'technique': t, 'level': 'exploration',
                   'level_note': 'Sampled: holds on every simulated run of this seed, each an exactly repeatable execution of '
                                 'the real package code; assumes the reference model in sim/ and that threads switch and '
                                 'signals arrive only where CPython 3.12 checks for them. No proof of absence.'})
m = {'version': 1, 'setup_cmd': '/opt/venv/bin/python -c "import sys; sys.path.insert(0, \'sim\'); import registry"',
     'checks': checks,
     'not_applicable': [{'property': p['id'], 'reason': NA[p['id']]} for p in props if p['id'] in NA],
     'notes': 'No hooks in /repo: the seams are sys.monitoring events, user kernel functions, eigen-solver entry points and '
              'threading locks, all installed by the harness at run time. Replay: ./check replay FILE.'}
json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
try:
    import jsonschema
    jsonschema.validate(m, json.load(open('/root/.vp/MANIFEST.schema.json')))
except ImportError:
    pass

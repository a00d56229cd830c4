"""Writes MANIFEST.json from groups.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from groups import PROPS
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
NA = {
    'N01': 'the HTTP server does not compile with the installed Boost 1.83 (deprecated Beast/Asio interfaces) and is excluded from the build of this sandbox, so there is no code to run under the simulator',
    'E01': 'a pure function of its input text: no schedule, clock, I/O, fault or second party for a simulator to control; deciding it would be input generation, not simulation',
    'E02': 'pure functions of their inputs: no schedule, clock, I/O, fault or second party for a simulator to control',
}
checks, na = [], []
for p in props:
    i = p['id']
    if i in PROPS:
        c = {
            'property': i,
            'quick_cmd': 'python3 check.py %s' % i,
            'thorough_cmd': 'python3 check.py %s --tier thorough' % i,
            'technique': PROPS[i].get('technique', 'deterministic simulation: seeded schedule and fault search over the real code, oracle on the history'),
            'level': 'exploration',
            'level_note': PROPS[i].get('note', 'Samples seeded schedules and fault sequences of small systems; a clean batch is evidence, not proof. Trusts the simulator (scheduler, lock model, clocks) in /verif/sim and the oracle in the harness.'),
        }
        checks.append(c)
    else:
        na.append({'property': i, 'reason': NA.get(i, 'no check has been built for this property yet')})
m = {'version': 1, 'setup_cmd': 'python3 check.py --build-all', 'checks': checks, 'not_applicable': na,
     'notes': 'No hooks in /repo are needed: every seam is taken at compile and link time (thread sanitizer instrumentation calls, interposed libc/pthread entry points).'}
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'claimed', len(na), 'not')

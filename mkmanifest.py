"""Write MANIFEST.json from the registered plans."""
import json
import os
import sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from sim.plans import PLANS  # noqa

NA = {
 'C13': 'Pure single-call function of one dense array (numpy axis permutation): no scheduling, randomness, I/O, callbacks or shared state for a simulation to control; deciding it would be plain input testing.',
 'C14': 'Pure single-call constructors of an integer argument: nothing nondeterministic or stateful to put behind a seam, so seeded schedules and faults add nothing over plain input testing. (Their results are used as inputs of the C08/C09/C11 simulations.)',
 'C15': 'Pure single-call constructors and a closed formula of (sites, gamma): no schedule, fault, randomness or history for the property to depend on.',
}
ids = [json.loads(l)['id'] for l in open(os.path.join(HERE, 'properties.jsonl'))]
checks = []
for i in ids:
    if i not in PLANS:
        NA.setdefault(i, 'No check yet.')
        continue
    s = PLANS[i]
    checks.append(dict(
        property=i, quick_cmd='/opt/venv/bin/python /verif/check.py %s' % i,
        thorough_cmd='VERIF_TIER=thorough /opt/venv/bin/python '
                     '/verif/check.py %s' % i,
        evidence_file='evidence/%s.json' % i,
        technique=s.technique, level=s.level, level_note=s.note))
m = dict(version=1,
         setup_cmd='/opt/venv/bin/python -B -c "import sys; '
                   'sys.path.insert(0, \'/verif\'); import sim.plans"',
         checks=checks,
         not_applicable=[dict(property=k, reason=NA[k]) for k in ids
                         if k in NA and k not in PLANS],
         notes='No hooks in /repo: every seam is a public argument, an '
               'imported numpy/scipy/h5py function or the interpreter\'s '
               'trace function. Replay: check.py <id> --replay <file>.')
json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), [x['property'] for x in m['not_applicable']])

"""Write MANIFEST.json from properties.jsonl and mc/checks (development aid)."""
import json
import os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = {
    'H': 'explicit-state model checking of the real code: exhaustive '
         'enumeration of operation histories against a reference model',
    'I': 'bounded exhaustive enumeration of inputs and operation sequences '
         'on the real code against an independent reference',
    'T': 'stateless model checking of the real code on ZODB: exhaustive '
         'enumeration of transaction schedules and fault positions',
}
ENGINE = dict.fromkeys('C01 C03 C04 C05 C09 C10 C13 C18 C19 C20 C21 C24 C25 '
                       'C26 C27'.split(), 'H')
ENGINE.update(dict.fromkeys('C22 C23'.split(), 'T'))
NOTE = ('Exhaustive within the stated alphabets and bounds (evidence: '
        'coverage.bounds); executed directly on the implementation, so every '
        'explored trace is an implementation trace.')
checks, na = [], []
for line in open(os.path.join(ROOT, 'properties.jsonl')):
    p = json.loads(line)['id']
    if os.path.exists(os.path.join(ROOT, 'mc/checks/%s.py' % p.lower())):
        checks.append(dict(
            property=p, quick_cmd='./check ' + p,
            thorough_cmd='VERIF_TIER=thorough ./check ' + p,
            evidence_file='evidence/%s.json' % p,
            technique=TECH[ENGINE.get(p, 'I')], level='model_checking',
            level_note=NOTE))
    else:
        na.append(dict(property=p, reason='check not built yet'))
m = dict(version=1, setup_cmd='./check --selftest', checks=checks,
         not_applicable=na)
with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
print(len(checks), 'checks,', len(na), 'not applicable')

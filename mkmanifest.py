#!/usr/bin/env python3
"""Development helper: writes MANIFEST.json from properties.jsonl and the property modules present."""
import json
import os

HERE = os.path.dirname(os.path.abspath(__file__))
NOTES = json.load(open(os.path.join(HERE, 'level_notes.json')))
checks, na = [], []
for line in open(os.path.join(HERE, 'properties.jsonl')):
    pid = json.loads(line)['id']
    if os.path.exists(os.path.join(HERE, 'rv', 'props', pid.lower() + '.py')):
        checks.append(dict(property=pid, quick_cmd='./check.sh %s quick' % pid, thorough_cmd='./check.sh %s thorough' % pid,
                           technique='runtime monitoring', level='exploration', evidence_file='evidence/%s.json' % pid,
                           level_note=NOTES.get(pid, '') + ' Held on the executions counted in the evidence file; nothing is claimed about inputs not reached.'))
    else:
        na.append(dict(property=pid, reason='check under construction'))
m = dict(version=1, setup_cmd='./setup.sh', checks=checks, not_applicable=na,
         notes='No hooks in the repository: every monitor observes the public API. Repairs in the repository are the commits starting with "fix:". See DESIGN.md.')
json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')

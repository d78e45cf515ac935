"""Writes MANIFEST.json from properties.jsonl and the modules present."""
import json
import os
HERE = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
NOT = {}
NOTES = {}
exec(open(os.path.join(HERE, 'tools', 'notes.py')).read())
checks, na = [], []
for line in open(os.path.join(HERE, 'properties.jsonl')):
    p = json.loads(line)
    i = p['id']
    mod = os.path.join(HERE, 'sim', 'props', i.lower() + '.py')
    if os.path.exists(mod):
        tech, note = NOTES.get(i, ('', ''))
        checks.append({
            'property': i, 'quick_cmd': './check.sh %s quick' % i,
            'thorough_cmd': './check.sh %s thorough' % i,
            'technique': tech or 'deterministic simulation with fault '
            'injection: seeded search over schedules and faults',
            'level': 'exploration',
            'level_note': note or 'Seeded search: a clean batch is evidence, '
            'not proof.',
        })
    else:
        na.append({'property': i, 'reason': NOT.get(
            i, 'No check has been built for it yet.')})
doc = {'version': 1, 'setup_cmd': './setup.sh', 'checks': checks,
       'not_applicable': na}
with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
    json.dump(doc, f, indent=1)
    f.write('\n')
print(len(checks), len(na))

"""Rewrite the table of planted bugs at the end of DESIGN.md."""
import json
import os
import re

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for name in sorted(os.listdir(os.path.join(HERE, 'seeded'))):
    with open(os.path.join(HERE, 'seeded', name, 'meta.json')) as f:
        m = json.load(f)
    rows.append((m['property'], name, m['needs']))
table = '| Caught by | Planted bug | Shows only with |\n|---|---|---|\n' + ''.join(
    '| %s | %s | %s |\n' % row for row in sorted(rows))
path = os.path.join(HERE, 'DESIGN.md')
with open(path) as f:
    text = f.read()
text = re.sub(r'(<!-- planted -->\n).*(<!-- end -->)',
              lambda m: m.group(1) + table + m.group(2), text, flags=re.S)
with open(path, 'w') as f:
    f.write(text)
print(len(rows), 'planted bugs')

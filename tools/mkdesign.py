"""Writes the generated part of DESIGN.md: the table of planted changes (run after planting)."""
import json
import os
import re

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for d in sorted(os.listdir(os.path.join(HERE, 'seeded'))):
    m = json.load(open(os.path.join(HERE, 'seeded', d, 'meta.json')))
    rows.append('| %s | %s | %s | %s |' % (d, m['what_it_breaks'].replace('|', '/'), m['needs'].replace('|', '/'), m['property']))
path = os.path.join(HERE, 'DESIGN.md')
text = open(path).read()
table = '<!-- planted -->\n| planted change | what it breaks | needs | caught by |\n|---|---|---|---|\n' + '\n'.join(rows) + '\n<!-- end -->'
text = re.sub(r'<!-- planted -->.*?<!-- end -->', lambda m: table, text, flags=re.S)
open(path, 'w').write(text)

"""Puts the table of planted bugs in DESIGN.md (between the markers)."""
import glob
import json
import os
import re

base = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ['| bug | needs | breaks | caught by |', '|-----|-------|--------|-----------|']
also = {}
try:
    with open(os.path.join(base, 'tools', 'caught.json')) as f:
        also = json.load(f)
except OSError:
    pass
for p in sorted(glob.glob(os.path.join(base, 'seeded', '*', 'meta.json'))):
    with open(p) as f:
        m = json.load(f)
    name = os.path.basename(os.path.dirname(p))
    rows.append(f"| {name} | {m['needs']} | {m['what_it_breaks']} | {', '.join(also.get(name, [m['property']])) or 'missed'} |")
path = os.path.join(base, 'DESIGN.md')
with open(path) as f:
    text = f.read()
block = '<!-- SEEDS -->\n' + '\n'.join(rows) + '\n<!-- /SEEDS -->'
if '<!-- /SEEDS -->' in text:
    text = re.sub('<!-- SEEDS -->.*<!-- /SEEDS -->', lambda _: block, text, flags=re.S)
else:
    text = text.replace('<!-- SEEDS -->', block)
with open(path, 'w') as f:
    f.write(text)

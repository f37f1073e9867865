"""Brings the generated parts of DESIGN.md up to date: the bounds of every
property (from its check) and the table of planted bugs (from seeded/).

usage: PYTHONPATH=/verif:/repo /opt/venv/bin/python tools/design.py
"""
import glob
import importlib
import json
import os
import re

root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
path = os.path.join(root, 'DESIGN.md')
with open(path) as fp:
    text = fp.read()
sections = re.split(r'(?m)^(?=### C\d\d )', text)
for i, section in enumerate(sections):
    m = re.match(r'### (C\d\d) ', section)
    if not m:
        continue
    bounds = importlib.import_module(f'mc.props.{m.group(1).lower()}').PROPERTY.bounds
    assert section.count('*Bounds*: ') == 1, m.group(1)
    sections[i] = re.sub(r'(?m)^\*Bounds\*: .*$', lambda _: f'*Bounds*: {bounds}.', section)
text = ''.join(sections)
head, mark, _ = text.partition('## Planted bugs\n')
assert mark
rows = []
for folder in sorted(glob.glob(os.path.join(root, 'seeded', '*', ''))):
    with open(os.path.join(folder, 'meta.json')) as fp:
        meta = json.load(fp)
    caught = meta.get('caught_by', [meta['property']])
    rows.append((meta['property'], os.path.basename(folder[:-1]), meta['what_it_breaks'], meta['needs'], ', '.join(caught) or 'missed'))
rows.sort()
text = head + mark + f"""
Each was written from the text of a property and the code, kept whether or not
a check found it at first, and made the checks stronger where they missed it.
All {len(rows)} pass the existing tests. "Caught by" names the checks that report it
(quick tier); others were not run against it.

| bug | property | what it breaks | needs | caught by |
|---|---|---|---|---|
""" + ''.join('| {1} | {0} | {2} | {3} | {4} |\n'.format(*(x.replace('|', '\\|').replace('\n', ' ') for x in r)) for r in rows)
with open(path, 'w') as fp:
    fp.write(text)
print(len(rows), 'planted bugs')

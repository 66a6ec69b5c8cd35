"""Fills the tables of DESIGN.md from tools/build_meta.py and seeded/*/meta.json + tools/caught.json."""
import glob
import json
import os
import re
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, 'tools'))
import build_meta  # noqa: E402

path = os.path.join(HERE, 'DESIGN.md')
text = open(path).read()
table = ''.join('| {} | {} | {} | {} |\n'.format(p['id'], p['observe'], p['technique'], p['note']) for p in sorted(build_meta.P, key=lambda p: p['id']))
text = re.sub(r'(\|----\|----\|----\|----\|\n).*?\n(?=\nC36 runs)', lambda m: m.group(1) + table, text, flags=re.S)
caught = {}
if os.path.exists(os.path.join(HERE, 'tools', 'caught.json')):
    caught = json.load(open(os.path.join(HERE, 'tools', 'caught.json')))
rows = '| change | property | what it breaks | caught by |\n|----|----|----|----|\n'
for meta in sorted(glob.glob(os.path.join(HERE, 'seeded', '*', 'meta.json'))):
    name = os.path.basename(os.path.dirname(meta))
    m = json.load(open(meta))
    rows += '| {} | {} | {} | {} |\n'.format(name, m['property'], m['what_it_breaks'].replace('|', '/'), ', '.join(caught.get(name, ['-'])))
text = re.sub(r'(## Planted bugs\n\n).*', lambda m: m.group(1) + 'Changes kept under `seeded/`, and the checks that report them:\n\n' + rows, text, flags=re.S)
open(path, 'w').write(text)

#!/usr/bin/env python3
"""rewrites the **B** entries of DESIGN.md from seeded/*/meta.json"""
import glob, json, os, re
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
by = {}
for f in sorted(glob.glob(root + '/seeded/*/meta.json')):
    by.setdefault(json.load(open(f))['property'], []).append(os.path.basename(os.path.dirname(f)))
s = open(root + '/DESIGN.md').read()
for p, v in by.items():
    s, n = re.subn(r'(### %s .*?\*\*B\*\* ).*?\.\n' % p, lambda m: m.group(1) + ', '.join(v) + '.\n', s, count=1, flags=re.S)
    assert n == 1, p
open(root + '/DESIGN.md', 'w').write(s)

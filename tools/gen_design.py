#!/usr/bin/env python3
"""DESIGN.md from tools/DESIGN.in.md, known_findings.txt, seeded/*/meta.json and tools/costs.txt."""
import glob, json, os, re
os.chdir(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
t = open('tools/DESIGN.in.md').read()
fixes = re.findall(r'^fixed: property=(\S+) (\S+) (.*)$', open('known_findings.txt').read(), re.M)
f = '| property | commit | what failed |\n|---|---|---|\n' + '\n'.join('| %s | %s | %s |' % x for x in fixes)
rows = []
for m in sorted(glob.glob('seeded/*/meta.json')):
    j = json.load(open(m))
    rows.append((j['property'], os.path.basename(os.path.dirname(m)), j['needs'], j.get('caught_by', j['property'])))
rows.sort()
s = '| property | bug | needs | caught by |\n|---|---|---|---|\n' + '\n'.join('| %s | %s | %s | %s |' % r for r in rows)
c = open('tools/costs.txt').read() if os.path.exists('tools/costs.txt') else ''
m = open('tools/mutation.md').read() if os.path.exists('tools/mutation.md') else ''
open('DESIGN.md', 'w').write(t.replace('@FIXES@', f).replace('@SEEDED@', s).replace('@COST@', c.strip()).replace('@MUT@', m.strip()))

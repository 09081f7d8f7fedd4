#!/usr/bin/env python3
"""DESIGN.md from tools/design_src.md, the findings and the planted bugs."""
import glob, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
s = open(V + '/tools/design_src.md').read()
F = json.load(open(V + '/known_findings.json'))['findings']
fixed = '\n'.join('* ' + f['line'].replace('fixed: property=', '', 1) for f in F if f['status'] == 'fixed')
known = '\n'.join('* %s, history `%s`: %s' % (f['property'], f['history'], f['what']) for f in F if f['status'] == 'known')
rows = ['| planted bug | property | needs | breaks |', '|---|---|---|---|']
for d in sorted(glob.glob(V + '/seeded/*/meta.json')):
    m = json.load(open(d))
    rows.append('| %s | %s | %s | %s |' % (os.path.basename(os.path.dirname(d)), m['property'], m['needs'].replace('|', '/'), m['what_it_breaks'].replace('|', '/')))
mut = open(V + '/tools/mutation_results.md').read() if os.path.exists(V + '/tools/mutation_results.md') else '(running)'
for a, b in (('@FIXED@', fixed), ('@KNOWN@', known), ('@SEEDS@', '\n'.join(rows)), ('@MUT@', mut.strip())):
    s = s.replace(a, b)
open(V + '/DESIGN.md', 'w').write(s)

#!/usr/bin/env python3
"""DESIGN.md from tools/design.in.md, the planted bugs and the results of the mutation campaign."""
import glob, json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
s = open(V + '/tools/design.in.md').read()
rows = ['| id | caught by | what it breaks | needs |', '|---|---|---|---|']
for d in sorted(glob.glob(V + '/seeded/*/meta.json')):
    m = json.load(open(d))
    rows.append('| %s | %s quick | %s | %s |' % (os.path.basename(os.path.dirname(d)), m.get('caught_by', m['property']), m['what_it_breaks'].replace('|', '/'), m['needs'].replace('|', '/')))
res = {}
for l in open(V + '/tools/mutants/results.txt'):
    m = re.match(r'([\w-]+): (.*)', l)
    if m:
        res[m.group(1)] = m.group(2)
why = dict(l.rstrip('\n').split(': ', 1) for l in open(V + '/tools/mutants/equivalent.txt') if ': ' in l)
caught = [n for n in res if 'caught' in res[n]]
out = ['%d changes, %d caught.' % (len(res), len(caught)) + ' Not caught:', '']
for n in sorted(res):
    if 'caught' not in res[n]:
        out.append('* `%s`: %s' % (n, why.get(n, 'missed')))
out += ['', 'Caught: ' + ', '.join(sorted(caught)) + '.']
open(V + '/DESIGN.md', 'w').write(s.replace('@@SEEDS@@', '\n'.join(rows)).replace('@@MUTANTS@@', '\n'.join(out)))

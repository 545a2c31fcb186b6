#!/usr/bin/env python3
import json, os, glob, sys, re
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, R + '/checks'); import specs
from design_text import ORACLE, FRAG
t = open(R + '/tools/design.md.in').read()
props = [json.loads(l) for l in open(R + '/properties.jsonl')]
o = []
for p in props:
    i = p['id']; c = specs.CHECKS.get(i)
    o.append('### %s  %s\n' % (i, p['title']))
    o.append('*Decided by:* ' + ORACLE[i] + '\n')
    if c and c['runs']:
        o.append('*Bounds:*\n')
        for r in c['runs']: o.append('- `%s` (%s): %s' % (r['name'], r['h'], r['bounds']))
        o.append('')
    elif c: o.append('*Bounds:* ' + c['note'] + '\n')
s = ['| change | property | needs | caught by |', '|---|---|---|---|']
caught = json.load(open(R + '/tools/caught.json')) if os.path.exists(R + '/tools/caught.json') else {}
n = 0
for f in sorted(glob.glob(R + '/seeded/*/meta.json')):
    m = json.load(open(f)); k = os.path.basename(os.path.dirname(f)); n += 1
    s.append('| %s | %s | %s | %s |' % (k, m['property'], m['needs'].replace('|', '/'), caught.get(k, '?')))
nfix = sum(1 for l in open(R + '/known-findings.txt') if l.startswith('fixed:'))
rep = dict(PROPS='\n'.join(o), SEEDS='\n'.join(s), NSEED=str(n), NFIX=str(nfix), **FRAG)
for k, v in rep.items(): t = t.replace('{{%s}}' % k, v)
assert '{{' not in t, re.findall(r'\{\{\w+', t)
open(R + '/DESIGN.md', 'w').write(t)

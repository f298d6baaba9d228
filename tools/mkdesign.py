#!/usr/bin/env python3
"""DESIGN.md = tools/design.in.md, with the bounds and configurations of configs.py put in."""
import os, re, sys, json
here = os.path.dirname(os.path.abspath(__file__)); root = os.path.dirname(here)
sys.path.insert(0, root)
from configs import PROPERTIES
titles = {}
for l in open(root + '/properties.jsonl'): p = json.loads(l); titles[p['id']] = p['title']
def title(m): return '### %s. %s' % (m.group(1), titles[m.group(1)])
def bounds(m):
    p = PROPERTIES[m.group(1)]
    hs = sorted({c['harness'] for c in p['configs']})
    q = sum(c.get('tier') != 'thorough' for c in p['configs']); t = sum(c.get('tier') != 'quick' for c in p['configs'])
    return '*Bounds:* %s.\n\n*Outside:* %s.\n\n*Runs:* %s; %d configurations in quick, %d in thorough.' % (p['bounds'], p['outside'], ', '.join('`harness/%s`' % h for h in hs), q, t)
s = open(here + '/design.in.md').read()
s = re.sub(r'^@title (C\d+)@$', title, s, flags=re.M)
s = re.sub(r'^@bounds (C\d+)@$', bounds, s, flags=re.M)
def fixes(m):
    out = []
    for l in open(root + '/known_findings.txt'):
        f = re.match(r'fixed: property=(\S+) (\S+) (.*)', l)
        if f: out.append('* %s, `%s`: %s.' % f.groups())
    return '\n'.join(out)
def seeded(m):
    res = {}
    for l in open(here + '/seeded_results.txt'):
        if l.strip() and not l.startswith('#'): k, v = l.strip().split(None, 1); res[k] = v
    out = ['| bug | property | needs | result |', '|---|---|---|---|']
    for id in sorted(os.listdir(root + '/seeded')):
        j = json.load(open(root + '/seeded/%s/meta.json' % id))
        out.append('| %s | %s | %s | %s |' % (id, j['property'], j['needs'].replace('|', '/'), res.get(id, 'not run')))
    return '\n'.join(out)
s = re.sub(r'^@fixes@$', fixes, s, flags=re.M)
s = re.sub(r'^@seeded@$', seeded, s, flags=re.M)
open(root + '/DESIGN.md', 'w').write(s)

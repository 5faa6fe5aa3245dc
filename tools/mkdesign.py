#!/usr/bin/env python3
"""Appends the per-property part (from the checks' own texts) and the seeded-bug table to DESIGN.head.md -> DESIGN.md"""
import importlib, json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
out = [open(os.path.join(V, 'DESIGN.head.md')).read().rstrip(), '', '## Properties', '']
m = json.load(open(os.path.join(V, 'MANIFEST.json')))
titles = {}
for l in open(os.path.join(V, 'properties.jsonl')):
    p = json.loads(l)
    titles[p['id']] = p['title']
for c in m['checks']:
    mod = importlib.import_module('checks.' + c['property'].lower())
    out.append('* **%s — %s.** %s' % (c['property'], titles[c['property']], mod.EXPLANATION))
    for a in getattr(mod, 'ASSUMPTIONS', ()):
        out.append('  Assumes: %s.' % a)
out += ['', 'Not applicable:', '']
for n in m['not_applicable']:
    out.append('* **%s — %s.** %s' % (n['property'], titles[n['property']], n['reason']))
out += ['', '## Planted changes (seeded/)', '', 'Each was confirmed (builds, 97 tests pass, demo differs); the last column lists the checks that report it.', '',
        '| change | property | needs | reported by |', '|---|---|---|---|']
res = {}
p = os.path.join(V, 'tools', 'seeded_results.json')
if os.path.exists(p):
    res = json.load(open(p))
for s in sorted(os.listdir(os.path.join(V, 'seeded'))):
    f = os.path.join(V, 'seeded', s, 'meta.json')
    if os.path.exists(f):
        j = json.load(open(f))
        out.append('| %s | %s | %s | %s |' % (s, j['property'], j['needs'], ', '.join(res.get(s, [])) or '**none**'))
open(os.path.join(V, 'DESIGN.md'), 'w').write('\n'.join(out) + '\n')

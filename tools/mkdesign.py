#!/usr/bin/env python3
"""Writes DESIGN.md from design/*.md, design/oracles.py, spec/checks.json and properties.jsonl."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ns = {}; exec(open(os.path.join(here, 'design/oracles.py')).read(), ns); O = ns['O']
checks = json.load(open(os.path.join(here, 'spec/checks.json')))['checks']
cost = json.load(open(os.path.join(here, 'design/cost.json')))
out = [open(os.path.join(here, 'design/head.md')).read(), '\n## 2. The properties\n\nAll are decided by symrs (level: bounded model checking of the real code). For each: what it is judged\nagainst, the bounds of every entry (entries marked *thorough* run only in that tier), what lies outside,\nthe cost of the quick check on 8 cores, and why it reaches what tests cannot.\n']
for l in open(os.path.join(here, 'properties.jsonl')):
    p = json.loads(l); i = p['id']
    out.append('\n### %s %s\n' % (i, p['title']))
    if i not in checks:
        continue
    out.append('Judged against: %s\n' % O[i])
    for e in checks[i]['entries']:
        out.append('- `%s`%s: %s' % (e['entry'], ' (thorough)' if e.get('tier') == 'thorough' else '', e['bounds']))
    out.append('\nOutside: %s.' % checks[i]['outside'])
    c = cost.get(i)
    out.append('Cost: %s.' % ('%d s, %d paths, %d assertions' % tuple(c) if c else 'not measured'))
    out.append('Beyond tests: %s' % (p['why_tests_cant']))
tail = open(os.path.join(here, 'design/tail.md')).read()
res = json.load(open(os.path.join(here, 'design/planted.json')))
rows = []
for n in sorted(os.listdir(os.path.join(here, 'seeded'))):
    m = json.load(open(os.path.join(here, 'seeded', n, 'meta.json')))
    rows.append('- `%s` (%s): %s; needs %s: %s' % (n, m['property'], m['what_it_breaks'], m['needs'], res.get(n, 'not run yet')))
out.append(tail.replace('PLANTED', '\n'.join(rows)).replace('MUTANTS', open(os.path.join(here, 'design/mutants.md')).read()))
open(os.path.join(here, 'DESIGN.md'), 'w').write('\n'.join(out) + '\n')

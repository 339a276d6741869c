#!/usr/bin/env python3
"""design/cost.json from the evidence of the last quick runs: seconds without the build, paths, assertions."""
import json, glob, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
p = os.path.join(here, 'design/cost.json')
c = json.load(open(p)) if os.path.exists(p) else {}
for f in glob.glob(os.path.join(here, 'evidence/*.json')):
    d = json.load(open(f)); v = d['coverage']
    if d['tier'] == 'quick':
        c[d['property']] = [max(1, round(d['wall_s'] - d['build_s'])), v['states'], v['evaluations']]
json.dump(c, open(p, 'w'), indent=0, sort_keys=True)

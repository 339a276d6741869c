#!/usr/bin/env python3
"""Writes MANIFEST.json from spec/checks.json, properties.jsonl and the notes below."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
checks = json.load(open(os.path.join(here, 'spec', 'checks.json')))['checks']
props = [json.loads(l) for l in open(os.path.join(here, 'properties.jsonl'))]
NA = json.load(open(os.path.join(here, 'spec', 'not_applicable.json')))
out = {'version': 1, 'setup_cmd': './check.py --build', 'checks': [], 'not_applicable': [],
       'notes': 'No hooks in /repo: the harness crate (/verif/harness/props) uses only public items. Known findings and the repaired defects: /verif/known_findings.jsonl.'}
for p in props:
    i = p['id']
    if i in checks:
        c = checks[i]
        q = '; '.join('%s: %s' % (e['entry'], e['bounds']) for e in c['entries'] if e.get('tier', 'quick') == 'quick')
        out['checks'].append({
            'property': i, 'quick_cmd': './check.py %s --tier quick' % i, 'thorough_cmd': './check.py %s --tier thorough' % i,
            'evidence_file': 'evidence/%s.json' % i,
            'technique': 'bounded symbolic execution of the LLVM IR of the real code (symrs), assertions decided by Z3',
            'level': 'model_checking',
            'level_note': ('Every path and every value within the bounds is decided by the solver; counterexamples are replayed natively before they are reported. '
                           'Quick bounds: %s. Outside: %s. Trusts the executor /verif/engine (cross-checked by native replay of sampled paths), Z3 and rustc/LLVM.' % (q, c['outside']))[:1800]})
    else:
        out['not_applicable'].append({'property': i, 'reason': NA.get(i, 'no check has been built for this property yet')})
json.dump(out, open(os.path.join(here, 'MANIFEST.json'), 'w'), indent=1)

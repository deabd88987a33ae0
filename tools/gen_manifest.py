#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json and /verif/known_findings.json's index from what exists (run by hand)."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(here, 'properties.jsonl'))]
NA = {
 'C25': 'training convergence of neural forecasters is a statement about stochastic gradient descent in floating point on jitted XLA code; no contract within reach of a deductive verifier expresses or decides it',
 'C26': 'statistical calibration is a statement about a distribution of data sets and of sampled scenarios; no pre/postcondition on one call expresses it and a test of frequencies would be a different technique',
}
LEVEL = json.load(open(os.path.join(here, 'tools', 'levels.json'))) if os.path.exists(os.path.join(here, 'tools', 'levels.json')) else {}
checks = []
for p in props:
    i = p['id']
    if i in NA or not os.path.exists(os.path.join(here, 'bounded', i + '.py')):
        continue
    proof = os.path.exists(os.path.join(here, 'contracts', i + '.py'))
    l = LEVEL.get(i, {})
    checks.append(dict(
        property=i, quick_cmd='python3 check.py %s --tier quick' % i, thorough_cmd='python3 check.py %s --tier thorough' % i,
        evidence_file='evidence/%s.json' % i,
        technique='contract-based deductive verification of the real code (VC generation from the current source, z3/cvc5), bounded run-time contracts as replay and stand-in' if proof else
                  'run-time contract evaluation on the real code (bounded stand-in of the deductive contracts)',
        level='proof' if proof else 'exploration',
        level_note=l.get('note', 'bounded: contract evaluated on generated inputs of the real code' if not proof else 'see DESIGN.md')))
na = [dict(property=k, reason=v) for k, v in NA.items()]
claimed = {c['property'] for c in checks} | set(NA)
for p in props:
    if p['id'] not in claimed:
        na.append(dict(property=p['id'], reason='check under construction'))
json.dump(dict(version=1, setup_cmd='true', checks=checks, not_applicable=na,
               notes='pydv (in /verif/pydv) is the verification-condition generator; see DESIGN.md'),
          open(os.path.join(here, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')

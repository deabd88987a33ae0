#!/usr/bin/env python3
"""Rewrites the 'fixed' entries of known_findings.json from the fix: commits of /repo (run by hand)."""
import json, os, subprocess
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROP = json.load(open(os.path.join(here, 'tools', 'fix_props.json')))
log = subprocess.run(['git', '-C', '/repo', 'log', '--reverse', '--format=%h %s'], capture_output=True, text=True).stdout.splitlines()
path = os.path.join(here, 'known_findings.json')
old = json.load(open(path))['findings'] if os.path.exists(path) else []
out = [f for f in old if f['status'] == 'known']
for l in log:
    h, s = l.split(' ', 1)
    if s.startswith('fix: '):
        p = [v for k, v in PROP.items() if k in s]
        assert len(set(p)) == 1, (s, p)
        out.append(dict(status='fixed', property=p[0], commit=h, what=s[5:], line='fixed: property=%s %s %s' % (p[0], h, s[5:])))
json.dump(dict(findings=out), open(path, 'w'), indent=1)
print(len(out))

import argparse, importlib, json, os, sys, time
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
sys.path.insert(0, os.path.join(os.path.dirname(here), 'bounded'))
ap = argparse.ArgumentParser()
ap.add_argument('prop'); ap.add_argument('--tier', default='quick'); ap.add_argument('--seed', type=int, default=1)
ap.add_argument('--budget', type=float, default=120); ap.add_argument('--extra'); ap.add_argument('--out'); ap.add_argument('--replay')
ap.add_argument('--case', action='append'); ap.add_argument('-n', type=int)
a = ap.parse_args()
import common
from harness import run_cases, run_one
mod = importlib.import_module(a.prop)
if a.replay:
    r = json.load(open(a.replay))
    c = {c.name: c for c in mod.CASES}[r['case']]
    st, info = run_one(c, r['params'])
    print(st, json.dumps(info, default=str, indent=1) if not isinstance(info, str) else info)
    sys.exit(1 if st == 'violation' else 0)
if a.n:
    for c in mod.CASES:
        c.n[a.tier] = a.n
extra = json.load(open(a.extra)) if a.extra else []
rep = run_cases(mod.CASES, a.tier, a.seed, a.budget, extra=extra, only=a.case)
rep['labels'] = len(rep['labels'])
rep['rules'] = sorted({c.rule for c in mod.CASES if c.rule})
if a.out:
    with open(a.out, 'w') as f:
        json.dump(rep, f, default=str)
else:
    print(json.dumps(rep, default=str, indent=1)[:6000])

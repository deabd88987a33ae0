#!/usr/bin/env python3
"""check.py Cxx [--tier quick|thorough]: decides one property on /repo's working tree.

1. deductive part (contracts/Cxx.py through pydv): verification conditions generated from the current source of the
   functions under contract, discharged by z3 (cvc5 as second opinion); refuted conditions give a counterexample
2. run-time part (bounded/Cxx.py): the same contracts evaluated on the real code for the counterexamples of 1 and for
   generated inputs; it is the replay step of 1 and the labelled bounded stand-in for what 1 does not reach
Exit 0: held on everything explored; exit 1 with a VIOLATION line otherwise.
"""
import argparse, hashlib, json, os, shutil, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
PY = '/opt/venv/bin/python'


def env(tmp):
    e = dict(os.environ)
    e.update(PYTHONDONTWRITEBYTECODE='1', MPLBACKEND='Agg', JAX_PLATFORMS='cpu', CUDA_VISIBLE_DEVICES='', TF_CPP_MIN_LOG_LEVEL='3',
             PYTHONHASHSEED='0', RAY_USAGE_STATS_ENABLED='0', MPLCONFIGDIR=os.path.join(tmp, 'mpl'), TMPDIR=tmp, HOME=tmp,
             PYTHONPATH=e.get('VERIF_REPO', '/repo'), OMP_NUM_THREADS=e.get('OMP_NUM_THREADS', '4'))
    return e


def run_json(cmd, out, timeout, tmp):
    """-> (parsed output or None, log tail)"""
    t0 = time.time()
    log = out + '.log'
    with open(log, 'wb') as f:
        p = subprocess.Popen(cmd, stdout=f, stderr=subprocess.STDOUT, env=env(tmp), cwd=tmp, start_new_session=True)
        try:
            p.wait(timeout=timeout)
            note = 'exit %s' % p.returncode
        except subprocess.TimeoutExpired:
            import signal
            os.killpg(p.pid, signal.SIGKILL)
            p.wait()
            note = 'stopped after %d s' % timeout
    tail = open(log, errors='replace').read()[-4000:]
    r = None
    if os.path.exists(out):
        try:
            r = json.load(open(out))
        except ValueError:
            note += ', unreadable output'
    return r, note, tail, time.time() - t0


def finding_for(known, prop, v):
    for k in known:
        if k.get('status') != 'known' or k['property'] != prop:
            continue
        if k.get('case') == v.get('case') and k.get('key') is not None and k.get('key') == v.get('key'):
            return k
    return None


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--no-bounded', action='store_true')
    ap.add_argument('--no-engine', action='store_true')
    a = ap.parse_args()
    prop, tier = a.prop, a.tier if a.tier in ('quick', 'thorough') else 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    tmp = tempfile.mkdtemp(prefix='verif_%s_' % prop)
    try:
        code = decide(a, prop, tier, seed, t0, tmp)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    sys.exit(code)


def decide(a, prop, tier, seed, t0, tmp):
    known = json.load(open(os.path.join(HERE, 'known_findings.json')))['findings']
    meta = {c['property']: c for c in json.load(open(os.path.join(HERE, 'MANIFEST.json')))['checks']}
    level = meta.get(prop, {}).get('level', 'exploration')
    limit = 800 if tier == 'quick' else 3 * 3600
    engine, enote, elog, ewall = None, 'no deductive contracts', '', 0.
    contracts = os.path.join(HERE, 'contracts', prop + '.py')
    if os.path.exists(contracts) and not a.no_engine:
        engine, enote, elog, ewall = run_json(
            [PY, os.path.join(HERE, 'pydv', 'run.py'), prop, '--tier', tier, '--out', os.path.join(tmp, 'engine.json')],
            os.path.join(tmp, 'engine.json'), 300 if tier == 'quick' else 3600, tmp)
    extra = []
    obligations = (engine or {}).get('obligations', [])
    for o in obligations:
        for w in o.get('witness') or []:
            extra.append((w['case'], w['params']))
    bounded, bnote, blog, bwall = None, 'no run-time contracts', '', 0.
    if os.path.exists(os.path.join(HERE, 'bounded', prop + '.py')) and not a.no_bounded:
        ex = os.path.join(tmp, 'extra.json')
        json.dump(extra, open(ex, 'w'))
        budget = 240 if tier == 'quick' else 5400
        bounded, bnote, blog, bwall = run_json(
            [PY, os.path.join(HERE, 'lib', 'run_bounded.py'), prop, '--tier', tier, '--seed', str(seed), '--budget', str(budget),
             '--extra', ex, '--out', os.path.join(tmp, 'bounded.json')],
            os.path.join(tmp, 'bounded.json'), min(budget + 200, limit - (time.time() - t0)), tmp)

    replays = os.path.join(HERE, 'replays')
    os.makedirs(replays, exist_ok=True)

    def write_replay(tag, d):
        h = hashlib.sha256(json.dumps(d, sort_keys=True, default=str).encode()).hexdigest()[:8]
        path = os.path.join(replays, '%s_%s_%s.json' % (prop, tag, h))
        json.dump(d, open(path, 'w'), indent=1, default=str)
        return path

    violations, known_hits = [], []
    for v in (bounded or {}).get('violations', []):
        k = finding_for(known, prop, v)
        if k:
            known_hits.append(k)
        else:
            d = dict(property=prop, kind='failing input on the real code', case=v['case'], params=v['params'], message=v.get('message'),
                     traceback=v.get('traceback'), origin=v.get('origin'),
                     failed_obligations=[dict(name=o['name'], function=o.get('function'), model=o.get('model')) for o in obligations if o['status'] == 'refuted'],
                     how_to_replay='%s lib/run_bounded.py %s --replay <this file>' % (PY, prop))
            violations.append(('VIOLATION property=%s replay=%s' % (prop, write_replay(v['case'], d)), v.get('message')))
    refuted = [o for o in obligations if o['status'] == 'refuted']
    decisive = [o for o in refuted if o.get('decisive')]
    if decisive and not violations:
        d = dict(property=prop, kind='obligation refuted by the verifier', obligations=decisive, engine_log=elog[-3000:],
                 note='the counterexample of the solver could not be turned into a failing run of the real code')
        violations.append(('VIOLATION property=%s replay=%s no-failing-input-found' % (prop, write_replay('obligation', d)),
                           'obligation %s of %s' % (decisive[0]['name'], decisive[0].get('function'))))
    # a module that cannot even be loaded or run: the run-time part gave no result on code that must work
    broken = None
    if bounded is None and not a.no_bounded and os.path.exists(os.path.join(HERE, 'bounded', prop + '.py')):
        broken = 'run-time part gave no result (%s)' % bnote
    elif bounded is not None and bounded['evaluations'] == 0 and bounded.get('harness_errors'):
        broken = 'run-time part evaluated nothing: %s' % json.dumps(bounded.get('harness_errors') or bounded.get('skips'))[:500]

    n_obl = len(obligations)
    n_dis = sum(o['status'] == 'proved' for o in obligations)
    trusted = list((engine or {}).get('assumptions', []))
    cov = dict(
        evaluations=(bounded or {}).get('evaluations', 0),
        distinct_nontrivial=(bounded or {}).get('labels', 0),
        rule='; '.join((bounded or {}).get('rules', [])) or 'inputs generated per case from the seed; a case is non-trivial when the run-time contract reached its final comparison, distinct by the configuration label it returns',
        samples=((bounded or {}).get('samples') or [])[:4] or ['none'],
        bounded_cases=(bounded or {}).get('per_case', {}),
        bounded_skips=(bounded or {}).get('skips', {}),
        bounded_harness_errors=len((bounded or {}).get('harness_errors', [])),
        bounded_wall_s=round(bwall, 2))
    if n_obl or level == 'proof':
        by = {}
        for o in obligations:
            by[o.get('backend', '?')] = by.get(o.get('backend', '?'), 0) + 1
        cov.update(
            obligations=n_obl, discharged=n_dis,
            checker_cmd='%s pydv/run.py %s --tier %s' % (PY, prop, tier),
            trusted_base=trusted or ['z3'],
            obligations_by_backend=by,
            functions_under_contract=(engine or {}).get('functions', []),
            undischarged=[dict(name=o['name'], function=o.get('function'), status=o['status'], reason=str(o.get('reason'))[:300]) for o in obligations if o['status'] != 'proved'],
            obligation_list=[dict(name=o['name'], function=o.get('function'), s=o.get('time'), backend=o.get('backend'), unbounded=o.get('unbounded', True)) for o in obligations if o['status'] == 'proved'][:300],
            reachability_checks=(engine or {}).get('reachability', 0),
            solver_s=(engine or {}).get('solver_s', 0.), paths=(engine or {}).get('paths', 0),
            engine_wall_s=round(ewall, 2), engine_note=enote,
            source_digests=(engine or {}).get('digests', {}))
        if not trusted:
            cov['trusted_base'] = ['z3']
    if broken:
        cov['undecided'] = broken
    ev = dict(property=prop, tier=tier, seed=seed, level=level, coverage=cov,
              assumptions=trusted + list((engine or {}).get('notes', [])),
              wall_s=round(time.time() - t0, 2), violations=len(violations))
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(HERE, 'evidence', prop + '.json'), 'w'), indent=1, default=str)

    for k in {json.dumps(k, sort_keys=True): k for k in known_hits}.values():
        print('KNOWN-FINDING: property=%s %s' % (prop, k['what']))
    print('%s %s: %d/%d obligations discharged (%d refuted), %d run-time evaluations, %d violations, %.1f s' %
          (prop, tier, n_dis, n_obl, len(refuted), cov['evaluations'], len(violations), time.time() - t0))
    for o in obligations:
        if o['status'] != 'proved':
            print('  not discharged: %s [%s] %s %s' % (o['name'], o.get('function'), o['status'], str(o.get('reason') or o.get('model') or '')[:300]))
    if bounded and bounded.get('harness_errors'):
        print('  harness error:', bounded['harness_errors'][0]['case'], bounded['harness_errors'][0]['error'][-600:])
    if engine is None and os.path.exists(contracts) and not a.no_engine:
        print('  deductive part gave no result:', enote, elog[-1500:])
    if violations:
        for line, msg in violations:
            if msg:
                print('  ' + str(msg).replace('\n', ' ')[:600])
        for line, msg in violations[:1]:
            print(line)
        return 1
    if broken:
        print('UNDECIDED:', broken, blog[-1500:])
        return 3
    return 0


if __name__ == '__main__':
    main()

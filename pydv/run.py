#!/usr/bin/env python3
"""run.py Cxx: generates and discharges the obligations of contracts/Cxx.py from /repo's current source."""
import argparse, importlib.util, json, os, sys, time, warnings
warnings.simplefilter('ignore')
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)
import sym, arr, load, core

ap = argparse.ArgumentParser()
ap.add_argument('prop')
ap.add_argument('--tier', default='quick')
ap.add_argument('--out')
ap.add_argument('--only')
a = ap.parse_args()
path = os.path.join(os.path.dirname(HERE), 'contracts', a.prop + '.py')
spec = importlib.util.spec_from_file_location('contract_' + a.prop, path)
mod = importlib.util.module_from_spec(spec)
spec.loader.exec_module(mod)
total = 200. if a.tier == 'quick' else 3000.
t0 = time.time()
out = dict(obligations=[], assumptions=list(getattr(mod, 'ASSUMPTIONS', [])), notes=list(getattr(mod, 'NOTES', [])), functions=[], reachability=0, paths=0, digests={})
todo = [c for c in core.CONTRACTS if not a.only or a.only in c.name]


def one(c, budget):
    """one contract: its obligations and what it covered"""
    h = core.Harness(c, lambda: load.Loader(getattr(mod, 'EXTRA', None)), a.tier)
    t1, q0, s0 = time.time(), sym.STATS['queries'], sym.STATS['solver_s']
    try:
        obs = h.run(budget)
    except Exception as e:          # an engine failure is never a verdict
        import traceback
        obs = [failed(c, 'engine: %s: %s %s' % (type(e).__name__, e, traceback.format_exc()[-800:] if os.environ.get('PYDV_DEBUG') else ''))]
    return dict(obs=obs, reached=h.reached, paths=h.paths, digests=h.digests, assumptions=h.assumptions, s=time.time() - t1, queries=sym.STATS['queries'] - q0, solver=sym.STATS['solver_s'] - s0)


def failed(c, reason):
    return dict(name=c.name, function=', '.join(c.functions), status='unsupported', reason=reason, unbounded=c.unbounded, backend='none', time=0)


def serial():
    for k, c in enumerate(todo):
        left = total - (time.time() - t0)
        yield c, one(c, max(5., left / (len(todo) - k) * 3 if len(todo) - k > 3 else left))


def parallel(workers):
    """each contract in a process of its own"""
    import multiprocessing as mp, tempfile, shutil
    tmp = tempfile.mkdtemp(prefix='pydv')
    try:
        waiting, running, res = list(enumerate(todo)), {}, {}
        while waiting or running:
            while waiting and len(running) < workers:
                k, c = waiting.pop(0)
                f = os.path.join(tmp, str(k))
                sys.stdout.flush()
                pid = os.fork()
                if not pid:
                    code = 1
                    try:
                        left = total - (time.time() - t0)
                        r = one(c, max(5., left / (len(waiting) // workers + 1) * 3 if len(waiting) > 3 * workers else left))
                        with open(f, 'w') as g:
                            json.dump(r, g, default=str)
                        code = 0
                    finally:
                        os._exit(code)
                running[pid] = k, f
            pid, st = os.wait()
            if pid in running:
                k, f = running.pop(pid)
                res[k] = json.load(open(f)) if st == 0 and os.path.exists(f) else None
        for k, c in enumerate(todo):
            yield c, res[k] or dict(obs=[failed(c, 'engine: the process of this contract ended early')], reached=0, paths=0, digests={}, assumptions=[], s=0., queries=0, solver=0.)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


workers = int(os.environ.get('PYDV_JOBS', 0)) or min(6, len(os.sched_getaffinity(0)))
queries, solver = 0, 0.
for c, r in (parallel(workers) if workers > 1 and len(todo) > 1 and not os.environ.get('PYDV_DEBUG') else serial()):
    obs = r['obs']
    out['obligations'] += obs
    out['functions'] += [f for f in c.functions if f not in out['functions']]
    out['reachability'] += r['reached']
    out['paths'] += r['paths']
    out['digests'].update(r['digests'])
    out['assumptions'] += [x for x in r['assumptions'] if x not in out['assumptions']]
    queries, solver = queries + r['queries'], solver + r['solver']
    if not a.out:
        print('%-60s %5.1fs %d paths' % (c.name, r['s'], r['paths']))
        for o in obs:
            print('   %-9s %s %s' % (o['status'], o['name'], '' if o['status'] == 'proved' else ('DECISIVE ' if o.get('decisive') else '') + str(o.get('reason'))[:3000 if os.environ.get('PYDV_DEBUG') else 300] + ' ' + str(o.get('model') or '')[:250] + str(o.get('witness') or '')[:200]))
out['solver_s'] = round(solver, 2)
out['queries'] = queries
out['wall_s'] = round(time.time() - t0, 2)
if a.out:
    json.dump(out, open(a.out, 'w'), default=str)
else:
    n = len(out['obligations'])
    print(n, 'obligations', sum(o['status'] == 'proved' for o in out['obligations']), 'proved', out['wall_s'], 's', queries, 'queries')

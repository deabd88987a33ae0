"""Run-time side of the contracts: evaluates a property's contract on the real code.

A bounded module defines CASES = [Case(name, gen, run, quick=, thorough=)].
  gen(rng, i, tier) -> JSON-serialisable parameters of one input (i = ordinal; used to enumerate corner inputs first)
  run(params)       -> evaluates the contract on the real code for that input; raises Violation when it is broken,
                       returns a short hashable label of what was exercised (used to count distinct inputs)
The same `run` replays a failing input, and is what a counterexample of the deductive engine is replayed with.
"""
import hashlib, json, os, random, signal, sys, time, traceback

REPO = os.environ.get('VERIF_REPO', '/repo')


class Violation(Exception):
    def __init__(self, msg, key=None):
        super().__init__(msg)
        self.key = key          # identifies a specific failing input / call site for known findings


class Skip(Exception):
    """the anchor the case looks at does not exist any more (renamed/moved private helper): nothing decided"""


class CaseTimeout(BaseException):
    pass


class Case:
    def __init__(self, name, gen, run, quick=40, thorough=400, timeout=60, rule=''):
        self.name, self.gen, self.run = name, gen, run
        self.n = dict(quick=quick, thorough=thorough)
        self.timeout = timeout
        self.rule = rule


def check(cond, msg, key=None):
    if not bool(cond):
        raise Violation(msg() if callable(msg) else msg, key)


def _in_repo(tb):
    """was the exception raised inside the repository's code (or a library called by it)?"""
    frames = traceback.extract_tb(tb)
    root = os.path.realpath(REPO) + os.sep
    return any(os.path.realpath(f.filename).startswith(root) for f in frames)


def _alarm(signum, frame):
    raise CaseTimeout()


def run_one(case, params):
    """-> (status, info): status in ok / violation / skip / harness_error"""
    old = signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(case.timeout)
    try:
        label = case.run(params)
        return 'ok', label
    except Violation as e:
        return 'violation', dict(message=str(e)[:2000], key=e.key)
    except Skip as e:
        return 'skip', str(e)
    except CaseTimeout:
        return 'violation', dict(message='no result within %d s (the same input takes well under a second on the reference tree)' % case.timeout, key=None)
    except (KeyboardInterrupt, MemoryError):
        raise
    except BaseException as e:
        tb = sys.exc_info()[2]
        text = ''.join(traceback.format_exception(type(e), e, tb))[-3000:]
        if _in_repo(tb):
            return 'violation', dict(message='the code under test failed on a valid input: %s: %s' % (type(e).__name__, str(e)[:500]), key=None, traceback=text)
        return 'harness_error', text
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)


def case_rng(seed, name, i):
    return random.Random(int(hashlib.sha256(('%s|%s|%s' % (seed, name, i)).encode()).hexdigest()[:15], 16))


def run_cases(cases, tier, seed, budget, extra=(), only=None):
    """extra: [(case name, params)] inputs suggested by the deductive engine, run first"""
    t0 = time.time()
    rep = dict(evaluations=0, labels=set(), violations=[], skips={}, harness_errors=[], per_case={}, samples=[])
    by_name = {c.name: c for c in cases}
    order = [(by_name[n], p, 'engine') for n, p in extra if n in by_name]
    bad = {}

    def do(c, params, origin):
        st, info = run_one(c, params)
        d = rep['per_case'].setdefault(c.name, dict(evaluations=0, violations=0, skipped=0))
        if st == 'ok' or st == 'violation':
            rep['evaluations'] += 1
            d['evaluations'] += 1
        if st == 'ok':
            if info is not None:
                rep['labels'].add((c.name, json.dumps(info, default=str)))
            if d['evaluations'] == 1:
                rep['samples'].append(dict(case=c.name, params=params, exercised=info))
        elif st == 'violation':
            d['violations'] += 1
            key = info.get('key')
            k = (c.name, key)
            bad[k] = bad.get(k, 0) + 1
            if bad[k] <= 1:
                rep['violations'].append(dict(case=c.name, params=params, origin=origin, **info))
        elif st == 'skip':
            d['skipped'] += 1
            rep['skips'][c.name] = info
        else:
            d['skipped'] += 1
            if len(rep['harness_errors']) < 5:
                rep['harness_errors'].append(dict(case=c.name, params=params, error=info))

    for c, p, o in order:
        do(c, p, o)
    active = [c for c in cases if only is None or c.name in only]
    # round-robin so that a tight budget still reaches every case
    i = 0
    while True:
        todo = [c for c in active if i < c.n[tier] and bad.get((c.name, None), 0) < 3
                and rep['per_case'].get(c.name, {}).get('skipped', 0) < 5]
        if not todo:
            break
        for c in todo:
            if time.time() - t0 > budget:
                todo = None
                break
            rng = case_rng(seed, c.name, i)
            params = c.gen(rng, i, tier)
            if params is not None:
                do(c, params, 'generated')
        if todo is None:
            rep['budget_hit'] = True
            break
        i += 1
    rep['wall_s'] = time.time() - t0
    return rep

"""C11: Kalman steps against the conditional of the joint Gaussian, on the real functions."""
from common import *
import pyforecaster.utilities as U


def model(p):
    g = np.random.default_rng(p['seed'])
    n, m = p['n'], p['m']

    def pd_(k, s):
        a = g.normal(size=(k, k))
        return s * (a @ a.T + .1 * np.eye(k))
    x = g.normal(size=(n, 1)) * p['xs']
    P = pd_(n, p['ps'])
    F = g.normal(size=(n, n))
    if p['Fs'] == 'sing':
        F[:, 0] = 0
    Q = pd_(n, p['qs'])
    H = g.normal(size=(m, n))
    if p['Hs'] == 'zero':
        H[0] = 0
    elif p['Hs'] == 'eye':
        H = np.eye(m, n)
    R = pd_(m, p['rs'])
    y = g.normal(size=(m, 1)) * p['xs']
    return x, P, F, Q, H, R, y


def cond(x, P, H, R, y):
    S = H @ P @ H.T + R
    C = np.block([[P, P @ H.T], [H @ P, S]])
    # conditional of the joint Gaussian: precision form, an independent route
    n = P.shape[0]
    L = np.linalg.inv(P) + H.T @ np.linalg.inv(R) @ H
    Pc = np.linalg.inv(L)
    xc = Pc @ (np.linalg.inv(P) @ x + H.T @ np.linalg.inv(R) @ y)
    return xc, Pc


def run_step(p):
    x, P, F, Q, H, R, y = model(p)
    args = [a.copy() for a in (x, P, F, Q, H, R, y)]
    xp, Pp = U.kalman_predict(x, P, F, Q)
    check(close(xp, F @ x) and close(Pp, F @ P @ F.T + Q), 'prediction step is not F x, F P F\' + Q')
    tol = 1e-7 * max(np.abs(P).max(), 1)
    for (a, b, what) in [(x, P, 'update'), (xp, Pp, 'update after predict')]:
        xc, Pc = cond(a, b, H, R, y)
        xu, Pu = U.kalman_update(a, b, y, H, R)
        sc = np.abs(b).max()
        check(np.allclose(xu, xc, rtol=1e-5, atol=1e-6 * max(np.abs(xc).max(), 1)), '%s: mean %s, conditional mean %s' % (what, xu.ravel()[:4], xc.ravel()[:4]))
        check(np.allclose(Pu, Pc, rtol=1e-5, atol=1e-7 * sc), '%s: covariance differs from the conditional covariance by %s' % (what, np.abs(Pu - Pc).max()))
        check(np.allclose(Pu, Pu.T, atol=1e-9 * sc), what + ': covariance is not symmetric')
        check(np.linalg.eigvalsh((Pu + Pu.T) / 2).min() >= -1e-9 * sc, what + ': covariance is not positive semidefinite')
        check(np.linalg.eigvalsh(b - (Pu + Pu.T) / 2).min() >= -1e-8 * sc, what + ': covariance grew')
    xk, Pk = U.kalman(x, P, F, Q, y, H, R)
    xu, Pu = U.kalman_update(xp, Pp, y, H, R)
    check(close(xk, xu) and close(Pk, Pu), 'a full step is not prediction followed by update')
    for a, b in zip(args, (x, P, F, Q, H, R, y)):
        check(np.array_equal(a, b), 'a Kalman step changed its arguments')
    return ['step', p['n'], p['m'], p['Hs'], p['Fs']]


def gen_step(rng, i, tier):
    n = rng.choice([1, 2, 3, 5])
    m = rng.choice([k for k in (1, 2, 3) if k <= n + 1])
    return dict(seed=rng.randrange(10**6), n=n, m=m, xs=rng.choice([0, 1., 50.]), ps=rng.choice([.01, 1., 100.]), qs=rng.choice([.01, 1.]), rs=rng.choice([.05, 1., 20.]), Hs=rng.choice(['g', 'g', 'zero', 'eye']), Fs=rng.choice(['g', 'sing']))


def run_seq(p):
    """the filter over a series equals one batch least-squares estimate (static state), for any length"""
    g = np.random.default_rng(p['seed'])
    n, T = p['n'], p['T']
    x, P, _, _, _, R, _ = model(dict(p, m=1))
    x0, P0 = x.copy(), P.copy()
    Hs = g.normal(size=(T, 1, n))
    ys = g.normal(size=(T, 1, 1))
    F, Q = np.eye(n), np.zeros((n, n))
    for t in range(T):
        x, P = U.kalman(x, P, F, Q, ys[t], Hs[t], R)
    H = Hs[:, 0, :]
    xc, Pc = cond(x0, P0, H, np.eye(T) * R[0, 0], ys[:, 0, :])
    check(np.allclose(x, xc, rtol=1e-4, atol=1e-5 * max(1, np.abs(xc).max())) and np.allclose(P, Pc, rtol=1e-4, atol=1e-6 * np.abs(P0).max()), 'filtering %d observations differs from the batch posterior' % T)
    return ['seq', n, T]


def gen_seq(rng, i, tier):
    return dict(gen_step(rng, i, tier), T=rng.choice([2, 5, 20]))


RULE = 'random linear-Gaussian models with positive definite P, Q, R; distinct = distinct (sizes, kind of H, kind of F)'
CASES = [Case('step', gen_step, run_step, 120, 3000, rule=RULE), Case('seq', gen_seq, run_seq, 30, 600, rule=RULE)]

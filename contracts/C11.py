"""C11: Kalman steps, for every state and observation dimension (matrices as non-commutative polynomials)."""
from core import *
import mat

ASSUMPTIONS = ['real arithmetic instead of floating point', 'np.linalg.pinv/inv of a positive definite matrix is its inverse, which is symmetric positive definite (library)',
               'A M A\' is positive semidefinite when M is, sums of positive semidefinite matrices are, and adding a positive definite one gives a positive definite (hence invertible) matrix',
               'numba.njit runs the Python source as written']
U = 'pyforecaster.utilities'
DIM = dict(n=3, m=2)
W = [dict(case='step', params=dict(seed=s, n=n, m=m, xs=1., ps=1., qs=1., rs=1., Hs='g', Fs='g')) for s, n, m in ((1, 1, 1), (2, 3, 2), (3, 2, 1))]


def setup(h, p='psd'):
    mat.reset()
    n, m = sint('n', 1), sint('m', 1)
    M = lambda name, r, c, *a, **k: mat.matrix(name, dict(n=n, m=m, one=1)[r], dict(n=n, m=m, one=1)[c], *a, dims=(r, c), **k)
    x, P, F, Q = M('x', 'n', 'one'), M('P', 'n', 'n', symmetric=True, pos=p), M('F', 'n', 'n'), M('Q', 'n', 'n', symmetric=True, pos='psd')
    H, R, y = M('H', 'm', 'n'), M('R', 'm', 'm', symmetric=True, pos='pd'), M('y', 'm', 'one')
    return h.module(U), x, P, F, Q, H, R, y, dict(DIM, one=1)


def one(p):
    return mat.Mat({(): mat.Fraction(1)}, p.shape)


@contract('prediction step', ['pyforecaster/utilities.py: kalman_predict'])
def predict(h):
    u, x, P, F, Q, H, R, y, d = setup(h)
    xp, Pp = u.kalman_predict(x, P, F, Q)
    h.ensure_mat('mean is F x', xp, mat.dot(F, x), dim=d, witness=W)
    h.ensure_mat('covariance is F P F\' + Q', Pp, mat.dot(mat.dot(F, P), F.T) + Q, dim=d, witness=W)
    h.ensure_mat('covariance is symmetric', Pp, Pp.T, dim=d, witness=W)
    h.ensure_psd('covariance is positive semidefinite', Pp)


def posterior(h, u, xu, Pu, x, P, H, R, y, d, tag=''):
    """against the conditional of the joint Gaussian of state and observation"""
    Sm = mat.dot(mat.dot(H, P), H.T) + R
    Wm = mat.PINV(Sm)
    rules = mat.inverse_rules()
    gain = mat.dot(mat.dot(P, H.T), Wm)
    h.ensure_mat(tag + 'mean is the conditional mean x + P H\' S^-1 (y - H x)', xu, x + mat.dot(gain, y - mat.dot(H, x)), rules, d, W)
    spec = P - mat.dot(mat.dot(gain, H), P)
    h.ensure_mat(tag + 'covariance is the conditional covariance P - P H\' S^-1 H P', Pu, spec, rules, d, W)
    h.ensure_mat(tag + 'covariance is symmetric', Pu, Pu.T, rules, d, W)
    A = one(P) - mat.dot(gain, H)
    h.ensure_mat(tag + 'covariance is the sum of congruences A P A\' + K R K\' (so positive semidefinite)', Pu, mat.dot(mat.dot(A, P), A.T) + mat.dot(mat.dot(gain, R), gain.T), rules, d, W)
    B = mat.dot(P, H.T)
    h.ensure_mat(tag + 'the reduction of the covariance is the congruence (P H\') S^-1 (P H\')\' (so never larger than before)', P - Pu, mat.dot(mat.dot(B, Wm), B.T), rules, d, W)
    return spec


@contract('update step', ['pyforecaster/utilities.py: kalman_update'])
def update(h):
    u, x, P, F, Q, H, R, y, d = setup(h)
    xu, Pu = u.kalman_update(x, P, y, H, R)
    spec = posterior(h, u, xu, Pu, x, P, H, R, y, d)


@contract('conditional covariance in information form', ['specification of kalman_update'])
def information(h):
    """the closed form used above is the inverse of P^-1 + H' R^-1 H: an independent characterisation of the conditional"""
    u, x, P, F, Q, H, R, y, d = setup(h, 'pd')
    Sm = mat.dot(mat.dot(H, P), H.T) + R
    Wm = mat.PINV(Sm)
    V, B = mat.PINV(P), mat.PINV(R)
    gain = mat.dot(mat.dot(P, H.T), Wm)
    spec = P - mat.dot(mat.dot(gain, H), P)
    info = V + mat.dot(mat.dot(H.T, B), H)
    piv = next(k for k in Sm.terms if len(k) == 3)
    h.ensure_mat('P\' (P^-1 + H\' R^-1 H) = I', mat.dot(spec, info), one(P), mat.inverse_rules(piv), None, W)


@contract('full step', ['pyforecaster/utilities.py: kalman'])
def step(h):
    u, x, P, F, Q, H, R, y, d = setup(h)
    xk, Pk = u.kalman(x, P, F, Q, y, H, R)
    posterior(h, u, xk, Pk, mat.dot(F, x), mat.dot(mat.dot(F, P), F.T) + Q, H, R, y, d)

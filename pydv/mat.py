"""Matrices of arbitrary (symbolic) size as non-commutative polynomials.

Mat: sum of coefficient * product of named matrices, each possibly transposed. Used as the argument of functions that only
combine matrices by product, sum and transpose; np.dot, np.eye, .T, +, - and a declared (pseudo-)inverse are interpreted.
Two expressions are equal for all matrices of all sizes satisfying the rewriting rules (the hypotheses, e.g. W S W = W) when
their normal forms are the same; the normal form is computed by rewriting words and adding rational coefficients.
"""
from fractions import Fraction
import numpy as np
import sym
from sym import S, Unsupported, lift
import arr

DECL = {}       # name -> dict(sym=bool)


class Mat:
    __pydv_sym__ = True
    __pydv_mat__ = True
    __array_priority__ = 5000
    __array_ufunc__ = None

    def __init__(self, terms, shape, inv=None):
        self.terms = {k: v for k, v in terms.items() if v != 0}
        self.shape = tuple(shape)

    @property
    def ndim(self):
        return 2

    @property
    def T(self):
        return Mat({tuple((n, (not t) and not DECL[n]['sym']) for n, t in reversed(w)): c for w, c in self.terms.items()}, self.shape[::-1])

    def transpose(self):
        return self.T

    def copy(self):
        return self

    def dot(self, o):
        return dot(self, o)

    def __matmul__(self, o):
        return dot(self, o)

    def __rmatmul__(self, o):
        return dot(o, self)

    def __add__(self, o):
        o = as_mat(o, self.shape)
        if o is NotImplemented:
            return o
        dims(self.shape[0], o.shape[0]), dims(self.shape[1], o.shape[1])
        d = dict(self.terms)
        for w, c in o.terms.items():
            d[w] = d.get(w, 0) + c
        return Mat(d, self.shape)

    __radd__ = __add__

    def __neg__(self):
        return Mat({w: -c for w, c in self.terms.items()}, self.shape)

    def __sub__(self, o):
        o = as_mat(o, self.shape)
        return self + (-o)

    def __rsub__(self, o):
        return (-self) + o

    def __mul__(self, k):
        if isinstance(k, (int, float, Fraction, np.integer, np.floating)):
            k = Fraction(repr(float(k))) if isinstance(k, (float, np.floating)) else Fraction(int(k)) if not isinstance(k, Fraction) else k
            return Mat({w: c * k for w, c in self.terms.items()}, self.shape)
        raise Unsupported('elementwise product of abstract matrices')

    __rmul__ = __mul__

    def __truediv__(self, k):
        if isinstance(k, (int, float, Fraction)):
            return self * (1 / (Fraction(repr(k)) if isinstance(k, float) else Fraction(k)))
        raise Unsupported('elementwise division of abstract matrices')

    def __getitem__(self, k):
        raise Unsupported('element of an abstract matrix')

    def __repr__(self):
        return ' + '.join('%s*%s' % (c, '.'.join(n + ("'" if t else '') for n, t in w) or 'I') for w, c in sorted(self.terms.items())) or '0'


def dims(a, b):
    if not arr.dim_same(a, b):
        raise ValueError('matrix dimensions do not match')


def as_mat(o, shape):
    if isinstance(o, Mat):
        return o
    if isinstance(o, arr.Arr) and getattr(o, 'eye', False):
        return Mat({(): Fraction(1)}, o.shape)
    if isinstance(o, (int, float)) and o == 0:
        return Mat({}, shape)
    raise Unsupported('%s combined with an abstract matrix' % type(o).__name__)


def matrix(name, rows, cols, symmetric=False, pos=None, dims=None):
    DECL[name] = dict(sym=symmetric, dims=dims)
    if pos:
        POS[0][name] = pos
    return Mat({((name, False),): Fraction(1)}, (rows, cols))


def dot(a, b):
    a, b = as_mat(a, None), as_mat(b, None)
    dims(a.shape[1], b.shape[0])
    d = {}
    for w, c in a.terms.items():
        for v, e in b.terms.items():
            d[w + v] = d.get(w + v, 0) + c * e
    return Mat(d, (a.shape[0], b.shape[1]))


def rewrite(m, rules, limit=4000):
    """rules: list of (word, Mat)"""
    terms, n = dict(m.terms), 0
    changed = True
    while changed:
        changed = False
        for w in list(terms):
            for lhs, rhs in rules:
                k = len(lhs)
                p = next((i for i in range(len(w) - k + 1) if w[i:i + k] == lhs), None)
                if p is None:
                    continue
                n += 1
                if n > limit:
                    raise Unsupported('rewriting does not terminate')
                c = terms.pop(w)
                for v, e in rhs.terms.items():
                    q = w[:p] + v + w[p + k:]
                    terms[q] = terms.get(q, 0) + c * e
                changed = True
                break
        terms = {w: c for w, c in terms.items() if c != 0}
    return Mat(terms, m.shape)


def equal(a, b, rules=()):
    """(proved, remainder)"""
    r = rewrite(a - b, rules)
    return not r.terms, r


def word(*names):
    return tuple((n.rstrip("'"), n.endswith("'")) for n in names)


INV = {}        # name of an inverse -> the matrix it inverts (normal form)


def psd(m, pos, strict=False):
    """is m a sum of congruences A M A' of (semi)definite named matrices with positive coefficients, by its words?"""
    st = False
    for w, c in m.terms.items():
        t = tuple((n, (not x) and not DECL[n]['sym']) for n, x in reversed(w))
        if t != w or len(w) % 2 == 0 or c < 0:
            return False
        mid = w[len(w) // 2][0]
        if mid not in pos:
            return False
        st = st or (len(w) == 1 and pos[mid] == 'pd')
    return st or not strict


POS = [{}]


def PINV(a):
    """the pseudo-inverse of a positive definite matrix is its inverse (a symmetric one)"""
    a = as_mat(a, None)
    for n, b in INV.items():
        if b.terms == a.terms:
            return Mat({((n, False),): Fraction(1)}, a.shape)
    if not psd(a, POS[0], strict=True):
        raise Unsupported('inverse of a matrix that is not positive definite by construction')
    n = 'W%d' % len(INV)
    DECL[n] = dict(sym=True)
    INV[n] = a
    POS[0][n] = 'pd'
    return Mat({((n, False),): Fraction(1)}, a.shape)


def inverse_rules(pivot=None):
    """W S = I and S W = I, solved for the pivot word of S (a single named matrix by default)"""
    out = []
    for n, s in INV.items():
        one = Mat({(): Fraction(1)}, s.shape)
        w = Mat({((n, False),): Fraction(1)}, s.shape)
        p = pivot if pivot is not None and pivot in s.terms else next(k for k in s.terms if len(k) == 1)
        rest = Mat({k: v for k, v in s.terms.items() if k != p}, s.shape)
        c = s.terms[p]
        out.append((((n, False),) + p, (one - dot(w, rest)) * (1 / c)))
        out.append((p + ((n, False),), (one - dot(rest, w)) * (1 / c)))
    return out


def reset():
    DECL.clear(), INV.clear()
    POS[0] = {}


def numeric_gap(m, dim, rng):
    """largest entry of m for generic matrices of the declared sizes (inverses computed)"""
    vals = {}
    for n, d in DECL.items():
        if n in INV:
            continue
        r, c = d['dims']
        r, c = dim[r], dim[c]
        x = rng.normal(size=(r, c))
        vals[n] = x @ x.T + np.eye(r) if n in POS[0] else x
    for n, s in INV.items():
        vals[n] = np.linalg.inv(_ev(s, vals, dim, s.shape))
    return float(np.abs(_ev(m, vals, dim, m.shape)).max()) if m.terms else 0.


def _ev(m, vals, dim, shape):
    out = None
    for w, c in m.terms.items():
        p = None
        for n, t in w:
            q = vals[n].T if t else vals[n]
            p = q if p is None else p @ q
        if p is None:
            p = np.eye(max(dim.values())) if out is None else np.eye(out.shape[0])
        out = float(c) * p if out is None else out + float(c) * p
    return out

"""Products as opaque terms: ground formulas are put into polynomial normal form and every product of two or more unknown
factors becomes an application of an uninterpreted function; valid facts about the products that occur are added (definitions
multiplied by co-factors, choices inside products, signs, equal factors, monotonicity). Every step is a consequence of the
original formulas, so `unsat` carries over; `sat` does not and is never used as a verdict.
"""
from fractions import Fraction
import itertools
import z3

INT, REAL = z3.IntSort(), z3.RealSort()
MR, MI = z3.Function('mulR', REAL, REAL, REAL), z3.Function('mulI', INT, INT, INT)
INV = z3.Function('inv', REAL, REAL)
IDIV = z3.Function('idivv', INT, INT, INT)
IMOD = z3.Function('imodd', INT, INT, INT)


class Lin:
    def __init__(self):
        self.cache, self.pc, self.atoms, self.rank = {}, {}, {}, {}
        self.monos = {}         # (sort, tuple of atom ids) -> term
        self.invs, self.divs = {}, {}
        self.keep = []

    # ---- terms
    def term(self, e):
        i = e.get_id()
        if i in self.cache:
            return self.cache[i]
        self.keep.append(e)
        if z3.is_quantifier(e) or z3.is_var(e) or not z3.is_app(e):
            r = e
        elif z3.is_arith(e):
            r = self.back(self.poly(e), z3.is_int(e))
        else:
            r = self.rebuild(e)
        self.cache[i] = r
        self.keep.append(r)
        return r

    def rebuild(self, e):
        if e.num_args() == 0:
            return e
        k = [self.term(c) for c in e.children()]
        if all(a.eq(b) for a, b in zip(k, e.children())):
            return e
        return e.decl()(*k) if e.decl().kind() in (z3.Z3_OP_UNINTERPRETED,) else _mk(e, k)

    def atom(self, t):
        i = t.get_id()
        if i not in self.rank:
            d = t.decl()
            # factors in an order that equal terms share: constants first, then by function symbol
            self.rank[i] = (t.num_args() > 0, d.name(), i)
        self.atoms[i] = t
        self.keep.append(t)
        return {(i,): Fraction(1)}

    def poly(self, e):
        i = e.get_id()
        if i in self.pc:
            return self.pc[i]
        self.keep.append(e)
        r = self._poly(e)
        self.pc[i] = r
        return r

    def _poly(self, e):
        if z3.is_int_value(e):
            v = e.as_long()
            return {(): Fraction(v)} if v else {}
        if z3.is_rational_value(e):
            v = Fraction(e.numerator_as_long(), e.denominator_as_long())
            return {(): v} if v else {}
        k = e.decl().kind() if z3.is_app(e) else None
        if k == z3.Z3_OP_ADD:
            r = {}
            for c in e.children():
                r = padd(r, self.poly(c))
            return r
        if k == z3.Z3_OP_SUB:
            c = e.children()
            r = self.poly(c[0])
            for x in c[1:]:
                r = padd(r, pscale(self.poly(x), -1))
            return r
        if k == z3.Z3_OP_UMINUS:
            return pscale(self.poly(e.arg(0)), -1)
        if k == z3.Z3_OP_MUL:
            r = {(): Fraction(1)}
            for c in e.children():
                r = self.pmul(r, self.poly(c))
            return r
        if k == z3.Z3_OP_POWER and z3.is_int_value(z3.simplify(e.arg(1))) and 0 <= z3.simplify(e.arg(1)).as_long() <= 6:
            r = {(): Fraction(1)}
            for _ in range(z3.simplify(e.arg(1)).as_long()):
                r = self.pmul(r, self.poly(e.arg(0)))
            return r
        if k == z3.Z3_OP_DIV:
            d = self.poly(e.arg(1))
            if list(d) == [()]:
                return pscale(self.poly(e.arg(0)), 1 / d[()])
            t = INV(self.back(d, False))
            self.invs[t.get_id()] = (t, d)
            return self.pmul(self.poly(e.arg(0)), self.atom(t))
        if k == z3.Z3_OP_TO_REAL:
            return self.toreal(self.poly(e.arg(0)))
        if k in (z3.Z3_OP_IDIV, z3.Z3_OP_MOD):
            a, b = self.term(e.arg(0)), self.term(e.arg(1))
            if z3.is_int_value(b):
                return self.atom(a / b if k == z3.Z3_OP_IDIV else a % b)
            t = IDIV(a, b)
            self.divs[t.get_id()] = (t, self.poly(e.arg(0)), self.poly(e.arg(1)))
            self.keep.append(t)
            if k == z3.Z3_OP_IDIV:
                return self.atom(t)
            return padd(self.poly(e.arg(0)), pscale(self.pmul(self.poly(e.arg(1)), self.atom(t)), -1))
        return self.atom(self.rebuild(e))

    def toreal(self, p):
        r = {}
        for m, c in p.items():
            q = {(): c}
            for a in m:
                q = self.pmul(q, self.atom(z3.ToReal(self.atoms[a])))
            r = padd(r, q)
        return r

    def pmul(self, p, q):
        r = {}
        for a, c in p.items():
            for b, d in q.items():
                m = tuple(sorted(a + b, key=self.rank.__getitem__)) if a and b else a + b
                r[m] = r.get(m, 0) + c * d
                if r[m] == 0:
                    del r[m]
        if len(r) > 3000:
            raise TooBig()
        return r

    def mono(self, m, isint):
        if len(m) == 1:
            return self.atoms[m[0]]
        k = (isint, m)
        if k not in self.monos:
            f = MI if isint else MR
            t = self.atoms[m[-1]]
            for a in reversed(m[:-1]):
                t = f(self.atoms[a], t)
            self.monos[k] = t
            self.keep.append(t)
        return self.monos[k]

    def back(self, p, isint):
        ts = []
        for m, c in sorted(p.items()):
            n = z3.IntVal(int(c)) if isint and c.denominator == 1 else z3.RealVal(c)
            if not m:
                ts.append(n)
            else:
                t = self.mono(m, isint)
                ts.append(t if c == 1 else n * t)
        if not ts:
            return z3.IntVal(0) if isint else z3.RealVal(0)
        r = ts[0] if len(ts) == 1 else z3.Sum(*ts)
        if isint and not z3.is_int(r):
            raise TooBig()
        return r

    # ---- facts
    def facts(self, defs, limit=900, signs=90):
        """defs: list of (guard or None, lhs term, rhs term) of the original formulas"""
        out, done = [], set()
        bylhs = {}
        for g, l, r in defs:
            t = self.term(l)
            bylhs.setdefault(t.get_id(), []).append((g, t, r))
        first = list(self.monos)
        for _ in range(4):
            todo = [k for k in self.monos if k not in done]
            if not todo or len(done) > limit:
                break
            for k in todo:
                done.add(k)
                if len(done) > limit:
                    break
                isint, m = k
                t = self.monos[k]
                for p in range(len(m)):
                    if p and m[p] == m[p - 1]:
                        continue
                    a = self.atoms[m[p]]
                    rest = {m[:p] + m[p + 1:]: Fraction(1)}
                    if z3.is_app_of(a, z3.Z3_OP_ITE):
                        x, y = self.pmul(rest, self.poly(a.arg(1))), self.pmul(rest, self.poly(a.arg(2)))
                        out.append(z3.If(self.term(a.arg(0)), t == self.back(x, isint), t == self.back(y, isint)))
                    for g, l, r in bylhs.get(a.get_id(), [])[:2]:
                        f = t == self.back(self.pmul(rest, self.poly(r)), isint)
                        out.append(f if g is None else z3.Implies(self.term(g), f))
        for isint, m in list(self.monos)[:signs]:
            t = self.monos[(isint, m)]
            a = self.atoms[m[0]]
            b = self.mono(m[1:], isint)
            if len(m) == 2 and m[0] == m[1]:
                out += [t >= 0, (t == 0) == (a == 0)]
            else:
                out += [z3.Implies(z3.Or(a == 0, b == 0), t == 0), z3.Implies(z3.And(a > 0, b > 0), t > 0), z3.Implies(z3.And(a < 0, b < 0), t > 0),
                        z3.Implies(z3.And(a > 0, b < 0), t < 0), z3.Implies(z3.And(a < 0, b > 0), t < 0)]
        ks = first[:60] + [k for k in self.monos if k not in first][:30]
        for (i1, m1), (i2, m2) in itertools.combinations(ks, 2):
            if i1 != i2 or len(m1) != len(m2):
                continue
            d1, d2 = list(m1), []
            for x in m2:
                if x in d1:
                    d1.remove(x)
                else:
                    d2.append(x)
            if len(d1) == 1 and len(d2) == 1:
                x, y = self.atoms[d1[0]], self.atoms[d2[0]]
                s, t = self.monos[(i1, m1)], self.monos[(i2, m2)]
                out.append(z3.Implies(x == y, s == t))
                com = list(m1)
                com.remove(d1[0])
                if len(com) == 1 and len(ks) < 60:
                    c = self.atoms[com[0]]
                    out += [z3.Implies(z3.And(c >= 0, x <= y), s <= t), z3.Implies(z3.And(c >= 0, y <= x), t <= s), z3.Implies(z3.And(c > 0, x < y), s < t), z3.Implies(z3.And(c > 0, y < x), t < s),
                            z3.Implies(z3.And(c <= 0, x <= y), s >= t), z3.Implies(z3.And(c <= 0, y <= x), t >= s)]
        for t, d in list(self.invs.values()):
            b = self.back(d, False)
            out += [z3.Implies(b != 0, self.back(self.pmul(d, self.atom(t)), False) == 1), z3.Implies(b > 0, t > 0), z3.Implies(b < 0, t < 0)]
        for t, x, y in list(self.divs.values()):
            b = self.back(y, True)
            r = self.back(padd(x, pscale(self.pmul(y, self.atom(t)), -1)), True)
            xt = self.back(x, True)
            out += [z3.Implies(b > 0, z3.And(r >= 0, r < b)), z3.Implies(z3.And(b > 0, xt >= 0), t >= 0), z3.Implies(z3.And(b > 0, xt >= 0, xt < b), t == 0)]
        return out


class TooBig(Exception):
    pass


def padd(p, q):
    r = dict(p)
    for m, c in q.items():
        v = r.get(m, 0) + c
        if v:
            r[m] = v
        else:
            r.pop(m, None)
    return r


def pscale(p, k):
    return {m: c * k for m, c in p.items()} if k else {}


def _mk(e, k):
    d = e.decl().kind()
    if d == z3.Z3_OP_EQ:
        return k[0] == k[1]
    if d == z3.Z3_OP_ITE:
        return z3.If(*k)
    if d == z3.Z3_OP_AND:
        return z3.And(*k)
    if d == z3.Z3_OP_OR:
        return z3.Or(*k)
    if d == z3.Z3_OP_NOT:
        return z3.Not(k[0])
    if d == z3.Z3_OP_IMPLIES:
        return z3.Implies(*k)
    if d == z3.Z3_OP_LE:
        return k[0] <= k[1]
    if d == z3.Z3_OP_GE:
        return k[0] >= k[1]
    if d == z3.Z3_OP_LT:
        return k[0] < k[1]
    if d == z3.Z3_OP_GT:
        return k[0] > k[1]
    if d == z3.Z3_OP_SELECT:
        return z3.Select(*k)
    if d == z3.Z3_OP_STORE:
        return z3.Store(*k)
    if d == z3.Z3_OP_DISTINCT:
        return z3.Distinct(*k)
    if d == z3.Z3_OP_TO_INT:
        return z3.ToInt(k[0])
    if d == z3.Z3_OP_IS_INT:
        return z3.IsInt(k[0])
    if d == z3.Z3_OP_XOR:
        return z3.Xor(*k)
    return e.decl()(*k)


def definitions(fs):
    """(guard, lhs, rhs) for guarded equations whose left side is an application of an uninterpreted function"""
    out = []
    for f in fs:
        g = None
        if z3.is_implies(f):
            g, f = f.arg(0), f.arg(1)
        elif z3.is_or(f):
            eqs = [c for c in f.children() if z3.is_eq(c)]
            if len(eqs) == 1:
                g = z3.Not(z3.Or(*[c for c in f.children() if not c.eq(eqs[0])]))
                f = eqs[0]
        if z3.is_eq(f) and z3.is_arith(f.arg(0)):
            for l, r in ((f.arg(0), f.arg(1)), (f.arg(1), f.arg(0))):
                if z3.is_app(l) and l.decl().kind() == z3.Z3_OP_UNINTERPRETED and not z3.is_rational_value(r):
                    out.append((g, l, r))
    return out


def nonlinear(fs):
    seen, st = set(), list(fs)
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            continue
        if z3.is_app(x):
            k = x.decl().kind()
            if k == z3.Z3_OP_MUL and sum(not (z3.is_int_value(c) or z3.is_rational_value(c)) for c in x.children()) > 1:
                return True
            if k in (z3.Z3_OP_DIV, z3.Z3_OP_IDIV, z3.Z3_OP_MOD) and not (z3.is_int_value(x.arg(1)) or z3.is_rational_value(x.arg(1))):
                return True
            st.extend(x.children())
    return False


def linearise(fs):
    """formulas with opaque products and the facts about them"""
    L = Lin()
    main = [L.term(f) for f in fs]
    return main + L.facts(definitions(fs)), L

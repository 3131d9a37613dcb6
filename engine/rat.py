"""Exact algebra on z3 real terms: zero test of rational functions, and equality by splitting on ite conditions."""
from fractions import Fraction

import z3

import solve


class Big(Exception):
    pass


LIMIT = 4000
TINY = 10 ** 12       # coefficients below 1/TINY come from rounded constants


def padd(a, b, k=1):
    r = dict(a)
    for m, c in b.items():
        v = r.get(m, 0) + k * c
        if v:
            r[m] = v
        else:
            r.pop(m, None)
    return r


def mmul(m, n):
    if not m:
        return n
    if not n:
        return m
    d = dict(m)
    for k, e in n:
        d[k] = d.get(k, 0) + e
    return tuple(sorted(d.items()))


def pmul(a, b):
    if len(a) * len(b) > LIMIT:
        raise Big()
    r = {}
    for m, c in a.items():
        for n, e in b.items():
            k = mmul(m, n)
            v = r.get(k, 0) + c * e
            if v:
                r[k] = v
            else:
                r.pop(k, None)
    return r


def ppow(a, n):
    r = {(): Fraction(1)}
    for _ in range(n):
        r = pmul(r, a)
    return r


class Rat:
    """numerator polynomial over a product of denominator polynomials {index: power}"""

    def __init__(self):
        self.atoms, self.dens, self.memo, self.keep = {}, [], {}, []
        self.den_terms = []

    def atom(self, e):
        self.keep.append(e)
        k = e.get_id()
        self.atoms[k] = e
        return ({((k, 1),): Fraction(1)}, ())

    def den_index(self, p, e):
        # normalised up to a constant factor
        key = min(p)
        c = p[key]
        q = {m: v / c for m, v in p.items()}
        for i, d in enumerate(self.dens):
            if d == q:
                return i, c
        self.dens.append(q)
        self.den_terms.append(e)
        return len(self.dens) - 1, c

    def add(self, x, y, k=1):
        (n1, d1), (n2, d2) = x, y
        if d1 == d2:
            return padd(n1, n2, k), d1
        a, b = dict(d1), dict(d2)
        l = {i: max(a.get(i, 0), b.get(i, 0)) for i in set(a) | set(b)}
        for i, p in l.items():
            if p > a.get(i, 0):
                n1 = pmul(n1, ppow(self.dens[i], p - a.get(i, 0)))
            if p > b.get(i, 0):
                n2 = pmul(n2, ppow(self.dens[i], p - b.get(i, 0)))
        return padd(n1, n2, k), tuple(sorted(l.items()))

    def mul(self, x, y):
        return pmul(x[0], y[0]), mmul(x[1], y[1])

    def inv(self, x, e):
        n, d = x
        if not n:
            raise Big()
        num = {(): Fraction(1)}
        for i, p in d:
            num = pmul(num, ppow(self.dens[i], p))
        if len(n) == 1 and () in n:
            return {m: v / n[()] for m, v in num.items()}, ()
        i, c = self.den_index(n, e)
        return {m: v / c for m, v in num.items()}, ((i, 1),)

    def of(self, e):
        k = e.get_id()
        if k in self.memo:
            return self.memo[k]
        self.keep.append(e)
        kd = e.decl().kind()
        if z3.is_rational_value(e):
            v = Fraction(e.numerator_as_long(), e.denominator_as_long())
            r = ({(): v} if v else {}, ())
        elif z3.is_int_value(e):
            r = ({(): Fraction(e.as_long())} if e.as_long() else {}, ())
        elif kd == z3.Z3_OP_ADD:
            r = self.of(e.arg(0))
            for c in e.children()[1:]:
                r = self.add(r, self.of(c))
        elif kd == z3.Z3_OP_SUB:
            r = self.of(e.arg(0))
            for c in e.children()[1:]:
                r = self.add(r, self.of(c), -1)
        elif kd == z3.Z3_OP_UMINUS:
            n, d = self.of(e.arg(0))
            r = ({m: -v for m, v in n.items()}, d)
        elif kd == z3.Z3_OP_MUL:
            r = self.of(e.arg(0))
            for c in e.children()[1:]:
                r = self.mul(r, self.of(c))
        elif kd == z3.Z3_OP_DIV:
            r = self.mul(self.of(e.arg(0)), self.inv(self.of(e.arg(1)), e.arg(1)))
        elif kd == z3.Z3_OP_POWER and z3.is_rational_value(e.arg(1)) and e.arg(1).denominator_as_long() == 1 \
                and 0 < e.arg(1).numerator_as_long() <= 8:
            x = self.of(e.arg(0))
            r = x
            for _ in range(e.arg(1).numerator_as_long() - 1):
                r = self.mul(r, x)
        else:
            r = self.atom(e)
        self.memo[k] = r
        return r


def ites(e, out, seen):
    """innermost ite conditions of e"""
    st = [e]
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_app(x):
            if x.decl().kind() == z3.Z3_OP_ITE:
                out.append(x.arg(0))
            st.extend(x.children())


def has_ite(e):
    o = []
    ites(e, o, set())
    return bool(o)


def pick(e):
    o = []
    ites(e, o, set())
    for c in o:
        if not has_ite(c):
            return c
    return None


def prove_zero(pc, d, stats, limit=96, ms=1500):
    pc, _ = solve.slice_pc(pc, d == 0)
    lin = [c for c in pc if not solve._nonlinear([c])]
    r = _prove_zero(lin, d, stats, limit, 500)
    if not r and len(lin) < len(pc):
        r = _prove_zero(pc, d, stats, limit, ms)
    return r


def _prove_zero(pc, d, stats, limit, ms):
    """True when d == 0 under pc is shown by splitting and algebra; None when undecided"""
    s = z3.Solver()
    s.set("timeout", ms)
    for c in pc:
        s.add(c)
    n = [0]

    def chk(*a):
        stats["queries"] = stats.get("queries", 0) + 1
        return s.check(*a)

    def go(e, conds):
        e = z3.simplify(e)
        if z3.is_rational_value(e):
            if abs(e.numerator_as_long()) * TINY <= e.denominator_as_long():
                return True
            return chk() == z3.unsat
        c = pick(e)
        if c is None:
            n[0] += 1
            if n[0] > limit:
                raise Big()
            return leaf(e)
        for v in (True, False):
            s.push()
            s.add(c if v else z3.Not(c))
            try:
                if chk() != z3.unsat:
                    if not go(z3.substitute(e, (c, z3.BoolVal(v))), conds):
                        return False
            finally:
                s.pop()
        return True

    def leaf(e):
        R = Rat()
        num, _ = R.of(e)
        if all(abs(v) * TINY <= 1 for v in num.values()):
            for b in R.den_terms:
                if chk(b == 0) != z3.unsat:
                    return False
            return True
        # equal only because of the conditions: one more linear query
        if chk(e != 0) == z3.unsat:
            return True
        return False
    try:
        return go(d, [])
    except (Big, z3.Z3Exception, RecursionError):
        return None



def canon(e):
    """canonical form of a rational function, so that equal arguments of ToInt or exp are the same term"""
    e = z3.simplify(e)
    if z3.is_const(e) or z3.is_rational_value(e):
        return e
    R = Rat()
    try:
        num, den = R.of(e)
    except (Big, RecursionError):
        return e

    def poly(p):
        out = []
        for m in sorted(p):
            c = p[m]
            f = [R.atoms[k] for k, n in m for _ in range(n)]
            if c != 1 or not f:
                f = [z3.RealVal(str(c))] + f
            out.append(f[0] if len(f) == 1 else z3.Product(f))
        if not out:
            return z3.RealVal(0)
        return out[0] if len(out) == 1 else z3.Sum(out)
    r = poly(num)
    if den:
        ds = [poly(R.dens[i]) for i, n in den for _ in range(n)]
        # sorted by the canonical polynomial, independent of the order of discovery
        ds.sort(key=lambda t: t.sexpr())
        r = r / (ds[0] if len(ds) == 1 else z3.Product(ds))
    return r

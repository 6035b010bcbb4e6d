"""Rational-function normal forms over the rationals.

Used to discharge equality obligations: a term is brought to num/den with atoms
(variables, pi, sqrt and elementary-function terms), and squares of sqrt / sin
atoms are rewritten by their defining equations.  Everything is exact
(fractions.Fraction).
"""
from fractions import Fraction

MAXTERMS = 60000


class TooBig(Exception):
    pass


# a monomial is a tuple of (atom, exponent) sorted by atom; a polynomial a dict
ONE = {(): Fraction(1)}


def const(c):
    c = Fraction(c)
    return {(): c} if c else {}


def atom(a):
    return {((a, 1),): Fraction(1)}


def padd(p, q, s=1):
    if len(p) < len(q) and s == 1:
        p, q = q, p
    r = dict(p)
    for m, c in q.items():
        c = r.get(m, 0) + s * c
        if c:
            r[m] = c
        else:
            r.pop(m, None)
    return r


def pneg(p):
    return {m: -c for m, c in p.items()}


def mmul(a, b):
    if not a:
        return b
    if not b:
        return a
    d = dict(a)
    for v, e in b:
        d[v] = d.get(v, 0) + e
    return tuple(sorted(d.items()))


def pmul(p, q):
    if len(p) * len(q) > 4 * MAXTERMS:
        raise TooBig()
    r = {}
    for m, c in p.items():
        for n, d in q.items():
            k = mmul(m, n)
            v = r.get(k, 0) + c * d
            if v:
                r[k] = v
            else:
                r.pop(k, None)
    if len(r) > MAXTERMS:
        raise TooBig()
    return r


def ppow(p, n):
    r = ONE
    for _ in range(n):
        r = pmul(r, p)
    return r


def is_const(p):
    return not p or (len(p) == 1 and () in p)


def key(p):
    return tuple(sorted(p.items()))


def degree_in(p, a):
    return max((dict(m).get(a, 0) for m in p), default=0)


def atoms_of(p):
    s = set()
    for m in p:
        for v, _ in m:
            s.add(v)
    return s


def split_pow(p, a):
    """p as {e: coefficient poly} in powers of atom a"""
    r = {}
    for m, c in p.items():
        e = 0
        n = []
        for v, x in m:
            if v == a:
                e = x
            else:
                n.append((v, x))
        r.setdefault(e, {})[tuple(n)] = c
    return r


class Rat:
    """num / product of den factors; den: {key: (poly, exp)}"""

    __slots__ = ("num", "den")

    def __init__(self, num, den=None):
        self.num = num
        self.den = den or {}

    def denpoly(self):
        r = ONE
        for p, e in self.den.values():
            r = pmul(r, ppow(p, e))
        return r


def rconst(c):
    return Rat(const(c))


def _scale_to(r, den):
    n = r.num
    for k, (p, e) in den.items():
        have = r.den.get(k, (p, 0))[1]
        if e > have:
            n = pmul(n, ppow(p, e - have))
    return n


def radd(a, b, s=1):
    if not a.den and not b.den:
        return Rat(padd(a.num, b.num, s))
    den = dict(a.den)
    for k, (p, e) in b.den.items():
        if k not in den or den[k][1] < e:
            den[k] = (p, e)
    return simp(Rat(padd(_scale_to(a, den), _scale_to(b, den), s), den))


def simp(r):
    if not r.num:
        return Rat({})
    # cancel single-monomial denominators
    den = dict(r.den)
    num = r.num
    for k, (p, e) in list(den.items()):
        if len(p) == 1:
            (m, c), = p.items()
            while e > 0 and len(m) == 1 and m[0][1] == 1:
                v = m[0][0]
                if all(dict(n).get(v, 0) > 0 for n in num):
                    nn = {}
                    for n, cc in num.items():
                        d = dict(n)
                        d[v] -= 1
                        if not d[v]:
                            del d[v]
                        nn[tuple(sorted(d.items()))] = cc / c
                    num = nn
                    e -= 1
                else:
                    break
            if e:
                den[k] = (p, e)
            else:
                den.pop(k)
        elif e > 0 and len(p) == len(num):
            # proportional
            m0 = next(iter(p))
            if m0 in num:
                q = num[m0] / p[m0]
                if all(num.get(m) == q * c for m, c in p.items()):
                    num = const(q)
                    e -= 1
                    if e:
                        den[k] = (p, e)
                    else:
                        den.pop(k)
    return Rat(num, den)


def rmul(a, b):
    den = dict(a.den)
    for k, (p, e) in b.den.items():
        den[k] = (p, den.get(k, (p, 0))[1] + e)
    return simp(Rat(pmul(a.num, b.num), den))


def rinv(a):
    # 1/a
    if is_const(a.num):
        return Rat(pmul(a.denpoly(), const(1 / a.num[()])))
    # pull out the content so that equal denominators share a key
    p = a.num
    m0 = min(p)
    c = p[m0]
    q = {m: v / c for m, v in p.items()}
    if len(q) == 1:
        # product of atoms: split into factors
        den = {}
        for v, e in m0:
            pa = atom(v)
            den[key(pa)] = (pa, e)
        return simp(Rat(pmul(a.denpoly(), const(1 / c)), den))
    return simp(Rat(pmul(a.denpoly(), const(1 / c)), {key(q): (q, 1)}))


def rkey(a):
    return (key(a.num), tuple(sorted((k, e) for k, (p, e) in a.den.items())))


def subst(p, a, r):
    """numerator of p with atom a := r (Rat), and the power of den(r) used"""
    parts = split_pow(p, a)
    n = max(parts, default=0)
    if n == 0:
        return p
    d = r.denpoly()
    out = {}
    for e, q in parts.items():
        t = pmul(q, ppow(r.num, e))
        if n - e:
            t = pmul(t, ppow(d, n - e))
        out = padd(out, t)
    return out


def reduce_sq(p, a, r):
    """rewrite a^2 -> r (Rat) in p; result is proportional to p (by den(r)^k)"""
    parts = split_pow(p, a)
    n = max(parts, default=0)
    if n < 2:
        return p
    h = n // 2
    d = r.denpoly()
    out = {}
    for e, q in parts.items():
        t = pmul(q, ppow(r.num, e // 2))
        if h - e // 2:
            t = pmul(t, ppow(d, h - e // 2))
        if e % 2:
            t = pmul(t, atom(a))
        out = padd(out, t)
    return out


def linear_combination(goal, hyps, maxrows=1500):
    """is goal a rational linear combination of the polynomials in hyps?"""
    rows = {}

    def reduce(p):
        p = dict(p)
        while True:
            piv = None
            for m in p:
                if m in rows:
                    piv = m
                    break
            if piv is None:
                return p
            c = p[piv]
            p = padd(p, rows[piv], -c)

    for h in hyps[:maxrows]:
        h = reduce(h)
        if not h:
            continue
        m = max(h, key=lambda m: (sum(e for _, e in m), m))
        c = h[m]
        h = {n: v / c for n, v in h.items()}
        # keep rows reduced w.r.t. the new pivot
        for k in list(rows):
            if m in rows[k]:
                rows[k] = padd(rows[k], h, -rows[k][m])
        rows[m] = h
    return not reduce(goal)

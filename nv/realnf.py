"""Normal form over the reals: every rounding to the element type is the identity.

Polynomials with rational coefficients; a monomial is a product of atoms raised to
exponents that are linear integer forms (so v0*d^(4k+1) is a monomial).
Roundings to a narrower type than the element type (fptrunc in a double kernel) stay
opaque, so a computation that goes through one never equals one that does not.
"""
from fractions import Fraction
from .terms import *

class NoNF(Exception): pass

def lf_const(c): return ((None, Fraction(c)),) if c else ()
def lf_add(a, b):
    d = dict(a)
    for k, v in b: d[k] = d.get(k, 0) + v
    return tuple(sorted(((k, v) for k, v in d.items() if v), key=lambda p: -1 if p[0] is None else p[0].id))
def lf_scale(a, c): return tuple((k, v * c) for k, v in a) if c else ()

ONE = ()
def pconst(c):
    c = Fraction(c)
    return {ONE: c} if c else {}
def padd(p, q):
    r = dict(p)
    for m, c in q.items():
        n = r.get(m, 0) + c
        if n: r[m] = n
        else: r.pop(m, None)
    return r
def pscale(p, c):
    return {m: v * c for m, v in p.items()} if c else {}
def mmul(m1, m2):
    if not m1: return m2
    if not m2: return m1
    d = dict(m1)
    for a, e in m2:
        n = lf_add(d.get(a, ()), e)
        if n: d[a] = n
        else: d.pop(a, None)
    return tuple(sorted(d.items(), key=lambda p: (p[0].id if isinstance(p[0], T) else -1, repr(p[0]) if not isinstance(p[0], T) else '')))
def pmul(p, q):
    r = {}
    for m1, c1 in p.items():
        for m2, c2 in q.items():
            m = mmul(m1, m2); n = r.get(m, 0) + c1 * c2
            if n: r[m] = n
            else: r.pop(m, None)
    return r
def patom(a): return {((a, lf_const(1)),): Fraction(1)}

def int_lin(t):
    """exact integer linear form of an offset/index term, assuming no wrap-around (the
    executor proves the absence of wrap-around separately)"""
    if t.op == 'c': return lf_const(tosigned(t.a[0], t.s))
    if t.op == 'lin':
        r = lf_const(tosigned(t.a[0], t.s))
        for a, k in t.a[1]: r = lf_add(r, lf_scale(int_lin(a), Fraction(tosigned(k, t.s))))
        return r
    return ((t, Fraction(1)),)
def lin_poly(lf):
    p = {}
    for a, c in lf:
        p = padd(p, pconst(c) if a is None else pscale(patom(a), c))
    return p

def mkey(m):
    return repr(tuple((x.id if isinstance(x, T) else x, tuple((None if y is None else y.id, str(c)) for y, c in e)) for x, e in m))

class NF:
    def __init__(self, elem, absm=False): self.elem = elem; self.memo = {}; self.absm = absm
    def opaque(self, t): return patom(t)
    def nf(self, t):
        r = self.memo.get(t)
        if r is None:
            r = self.memo[t] = self._nf(t)
            if len(r) > 4000: raise NoNF('too large')
        return r
    def _nf(self, t):
        op = t.op; a = t.a
        if op == 'fc':
            v = float(fval(t))
            if v != v or v in (float('inf'), float('-inf')): return self.opaque(t)
            return pconst(abs(Fraction(v)) if self.absm else Fraction(v))
        if op == 'fadd': return padd(self.nf(a[0]), self.nf(a[1]))
        if op == 'fneg': return self.nf(a[0]) if self.absm else pscale(self.nf(a[0]), -1)
        if op == 'fmul': return pmul(self.nf(a[0]), self.nf(a[1]))
        if op == 'fma': return padd(pmul(self.nf(a[0]), self.nf(a[1])), self.nf(a[2]))
        if op == 'fpext': return self.nf(a[0])
        if op == 'fptrunc':
            return self.nf(a[0]) if self.elem == 'f' else self.opaque(t)
        if op == 'fdiv':
            q = self.nf(a[1])
            if len(q) == 1:
                (m, c), = q.items()
                # 1/x is an atom of its own: x*(1/x) is not 1 at x = 0
                inv = {ONE: 1 / c}
                for x, e in m: inv = pmul(inv, {((('inv', x.id if isinstance(x, T) else x), e),): Fraction(1)})
                return pmul(self.nf(a[0]), inv)
            if not q: return self.opaque(t)
            lead = q[min(q, key=mkey)]
            at = ('ipoly', tuple(sorted(((mkey(m), str(c / lead)) for m, c in q.items()))))
            return pmul(self.nf(a[0]), {((at, lf_const(1)),): 1 / lead})
        if op == 'sitofp' or op == 'uitofp':
            if self.elem == 'd' and t.s == 'f': return self.opaque(t)
            x = a[0]
            while x.op in ('zext', 'sext'): x = x.a[0]
            return lin_poly(int_lin(x))
        if op == 'ramp':
            v0, d, k = a
            return padd(self.nf(v0), pmul(self.nf(d), lin_poly(int_lin(k))))
        if op == 'geo':
            v0, d, k = a
            q = self.nf(d); e = int_lin(k)
            if len(q) == 1:
                (m, c), = q.items()
                if c == 1 and all(all(x is None for x, _ in ee) for _, ee in m):
                    mm = tuple((x, lf_scale(e, ee[0][1])) for x, ee in m)
                    mm = tuple((x, ee) for x, ee in mm if ee)
                    return pmul(self.nf(v0), {mm: Fraction(1)})
            return self.opaque(t)
        if op == 'ite':
            p, q = self.nf(a[1]), self.nf(a[2])
            if p == q: return p
            return self.opaque(t)
        return self.opaque(t)

def stable(t, p, elem):
    """no monomial of the real normal form p of t cancels on the way"""
    m = NF(elem, True).nf(t)
    return m.keys() == p.keys() and all(m[k] == abs(p[k]) for k in p)

def same(a, b, elem):
    """a (the code) and b (the contract) are the same real polynomial, and no monomial cancels
    on the way in a: then the rounding error of a is at most gamma_k times the sum of the
    magnitudes of the monomials, whatever the order of the operations.  A form that cancels
    (x + c - c, a lerp written for a sum, ...) does not have that bound and is not accepted."""
    if a is b: return True
    n = NF(elem)
    try:
        r = n.nf(a)
        if r != n.nf(b): return False
        return stable(a, r, elem) or NF(elem, True).nf(b) == NF(elem, True).nf(a)
    except NoNF: return False

def max_terms(p): return len(p)

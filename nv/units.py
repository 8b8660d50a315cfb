"""Real-number shape of a unit conversion: k*exp(A*x+B) or A*ln|x|+B.

The value of an element is a term over the element x with the contracts of exp, log, log2,
log10 and pow (vector functions) or the corresponding libm functions as primitives.  The
shape is computed with exact constants (those written in the code, as the machine reads them)
and 40-digit logarithms; the formula's coefficients must agree within the stated tolerance."""
import mpmath as mp
from .terms import *
from .ir import Unsupported

mp.mp.dps = 40
LN2, LN10 = mp.log(2), mp.log(10)
# formula: ('exp', ln k + B, A) is exp(A*x + B) ; ('log', A, B, needs |x|) is A*ln|x| + B
FORMULA = {
    'midi2freq': ('exp', LN2 / 12, mp.log(440) - 69 * LN2 / 12),
    'freq2midi': ('log', 12 / LN2, 69 - 12 * mp.log(440) / LN2, True),
    'midi2ratio': ('exp', LN2 / 12, mp.mpf(0)),
    'ratio2midi': ('log', 12 / LN2, mp.mpf(0), False),
    'oct2freq': ('exp', LN2, mp.log(440) - mp.mpf('4.75') * LN2),
    'freq2oct': ('log', 1 / LN2, mp.mpf('4.75') - mp.log(440) / LN2, True),
    'amp2db': ('log', 20 / LN10, mp.mpf(0), True),
    'db2amp': ('exp', LN10 / 20, mp.mpf(0)),
}
TOL = {'f': mp.mpf('4e-7'), 'd': mp.mpf('1e-9')}

def num(t):
    v = float(fval(t))
    if v != v or v in (float('inf'), float('-inf')): raise Unsupported('non-finite constant')
    return mp.mpf(v)

def shape(t, x):
    """('aff',a,b) a*x+b | ('abs',a) a*|x| | ('exp',s,A,B) s*exp(A*x+B) | ('log',A,B,absflag)"""
    op = t.op; a = t.a
    if t is x: return ('aff', mp.mpf(1), mp.mpf(0))
    if op == 'fc': return ('aff', mp.mpf(0), num(t))
    if op in ('fpext', 'fptrunc'): return shape(a[0], x)
    if op == 'fneg': return scale(shape(a[0], x), mp.mpf(-1))
    if op == 'fabs':
        s = shape(a[0], x)
        if s[0] == 'aff' and s[2] == 0: return ('abs', abs(s[1]))
        if s[0] == 'aff' and s[1] == 0: return ('aff', s[1], abs(s[2]))
        if s[0] == 'abs': return s
        raise Unsupported('magnitude of a shifted argument')
    if op == 'fadd': return add(shape(a[0], x), shape(a[1], x))
    if op == 'fmul':
        p, q = shape(a[0], x), shape(a[1], x)
        if p[0] == 'aff' and p[1] == 0: return scale(q, p[2])
        if q[0] == 'aff' and q[1] == 0: return scale(p, q[2])
        raise Unsupported('product of two functions of the argument')
    if op == 'fdiv':
        p, q = shape(a[0], x), shape(a[1], x)
        if q[0] == 'aff' and q[1] == 0 and q[2] != 0: return scale(p, 1 / q[2])
        raise Unsupported('quotient')
    if op == 'fma': return add(shape(fmul(a[0], a[1]), x), shape(a[2], x))
    if op == 'app':
        f = a[0][2:] if a[0].startswith('V.') else a[0]
        ar = [shape(y, x) for y in a[1:]]
        if f in ('log', 'log2', 'log10'):
            c = {'log': mp.mpf(1), 'log2': 1 / LN2, 'log10': 1 / LN10}[f]
            s = ar[0]
            if s[0] == 'abs' and s[1] > 0: return ('log', c, c * mp.log(s[1]), True)
            if s[0] == 'aff' and s[2] == 0 and s[1] > 0: return ('log', c, c * mp.log(s[1]), False)
            if s[0] == 'aff' and s[1] == 0 and s[2] > 0: return ('aff', mp.mpf(0), c * mp.log(s[2]))
            raise Unsupported('logarithm of %s' % s[0])
        if f in ('exp', 'exp2', 'exp10'):
            c = {'exp': mp.mpf(1), 'exp2': LN2, 'exp10': LN10}[f]
            if ar[0][0] == 'aff': return ('exp', mp.mpf(1), c * ar[0][1], c * ar[0][2])
        if f == 'pow' and ar[0][0] == 'aff' and ar[0][1] == 0 and ar[0][2] > 0 and ar[1][0] == 'aff':
            c = mp.log(ar[0][2]); return ('exp', mp.mpf(1), c * ar[1][1], c * ar[1][2])
        raise Unsupported('function ' + f)
    raise Unsupported('shape of ' + op)
def scale(s, c):
    if s[0] == 'aff': return ('aff', s[1] * c, s[2] * c)
    if s[0] == 'abs':
        if c <= 0: raise Unsupported('negated magnitude')
        return ('abs', s[1] * c)
    if s[0] == 'log': return ('log', s[1] * c, s[2] * c, s[3])
    if c == 0: raise Unsupported('zero')
    return ('exp', s[1] * c, s[2], s[3])
def add(p, q):
    if p[0] == 'aff' and q[0] == 'aff': return ('aff', p[1] + q[1], p[2] + q[2])
    if q[0] == 'log': p, q = q, p
    if p[0] == 'log' and q[0] == 'aff' and q[1] == 0: return ('log', p[1], p[2] + q[2], p[3])
    if p[0] == 'log' and q[0] == 'log' and p[3] == q[3]: return ('log', p[1] + q[1], p[2] + q[2], p[3])
    raise Unsupported('sum of %s and %s' % (p[0], q[0]))

def check(name, e, val, x):
    """(status, reason)"""
    try: s = shape(val, x)
    except Unsupported as u: return 'unknown', str(u)
    f = FORMULA[name]; tol = TOL[e]
    def near(u, v, sc): return abs(u - v) <= tol * sc
    if f[0] == 'exp':
        if s[0] != 'exp': return 'refuted', 'computes a function of the form %s, not an exponential' % s[0]
        if s[1] <= 0: return 'refuted', 'result is negative'
        A, B = s[2], s[3] + mp.log(s[1])
        if not near(A, f[1], abs(f[1])): return 'refuted', 'exponent slope is %s, formula has %s' % (mp.nstr(A, 15), mp.nstr(f[1], 15))
        if not near(B, f[2], 1 + abs(f[2])): return 'refuted', 'exponent offset is %s, formula has %s' % (mp.nstr(B, 15), mp.nstr(f[2], 15))
        return 'proved', 'coefficients of the exponential'
    if s[0] != 'log': return 'refuted', 'computes a function of the form %s, not a logarithm' % s[0]
    if s[3] != f[3]: return ('refuted', 'does not use the magnitude of the argument') if f[3] else ('proved', 'coefficients of the logarithm')
    if not near(s[1], f[1], abs(f[1])): return 'refuted', 'factor is %s, formula has %s' % (mp.nstr(s[1], 15), mp.nstr(f[1], 15))
    if not near(s[2], f[2], 1 + abs(f[2]) + abs(f[1])): return 'refuted', 'offset is %s, formula has %s' % (mp.nstr(s[2], 15), mp.nstr(f[2], 15))
    return 'proved', 'coefficients of the logarithm'

INVERSE = [('midi2freq', 'freq2midi'), ('midi2ratio', 'ratio2midi'), ('oct2freq', 'freq2oct'), ('db2amp', 'amp2db')]
def lemma_inverse():
    """the formulas themselves are mutually inverse: A*(A'x+B')+B == x"""
    out = []
    for ex, lg in INVERSE:
        _, A1, B1 = FORMULA[ex]; _, A2, B2, _ = FORMULA[lg]
        ok = abs(A2 * A1 - 1) < mp.mpf(10) ** -35 and abs(A2 * B1 + B2) < mp.mpf(10) ** -33
        out.append(('%s inverts %s' % (lg, ex), ok))
    return out

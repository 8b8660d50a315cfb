"""Hash-consed first-order terms: booleans, bit-vectors, IEEE floats.

Sorts: 'B' bool, int w bit-vector of width w, 'f' binary32, 'd' binary64.
Every constructor performs only rewrites that are valid for all bit patterns
(unless a comment says otherwise), so terms are exact denotations of the IR.
"""
import math, struct
import numpy as np

class T:
    __slots__ = ('op', 'a', 's', 'id')
    def __repr__(self): return show(self)

_tab = {}
_cnt = [0]

def mk(op, args, sort):
    key = (op, args, sort)
    t = _tab.get(key)
    if t is None:
        t = T.__new__(T)
        t.op = op; t.a = args; t.s = sort
        _cnt[0] += 1; t.id = _cnt[0]
        _tab[key] = t
    return t

# T objects are interned, so identity hashing is right (default object hash/eq)

def reset():
    _tab.clear()

FW = {'f': 32, 'd': 64}
SORT_OF_W = {32: 'f', 64: 'd'}
SIGN = {'f': 1 << 31, 'd': 1 << 63}
def mask(w): return (1 << w) - 1

TRUE = mk('true', (), 'B')
FALSE = mk('false', (), 'B')
def boolc(b): return TRUE if b else FALSE

# ---------------------------------------------------------------- constants
def bvc(v, w): return mk('c', (v & mask(w),), w)
def isc(t): return t.op == 'c'
def sym(name, sort): return mk('sym', (name,), sort)
_fresh = [0]
def fresh(prefix, sort):
    _fresh[0] += 1
    return mk('sym', ('%s!%d' % (prefix, _fresh[0]),), sort)

def f2bits(x, s):
    if s == 'f': return struct.unpack('<I', struct.pack('<f', x))[0]
    return struct.unpack('<Q', struct.pack('<d', x))[0]
def bits2f(b, s):
    if s == 'f': return struct.unpack('<f', struct.pack('<I', b))[0]
    return struct.unpack('<d', struct.pack('<Q', b))[0]
def np2bits(x, s):
    return int(np.asarray(x).view(np.uint32 if s == 'f' else np.uint64))
def bits2np(b, s):
    return (np.uint32(b).view(np.float32) if s == 'f' else np.uint64(b).view(np.float64))
NPT = {'f': np.float32, 'd': np.float64}

def fcb(bits, s): return mk('fc', (bits,), s)
def fc(x, s):
    if s == 'f':
        with np.errstate(all='ignore'): return mk('fc', (np2bits(np.float32(x), 'f'),), 'f')
    return mk('fc', (f2bits(float(x), 'd'),), 'd')
def isfc(t): return t.op == 'fc'
def fval(t): return bits2np(t.a[0], t.s)

# ---------------------------------------------------------------- bit-vectors
def _lin_parts(t):
    """-> (const, dict atom->coef)"""
    if t.op == 'c': return t.a[0], {}
    if t.op == 'lin': return t.a[0], dict(t.a[1])
    return 0, {t: 1}

def _mklin(c, d, w):
    m = mask(w); c &= m
    items = [(a, k & m) for a, k in d.items() if k & m]
    if not items: return bvc(c, w)
    if c == 0 and len(items) == 1 and items[0][1] == 1: return items[0][0]
    items.sort(key=lambda p: p[0].id)
    return mk('lin', (c, tuple(items)), w)

def badd(x, y):
    c1, d1 = _lin_parts(x); c2, d2 = _lin_parts(y)
    d = dict(d1)
    for a, k in d2.items(): d[a] = d.get(a, 0) + k
    return _mklin(c1 + c2, d, x.s)

def bmulc(x, k):
    c, d = _lin_parts(x)
    return _mklin(c * k, {a: v * k for a, v in d.items()}, x.s)
def bneg(x): return bmulc(x, -1)
def bsub(x, y): return badd(x, bneg(y))

def bmul(x, y):
    if isc(x): return bmulc(y, x.a[0])
    if isc(y): return bmulc(x, y.a[0])
    if x.id > y.id: x, y = y, x
    return mk('mul', (x, y), x.s)

def tosigned(v, w): return v - (1 << w) if v >> (w - 1) else v

def budiv(x, y):
    if isc(y):
        if y.a[0] == 1: return x
        if y.a[0]:
            if isc(x): return bvc(x.a[0] // y.a[0], x.s)
    return mk('udiv', (x, y), x.s)
def burem(x, y):
    if isc(y) and y.a[0]:
        if isc(x): return bvc(x.a[0] % y.a[0], x.s)
        if y.a[0] == 1: return bvc(0, x.s)
    return mk('urem', (x, y), x.s)
def bsdiv(x, y):
    if isc(x) and isc(y) and y.a[0]:
        a, b = tosigned(x.a[0], x.s), tosigned(y.a[0], x.s)
        q = abs(a) // abs(b)
        return bvc(q if (a < 0) == (b < 0) else -q, x.s)
    if isc(y) and y.a[0] == 1: return x
    return mk('sdiv', (x, y), x.s)
def bsrem(x, y):
    if isc(x) and isc(y) and y.a[0]:
        a, b = tosigned(x.a[0], x.s), tosigned(y.a[0], x.s)
        r = abs(a) % abs(b)
        return bvc(-r if a < 0 else r, x.s)
    return mk('srem', (x, y), x.s)

def _is_cite(t): return t.op == 'ite' and isc(t.a[1]) and isc(t.a[2])

class _Ite:
    __slots__ = ('op', 'a', 's')
def _unb(t):
    """bits(ite(c, a, b)) seen as ite(c, bits(a), bits(b))"""
    if t.op == 'bits' and t.a[0].op == 'ite':
        c, a, b = t.a[0].a
        r = _Ite(); r.op = 'ite'; r.a = (c, bits(a), bits(b)); r.s = t.s
        return r
    return t
def _push(f, x, y):
    """distribute a bit operation over ite when one side is an ite of constants
    or both sides are ites over the same condition"""
    x0, y0 = x, y
    x, y = _unb(x), _unb(y)
    if x.op == 'ite' and y.op == 'ite' and x.a[0] is y.a[0]:
        return ite(x.a[0], f(x.a[1], y.a[1]), f(x.a[2], y.a[2]))
    m = mask(x.s)
    for p, q in ((x, y0), (y, x0)):
        if p.op == 'ite' and ((isc(p.a[1]) and p.a[1].a[0] in (0, m)) or (isc(p.a[2]) and p.a[2].a[0] in (0, m))):
            if _is_cite(p) :
                return ite(p.a[0], f(p.a[1], q), f(p.a[2], q))
    return None

def _split(f, x, y):
    """bitwise operation on concatenations, piece by piece"""
    if y.op == 'concat' and x.op != 'concat': x, y = y, x
    if x.op != 'concat' or not (isc(y) or y.op == 'concat'): return None
    hi, lo = x.a
    return concat(f(hi, extract(y, lo.s, hi.s)), f(lo, extract(y, 0, lo.s)))

def band(x, y):
    w = x.s; m = mask(w)
    r = _split(band, x, y)
    if r is not None: return r
    if isc(x) and not isc(y): x, y = y, x
    if isc(y):
        k = y.a[0]
        if isc(x): return bvc(x.a[0] & k, w)
        if k == 0: return y
        if k == m: return x
        if x.op == 'bits' and k == m >> 1: return bits(fabs(x.a[0]))
        u = _unb(x)
        if u is not x and (isc(u.a[1]) or isc(u.a[2])): return ite(u.a[0], band(u.a[1], y), band(u.a[2], y))
        if x.op == 'and' and isc(x.a[1]): return band(x.a[0], bvc(x.a[1].a[0] & k, w))
        if x.op == 'ite': return ite(x.a[0], band(x.a[1], y), band(x.a[2], y))
        return mk('and', (x, y), w)
    if x is y: return x
    r = _push(band, x, y)
    if r is not None: return r
    if x.id > y.id: x, y = y, x
    return mk('and', (x, y), w)

def _sgn_of(t):
    """t == and(bits(x), SIGN) -> x"""
    if t.op == 'and' and t.a[0].op == 'bits' and isc(t.a[1]) and t.a[1].a[0] == 1 << (t.s - 1):
        return t.a[0].a[0]
    return None
def _nonneg(x):
    """x's sign bit is provably clear (float term)"""
    if x.op == 'fabs': return True
    if x.op == 'fc': return not (x.a[0] & SIGN[x.s])
    if x.op == 'ite': return _nonneg(x.a[1]) and _nonneg(x.a[2])
    if x.op == 'fsqrt': return _nonneg(x.a[0]) and False
    return False

def bor(x, y):
    w = x.s; m = mask(w)
    r = _split(bor, x, y)
    if r is not None: return r
    if isc(x) and not isc(y): x, y = y, x
    if isc(y):
        k = y.a[0]
        if isc(x): return bvc(x.a[0] | k, w)
        if k == 0: return x
        if k == m: return y
        return mk('or', (x, y), w)
    if x is y: return x
    r = _push(bor, x, y)
    if r is not None: return r
    if x.id > y.id: x, y = y, x
    return mk('or', (x, y), w)

def bxor(x, y):
    w = x.s; m = mask(w)
    r = _split(bxor, x, y)
    if r is not None: return r
    if isc(x) and not isc(y): x, y = y, x
    if isc(y):
        k = y.a[0]
        if isc(x): return bvc(x.a[0] ^ k, w)
        if k == 0: return x
        if x.op == 'bits' and k == 1 << (w - 1): return bits(fneg(x.a[0]))
        u = _unb(x)
        if u is not x and (isc(u.a[1]) or isc(u.a[2])): return ite(u.a[0], bxor(u.a[1], y), bxor(u.a[2], y))
        if k == m and x.op == 'xor' and isc(x.a[1]) and x.a[1].a[0] == m: return x.a[0]
        if x.op == 'ite' : return ite(x.a[0], bxor(x.a[1], y), bxor(x.a[2], y))
        return mk('xor', (x, y), w)
    if x is y: return bvc(0, w)
    for p, q in ((x, y), (y, x)):
        s = _sgn_of(p)
        if s is not None and q.op == 'bits' and q.a[0] is s: return bits(fabs(s))
    r = _push(bxor, x, y)
    if r is not None: return r
    if x.id > y.id: x, y = y, x
    return mk('xor', (x, y), w)

def bshl(x, y):
    if isc(y):
        k = y.a[0]
        if k == 0: return x
        if k >= x.s: return bvc(0, x.s)
        return bmulc(x, 1 << k) if (isc(x) or x.op in ('lin', 'sym', 'zext')) else mk('shl', (x, y), x.s)
    return mk('shl', (x, y), x.s)
def blshr(x, y):
    if isc(y):
        k = y.a[0]
        if k == 0: return x
        if k >= x.s: return bvc(0, x.s)
        if isc(x): return bvc(x.a[0] >> k, x.s)
        return budiv(x, bvc(1 << k, x.s)) if x.op in ('lin', 'sym', 'zext') else mk('lshr', (x, y), x.s)
    return mk('lshr', (x, y), x.s)
def bashr(x, y):
    if isc(x) and isc(y):
        return bvc(tosigned(x.a[0], x.s) >> min(y.a[0], x.s - 1), x.s)
    if isc(y) and y.a[0] == 0: return x
    return mk('ashr', (x, y), x.s)

def zext(x, w):
    if x.s == 'B': return ite(x, bvc(1, w), bvc(0, w))
    if x.s == w: return x
    if isc(x): return bvc(x.a[0], w)
    if x.op == 'zext': return zext(x.a[0], w)
    if x.op == 'ite' and _is_cite(x): return ite(x.a[0], zext(x.a[1], w), zext(x.a[2], w))
    return mk('zext', (x,), w)
def sext(x, w):
    if x.s == 'B': return ite(x, bvc(-1, w), bvc(0, w))
    if x.s == w: return x
    if isc(x): return bvc(tosigned(x.a[0], x.s), w)
    if x.op == 'zext': return zext(x.a[0], w)
    if x.op == 'ite' and _is_cite(x): return ite(x.a[0], sext(x.a[1], w), sext(x.a[2], w))
    return mk('sext', (x,), w)
def trunc(x, w):
    if x.s == w: return x
    if w == 'B' or w == 1:
        if isc(x): return boolc(x.a[0] & 1)
        if x.op == 'ite': return bite(x.a[0], trunc(x.a[1], 'B'), trunc(x.a[2], 'B'))
        return bnot(bveq(band(x, bvc(1, x.s)), bvc(0, x.s)))
    if isc(x): return bvc(x.a[0], w)
    if x.op in ('zext', 'sext'):
        y = x.a[0]
        if y.s == w: return y
        if y.s > w: return trunc(y, w)
        return zext(y, w) if x.op == 'zext' else sext(y, w)
    if x.op == 'lin':
        d = {}
        for a, k in x.a[1]:
            ta = trunc(a, w); c2, d2 = _lin_parts(ta)
            for q, kk in d2.items(): d[q] = d.get(q, 0) + kk * k
            if c2: d[bvc(1, w)] = d.get(bvc(1, w), 0) + c2 * k
        c = x.a[0] + d.pop(bvc(1, w), 0)
        return _mklin(c, d, w)
    if x.op == 'concat' and x.a[1].s == w: return x.a[1]
    if x.op == 'concat' and x.a[1].s > w: return trunc(x.a[1], w)
    if x.op == 'ite': return ite(x.a[0], trunc(x.a[1], w), trunc(x.a[2], w))
    return mk('extract', (x, 0), w)
def extract(x, lo, w):
    """bits [lo, lo+w)"""
    if lo == 0: return trunc(x, w)
    if isc(x): return bvc(x.a[0] >> lo, w)
    if x.op == 'concat':
        hi, l = x.a
        if lo >= l.s: return extract(hi, lo - l.s, w)
        if lo + w <= l.s: return extract(l, lo, w)
    if x.op == 'ite': return ite(x.a[0], extract(x.a[1], lo, w), extract(x.a[2], lo, w))
    if x.op == 'zext' and lo >= x.a[0].s: return bvc(0, w)
    return mk('extract', (x, lo), w)
def concat(hi, lo):
    if isc(hi) and isc(lo): return bvc(hi.a[0] << lo.s | lo.a[0], hi.s + lo.s)
    if hi.op == 'extract' and lo.op == 'extract' and hi.a[0] is lo.a[0] and hi.a[1] == lo.a[1] + lo.s:
        return extract(lo.a[0], lo.a[1], hi.s + lo.s)
    return mk('concat', (hi, lo), hi.s + lo.s)

# ---------------------------------------------------------------- booleans
def bnot(b):
    if b is TRUE: return FALSE
    if b is FALSE: return TRUE
    if b.op == 'not': return b.a[0]
    return mk('not', (b,), 'B')
def pand(x, y):
    if x is FALSE or y is FALSE: return FALSE
    if x is TRUE: return y
    if y is TRUE or x is y: return x
    if bnot(x) is y: return FALSE
    if x.id > y.id: x, y = y, x
    return mk('pand', (x, y), 'B')
def por(x, y): return bnot(pand(bnot(x), bnot(y)))
def pxor(x, y):
    if x is TRUE: return bnot(y)
    if y is TRUE: return bnot(x)
    if x is FALSE: return y
    if y is FALSE: return x
    if x is y: return FALSE
    if x.id > y.id: x, y = y, x
    return mk('pxor', (x, y), 'B')
def conj(l):
    r = TRUE
    for x in l: r = pand(r, x)
    return r

def bite(c, a, b):
    if c is TRUE or a is b: return a
    if c is FALSE: return b
    if c.op == 'not': return bite(c.a[0], b, a)
    if a is TRUE and b is FALSE: return c
    if a is FALSE and b is TRUE: return bnot(c)
    if a is TRUE: return por(c, b)
    if a is FALSE: return pand(bnot(c), b)
    if b is FALSE: return pand(c, a)
    if b is TRUE: return por(bnot(c), a)
    return mk('bite', (c, a, b), 'B')

def ite(c, a, b):
    if a.s == 'B': return bite(c, a, b)
    if a is b or c is TRUE: return a
    if c is FALSE: return b
    if c.op == 'not': return ite(c.a[0], b, a)
    if a.op == 'ite' and a.a[0] is c: a = a.a[1]
    if b.op == 'ite' and b.a[0] is c: b = b.a[2]
    if a is b: return a
    if a.op == 'bits' and b.op == 'bits': return bits(ite(c, a.a[0], b.a[0]))
    if a.op == 'bits' and isc(b): return bits(ite(c, a.a[0], fp(b)))
    if b.op == 'bits' and isc(a): return bits(ite(c, fp(a), b.a[0]))
    return mk('ite', (c, a, b), a.s)

def bveq(x, y):
    if x is y: return TRUE
    if isc(x) and isc(y): return boolc(x.a[0] == y.a[0])
    if isc(x): x, y = y, x
    if isc(y) and x.op == 'ite' and _is_cite(x):
        return bite(x.a[0], bveq(x.a[1], y), bveq(x.a[2], y))
    d = bsub(x, y)
    if isc(d): return boolc(d.a[0] == 0)
    if x.id > y.id and not isc(y): x, y = y, x
    return mk('bveq', (x, y), 'B')
def bvult(x, y):
    if x is y: return FALSE
    if isc(x) and isc(y): return boolc(x.a[0] < y.a[0])
    if isc(y) and y.a[0] == 0: return FALSE
    if isc(x) and x.a[0] == 0: return bnot(bveq(y, x))
    return mk('bvult', (x, y), 'B')
def bvule(x, y): return bnot(bvult(y, x))
def bvslt(x, y):
    if x is y: return FALSE
    if isc(x) and isc(y): return boolc(tosigned(x.a[0], x.s) < tosigned(y.a[0], y.s))
    if x.op == 'ite' and _is_cite(x) and isc(y): return bite(x.a[0], bvslt(x.a[1], y), bvslt(x.a[2], y))
    if isc(y) and y.a[0] == 0: # sign bit
        if x.op == 'bits': return signbit(x.a[0])
    return mk('bvslt', (x, y), 'B')
def bvsle(x, y): return bnot(bvslt(y, x))

# ---------------------------------------------------------------- floats
def bits(x):
    if x.op == 'fc': return bvc(x.a[0], FW[x.s])
    if x.op == 'fp': return x.a[0]
    if x.op == 'ite' and x.a[1].op in ('fp',) and x.a[2].op in ('fp',):
        return ite(x.a[0], x.a[1].a[0], x.a[2].a[0])
    return mk('bits', (x,), FW[x.s])
def fp(b):
    s = SORT_OF_W[b.s]
    if isc(b): return fcb(b.a[0], s)
    if b.op == 'bits': return b.a[0]
    if b.op == 'ite': return ite(b.a[0], fp(b.a[1]), fp(b.a[2]))
    return mk('fp', (b,), s)
def signbit(x):
    if x.op == 'fc': return boolc(bool(x.a[0] & SIGN[x.s]))
    if x.op == 'fp':
        b = x.a[0]
        return bnot(bveq(band(b, bvc(SIGN[x.s], b.s)), bvc(0, b.s)))
    if x.op == 'fabs': return FALSE
    if x.op == 'ite': return bite(x.a[0], signbit(x.a[1]), signbit(x.a[2]))
    if x.op == 'fneg': return bnot(signbit(x.a[0]))
    return mk('signbit', (x,), 'B')
def fneg(x):
    if x.op == 'fc': return fcb(x.a[0] ^ SIGN[x.s], x.s)
    if x.op == 'fneg': return x.a[0]
    if x.op == 'ite' and (isfc(x.a[1]) or isfc(x.a[2])): return ite(x.a[0], fneg(x.a[1]), fneg(x.a[2]))
    return mk('fneg', (x,), x.s)
def fabs(x):
    if x.op == 'fc': return fcb(x.a[0] & ~SIGN[x.s], x.s)
    if x.op == 'fneg': return fabs(x.a[0])
    if x.op == 'fabs': return x
    if x.op == 'ite' and (isfc(x.a[1]) or isfc(x.a[2])): return ite(x.a[0], fabs(x.a[1]), fabs(x.a[2]))
    return mk('fabs', (x,), x.s)
def copysign(x, y):
    w = FW[x.s]
    return fp(bor(band(bits(x), bvc(mask(w) >> 1, w)), band(bits(y), bvc(1 << (w - 1), w))))

def _fold(f, *a):
    with np.errstate(all='ignore'):
        r = f(*[fval(x) for x in a])
    if np.isnan(r): return None
    return fcb(np2bits(NPT[a[0].s](r), a[0].s), a[0].s)

def fadd(x, y):
    if isfc(x) and isfc(y):
        r = _fold(lambda p, q: p + q, x, y)
        if r is not None: return r
    if x.id > y.id: x, y = y, x
    return mk('fadd', (x, y), x.s)
def fsub(x, y):
    # a-b is defined as a+(-b) in IEEE (also for NaN-ness and zero signs)
    return fadd(x, fneg(y))
def fmul(x, y):
    if isfc(x) and isfc(y):
        r = _fold(lambda p, q: p * q, x, y)
        if r is not None: return r
    if isfc(x) and x.a[0] == f2bits(1.0, x.s): return y
    if isfc(y) and y.a[0] == f2bits(1.0, y.s): return x
    if x.id > y.id: x, y = y, x
    return mk('fmul', (x, y), x.s)
def fdiv(x, y):
    if isfc(x) and isfc(y):
        r = _fold(lambda p, q: p / q, x, y)
        if r is not None: return r
    return mk('fdiv', (x, y), x.s)
def fsqrt(x):
    if isfc(x):
        r = _fold(np.sqrt, x)
        if r is not None: return r
    return mk('fsqrt', (x,), x.s)
def fma(x, y, z):
    if x.id > y.id: x, y = y, x
    return mk('fma', (x, y, z), x.s)
def fpext(x):
    if isfc(x) and not np.isnan(fval(x)): return fc(float(fval(x)), 'd')
    return mk('fpext', (x,), 'd')
def fptrunc(x):
    if isfc(x) and not np.isnan(fval(x)): return fc(float(fval(x)), 'f')
    if x.op == 'fpext': return x.a[0]
    return mk('fptrunc', (x,), 'f')
def sitofp(x, s):
    if isc(x):
        v = tosigned(x.a[0], x.s)
        if abs(v) < 1 << 24: return fc(v, s)
    if x.op == 'ite' and _is_cite(x): return ite(x.a[0], sitofp(x.a[1], s), sitofp(x.a[2], s))
    return mk('sitofp', (x,), s)
def uitofp(x, s):
    if x.s == 'B': return ite(x, fc(1, s), fc(0, s))
    if isc(x) and x.a[0] < 1 << 24: return fc(x.a[0], s)
    if x.op == 'ite' and _is_cite(x): return ite(x.a[0], uitofp(x.a[1], s), uitofp(x.a[2], s))
    if x.op == 'zext': return mk('sitofp', (x,), s)
    return mk('uitofp', (x,), s)
def fptosi(x, w): return mk('fptosi', (x,), w)
def fptoui(x, w): return mk('fptoui', (x,), w)
def cvtt(x): return mk('cvtt', (x,), 32)
def rti(mode, x):
    if isfc(x):
        v = float(fval(x))
        if math.isfinite(v):
            f = {'rtn': math.floor, 'rtp': math.ceil, 'rtz': math.trunc, 'rne': lambda q: int(np.rint(q)),
                 'rna': lambda q: int(math.copysign(math.floor(abs(q) + 0.5), q))}[mode]
            r = fc(f(v), x.s)
            if not (r.a[0] & ~SIGN[x.s]): r = fcb(x.a[0] & SIGN[x.s], x.s)
            return r
    return mk('rti', (mode, x), x.s)

def olt(x, y):
    if isfc(x) and isfc(y): return boolc(bool(fval(x) < fval(y)))
    if x is y: return FALSE
    return mk('olt', (x, y), 'B')
def ole(x, y):
    if isfc(x) and isfc(y): return boolc(bool(fval(x) <= fval(y)))
    return mk('ole', (x, y), 'B')
def oeq(x, y):
    if isfc(x) and isfc(y): return boolc(bool(fval(x) == fval(y)))
    if x.id > y.id: x, y = y, x
    return mk('oeq', (x, y), 'B')
def uno(x, y):
    if isfc(x) and not np.isnan(fval(x)): x = y
    if isfc(y) and not np.isnan(fval(y)): y = x
    if isfc(x) and isfc(y) and not (np.isnan(fval(x)) or np.isnan(fval(y))): return FALSE
    if x is y: return bnot(oeq(x, x))
    return por(bnot(oeq(x, x)), bnot(oeq(y, y)))
def fcmp(pred, x, y):
    if pred == 'oeq': return oeq(x, y)
    if pred == 'ogt': return olt(y, x)
    if pred == 'oge': return ole(y, x)
    if pred == 'olt': return olt(x, y)
    if pred == 'ole': return ole(x, y)
    if pred == 'one': return por(olt(x, y), olt(y, x))
    if pred == 'ord': return bnot(uno(x, y))
    if pred == 'uno': return uno(x, y)
    if pred == 'ueq': return bnot(por(olt(x, y), olt(y, x)))
    if pred == 'ugt': return bnot(ole(x, y))
    if pred == 'uge': return bnot(olt(x, y))
    if pred == 'ult': return bnot(ole(y, x))
    if pred == 'ule': return bnot(olt(y, x))
    if pred == 'une': return bnot(oeq(x, y))
    if pred == 'true': return TRUE
    if pred == 'false': return FALSE
    raise ValueError(pred)

def app(name, args, s): return mk('app', (name,) + tuple(args), s)
def sel(obj, off, s): return mk('sel', (obj, off), s)

# loop-closed values (see symex.py)
def ramp(v0, d, k): return mk('ramp', (v0, d, k), v0.s)      # v0 + k*d over the reals
def geo(v0, d, k): return mk('geo', (v0, d, k), v0.s)        # v0 * d^k over the reals
def red(kind, v0, gs, k, cnt): return mk('red', (kind, v0, tuple(gs), k, cnt), v0.s)  # fold of kind over gs(k), k in [0,cnt)

# ---------------------------------------------------------------- rebuild / substitution
REB = {
 'lin': None, 'mul': bmul, 'udiv': budiv, 'urem': burem, 'sdiv': bsdiv, 'srem': bsrem, 'and': band, 'or': bor,
 'xor': bxor, 'shl': bshl, 'lshr': blshr, 'ashr': bashr, 'concat': concat, 'not': bnot, 'pand': pand,
 'pxor': pxor, 'bite': bite, 'ite': ite, 'bveq': bveq, 'bvult': bvult, 'bvslt': bvslt, 'bits': bits, 'fp': fp,
 'signbit': signbit, 'fneg': fneg, 'fabs': fabs, 'fadd': fadd, 'fmul': fmul, 'fdiv': fdiv, 'fsqrt': fsqrt,
 'fma': fma, 'fpext': fpext, 'fptrunc': fptrunc, 'cvtt': cvtt, 'olt': olt, 'ole': ole, 'oeq': oeq, 'ramp': ramp, 'geo': geo,
}
def rebuild(t, na):
    op = t.op
    if op == 'lin':
        raise AssertionError
    f = REB.get(op)
    if f: return f(*na)
    if op in ('zext',): return zext(na[0], t.s)
    if op == 'sext': return sext(na[0], t.s)
    if op == 'extract': return extract(na[0], na[1], t.s)
    if op == 'sitofp': return sitofp(na[0], t.s)
    if op == 'uitofp': return uitofp(na[0], t.s)
    if op in ('fptosi', 'fptoui'): return mk(op, tuple(na), t.s)
    if op == 'rti': return rti(*na)
    return mk(op, tuple(na), t.s)

def subst(t, m, memo=None):
    """replace atoms (dict T->T)"""
    if memo is None: memo = {}
    def go(x):
        if not isinstance(x, T):
            if isinstance(x, tuple): return tuple(go(y) for y in x)
            return x
        r = m.get(x)
        if r is not None: return r
        if not x.a: return x
        r = memo.get(x)
        if r is not None: return r
        if x.op in ('c', 'fc', 'sym'): r = x
        elif x.op == 'lin':
            r = bvc(x.a[0], x.s)
            for a, k in x.a[1]: r = badd(r, bmulc(go(a), k))
        elif x.op == 'red':
            kind, v0, gs, k, cnt = x.a
            # bound variable k is left alone inside gs
            mm = {p: q for p, q in m.items() if p is not k}
            gs2 = tuple(subst(g, mm) for g in gs) if mm else gs
            r = red(kind, go(v0), gs2, k, go(cnt))
        else:
            na = [go(y) for y in x.a]
            r = x if all(p is q or p == q for p, q in zip(na, x.a)) else rebuild(x, na)
        memo[x] = r
        return r
    import sys
    return go(t)

def atoms(t, seen=None, out=None, pred=None):
    """all subterms (set)"""
    seen = set() if seen is None else seen
    st = [t]
    while st:
        x = st.pop()
        if isinstance(x, tuple): st.extend(x); continue
        if not isinstance(x, T) or x in seen: continue
        seen.add(x)
        if x.op == 'lin': st.extend(a for a, _ in x.a[1])
        else: st.extend(x.a)
    return seen

_cont = {}
def contains(t, v):
    return v in atoms(t)

def show(t, depth=12):
    if not isinstance(t, T): return repr(t) if not isinstance(t, tuple) else '(' + ' '.join(show(x, depth) for x in t) + ')'
    if t.op == 'c': return '%d' % tosigned(t.a[0], t.s) if t.a[0] < 1 << 20 or t.a[0] > mask(t.s) - (1 << 20) else hex(t.a[0])
    if t.op == 'fc': return '%.9g%s' % (bits2f(t.a[0], t.s), t.s if t.s == 'f' else '')
    if t.op == 'sym': return t.a[0]
    if not t.a: return t.op
    if depth == 0: return '...'
    if t.op == 'lin':
        return '(' + '+'.join(([str(tosigned(t.a[0], t.s))] if t.a[0] else []) + [(('%d*' % tosigned(k, t.s)) if k != 1 else '') + show(a, depth - 1) for a, k in t.a[1]]) + ')'
    return t.op + '(' + ', '.join(show(x, depth - 1) for x in t.a) + ')'

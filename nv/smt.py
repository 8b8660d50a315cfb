"""Discharge of verification conditions: terms -> z3.

Machine integers are bit-vectors, floats are IEEE-754 (round to nearest even).
A float atom is a bit-vector variable, so NaN payloads and signed zeros are
kept; the result of a rounding operation has nondeterministic bits when it is
NaN (as in the IEEE standard), which only over-approximates.
"""
import time
import z3
from .terms import *

STATS = {'queries': 0, 'solver_s': 0.0, 'cache_hits': 0, 'syntactic': 0, 'max_s': 0.0}
ASSUME = {}          # sym -> list of bool terms that constrain it (ranges, k < X, preconditions)

RM = z3.RNE()
FS = {'f': z3.Float32(), 'd': z3.Float64()}
RMODE = {'rtn': z3.RTN(), 'rtp': z3.RTP(), 'rtz': z3.RTZ(), 'rne': z3.RNE(), 'rna': z3.RNA()}

class Enc:
    def __init__(self, uf=False):
        self.m = {}; self.mb = {}; self.extra = []; self.uf = uf; self.vars = {}; self.ufs = {}
    def var(self, t, name):
        v = z3.BitVec(name, FW[t.s] if t.s in FW else t.s) if t.s != 'B' else z3.Bool(name)
        self.vars[t] = v
        return v
    def F(self, name, *args):
        k = (name, tuple(a.sort() for a in args[:-1]), args[-1])
        return None
    # bits of a float term as a BV
    def bv(self, t):
        r = self.mb.get(t)
        if r is None:
            r = self.mb[t] = self._bv(t)
        return r
    def _bv(self, t):
        w = FW[t.s]
        op = t.op
        if op == 'fc': return z3.BitVecVal(t.a[0], w)
        if op in ('sym', 'sel', 'app', 'ramp', 'geo', 'red'): return self.var(t, 'v%d' % len(self.vars)) if op != 'app' else self.app(t)
        if op == 'fneg': return self.bv(t.a[0]) ^ z3.BitVecVal(SIGN[t.s], w)
        if op == 'fabs': return self.bv(t.a[0]) & z3.BitVecVal(mask(w) >> 1, w)
        if op == 'ite': return z3.If(self.e(t.a[0]), self.bv(t.a[1]), self.bv(t.a[2]))
        if op == 'fp': return self.e(t.a[0])
        b = z3.BitVec('r%d' % len(self.mb), w)
        self.extra.append(z3.fpBVToFP(b, FS[t.s]) == self.e(t))
        return b
    def app(self, t):
        name = t.a[0]; args = t.a[1:]
        ia = [self.bv(x) if x.s in FW else self.e(x) for x in args]
        if not ia: return self.var(t, 'v%d' % len(self.vars))
        key = (name, tuple(x.s for x in args), t.s)
        f = self.ufs.get(key)
        if f is None:
            f = self.ufs[key] = z3.Function('uf_%s_%d' % (name, len(self.ufs)), *([a.sort() for a in ia] + [z3.BitVecSort(FW[t.s]) if t.s in FW else (z3.BoolSort() if t.s == 'B' else z3.BitVecSort(t.s))]))
        return f(*ia)
    def uff(self, name, t, args):
        ia = [self.e(a) for a in args]
        key = (name, t.s)
        f = self.ufs.get(key)
        if f is None:
            f = self.ufs[key] = z3.Function('ab_%s_%s' % (name, t.s), *([FS[t.s]] * len(ia) + [FS[t.s]]))
        return f(*ia)
    def e(self, t):
        r = self.m.get(t)
        if r is None:
            r = self.m[t] = self._e(t)
        return r
    def _e(self, t):
        op = t.op; a = t.a
        if op == 'true': return z3.BoolVal(True)
        if op == 'false': return z3.BoolVal(False)
        if op == 'c': return z3.BitVecVal(a[0], t.s)
        if t.s in FW:
            if op in ('fc', 'sym', 'sel', 'app', 'fneg', 'fabs', 'fp', 'ramp', 'geo', 'red'):
                if op == 'fneg' : return z3.fpNeg(self.e(a[0]))
                if op == 'fabs' : return z3.fpAbs(self.e(a[0]))
                return z3.fpBVToFP(self.bv(t), FS[t.s])
            if op == 'ite': return z3.If(self.e(a[0]), self.e(a[1]), self.e(a[2]))
            if op == 'fadd':
                return z3.fpAdd(RM, self.e(a[0]), self.e(a[1]))
            if op == 'fmul':
                if self.uf: return self.uff('mul', t, a)
                return z3.fpMul(RM, self.e(a[0]), self.e(a[1]))
            if op == 'fdiv':
                if self.uf: return self.uff('div', t, a)
                return z3.fpDiv(RM, self.e(a[0]), self.e(a[1]))
            if op == 'fsqrt':
                if self.uf: return self.uff('sqrt', t, a)
                return z3.fpSqrt(RM, self.e(a[0]))
            if op == 'fma':
                if self.uf: return self.uff('fma', t, a)
                return z3.fpFMA(RM, self.e(a[0]), self.e(a[1]), self.e(a[2]))
            if op == 'fpext': return z3.fpToFP(RM, self.e(a[0]), FS['d'])
            if op == 'fptrunc': return z3.fpToFP(RM, self.e(a[0]), FS['f'])
            if op == 'sitofp': return z3.fpSignedToFP(RM, self.e(a[0]), FS[t.s])
            if op == 'uitofp': return z3.fpUnsignedToFP(RM, self.e(a[0]), FS[t.s])
            if op == 'rti': return z3.fpRoundToIntegral(RMODE[a[0]], self.e(a[1]))
            raise ValueError(op)
        if op == 'sym' or op == 'sel': return self.var(t, 'v%d' % len(self.vars))
        if op == 'app': return self.app(t)
        if op == 'lin':
            r = z3.BitVecVal(a[0], t.s) if a[0] else None
            for x, k in a[1]:
                y = self.e(x)
                if k != 1: y = y * z3.BitVecVal(k, t.s)
                r = y if r is None else r + y
            return r
        if op == 'extract': return z3.Extract(a[1] + t.s - 1, a[1], self.e(a[0]))
        if op == 'ite': return z3.If(self.e(a[0]), self.e(a[1]), self.e(a[2]))
        if op == 'bits': return self.bv(a[0])
        if op == 'zext': return z3.ZeroExt(t.s - a[0].s, self.e(a[0]))
        if op == 'sext': return z3.SignExt(t.s - a[0].s, self.e(a[0]))
        if op == 'fptosi' or op == 'fptoui':
            f = self.e(a[0])
            # out-of-range conversion is undefined in C: an arbitrary value
            w = t.s
            if op == 'fptosi':
                lo, hi = -(1 << (w - 1)), 1 << (w - 1)
                ok = z3.And(z3.fpLT(f, z3.fpSignedToFP(z3.RTZ(), z3.BitVecVal(hi - 1, w + 2) + 1, f.sort())), z3.fpGT(z3.fpRoundToIntegral(z3.RTZ(), f), z3.fpSignedToFP(z3.RTZ(), z3.BitVecVal(lo, w + 2), f.sort())) if False else z3.fpGEQ(f, z3.fpSignedToFP(z3.RTZ(), z3.BitVecVal(lo, w + 2), f.sort())))
                v = z3.fpToSBV(z3.RTZ(), f, z3.BitVecSort(w))
            else:
                ok = z3.And(z3.fpGT(f, z3.FPVal(-1.0, f.sort())), z3.fpLT(f, z3.fpUnsignedToFP(z3.RTZ(), z3.BitVecVal(1 << w, w + 2), f.sort())))
                v = z3.fpToUBV(z3.RTZ(), f, z3.BitVecSort(w))
            und = z3.BitVec('und%d' % len(self.m), w)
            return z3.If(ok, v, und)
        if op == 'cvtt':
            f = self.e(a[0])
            lim = z3.FPVal(2.0 ** 31, f.sort())
            ok = z3.And(z3.fpLT(f, lim), z3.fpGEQ(f, z3.fpNeg(lim)))
            return z3.If(ok, z3.fpToSBV(z3.RTZ(), f, z3.BitVecSort(32)), z3.BitVecVal(0x80000000, 32))
        if op == 'bveq': return self.e(a[0]) == self.e(a[1])
        if op == 'bvult': return z3.ULT(self.e(a[0]), self.e(a[1]))
        if op == 'bvslt': return self.e(a[0]) < self.e(a[1])
        if op == 'olt': return z3.fpLT(self.e(a[0]), self.e(a[1]))
        if op == 'ole': return z3.fpLEQ(self.e(a[0]), self.e(a[1]))
        if op == 'oeq': return z3.fpEQ(self.e(a[0]), self.e(a[1]))
        if op == 'signbit': return z3.Extract(FW[a[0].s] - 1, FW[a[0].s] - 1, self.bv(a[0])) == 1
        if op == 'not': return z3.Not(self.e(a[0]))
        if op == 'pand': return z3.And(self.e(a[0]), self.e(a[1]))
        if op == 'pxor': return z3.Xor(self.e(a[0]), self.e(a[1]))
        if op == 'bite': return z3.If(self.e(a[0]), self.e(a[1]), self.e(a[2]))
        x = [self.e(y) for y in a]
        if op == 'mul': return x[0] * x[1]
        if op == 'udiv': return z3.UDiv(x[0], x[1])
        if op == 'urem': return z3.URem(x[0], x[1])
        if op == 'sdiv': return x[0] / x[1]
        if op == 'srem': return z3.SRem(x[0], x[1])
        if op == 'and': return x[0] & x[1]
        if op == 'or': return x[0] | x[1]
        if op == 'xor': return x[0] ^ x[1]
        if op == 'shl': return x[0] << x[1]
        if op == 'lshr': return z3.LShR(x[0], x[1])
        if op == 'ashr': return x[0] >> x[1]
        if op == 'concat': return z3.Concat(x[0], x[1])
        raise ValueError('smt: ' + op)

def canon(ts):
    """alpha-canonical key of a list of terms (symbols and selections renamed in order)"""
    num = {}; nodes = []
    def go(t):
        if not isinstance(t, T):
            if isinstance(t, tuple): return ('t',) + tuple(go(x) for x in t)
            return t
        r = num.get(t)
        if r is not None: return r
        if t.op in ('sym', 'sel', 'ramp', 'geo', 'red'):
            n = ('v', len(num)); num[t] = n; nodes.append((n, t.s)); return n
        if t.op == 'lin':
            key = (t.op, t.a[0], tuple((go(x), k) for x, k in t.a[1]), t.s)
        else:
            key = (t.op, tuple(go(x) for x in t.a), t.s)
        n = ('n', len(num)); num[t] = n; nodes.append((n, key)); return n
    top = tuple(go(t) for t in ts)
    return (tuple(nodes), top), {n: t for t, n in num.items() if n[0] == 'v'}

CACHE = {}
DEADLINE = [None]    # time after which solver calls get only a short limit
def limit(timeout):
    d = DEADLINE[0]
    if d is None: return timeout
    return max(0.5, min(timeout, (d - time.time()) / 4))
def smallq(s, enc):
    """a model with a short buffer if there is one"""
    for t, v in enc.vars.items():
        if t.op == 'sym' and t.a[0] == 'q':
            for lim in (64, 4096, 1 << 20):
                s.push(); s.add(z3.ULE(v, lim)); c = s.check()
                if c == z3.sat: return s.model()
                s.pop()
    return None

def relevant(ts):
    """assumptions transitively attached to symbols in ts"""
    out = []; seen = set(); todo = list(ts); done = set()
    while todo:
        t = todo.pop()
        for x in atoms(t, seen=done):
            pass
        new = [x for x in done if x.op == 'sym' and x not in seen]
        for x in new:
            seen.add(x)
            for a in ASSUME.get(x, ()):
                if a not in out: out.append(a); todo.append(a)
    return out

class Res:
    __slots__ = ('st', 'model', 's', 'why')
    def __init__(self, st, model=None, s=0.0, why=''): self.st = st; self.model = model; self.s = s; self.why = why

def prove(goal, hyps=(), timeout=20.0, eqs=None, uf=True):
    """goal: bool term, to be proved under hyps and ASSUME.  eqs: list of (a, b, mode) float
    equalities to be proved in addition (mode 'bit' or 'num')"""
    eqs = [e for e in (eqs or ()) if e[0] is not e[1]]
    if goal is TRUE and not eqs:
        STATS['syntactic'] += 1; return Res('proved', s=0.0, why='syntactic')
    base = [goal] + list(hyps) + [x for e in eqs for x in e[:2]]
    hy = list(hyps) + relevant(base)
    ck, names = canon([goal] + hy + [x for e in eqs for x in e[:2]])
    key = (ck, len(hy), tuple(e[2] for e in eqs))
    r = CACHE.get(key)
    if r is not None:
        STATS['cache_hits'] += 1
        if r[0].model is None: return r[0]
        md = {names[n]: v for n, v in r[1].items() if n in names}
        return Res(r[0].st, md, 0.0, r[0].why)
    t0 = time.time()
    allt = atoms(tuple(base))
    heavy = uf and any(x.op in ('fmul', 'fdiv', 'fsqrt', 'fma') for x in allt)
    r = None
    for u in ([True, False] if heavy else [False]):
        enc = Enc(uf=u)
        s = z3.Solver(); s.set('timeout', int(1000 * limit(min(timeout, 5) if u else timeout)))
        for h in hy: s.add(enc.e(h))
        g = [enc.e(goal)]
        for a, b, mode in eqs:
            if mode == 'bit': g.append(enc.bv(a) == enc.bv(b))
            else:
                x, y = enc.e(a), enc.e(b)
                g.append(z3.Or(z3.fpEQ(x, y), z3.And(z3.fpIsNaN(x), z3.fpIsNaN(y))))
        s.add(z3.Not(z3.And(g)))
        for x in enc.extra: s.add(x)
        c = s.check(); STATS['queries'] += 1
        if c == z3.unsat: r = Res('proved', why='z3'); break
        if c == z3.sat:
            if u: continue
            m = s.model(); m = smallq(s, enc) or m; md = {}
            for t, v in enc.vars.items():
                val = m.eval(v, model_completion=True)
                md[t] = val.as_long() if z3.is_bv_value(val) else z3.is_true(val)
            r = Res('refuted', md, why='z3 model'); break
        else:
            r = Res('unknown', why=s.reason_unknown())
    if r is None: r = Res('unknown', why='uf-sat')
    dt = time.time() - t0
    r.s = dt; STATS['solver_s'] += dt; STATS['max_s'] = max(STATS['max_s'], dt)
    back = {t: n for n, t in names.items()}
    CACHE[key] = (r, {back[t]: v for t, v in r.model.items() if t in back} if r.model is not None else None)
    return r

def satisfiable(hyps, timeout=10):
    s = z3.Solver(); s.set('timeout', int(1000 * timeout)); enc = Enc()
    for h in list(hyps) + relevant(hyps): s.add(enc.e(h))
    for x in enc.extra: s.add(x)
    STATS['queries'] += 1
    return s.check() == z3.sat

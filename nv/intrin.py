"""Meaning of the intrinsics and library functions the code calls (trusted: the x86 manual,
the LLVM language reference, C99 annex F for floor/ceil/trunc/round/fabs/sqrt; the other
libm functions are uninterpreted pure functions)."""
import re
from .terms import *
from .ir import Unsupported
from . import smt

NOOP = ('llvm.lifetime', 'llvm.dbg', 'llvm.assume', 'llvm.experimental.noalias', 'llvm.donothing', 'llvm.prefetch', 'llvm.x86.sse.sfence', 'llvm.x86.avx.vzeroupper')
LIBM1 = {'sin', 'cos', 'tan', 'asin', 'acos', 'atan', 'tanh', 'sinh', 'cosh', 'log', 'log2', 'log10', 'exp', 'exp2', 'exp10', 'log1p', 'expm1', 'cbrt'}
LIBM2 = {'pow', 'atan2', 'hypot', 'fmod'}
RT = {'floor': 'rtn', 'ceil': 'rtp', 'trunc': 'rtz', 'round': 'rna', 'rint': 'rne', 'nearbyint': 'rne', 'roundeven': 'rne'}

def x86min(x, y): return ite(olt(x, y), x, y)     # MINPS: first < second ? first : second
def x86max(x, y): return ite(olt(y, x), x, y)
def fmin_ieee(x, y): return ite(bnot(oeq(x, x)), y, ite(bnot(oeq(y, y)), x, ite(olt(x, y), x, y)))
def fmax_ieee(x, y): return ite(bnot(oeq(x, x)), y, ite(bnot(oeq(y, y)), x, ite(olt(y, x), x, y)))

def fun1(base, x):
    if base in RT: return rti(RT[base], x)
    if base == 'fabs': return fabs(x)
    if base == 'sqrt': return fsqrt(x)
    if base in LIBM1: return app(base, [x], x.s)
    return None
def fun2(base, x, y):
    if base == 'copysign': return copysign(x, y)
    if base in ('fmin', 'minnum'): return fmin_ieee(x, y)
    if base in ('fmax', 'maxnum'): return fmax_ieee(x, y)
    if base == 'fdim': return None
    if base in LIBM2: return app(base, [x, y], x.s)
    return None
def lanes(f, *vs):
    if isinstance(vs[0], list):
        return type(vs[0])(f(*l) for l in zip(*vs))
    return f(*vs)
def cst(t):
    if not isc(t): raise Unsupported('immediate operand expected')
    return t.a[0]
def rmode(imm):
    if imm & 4: return 'rne'       # MXCSR: round to nearest (assumed default)
    return ['rne', 'rtn', 'rtp', 'rtz'][imm & 3]
def sgn(x):
    """most significant bit of a lane"""
    if x.s in FW: return signbit(x)
    return bvslt(x, bvc(0, x.s))

def call(ex, fr, st, name, t, args, av):
    if name.startswith(NOOP): return None
    if name.startswith('llvm.memset') or name == 'memset': return ex.bulk_set(fr, st, av[0], av[1], av[2])  or av[0]
    if name.startswith(('llvm.memcpy', 'llvm.memmove')) or name in ('memcpy', 'memmove'):
        return ex.bulk_copy(fr, st, av[0], av[1], av[2]) or av[0]
    if name.startswith('llvm.x86.'): return x86(ex, name[9:], av)
    if name.startswith('llvm.'):
        p = name.split('.'); b = p[1]
        if b == 'fma': return lanes(fma, *av[:3])
        if b == 'fmuladd': return lanes(lambda x, y, z: fadd(fmul(x, y), z), *av[:3])
        if b in ('umax', 'umin', 'smax', 'smin'):
            f = {'umax': lambda x, y: ite(bvult(x, y), y, x), 'umin': lambda x, y: ite(bvult(x, y), x, y),
                 'smax': lambda x, y: ite(bvslt(x, y), y, x), 'smin': lambda x, y: ite(bvslt(x, y), x, y)}[b]
            return lanes(f, av[0], av[1])
        if b == 'abs': return lanes(lambda x: ite(bvslt(x, bvc(0, x.s)), bneg(x), x), av[0])
        if b == 'expect': return av[0]
        if b in ('trap', 'ubsantrap'): raise Unsupported('trap')
        if b == 'powi':
            raise Unsupported('powi')
        if b in ('vector',) and len(p) > 3 and p[2] == 'reduce':
            op = p[3]
            if op in ('fadd', 'fmul'):
                f = fadd if op == 'fadd' else fmul; r = av[0]
                for x in av[1]: r = f(r, x)
                return r
            if op in ('fmax', 'fmin'):
                f = fmax_ieee if op == 'fmax' else fmin_ieee; r = av[0][0]
                for x in av[0][1:]: r = f(r, x)
                return r
            raise Unsupported(name)
        if len(av) >= 2:
            probe = av[0][0] if isinstance(av[0], list) else av[0]
            if isinstance(probe, T) and probe.s in FW and fun2(b, probe, probe) is not None: return lanes(lambda x, y: fun2(b, x, y), av[0], av[1])
        probe = av[0][0] if isinstance(av[0], list) else av[0]
        if isinstance(probe, T) and probe.s in FW and fun1(b, probe) is not None: return lanes(lambda x: fun1(b, x), av[0])
        raise Unsupported('intrinsic ' + name)
    if name == '__assert_fail': raise Unsupported('assertion reached')
    b = name
    if av and isinstance(av[0], T) and av[0].s == 'f' and b.endswith('f'): b = b[:-1]
    if len(av) == 1 and isinstance(av[0], T) and av[0].s in FW:
        r = fun1(b, av[0])
        if r is not None: return r
    if len(av) == 2 and isinstance(av[0], T) and av[0].s in FW:
        r = fun2(b, av[0], av[1])
        if r is not None: return r
    if len(av) == 3 and b == 'fma': return fma(*av)
    raise Unsupported('external function ' + name)

def x86(ex, n, av):
    from .symex import V
    p = n.split('.')
    # families independent of the prefix
    key = '.'.join(p[1:])
    if key in ('max.ps', 'max.pd', 'max.ps.256', 'max.pd.256'): return lanes(x86max, av[0], av[1])
    if key in ('min.ps', 'min.pd', 'min.ps.256', 'min.pd.256'): return lanes(x86min, av[0], av[1])
    if key in ('max.ss', 'max.sd', 'min.ss', 'min.sd'):
        f = x86max if key[1] == 'a' else x86min
        r = V(av[0]); r[0] = f(av[0][0], av[1][0]); return r
    if key in ('rcp.ps', 'rcp.ps.256', 'rsqrt.ps', 'rsqrt.ps.256'):
        return lanes(lambda x: app('x86' + key.split('.')[0], [x], x.s), av[0])
    if key in ('rcp.ss', 'rsqrt.ss'):
        r = V(av[0]); r[0] = app('x86' + key.split('.')[0], [av[0][0]], 'f'); return r
    if key in ('cvttps2dq', 'cvtt.ps2dq.256'): return lanes(cvtt, av[0])
    if key in ('cvtps2dq', 'cvt.ps2dq.256'): return lanes(lambda x: cvtt(rti('rne', x)), av[0])
    if key in ('pslli.d', 'pslli.q', 'psrli.d', 'psrli.q', 'psrai.d'):
        c = cst(av[1]); w = av[0][0].s
        if c >= w:
            if key.startswith('psrai'): c = w - 1
            else: return V(bvc(0, w) for _ in av[0])
        f = {'pslli': bshl, 'psrli': blshr, 'psrai': bashr}[key[:5]]
        return lanes(lambda x: f(x, bvc(c, w)), av[0])
    if key in ('blendvps', 'blendvpd', 'blendv.ps.256', 'blendv.pd.256'):
        return lanes(lambda a, b, m: ite(sgn(m), b, a), av[0], av[1], av[2])
    if key in ('round.ps', 'round.pd', 'round.ps.256', 'round.pd.256'):
        m = rmode(cst(av[1])); return lanes(lambda x: rti(m, x), av[0])
    if key in ('round.ss', 'round.sd'):
        m = rmode(cst(av[2])); r = V(av[0]); r[0] = rti(m, av[1][0]); return r
    if key in ('hadd.ps', 'hadd.pd', 'hsub.ps', 'hsub.pd', 'hadd.ps.256', 'hadd.pd.256'):
        f = fadd if key[1] == 'a' else fsub
        a, b = av[0], av[1]; w = 128 // FW[a[0].s]; out = V()
        for base in range(0, len(a), w):
            for src in (a, b):
                for j in range(0, w, 2): out.append(f(src[base + j], src[base + j + 1]))
        return out
    if key == 'insertps':
        imm = cst(av[2]); r = V(av[0]); r[(imm >> 4) & 3] = av[1][(imm >> 6) & 3]
        for j in range(4):
            if imm >> j & 1: r[j] = fcb(0, 'f')
        return r
    if key in ('cmp.ps', 'cmp.pd', 'cmp.ps.256', 'cmp.pd.256'):
        c = cst(av[2]) & 15
        preds = ['oeq', 'olt', 'ole', 'uno', 'une', 'uge', 'ugt', 'ord', 'ueq', 'ult', 'ule', 'false', 'one', 'oge', 'ogt', 'true']
        return lanes(lambda x, y: fp(ite(fcmp(preds[c], x, y), bvc(-1, FW[x.s]), bvc(0, FW[x.s]))), av[0], av[1])
    if key in ('cmp.ss', 'cmp.sd'):
        c = cst(av[2]) & 7; x, y = av[0][0], av[1][0]
        preds = ['oeq', 'olt', 'ole', 'uno', 'une', 'uge', 'ugt', 'ord']
        r = V(av[0]); r[0] = fp(ite(fcmp(preds[c], x, y), bvc(-1, FW[x.s]), bvc(0, FW[x.s]))); return r
    if key in ('movmsk.ps', 'movmsk.pd', 'movmsk.ps.256', 'movmsk.pd.256'):
        r = bvc(0, 32)
        for j, x in enumerate(av[0]): r = bor(r, ite(sgn(x), bvc(1 << j, 32), bvc(0, 32)))
        return r
    if key in ('dpps', 'dp.ps.256'): raise Unsupported(n)
    raise Unsupported('x86 intrinsic ' + n)

"""Execution of the real code: compiles entries with g++, calls them between guard pages.

Used (1) to replay a refuted obligation on real inputs, (2) as the bounded stand-in for an
entry the verifier cannot decide, (3) as the conformance run of the thorough tier.
"""
import base64, ctypes, itertools, json, os, random, re, signal, subprocess, sys, tempfile, time, mmap
import numpy as np
from .terms import *
from . import kernels as kn
from .build import REPO, run, BuildError

np.seterr(all="ignore")
GXX = ['g++', '-std=gnu++14', '-O0', '-w', '-shared', '-fPIC', '-ffp-contract=off']
PAGE = 4096
libc = ctypes.CDLL(None, use_errno=True)
libm = ctypes.CDLL('libm.so.6')
libc.mmap.restype = ctypes.c_void_p
libc.mmap.argtypes = [ctypes.c_void_p, ctypes.c_size_t, ctypes.c_int, ctypes.c_int, ctypes.c_int, ctypes.c_long]
libc.mprotect.argtypes = [ctypes.c_void_p, ctypes.c_size_t, ctypes.c_int]
CE = {'f': ctypes.c_float, 'd': ctypes.c_double}

def compile_so(ks, cfg, workdir, opt='-O0', name='tu'):
    """shared object with the entries; {id: message} of those that do not compile"""
    bad = {}; ks = list(ks)
    for rnd in range(6):
        src, at = kn.source(ks, cfg)
        p = os.path.join(workdir, name + '.cpp'); so = os.path.join(workdir, name + '.so')
        open(p, 'w').write(src)
        r = run([y for x in GXX for y in ([x] if x != '-O0' else opt.split())] + kn.CFGS[cfg] + ['-I', REPO, p, '-o', so])
        if r.returncode == 0: return so, bad
        hit = set()
        for m in re.finditer(re.escape(name) + r'\.cpp:(\d+):', r.stderr):
            ln = int(m.group(1))
            if ln in at: hit.add(at[ln])
        if not hit: raise BuildError(r.stderr[:3000])
        for h in hit: bad[h] = r.stderr[:2000]
        ks = [k for k in ks if k.id not in bad]
        if not ks: return None, bad
    raise BuildError('compile does not converge')

class Region:
    """a writable area between two inaccessible pages"""
    def __init__(self, size):
        self.size = (size + PAGE - 1) // PAGE * PAGE
        self.base = libc.mmap(None, self.size + 2 * PAGE, 3, 0x22, -1, 0)
        libc.mprotect(self.base, PAGE, 0); libc.mprotect(self.base + PAGE + self.size, PAGE, 0)
        self.lo = self.base + PAGE; self.hi = self.lo + self.size
        self.bytes = np.ctypeslib.as_array((ctypes.c_uint8 * self.size).from_address(self.lo))
    def at_end(self, nbytes, shift=0): return self.hi - nbytes - shift
    def at_start(self, nbytes, shift=0): return self.lo + shift
    def view(self, addr, n, dt): return self.bytes[addr - self.lo: addr - self.lo + n * np.dtype(dt).itemsize].view(dt)

DT = {'f': np.float32, 'd': np.float64}
UT = {'f': np.uint32, 'd': np.uint64}

# ------------------------------------------------------------------ numeric evaluation of specification terms
def neval(t, env, memo=None):
    """value of a term; env: atom -> numpy array or scalar"""
    if memo is None: memo = {}
    def ev(x):
        if id(x) in memo: return memo[id(x)]
        r = go(x); memo[id(x)] = r; return r
    def U(x): return np.asarray(x, dtype={32: np.uint32, 64: np.uint64, 8: np.uint8, 16: np.uint16}[x.dtype.itemsize * 8] if False else None)
    def go(x):
        if x in env: return env[x]
        op = x.op; a = x.a
        if op == 'fc': return np.asarray(fval(x))
        if op == 'c': return np.asarray(a[0], dtype={8: np.uint8, 16: np.uint16, 32: np.uint32, 64: np.uint64}[x.s])
        if op == 'true': return np.asarray(True)
        if op == 'false': return np.asarray(False)
        if op == 'fadd': return ev(a[0]) + ev(a[1])
        if op == 'fmul': return ev(a[0]) * ev(a[1])
        if op == 'fdiv': return ev(a[0]) / ev(a[1])
        if op == 'fneg': return -ev(a[0])
        if op == 'fabs': return np.abs(ev(a[0]))
        if op == 'fsqrt': return np.sqrt(ev(a[0]))
        if op == 'fma':
            return np.asarray(ev(a[0]).astype(np.longdouble) * ev(a[1]).astype(np.longdouble) + ev(a[2]).astype(np.longdouble)).astype(DT[x.s])
        if op in ('ite', 'bite'): return np.where(ev(a[0]), ev(a[1]), ev(a[2]))
        if op == 'olt': return ev(a[0]) < ev(a[1])
        if op == 'ole': return ev(a[0]) <= ev(a[1])
        if op == 'oeq': return ev(a[0]) == ev(a[1])
        if op == 'not': return ~ev(a[0])
        if op == 'pand': return ev(a[0]) & ev(a[1])
        if op == 'pxor': return ev(a[0]) ^ ev(a[1])
        if op == 'rti':
            f = {'rtn': np.floor, 'rtp': np.ceil, 'rtz': np.trunc, 'rne': np.rint}[a[0]]
            return f(ev(a[1]))
        if op == 'bits':
            v = np.asarray(ev(a[0])); return np.ascontiguousarray(v).view(UT[a[0].s]).reshape(v.shape)
        if op == 'fp':
            v = np.asarray(ev(a[0])); return np.ascontiguousarray(v).view(DT[x.s]).reshape(v.shape)
        if op == 'and': return ev(a[0]) & ev(a[1])
        if op == 'or': return ev(a[0]) | ev(a[1])
        if op == 'xor': return ev(a[0]) ^ ev(a[1])
        if op == 'shl': return ev(a[0]) << ev(a[1])
        if op == 'lshr': return ev(a[0]) >> ev(a[1])
        if op == 'udiv': return ev(a[0]) // ev(a[1])
        if op == 'lin':
            dt = {8: np.uint8, 16: np.uint16, 32: np.uint32, 64: np.uint64}[x.s]
            r = np.asarray(a[0], dtype=dt)
            for y, k in a[1]: r = r + np.asarray(ev(y)).astype(dt) * np.asarray(k, dtype=dt)
            return r
        if op == 'bveq': return ev(a[0]) == ev(a[1])
        if op == 'bvult': return ev(a[0]) < ev(a[1])
        if op == 'bvslt':
            s = {32: np.int32, 64: np.int64}[a[0].s]
            return np.asarray(ev(a[0])).view(s) < np.asarray(ev(a[1])).view(s)
        if op == 'sitofp':
            s = {32: np.int32, 64: np.int64}[a[0].s]
            return np.asarray(ev(a[0])).view(s).astype(DT[x.s])
        if op == 'cvtt':
            v = np.asarray(ev(a[0])); ok = (np.abs(v) < 2147483648.0)
            return np.where(ok, np.where(ok, v, 0).astype(np.int32), np.int32(-2147483648)).astype(np.int32).view(np.uint32)
        if op == 'app':
            f = getattr(libm, a[0] + ('f' if x.s == 'f' else '')); c = CE[x.s]
            f.restype = c; f.argtypes = [c] * (len(a) - 1)
            ar = np.broadcast_arrays(*[np.asarray(ev(y)) for y in a[1:]])
            return np.array([f(*[float(v) for v in vs]) for vs in zip(*[q.ravel() for q in ar])], dtype=DT[x.s]).reshape(ar[0].shape)
        raise NotImplementedError('neval ' + op)
    with np.errstate(all='ignore'): return ev(t)

def meval(t, env, tol=0.0):
    """(value, magnitude) in extended precision: for results that are only specified up to rounding"""
    memo = {}
    L = np.longdouble
    def ev(x):
        r = memo.get(x)
        if r is None: r = memo[x] = go(x)
        return r
    def go(x):
        if x in env:
            v = np.asarray(env[x]).astype(L); return v, np.abs(v)
        op = x.op; a = x.a
        if op == 'fc': v = L(fval(x)); return v, abs(v)
        if op == 'c': v = L(tosigned(a[0], x.s)); return v, abs(v)
        if op == 'fadd':
            (p, mp), (q, mq) = ev(a[0]), ev(a[1]); return p + q, mp + mq
        if op == 'fmul':
            (p, mp), (q, mq) = ev(a[0]), ev(a[1]); return p * q, mp * mq
        if op == 'fdiv':
            (p, mp), (q, mq) = ev(a[0]), ev(a[1]); u = np.abs(q)
            return p / q, np.where(u <= 4 * tol * mq, L('inf'), mp / u + 2 * np.abs(p) * mq / (u * u))
        if op == 'fneg':
            p, m = ev(a[0]); return -p, m
        if op == 'fabs':
            p, m = ev(a[0]); return np.abs(p), m
        if op == 'ramp':
            (p, mp), (q, mq), (i, _) = ev(a[0]), ev(a[1]), ev(a[2]); return p + q * i, mp + mq * (i + 1)
        if op == 'geo':
            (p, mp), (q, mq), (i, _) = ev(a[0]), ev(a[1]), ev(a[2]); v = p * q ** i
            e = x.s if x.s in FMAX else 'f'; g = np.abs(q) ** 16      # the step over a vector has to stay in range, too
            return v, np.where((q != 0) & ((g > FMAX[e]) | (g < FTINY[e])), L('inf'), np.abs(v) * (1 + i))
        if op == 'lin':
            v = L(tosigned(a[0], x.s))
            for y, k in a[1]: v = v + ev(y)[0] * L(tosigned(k, x.s))
            return v, np.abs(v)
        if op == 'ite':
            c = bev(a[0]); (p, mp), (q, mq) = ev(a[1]), ev(a[2]); return np.where(c, p, q), np.maximum(mp, mq)
        if op == 'rti':
            p, m = ev(a[1]); f = {'rtn': np.floor, 'rtp': np.ceil, 'rtz': np.trunc, 'rne': np.rint}[a[0]]; return f(p), m
        raise NotImplementedError('meval ' + op)
    def bev(x):
        op = x.op; a = x.a
        if op == 'olt': return ev(a[0])[0] < ev(a[1])[0]
        if op == 'ole': return ev(a[0])[0] <= ev(a[1])[0]
        if op == 'oeq': return ev(a[0])[0] == ev(a[1])[0]
        if op == 'not': return ~bev(a[0])
        if op == 'pand': return bev(a[0]) & bev(a[1])
        raise NotImplementedError('meval ' + op)
    with np.errstate(all='ignore'): return ev(t)

np.seterr(all='ignore')
# ------------------------------------------------------------------ inputs
def pool(e, dom, mode):
    if mode == 'real':
        return [0.0, 1.0, -1.0, 0.5, -0.25, 2.0, 3.0, -7.0, 0.1, 1.7, -0.3, 100.0, -1234.5, 1e-3, 12345.678, 0.75]
    if e == 'f':
        p = [0.0, -0.0, 1.0, -1.0, 0.5, -0.5, 0.49999997, 1.5, -1.5, 2.5, 3.5, -2.5, 0.25, 2.0 ** -126, 2.0 ** -127, -2.0 ** -126, 2.0 ** -149, -2.0 ** -140, 3.4028234663852886e38, -3.4028234663852886e38,
             8388607.5, 8388608.0, 8388609.0, -8388609.0, 4194304.5, 16777217.0, 2147483648.0, -2147483648.0, 4294967296.0, 9.3e18, -1e20, 1e30, 0.1, -0.3, 0.7, 100.3, -1234.5, 1e-10, 1e10, 3.0, -3.0, 7.0]
    else:
        p = [0.0, -0.0, 1.0, -1.0, 0.5, -0.5, 0.49999999999999994, 1.5, -1.5, 2.5, 3.5, -2.5, 0.25, 2.0 ** -1022, 2.0 ** -1023, -2.0 ** -1022, 5e-324, -2.0 ** -1060, 1.7976931348623157e308, -1.7976931348623157e308,
             4503599627370495.5, 4503599627370496.0, 9007199254740993.0, -4503599627370497.0, 2147483648.5, 8388608.5, 4294967296.5, 9.3e18, -1e20, 1e200, 0.1, -0.3, 0.7, 100.3, -1234.5, 1e-10, 1e10, 3.0, -3.0, 7.0]
    if dom in ('any', 'nn'): p += [float('inf'), float('-inf')]
    if dom == 'any': p += [float('nan')]
    return p

class Fail(Exception):
    def __init__(self, d): self.d = d

class Runner:
    """runs entries of one shared object"""
    def __init__(self, so, cfg):
        self.lib = ctypes.CDLL(so); self.cfg = cfg; self.regs = {}
        self.logf = None; self.limit = 0
        self.evals = 0
    def region(self, key, size):
        r = self.regs.get(key)
        if r is None or r.size < size: r = self.regs[key] = Region(max(size, 1 << 16))
        return r
    def fn(self, k):
        f = getattr(self.lib, k.id)
        at = []
        for kind, nm in k.params:
            at.append(ctypes.c_void_p if kind in ('o', 'v', 'io', 'iv') else CE[k.e] if kind == 's' else ctypes.c_uint if kind in ('n', 'u') else ctypes.c_int)
        f.argtypes = at; f.restype = {None: None, 'f': ctypes.c_float, 'd': ctypes.c_double, 'i': ctypes.c_int, 'b': ctypes.c_int}[k.ret]
        return f
    def call(self, k, n, bufs, scal, alias=None, end=True, shift=None):
        """bufs: name -> initial contents (output buffers too); returns (ret, contents after)"""
        e = k.e; dt = DT[e]; es = kn.ES[e]; alias = alias or {}
        addr = {}; ln = {}
        lens = k.meta.get('len', {})
        args = []
        for kind, nm in k.params:
            if kind in ('o', 'v'):
                t = alias.get(nm, nm)
                if t not in addr:
                    m = 1 if t in k.meta.get('cells', ()) else lens.get(t, n)
                    r = self.region(t, m * es + 2 * PAGE)
                    sh = (shift or {}).get(t, 0)
                    a = r.at_end(m * es, sh) if end else r.at_start(m * es, sh)
                    r.bytes[:] = 0xA5
                    r.view(a, m, dt)[:] = bufs[t]
                    addr[t] = a; ln[t] = m
                args.append(addr[t])
            elif kind == 's': args.append(scal[nm])
            elif kind == 'n': args.append(n)
            elif kind == 'i': args.append(scal[nm])
        if self.logf is not None:
            self.logf.seek(0); self.logf.truncate()
            self.logf.write(json.dumps({'entry': k.id, 'n': n, 'alias': alias, 'end': end, 'shift': shift or {}, 'scalars': {q: repr(v) for q, v in scal.items()},
                                        'buffers': {q: [repr(float(x)) for x in v[:16]] for q, v in bufs.items()},
                                        'data': {q: base64.b64encode(np.asarray(v).tobytes()).decode() for q, v in bufs.items()} if n <= 4096 else {}})); self.logf.flush()
        if self.limit: signal.alarm(self.limit)
        ret = self.fn(k)(*args)
        if self.limit: signal.alarm(0)
        self.evals += 1
        if self.logf is not None: self.logf.seek(0); self.logf.truncate(); self.logf.flush()
        out = {}
        for nm, a in addr.items():
            r = self.regs[nm]; m = ln[nm]
            out[nm] = r.view(a, m, dt).copy()
            lo = a - r.lo; hi = lo + m * es
            if not (np.all(r.bytes[:lo] == 0xA5) and np.all(r.bytes[hi:] == 0xA5)):
                raise Fail({'what': 'wrote outside of buffer %s' % nm, 'kind': 'bounds-write'})
        for kind, nm in k.params:
            t = alias.get(nm, nm)
            if kind == 'v' and t not in [alias.get(p[1], p[1]) for p in k.params if p[0] == 'o']:
                if out[t].tobytes() != np.asarray(bufs[t], dtype=dt)[:ln[t]].tobytes(): raise Fail({'what': 'modified input buffer %s' % nm, 'kind': 'bounds-write'})
        return ret, out

def case_json(k, n, bufs, scal, alias, idx=None, got=None, want=None, cfg=None):
    d = {'entry': k.id, 'config': cfg, 'flags': kn.CFGS[cfg], 'code': k.text(), 'n': int(n), 'alias': alias or {}, 'scalars': {q: repr(float(v)) for q, v in scal.items()}}
    d['buffers'] = {q: [repr(float(x)) for x in v[:64]] for q, v in bufs.items()}
    if sum(len(v) for v in bufs.values()) <= 1 << 17: d['data'] = {q: base64.b64encode(np.asarray(v).tobytes()).decode() for q, v in bufs.items()}
    if idx is not None:
        d['index'] = int(idx); d['got'] = repr(got); d['want'] = repr(want)
        d['inputs at index'] = {q: repr(float(v[idx])) for q, v in bufs.items() if idx < len(v)}
    return d

REFENT = {}
def ref_values(R, k, args, e):
    """what the public vec function gives for these arguments (arrays), lane by lane"""
    V = kn.vsize(k.cfg, e); vk = REFENT[k.cfg, e]['v_%s_%s' % (k.op.name, e)]
    n = len(args[0]); m = (n + V - 1) // V * V
    pad = [np.resize(a, m) for a in args]
    out = np.empty(m, dtype=DT[e])
    for j in range(0, m, V):
        bufs = {'o': np.zeros(V, DT[e])}
        for i, p in enumerate(pad): bufs['a%d' % i] = p[j:j + V]
        _, o = R.call(vk, V, bufs, {})
        out[j:j + V] = o['o']
    return out[:n]

UNIT_ORACLE = {
    'midi2freq': lambda x: 440 * np.longdouble(2) ** ((x - 69) / 12), 'freq2midi': lambda x: 69 + 12 * np.log2(np.abs(x) / 440),
    'midi2ratio': lambda x: np.longdouble(2) ** (x / 12), 'ratio2midi': lambda x: 12 * np.log2(x),
    'oct2freq': lambda x: 440 * np.longdouble(2) ** (x - np.longdouble(4.75)), 'freq2oct': lambda x: np.log2(np.abs(x) / 440) + np.longdouble(4.75),
    'amp2db': lambda x: 20 * np.log10(np.abs(x)), 'db2amp': lambda x: np.longdouble(10) ** (x / 20)}
UNIT_POOL = {'midi2freq': np.linspace(-20, 140, 57), 'freq2midi': np.r_[np.logspace(0, 4.3, 40), -np.logspace(0, 4, 9)], 'midi2ratio': np.linspace(-60, 60, 57), 'ratio2midi': np.logspace(-3, 3, 40),
             'oct2freq': np.linspace(-2, 12, 50), 'freq2oct': np.r_[np.logspace(0, 4.3, 40), -np.logspace(0, 4, 9)], 'amp2db': np.r_[np.logspace(-6, 2, 40), -np.logspace(-3, 1, 9)], 'db2amp': np.linspace(-120, 40, 57)}

def _ext(e): return (1e-30, 1e30) if e == 'f' else (1e-290, 1e290)
def unit_dom(name, x, e):
    """arguments for which the conversion is claimed (positive normal logarithm arguments, normal results)"""
    lo, hi = _ext(e); x = float(x)
    if name in ('freq2midi', 'freq2oct', 'amp2db'): return lo < abs(x) < hi
    if name == 'ratio2midi': return lo < x < hi
    if abs(x) > 1e6: return False
    with np.errstate(all='ignore'): w = float(UNIT_ORACLE[name](np.longdouble(x)))
    return lo < w < hi
def unit_extreme(name, e):
    lo, hi = _ext(e)
    if name in ('freq2midi', 'freq2oct', 'amp2db'): x = np.logspace(np.log10(lo) + .01, np.log10(hi) - .01, 60); return list(x) + list(-x)
    if name == 'ratio2midi': return list(np.logspace(np.log10(lo) + .01, np.log10(hi) - .01, 60))
    s = {'midi2freq': 12, 'midi2ratio': 12, 'oct2freq': 1, 'db2amp': 6}[name]
    return [x for x in np.linspace(-950, 950, 400) * s if unit_dom(name, x, e)]

def unit_ok(k, x, got):
    """array of booleans"""
    L = np.longdouble; xx = x.astype(L); g = got.astype(L)
    with np.errstate(all='ignore'):
        w = UNIT_ORACLE[k.op.name](xx)
        if k.op.name.endswith(('freq', 'ratio', 'amp')):
            y = np.abs(np.log(np.abs(w / 440) if k.op.name.endswith('freq') else np.abs(w))) + 1
            tol = (1e-6 * (1 + y) if k.e == 'f' else 1e-9 * (1 + y)) * np.abs(w)
        else:
            tol = (3e-6 if k.e == 'f' else 1e-9) * (20 + np.abs(w))
    return np.abs(g - w) <= tol, w

def run_entry(R, k, alias=None, seed=1, budget=0.4, extra=(), ns=None, opt=None, tile=False, lits=()):
    """bounded check of one entry; raises Fail with the failing case"""
    e = k.e; es = kn.ES[e]; dt = DT[e]; rnd = random.Random(seed); t0 = time.time(); cfg = k.cfg
    cells = k.meta.get('cells', ()); op = k.op
    mode = op.mode if op is not None else 'red'; dom = op.dom if op is not None else 'fin'
    ramps = 'r' in k.kinds or k.meta.get('prop') == 'C04' or (k.fam == 'pan' and '_r_' in k.id) or any(p[1][0] == 'd' for p in k.params if p[0] == 's')
    P = pool(e, dom, 'real' if (ramps or mode == 'real' or k.fam in ('red', 'vred')) else mode)
    if mode == 'unit': P = [float(x) for x in UNIT_POOL[op.name]] + unit_extreme(op.name, e)
    if k.fam in ('red', 'vred') and not ({'sum', 'sqsum'} & {v for v in k.meta.values() if isinstance(v, str)}): P += [float('inf'), float('-inf')]
    with np.errstate(all='ignore'): P = [dt(x) for x in P]
    X = []
    for x in extra:
        try: v = dt(x)
        except (ValueError, OverflowError): continue
        if dom != 'any' and np.isnan(v) or dom == 'fin' and not np.isfinite(v): continue
        X.append(v)
    if mode == 'unit' or k.fam in ('red', 'vred'): X = []
    # the constants of the code are where it may branch
    lim = 1e15 if e == 'f' else 1e150
    for c in lits:
        with np.errstate(all='ignore'): c = dt(c)
        if not np.isfinite(c) or not c: continue
        with np.errstate(all="ignore"): near = (c, np.nextafter(c, dt(0)), np.nextafter(c, dt(np.inf)), c * dt(0.5), c * dt(2))
        for v in near:
            if mode == 'unit':
                X += [v for v in (v, -v) if unit_dom(op.name, v, e)]
            elif k.fam not in ('red', 'vred') or abs(v) < lim: X += [v, dt(-v)]
    if mode == 'real' or ramps: X = [x for x in X if abs(x) < 1e6]
    P = np.array(P + X, dtype=dt)
    nrng = np.random.RandomState(seed)
    vecs = [nm for kind, nm in k.params if kind in ('o', 'v') and nm not in cells]
    scs = [nm for kind, nm in k.params if kind == 's']
    if k.nconst is not None: sizes = [k.nconst]
    else:
        g = k.gran
        sizes = [g * q for q in ((1, 2, 3, 4, 5, 6, 7, 8, 9, 11, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100) if g == 1 else (1, 2, 3, 4, 5, 7, 8, 9, 16))]
        if mode in ('ref',) : sizes = sizes[:9]
        sizes = sorted(set(sizes + [m for m in (ns or []) if m % g == 0 and 0 < m <= (1 << 22 if mode != 'ref' and mode != 'unit' else 1 << 14)]))
        big = 1024
        sizes.append(big)
    al_any = not (k.aligned is True)
    it = 0; V = kn.vsize(cfg, e)
    while True:
        for n in sizes:
            it += 1
            if it > 4 and time.time() - t0 > budget and it > len(sizes): return
            bufs = {}
            for nm in vecs:
                m = k.meta.get('len', {}).get(nm, n)
                if it % 3 == 0 and mode != 'unit': b = (nrng.standard_normal(m) * 10.0 ** nrng.randint(-3, 4)).astype(dt)
                elif it % 3 == 1 and len(X) and nrng.rand() < .7: b = np.array(X, dtype=dt)[nrng.randint(0, len(X), m)]
                else: b = P[nrng.randint(0, len(P), m)]
                if it % 7 == 5 and k.fam in ('red', 'vred'): b = np.full(m, P[nrng.randint(0, len(P))])
                if it % 5 == 4 and mode not in ('unit', 'ref') and not ramps:     # one magnitude throughout
                    with np.errstate(all='ignore'): b = (nrng.standard_normal(m) * 10.0 ** nrng.randint(-30 if e == 'f' else -120, 16 if e == 'f' else 120)).astype(dt)
                bufs[nm] = b.astype(dt)
            for c in cells: bufs[c] = np.array([abs(P[nrng.randint(0, len(P))]) if it % 5 != 4 or nrng.rand() < .5 else dt(0)], dtype=dt)
            if mode == 'unit' and op.name in ('ratio2midi',): bufs['a0'] = np.abs(bufs['a0'])
            scal = {}
            for nm in scs:
                v = P[nrng.randint(0, len(P))] if not (X and nrng.rand() < .5) else X[nrng.randint(0, len(X))]
                if nm[0] == 'd' and ('exp' in k.id): v = dt([1.01, 0.97, 1.25, 0.5, 2.0][nrng.randint(0, 5)]) if n <= 64 else dt(1.001)
                elif ramps and nm[0] == 'd': v = dt([0.1, -0.3, 0.001, 1.0, 0.7][nrng.randint(0, 5)])
                scal[nm] = float(v)
            # domain of the operation
            shift = {}
            if al_any and k.form != 'plain':
                for nm in vecs:
                    if not (k.aligned.get(nm) if isinstance(k.aligned, dict) else k.aligned): shift[nm] = es * int(nrng.randint(0 if it % 4 == 0 else 1, V))
            end = it % 2 == 1
            full = {t: b for t, b in bufs.items()}
            if alias:
                for a_, t_ in alias.items(): full[a_] = full[t_]
            try: ret, out = R.call(k, n, bufs, scal, alias, end, shift)
            except Fail as f:
                f.d.update(case_json(k, n, bufs, scal, alias, cfg=cfg)); raise
            if tile and not alias and k.form != 'vec' and k.fam not in ('red', 'vred') and not k.id.startswith('addvec'):
                # an element that keeps two different previous contents was not written
                b2 = dict(bufs)
                for on in k.outs: b2[on] = np.frombuffer((bufs[on].view(UT[e]) ^ UT[e](0x2a5a5a5a)).tobytes(), dtype=dt).copy()
                _, out2 = R.call(k, n, b2, scal, alias, end, shift)
                for on in k.outs:
                    un = (out[on].view(UT[e]) == bufs[on].view(UT[e])) & (out2[on].view(UT[e]) == b2[on].view(UT[e]))
                    if un.any():
                        j = int(np.argmax(un)); d = {'what': '%s[%d] is never written (n = %d)' % (on, j, n), 'kind': 'tile'}
                        d.update(case_json(k, n, bufs, scal, alias, j, float(out[on][j]), 'a value independent of the previous contents', cfg=cfg)); raise Fail(d)
            if not tile: check_out(R, k, n, full, scal, alias, ret, out, ramps)
        if len(sizes) == 1 and time.time() - t0 > budget and it > 12: return
        if len(sizes) > 1 and time.time() - t0 > budget: return

FMAX = {'f': float(np.finfo(np.float32).max), 'd': float(np.finfo(np.float64).max)}
FTINY = {'f': 1e-37, 'd': 1e-300}
def close(got, v, m, tol, e):
    """equal up to rounding; not decided where an intermediate result may leave the range of the type"""
    g = np.asarray(got).astype(np.longdouble); lim = np.longdouble(FMAX[e]) / 16
    with np.errstate(all='ignore'):
        return (g == v) | (np.abs(g - v) <= m * tol + FTINY[e]) | ~np.isfinite(m) | ~np.isfinite(v) | (m >= lim)
def check_out(R, k, n, bufs, scal, alias, ret, out, ramps):
    e = k.e; dt = DT[e]; op = k.op; cfg = k.cfg; es = kn.ES[e]
    eps = 2.0 ** -23 if e == 'f' else 2.0 ** -52
    def fail(what, idx=None, got=None, want=None, kind='value'):
        d = {'what': what, 'kind': kind}; d.update(case_json(k, n, bufs, scal, alias, idx, got, want, cfg)); raise Fail(d)
    if k.fam in ('red', 'vred'):
        a = bufs['a'].astype(np.longdouble)
        def want(rk, cell):
            p = np.longdouble(bufs[cell][0]) if cell else None
            if rk == 'max': return a.max(), 0
            if rk == 'min': return a.min(), 0
            if rk == 'sum': return a.sum(), np.abs(a).sum()
            if rk == 'peak': return max(p, np.abs(a).max()), 0
            if rk == 'sqsum': return p + (a * a).sum(), abs(p) + (a * a).sum()
            if rk == 'last': return abs(a[-1]), 0
        for c in k.meta.get('cells', ()):
            w, tol = want(k.meta[c], c)
            if not (out[c][0] == w or (tol and close(out[c][0], w, tol, eps * (4 + n), e))): fail('*%s is wrong' % c, 0, float(out[c][0]), float(w))
        if k.meta.get('ret'):
            w, tol = want(k.meta['ret'], None)
            if not (ret == w or (tol and close(ret, w, tol, eps * (4 + n), e))): fail('returned %r, expected %r' % (ret, float(w)))
        return
    env0 = {}
    OFF = sym('OFF', 64); I = sym('I', 64)
    for on in k.outs:
        got = out[(alias or {}).get(on, on)]
        if op.mode == 'unit':
            ok, w = unit_ok(k, bufs['a0'], got)
            if not ok.all():
                j = int(np.argmin(ok)); fail('%s[%d]' % (on, j), j, float(got[j]), float(w[j]))
            continue
        if op.ar == 0:
            sp = op.spec[on] if isinstance(op.spec, dict) else op.spec
            names = {nm: (nm if kind in ('o', 'v') else sym(nm, e)) for kind, nm in k.params if kind in ('o', 'v', 's')}
            if k.fam == 'vec':
                for j in range(n):
                    t = sp(names, bvc(j * es, 64), bvc(j, 64))
                    env = {sym(nm, e): np.asarray(dt(v)) for nm, v in scal.items()}
                    for x in atoms(t):
                        if x.op == 'sel': env[x] = np.asarray(bufs[x.a[0]][x.a[1].a[0] // es])
                    if op.mode == 'real':
                        v, m = meval(t, env)
                        if not close(got[j], v, m, eps * (16 + 2 * n), e): fail('%s[%d]' % (on, j), j, float(got[j]), float(v))
                    else:
                        v = np.asarray(neval(t, env)).astype(dt)
                        if np.asarray(got[j]).tobytes() != v.tobytes(): fail('%s[%d]' % (on, j), j, float(got[j]), float(v))
                continue
            t = sp(names, OFF, I)
            env = {sym(nm, e): np.asarray(dt(v)) for nm, v in scal.items()}
            for nm in bufs: env[sel(nm, OFF, e)] = bufs[nm][:n]
            env[I] = np.arange(n)
        else:
            args = []; env = {}
            for j, kd in enumerate(k.kinds):
                if kd in 'vV': x = sym('X%d' % j, e); env[x] = bufs['a%d' % j][:n]
                elif kd in 'sS':
                    nm = 's%d' % j
                    if nm not in scal: nm = 's%d' % (j - k.kinds.count('v'))
                    x = sym('X%d' % j, e); env[x] = np.asarray(dt(scal[nm]))
                else:
                    x = ramp(sym('S%d' % j, e), sym('D%d' % j, e), I); env[sym('S%d' % j, e)] = np.asarray(dt(scal['s%d' % j])); env[sym('D%d' % j, e)] = np.asarray(dt(scal['d%d' % j])); env[I] = np.arange(n)
                args.append(x)
            valid = np.ones(n, bool)
            if op.hyp is not None and not ramps: valid &= np.broadcast_to(neval(op.hyp(*args), env), (n,))
            elif op.hyp is not None:
                h = op.hyp(*args); l, _ = meval(h.a[0], env); u, _ = meval(h.a[1], env); valid &= np.broadcast_to(l <= u, (n,))
            if op.mode == 'pred':
                r = sym('RES', e); env[r] = got
                ok = np.broadcast_to(neval(op.spec(r, *args), env), (n,)) | ~valid
                if not ok.all():
                    j = int(np.argmin(ok)); fail('%s[%d] = %r' % (on, j, float(got[j])), j, float(got[j]), 'see postcondition')
                continue
            if op.mode == 'ref' and k.form not in ('plain',) and not (k.form == 'vec'):
                ar = [np.broadcast_to(env[x], (n,)).astype(dt) for x in args]
                w = ref_values(R, k, ar, e)
                ok = (got == w) | (np.isnan(got) & np.isnan(w))
                if not ok.all():
                    j = int(np.argmin(ok)); fail('%s[%d]' % (on, j), j, float(got[j]), float(w[j]))
                continue
            if op.mode == 'ref' and k.form == 'vec':
                # lane independence: permuted lanes give permuted results
                if n > 1:
                    sh = {nm: (np.roll(b, 1) if nm != 'o' else b) for nm, b in bufs.items()}
                    _, o2 = R.call(k, n, sh, scal)
                    w = np.roll(o2['o'], -1); ok = (got == w) | (np.isnan(got) & np.isnan(w))
                    if not ok.all():
                        j = int(np.argmin(ok)); fail('lane %d depends on other lanes' % j, j, float(got[j]), float(w[j]))
                continue
            t = op.spec(*args)
        if op.mode == 'real' or (ramps and op.mode not in ('bit',)):
            disc = op.name in ('less', 'less_equal', 'greater', 'greater_equal', 'equal', 'notequal', 'sgn')
            try:
                if disc:
                    l, ml = meval(args[0], env); u, mu = meval(args[1], env)
                    sure = np.abs(l - u) > (ml + mu) * eps * (16 + 4 * n)
                    c = {'less': l < u, 'less_equal': l <= u, 'greater': l > u, 'greater_equal': l >= u, 'equal': l == u, 'notequal': l != u}[op.name]
                    ok = ~np.broadcast_to(sure, (n,)) | (got == np.broadcast_to(c, (n,)).astype(dt)); v = c
                else:
                    v, m = meval(t, env, eps * (16 + 2 * n))
                    ok = np.broadcast_to(close(got, v, m, eps * (16 + 2 * n), e), (n,))
            except NotImplementedError: continue
            v = np.broadcast_to(v, (n,))
        else:
            v = np.broadcast_to(np.asarray(neval(t, env)), (n,)).astype(dt)
            if op.mode == 'bit': ok = got.view(UT[e]) == np.ascontiguousarray(v).view(UT[e])
            elif op.mode == 'madd':
                ok = (got == v) | (np.isnan(got) & np.isnan(v)) | (got == neval(fma(*args), env))
                with np.errstate(all='ignore'):
                    w, m = meval(t, env); ok = ok | (np.abs(got.astype(np.longdouble) - w) <= m * eps * 0.51)
            else: ok = (got == v) | (np.isnan(got) & np.isnan(v))
        if op.ar: ok = ok | ~valid
        if not ok.all():
            j = int(np.argmin(ok)); fail('%s[%d]' % (on, j), j, float(got[j]), float(v[j]))
    if k.ret is not None:
        names = {nm: (nm if kind in ('o', 'v') else sym(nm, e)) for kind, nm in k.params if kind in ('o', 'v', 's')}
        t = k.meta['retspec'](names)
        env = {sym(nm, e): np.asarray(dt(v)) for nm, v in scal.items()}
        for x in atoms(t):
            if x.op == 'sel': env[x] = np.asarray(bufs[x.a[0]][x.a[1].a[0] // es])
        if k.meta['retmode'] == 'real':
            v, m = meval(t, env)
            if not close(ret, v, m, eps * 64, e): fail('returned %r, expected %r' % (ret, float(v)))
        elif k.ret == 'i':
            if int(neval(t, env)) != ret: fail('returned %r' % ret)
        else:
            v = np.asarray(neval(t, env)).astype(dt)
            if dt(ret).tobytes() != v.tobytes() and not (np.isnan(v) and np.isnan(ret)): fail('returned %r, expected %r' % (ret, float(v)))

class Periodic:
    """4 GiB and more of address space: the first and the last MiB are ordinary memory, every
    MiB between them is the same shared memory"""
    C = 1 << 20
    def __init__(self, nbytes):
        C = self.C; m = (nbytes + C - 1) // C; self.len = m * C
        fd = os.memfd_create('nv'); os.ftruncate(fd, 3 * C)
        self.base = libc.mmap(None, self.len, 0, 0x4022, -1, 0)
        if self.base in (None, ctypes.c_void_p(-1).value): raise NotImplementedError('address space')
        for j in range(m):
            if libc.mmap(self.base + j * C, C, 3, 0x11, fd, 0 if j == 0 else 2 * C if j == m - 1 else C) in (None, ctypes.c_void_p(-1).value): raise NotImplementedError('mapping')
        os.close(fd)
    def chunk(self, j, dt): return np.ctypeslib.as_array((ctypes.c_uint8 * self.C).from_address(self.base + (j * self.C if j >= 0 else self.len + j * self.C))).view(dt)

def big_entry(R, k, lits=()):
    """an elementwise kernel on 4 GiB of periodic data: the first, middle and last MiB of the outputs
    have to be what a call on one MiB of the same data gives"""
    if k.fam in ('red', 'vred', 'vec') or k.nconst is not None or k.meta.get('cells') or 'r' in k.kinds or any(q == 'i' or nm[0] == 'd' for q, nm in k.params if q in 'is') or not any(q == 'n' for q, _ in k.params): return
    e = k.e; dt = DT[e]; es = kn.ES[e]; n0 = Periodic.C // es
    nrng = np.random.RandomState(3); mem = {}; small = {}
    for q, nm in k.params:
        if q in 'ov': small[nm] = (nrng.randint(-9, 10, n0) * .25 + .125).astype(dt)
    scal = {nm: .75 for q, nm in k.params if q == 's'}
    _, want = R.call(k, n0, small, scal)
    for n in ((1 << 32) // es, ):
        args = []
        for q, nm in k.params:
            if q in 'ov':
                mem[nm] = P = Periodic(n * es); args.append(P.base)
                for j in (0, 1, -1): P.chunk(j, dt)[:] = small[nm]
            elif q == 's': args.append(scal[nm])
            elif q == 'n': args.append(n)
        if R.limit: signal.alarm(max(R.limit, 60))
        R.fn(k)(*args); R.evals += 1
        if R.limit: signal.alarm(0)
        for on in k.outs:
            if k.id.startswith('addvec'): continue
            for j, at in ((0, 0), (1, n0), (-1, n - n0)):
                g = mem[on].chunk(j, dt)
                if g.tobytes() != want[on].tobytes():
                    i = int(np.argmax(g != want[on])) if (g != want[on]).any() else 0
                    d = {'what': '%s[%d] for n = %d (buffers of 4 GiB, period %d)' % (on, at + i, n, n0), 'kind': 'value'}
                    d.update(case_json(k, n, {q: v[:64] for q, v in small.items()}, scal, None, cfg=k.cfg)); d['got'] = repr(float(g[i])); d['want'] = repr(float(want[on][i])); raise Fail(d)

def isolated(so, cfg, jobs, timeout=600):
    """jobs: list of (key, K, kwargs).  Runs them in child processes (a crash costs one child).
    Returns {key: None | failing case}, number of calls"""
    res = {}; todo = list(jobs); calls = 0; t0 = time.time()
    while todo:
        rfd, wfd = os.pipe()
        logp = tempfile.NamedTemporaryFile('w+', delete=False)
        pid = os.fork()
        if pid == 0:
            try:
                os.close(rfd); signal.signal(signal.SIGSEGV, signal.SIG_DFL); signal.signal(signal.SIGALRM, signal.SIG_DFL)
                w = os.fdopen(wfd, 'w')
                R = Runner(so, cfg); R.logf = logp; R.limit = max(20, int(timeout))
                for key, k, kw in todo:
                    try: (big_entry if kw.get('big') else run_entry)(R, k, **{a: b for a, b in kw.items() if a != 'big'}); d = None
                    except Fail as f: d = f.d
                    except NotImplementedError as x: d = None
                    w.write(json.dumps([key, d, R.evals]) + '\n'); w.flush()
                w.close()
            except BaseException:
                import traceback; traceback.print_exc(); os._exit(3)
            os._exit(0)
        os.close(wfd)
        done = 0
        with os.fdopen(rfd) as r:
            for line in r:
                key, d, ev = json.loads(line); res[key] = d; done += 1; last = ev
        if done: calls += last
        _, st = os.waitpid(pid, 0)
        sig = os.WTERMSIG(st) if os.WIFSIGNALED(st) else 0
        if done < len(todo):
            key, k, kw = todo[done]
            try: case = json.loads(open(logp.name).read() or '{}')
            except ValueError: case = {}
            if sig in (signal.SIGSEGV, signal.SIGBUS, signal.SIGABRT, signal.SIGFPE):
                res[key] = dict(case, what='%s in %s' % (signal.Signals(sig).name, k.id), kind='bounds-read' if sig != signal.SIGABRT else 'assert', config=cfg, flags=kn.CFGS[cfg], code=k.text())
            elif sig == signal.SIGALRM and case: res[key] = dict(case, what='does not terminate within %d s' % max(20, int(timeout)), kind='exit', config=cfg, flags=kn.CFGS[cfg], code=k.text())
            else: res[key] = {'error': 'runner ended with status %d' % st}
            done += 1
        os.unlink(logp.name)
        todo = todo[done:]
        if time.time() - t0 > timeout: break
    return res, calls

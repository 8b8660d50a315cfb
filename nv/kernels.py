"""The functions under contract: one extern "C" entry per public function, element type,
argument combination and form, with its postcondition.

An entry only forwards to the public function, so what is verified is the template
instantiation of /repo's code for these argument types.
"""
from .terms import *

CFGS = {
    'sse2':    [],
    'sse41':   ['-msse4.1'],
    'avx':     ['-mavx'],
    'fma':     ['-mavx', '-mfma'],
    'sse1':    ['-U__SSE2__'],
    'generic': ['-U__SSE__', '-U__SSE2__'],
}
MAIN = ['sse2', 'sse41', 'avx']
ALLCFG = list(CFGS)

CT = {'f': 'float', 'd': 'double'}
ES = {'f': 4, 'd': 8}

def vsize(cfg, e):
    if e == 'f': return 8 if cfg in ('avx', 'fma') else 4
    if cfg in ('avx', 'fma'): return 4
    if cfg in ('sse1', 'generic'): return 4
    return 2
def vkind(cfg, e):
    """which class implements vec<e>"""
    if cfg in ('avx', 'fma'): return 'avx'
    if cfg == 'generic': return 'generic'
    if cfg == 'sse1': return 'sse' if e == 'f' else 'generic'
    return 'sse' if e == 'f' else 'sse2'
def approximated(cfg, e, name):
    """does vec<e> compute this function by its own approximation (otherwise: libm, or a division)"""
    if e == 'd' or cfg == 'generic': return False
    return name == 'reciprocal' if cfg == 'sse1' else True
def cacheline(cfg, e): return 64 // ES[e]

HEADERS = ['vec.hpp', 'simd_unary_arithmetic.hpp', 'simd_binary_arithmetic.hpp', 'simd_ternary_arithmetic.hpp',
           'simd_math.hpp', 'simd_memory.hpp', 'simd_mix.hpp', 'simd_pan.hpp', 'simd_peakmeter.hpp',
           'simd_horizontal_functions.hpp', 'simd_unit_conversion.hpp', 'softclip.hpp']

# ---------------------------------------------------------------- postconditions
def MIN(x, y): return ite(olt(y, x), y, x)
def MAX(x, y): return ite(olt(x, y), y, x)
def one(x): return fc(1, x.s)
def zero(x): return fc(0, x.s)
TINY = {'f': 2.0 ** -126, 'd': 2.0 ** -1022}
def bool_f(c, s): return ite(c, fc(1, s), fc(0, s))
def s_round(r, x):
    """r is an integer at distance <= 1/2 from x"""
    rd, ru, rn = rti('rtn', x), rti('rtp', x), rti('rne', x)
    tie = oeq(fadd(rd, fc(0.5, x.s)), x)
    return por(oeq(r, rn), pand(tie, por(oeq(r, rd), oeq(r, ru))))

class Op:
    """mode: 'num' numerically equal (NaN equals NaN, -0 equals 0), 'bit', 'real' equal over the
    reals (only roundings of the element type), 'pred' a predicate, 'ref' whatever the public
    vec function computes; dom: 'any', 'nn' (no NaN), 'fin' (finite) plus extra hypotheses"""
    def __init__(self, name, ar, spec, mode='num', dom='any', hyp=None):
        self.name = name; self.ar = ar; self.spec = spec; self.mode = mode; self.dom = dom; self.hyp = hyp

UN = [
    Op('abs', 1, lambda x: fabs(x), 'bit'),
    Op('sgn', 1, lambda x: ite(olt(zero(x), x), one(x), ite(olt(x, zero(x)), fc(-1, x.s), zero(x))), 'num', 'nn'),
    Op('square', 1, lambda x: fmul(x, x), 'num'),
    Op('cube', 1, lambda x: fmul(x, fmul(x, x)), 'real', 'fin'),
    Op('round', 1, s_round, 'pred', 'fin'),
    Op('frac', 1, lambda x: fsub(x, rti('rtn', x)), 'num', 'fin'),
    Op('ceil', 1, lambda x: rti('rtp', x), 'num', 'fin'),
    Op('floor', 1, lambda x: rti('rtn', x), 'num', 'fin'),
    Op('trunc', 1, lambda x: rti('rtz', x), 'num', 'fin'),
    Op('undenormalize', 1, lambda x: ite(olt(fabs(x), fc(TINY[x.s], x.s)), zero(x), x), 'num', 'nn'),
    Op('reciprocal', 1, lambda x: fdiv(one(x), x), 'ref'),
    Op('signed_sqrt', 1, lambda x: ite(olt(x, zero(x)), fneg(fsqrt(fneg(x))), fsqrt(x)), 'num', 'nn'),
    Op('softclip', 1, lambda x: ite(olt(fabs(x), fc(0.5, x.s)), x, fdiv(fsub(fabs(x), fc(0.25, x.s)), x)), 'num', 'nn'),
]
MATH1 = ['sin', 'cos', 'tan', 'asin', 'acos', 'atan', 'tanh', 'log', 'log2', 'log10', 'exp']
UN += [Op(m, 1, (lambda m: lambda x: app(m, [x], x.s))(m), 'ref') for m in MATH1]
def _clip2h(x, l): return ole(zero(l), l)
BIN = [
    Op('plus', 2, fadd), Op('minus', 2, fsub), Op('times', 2, fmul), Op('over', 2, fdiv),
    Op('min', 2, MIN, 'num', 'nn'), Op('max', 2, MAX, 'num', 'nn'),
    Op('less', 2, lambda x, y: bool_f(olt(x, y), x.s)), Op('less_equal', 2, lambda x, y: bool_f(ole(x, y), x.s)),
    Op('greater', 2, lambda x, y: bool_f(olt(y, x), x.s)), Op('greater_equal', 2, lambda x, y: bool_f(ole(y, x), x.s)),
    Op('equal', 2, lambda x, y: bool_f(oeq(x, y), x.s)), Op('notequal', 2, lambda x, y: bool_f(bnot(oeq(x, y)), x.s)),
    Op('clip2', 2, lambda x, l: ite(olt(x, fneg(l)), fneg(l), ite(olt(l, x), l, x)), 'num', 'nn', _clip2h),
    Op('sum', 2, fadd),
    Op('pow', 2, lambda x, y: app('pow', [x, y], x.s), 'ref'),
    Op('spow', 2, lambda x, y: ite(olt(zero(x), x), app('pow', [x, y], x.s), fneg(app('pow', [fneg(x), y], x.s))), 'ref'),
]
TER = [
    Op('clip', 3, lambda x, lo, hi: ite(olt(x, lo), lo, ite(olt(hi, x), hi, x)), 'num', 'nn', lambda x, lo, hi: ole(lo, hi)),
    Op('muladd', 3, lambda x, m, a: fadd(fmul(x, m), a), 'real', 'fin'),
    Op('ampmod', 3, lambda s, m, a: fmul(s, fadd(one(s), fmul(m, a))), 'real', 'fin'),
    Op('sum', 3, lambda a, b, c: fadd(fadd(a, b), c), 'real', 'fin'),
]
QUA = [
    Op('mix', 4, lambda a, f, b, g: fadd(fmul(a, f), fmul(b, g)), 'real', 'fin'),
    Op('sum', 4, lambda a, b, c, d: fadd(fadd(a, b), fadd(c, d)), 'real', 'fin'),
]
UNITS = ['midi2freq', 'freq2midi', 'midi2ratio', 'ratio2midi', 'oct2freq', 'freq2oct', 'amp2db', 'db2amp']

class K:
    """one entry"""
    def __init__(self, id, fam, e, form, params, code, outs=(), nconst=None, gran=1, op=None, kinds='', ret=None, aligned=True, cfg=None, meta=None):
        self.id = id; self.fam = fam; self.e = e; self.form = form; self.params = params; self.code = code
        self.outs = list(outs); self.nconst = nconst; self.gran = gran; self.op = op; self.kinds = kinds; self.ret = ret
        self.aligned = aligned; self.cfg = cfg; self.meta = meta or {}
    def text(self):
        c = CT[self.e]; ps = []
        for k, n in self.params:
            if k == 'o': ps.append('%s* %s' % (c, n))
            elif k == 'v': ps.append('const %s* %s' % (c, n))
            elif k == 's': ps.append('%s %s' % (c, n))
            elif k == 'n': ps.append('unsigned n')
            elif k == 'i': ps.append('int %s' % n)
            elif k == 'u': ps.append('unsigned %s' % n)
            elif k == 'io': ps.append('int* %s' % n)
            elif k == 'iv': ps.append('const int* %s' % n)
        rt = {'f': 'float', 'd': 'double', None: 'void', 'i': 'int', 'b': 'int'}[self.ret]
        return 'extern "C" %s %s(%s) { %s }' % (rt, self.id, ', '.join(ps), self.code)

FORMS = ['plain', 'simd', 'ct']

def call_args(kinds, e):
    """(params, expressions, spec builders) of the arguments of an elementwise function"""
    ps = []; ex = []
    for i, k in enumerate(kinds):
        if k == 'v': ps.append(('v', 'a%d' % i)); ex.append('a%d' % i)
        elif k == 's': ps.append(('s', 's%d' % i)); ex.append('s%d' % i)
        elif k == 'r':
            ps += [('s', 's%d' % i), ('s', 'd%d' % i)]; ex.append('nova::slope_argument(s%d, d%d)' % (i, i))
        elif k == 'V': ps.append(('v', 'a%d' % i)); ex.append('nova::vector_argument(a%d)' % i)
        elif k == 'S': ps.append(('s', 's%d' % i)); ex.append('nova::scalar_argument(s%d)' % i)
    return ps, ex

def elementwise(cfg, e, op, kinds, form, fam, mult=None):
    """kernel for op with argument kinds ('v' buffer, 's' constant, 'r' ramp)"""
    ps, ex = call_args(kinds, e)
    V = vsize(cfg, e)
    fn = 'nova::%s_vec%s' % (op.name, '' if form == 'plain' else '_simd')
    params = [('o', 'o')] + ps
    nconst = None; gran = 1
    tag = ''
    if form == 'ct':
        nconst = V * (mult or 3)
        if mult: tag = str(mult)
        call = '%s<%d>(o, %s);' % (fn, nconst, ', '.join(ex))
    else:
        params = params + [('n', 'n')]
        call = '%s(o, %s, n);' % (fn, ', '.join(ex))
        if form == 'simd': gran = cacheline(cfg, e)
    return K('%s_%s_%s_%s%s' % (op.name, kinds, form, e, tag), fam, e, form, params, call, outs=['o'], nconst=nconst, gran=gran,
             op=op, kinds=kinds, aligned=form != 'plain', cfg=cfg)

def absent(cfg, e, name, form):
    """entries that the library does not offer in this configuration"""
    return cfg == 'sse1' and e == 'd' and name == 'softclip' and form != 'plain'

def elementwise_all(cfg, e, thorough=False, ramps=False):
    ks = []
    for form in FORMS:
        if not ramps:
            for op in UN:
                if not absent(cfg, e, op.name, form): ks.append(elementwise(cfg, e, op, 'v', form, 'unary'))
            for op in BIN:
                for kinds in ('vv', 'vs', 'sv'): ks.append(elementwise(cfg, e, op, kinds, form, 'binary'))
            for op in TER:
                kk = ['vvv', 'vss', 'vvs', 'vsv', 'svv', 'ssv', 'svs']
                for kinds in kk: ks.append(elementwise(cfg, e, op, kinds, form, 'ternary'))
        else:
            for op in BIN:
                if op.mode == 'ref': continue
                for kinds in ('vr', 'rv') + (('rs', 'sr', 'rr') if thorough or op.name in ('plus', 'times') else ()):
                    ks.append(elementwise(cfg, e, op, kinds, form, 'ramp'))
            for op in TER:
                for kinds in ('vrr', 'vvr', 'vrv', 'vsr', 'vrs', 'rvv') + (('rrr', 'rss') if thorough else ()):
                    ks.append(elementwise(cfg, e, op, kinds, form, 'ramp'))
    if not ramps:
        # arguments wrapped explicitly
        for form in FORMS:
            for op in BIN:
                if op.name in ('plus', 'minus', 'clip2'):
                    for kinds in ('VS', 'SV', 'Vs', 'vS'): ks.append(elementwise(cfg, e, op, kinds, form, 'binary'))
            for op in TER:
                if op.name == 'muladd':
                    for kinds in ('VSV', 'SVv', 'vsS'): ks.append(elementwise(cfg, e, op, kinds, form, 'ternary'))
    return ks
def mix_all(cfg, e, thorough=False):
    ks = []
    for form in FORMS:
        for op in QUA:
            kk = ['vvvv', 'vsvs', 'vsvr', 'vrvs', 'vrvr', 'svsv', 'vvvs', 'ssvv', 'rvrv']
            for kinds in kk: ks.append(elementwise(cfg, e, op, kinds, form, 'mix'))
        for op in (BIN[13], TER[3]):
            for kinds in (('vv', 'vs', 'sv', 'vr') if op.ar == 2 else ('vvv', 'vss', 'vvs', 'vsv', 'svv', 'vvr', 'vrr')):
                ks.append(elementwise(cfg, e, op, kinds, form, 'mix'))
    return ks

# ---- memory functions
def ix(t, i): return t     # documentation only
def memory(cfg, e, thorough=False):
    ks = []; V = vsize(cfg, e); C = cacheline(cfg, e)
    def add(name, form, params, call, al, spec, mode='bit', nconst=None, meta=None):
        ks.append(K('%s_%s_%s' % (name, form, e), 'mem', e, form, params, call, outs=['o'], nconst=nconst,
                    gran=C if form.startswith('simd') else 1, kinds='', aligned=al, cfg=cfg,
                    op=Op(name, 0, spec, mode, 'any' if mode != 'real' else 'fin'), meta=dict(meta or {})))
    Z = lambda env, off, i: fcb(0, e)
    S = lambda env, off, i: env['s']
    CP = lambda env, off, i: sel(env['a'], off, e)
    AC = lambda env, off, i: fadd(sel(env['o'], off, e), sel(env['a'], off, e))
    AS = lambda env, off, i: fadd(sel(env['o'], off, e), env['s'])
    AR = lambda env, off, i: fadd(sel(env['o'], off, e), ramp(env['s'], env['d'], i))
    RL = lambda env, off, i: ramp(env['s'], env['d'], i)
    GE = lambda env, off, i: geo(env['s'], env['d'], i)
    o, a, s, d, n = ('o', 'o'), ('v', 'a'), ('s', 's'), ('s', 'd'), ('n', 'n')
    N = 3 * V; T_ = CT[e]
    add('zerovec', 'plain', [o, n], 'nova::zerovec(o, n);', False, Z)
    add('setvec', 'plain', [o, s, n], 'nova::setvec(o, s, n);', False, S)
    add('copyvec', 'plain', [o, a, n], 'nova::copyvec(o, a, n);', False, CP)
    add('addvec_b', 'plain', [o, a, n], 'nova::addvec(o, a, n);', False, AC, 'num')
    add('addvec_c', 'plain', [o, s, n], 'nova::addvec(o, s, n);', False, AS, 'num')
    add('addvec_r', 'plain', [o, s, d, n], 'nova::addvec(o, s, d, n);', False, AR, 'real', meta={'prop': 'C04'})
    add('set_slope_vec', 'plain', [o, s, d, n], 'nova::set_slope_vec(o, s, d, n);', False, RL, 'real', meta={'prop': 'C04'})
    add('set_exp_vec', 'plain', [o, s, d, n], 'nova::set_exp_vec(o, s, d, n);', False, GE, 'real', meta={'prop': 'C04'})
    for nm, al in (('zerovec', True), ('zerovec_na', False)):
        add(nm, 'simd', [o, n], 'nova::%s_simd(o, n);' % nm, al, Z)
        add(nm, 'ct', [o], 'nova::%s_simd<%d>(o);' % (nm, N), al, Z, nconst=N)
    for nm, al in (('setvec', True), ('setvec_na', False)):
        add(nm, 'simd', [o, s, n], 'nova::%s_simd(o, s, n);' % nm, al, S)
        add(nm, 'ct', [o, s], 'nova::%s_simd<%d>(o, s);' % (nm, N), al, S, nconst=N)
    for nm, al in (('copyvec', {'o': 1, 'a': 1}), ('copyvec_aa', {'o': 1, 'a': 1}), ('copyvec_na', {'o': 1, 'a': 0}), ('copyvec_an', {'o': 0, 'a': 1}), ('copyvec_nn', {'o': 0, 'a': 0})):
        add(nm, 'simd', [o, a, n], 'nova::%s_simd(o, a, n);' % nm, al, CP)
        add(nm, 'ct', [o, a], 'nova::%s_simd<%d, %s>(o, a);' % (nm, N, T_), al, CP, nconst=N)
    add('addvec_b', 'simd', [o, a, n], 'nova::addvec_simd(o, a, n);', True, AC, 'num')
    add('addvec_c', 'simd', [o, s, n], 'nova::addvec_simd(o, s, n);', True, AS, 'num')
    add('addvec_r', 'simd', [o, s, d, n], 'nova::addvec_simd(o, s, d, n);', True, AR, 'real', meta={'prop': 'C04'})
    add('addvec_b', 'ct', [o, a], 'nova::addvec_simd<%d>(o, a);' % N, True, AC, 'num', nconst=N)
    add('addvec_c', 'ct', [o, s], 'nova::addvec_simd<%d>(o, s);' % N, True, AS, 'num', nconst=N)
    add('addvec_r', 'ct', [o, s, d], 'nova::addvec_simd<%d>(o, s, d);' % N, True, AR, 'real', nconst=N, meta={'prop': 'C04'})
    add('set_slope_vec', 'simd', [o, s, d, n], 'nova::set_slope_vec_simd(o, s, d, n);', True, RL, 'real', meta={'prop': 'C04'})
    add('set_exp_vec', 'simd', [o, s, d, n], 'nova::set_exp_vec_simd(o, s, d, n);', True, GE, 'real', meta={'prop': 'C04'})
    return ks

def pan(cfg, e, thorough=False):
    ks = []; V = vsize(cfg, e); C = cacheline(cfg, e); N = 3 * V
    o, p, a, n = ('o', 'o'), ('o', 'p'), ('v', 'a'), ('n', 'n')
    f0, f1, d0, d1 = ('s', 'f0'), ('s', 'f1'), ('s', 'd0'), ('s', 'd1')
    def spec(fac): return lambda env, off, i: fmul(sel(env['a'], off, e), fac(env, i))
    c = {'o': spec(lambda env, i: env['f0']), 'p': spec(lambda env, i: env['f1'])}
    r = {'o': spec(lambda env, i: ramp(env['f0'], env['d0'], i)), 'p': spec(lambda env, i: ramp(env['f1'], env['d1'], i))}
    for form in FORMS:
        sfx = '' if form == 'plain' else '_simd'
        t = '<%d>' % N if form == 'ct' else ''
        tail = [] if form == 'ct' else [n]; ta = '' if form == 'ct' else ', n'
        for kind, sp, ps, call, mode in (('c', c, [f0, f1], 'f0, f1', 'num'), ('r', r, [f0, d0, f1, d1], 'f0, d0, f1, d1', 'real')):
            ks.append(K('pan2_%s_%s_%s' % (kind, form, e), 'pan', e, form, [o, p, a] + ps + tail,
                        'nova::pan2_vec%s%s(o, p, a, %s%s);' % (sfx, t, call, ta), outs=['o', 'p'],
                        nconst=N if form == 'ct' else None, gran=C if form == 'simd' else 1, aligned=form != 'plain', cfg=cfg,
                        op=Op('pan2', 0, sp, mode, 'any' if mode != 'real' else 'fin')))
    return ks

def reductions(cfg, e, thorough=False):
    ks = []; C = cacheline(cfg, e)
    a, n = ('v', 'a'), ('n', 'n')
    for form in ('plain', 'simd'):
        sfx = '' if form == 'plain' else '_simd'; g = 1 if form == 'plain' else C
        def add(name, params, call, ret, meta):
            ks.append(K('%s_%s_%s' % (name, form, e), 'red', e, form, params, call, outs=meta.get('cells', []), gran=g, ret=e if ret else None,
                        aligned=form != 'plain', cfg=cfg, meta=meta))
        for r in ('max', 'min', 'sum'):
            add('hor_' + r, [a, n], 'return nova::horizontal_%s_vec%s(a, n);' % (r, sfx), True, {'ret': r, 'cells': []})
        add('hor_minmax', [('o', 'x'), ('o', 'y'), a, n], 'nova::horizontal_minmax_vec%s(*x, *y, a, n);' % sfx, False, {'cells': ['x', 'y'], 'x': 'min', 'y': 'max'})
        add('hor_maxsum', [('o', 'x'), ('o', 'y'), a, n], 'nova::horizontal_maxsum_vec%s(*x, *y, a, n);' % sfx, False, {'cells': ['x', 'y'], 'x': 'max', 'y': 'sum'})
        add('peak', [a, ('o', 'x'), n], 'return nova::peak_vec%s(a, x, n);' % sfx, True, {'cells': ['x'], 'x': 'peak', 'ret': 'last'})
        add('peak_rms', [a, ('o', 'x'), ('o', 'y'), n], 'nova::peak_rms_vec%s(a, x, y, n);' % sfx, False, {'cells': ['x', 'y'], 'x': 'peak', 'y': 'sqsum'})
    return ks

def units(cfg, e, thorough=False):
    ks = []
    for u in UNITS:
        for form in FORMS: ks.append(elementwise(cfg, e, Op(u, 1, None, 'unit', 'fin'), 'v', form, 'unit'))
    return ks

# ---- vec<F> level
def vec_entry(cfg, e, name, nin, body, op, scal=0, mode=None, extra_meta=None, nout=1):
    V = vsize(cfg, e); t = CT[e]
    ps = [('o', 'o')] + [('v', 'a%d' % i) for i in range(nin)] + [('s', 's%d' % i) for i in range(scal)]
    code = 'typedef nova::vec<%s> V; ' % t
    for i in range(nin): code += 'V x%d; x%d.load(a%d); ' % (i, i, i)
    code += body
    return K('v_%s_%s' % (name, e), 'vec', e, 'vec', ps, code, outs=['o'], nconst=V, aligned=False, cfg=cfg, op=op, kinds='v' * nin + 's' * scal, meta=extra_meta)

def L(env, name, i, e): return sel(env[name], bvc(i * ES[e], 64), e)
INTV = {'sse': 'nova::detail::int_vec_sse2', 'avx': 'nova::detail::int_vec_avx'}

def vec_access(cfg, e, thorough=False):
    """C06"""
    ks = []; V = vsize(cfg, e); t = CT[e]; vk = vkind(cfg, e); es = ES[e]
    def add(name, params, body, spec, mode='bit', al=False, ret=None, retspec=None, retmode='bit', out=True, hyp='any'):
        ks.append(K('va_%s_%s' % (name, e), 'vec', e, 'vec', params, 'typedef nova::vec<%s> V; ' % t + body, outs=['o'] if out else [], nconst=V,
                    aligned=al, cfg=cfg, op=Op(name, 0, spec, mode, hyp), ret=ret, meta={'retspec': retspec, 'retmode': retmode}))
    o, a, s, d = ('o', 'o'), ('v', 'a'), ('s', 's'), ('s', 'd')
    CP = lambda env, off, i: sel(env['a'], off, e)
    for ld in ('load', 'load_aligned'):
        for stt in ('store', 'store_aligned', 'store_aligned_stream'):
            al = {'a': ld != 'load', 'o': stt != 'store'}
            add('%s_%s' % (ld, stt), [o, a], 'V x; x.%s(a); x.%s(o);' % (ld, stt), CP, al=al)
    add('load_first', [o, a], 'V x; x.load_first(a); x.store(o);', lambda env, off, i: sel(env['a'], off, e) if i.a[0] == 0 else fcb(0, e))
    ks[-1].meta['len'] = {'a': 1}
    add('clear', [o], 'V x; x.clear(); x.store(o);', lambda env, off, i: fcb(0, e))
    S = lambda env, off, i: env['s']
    add('set_vec', [o, s], 'V x; x.set_vec(s); x.store(o);', S)
    add('ctor', [o, s], 'V x(s); x.store(o);', S)
    add('copy', [o, a], 'V x; x.load(a); V y(x); y.store(o);', CP)
    add('assign', [o, a], 'V x; x.load(a); V y(%s(3)); y = x; x.clear(); y.store(o);' % t, CP)
    for i in range(V):
        add('get%d' % i, [a], 'V x; x.load(a); return x.get(%d);' % i, None, ret=e, retspec=(lambda i: lambda env: L(env, 'a', i, e))(i), out=False)
        add('set%d' % i, [o, a, s], 'V x; x.load(a); x.set(%d, s); x.store(o);' % i, (lambda j: lambda env, off, i: env['s'] if i.a[0] == j else sel(env['a'], off, e))(i))
    add('set_slope', [o, s, d], 'V x; %s r = x.set_slope(s, d); x.store(o); return r;' % t, lambda env, off, i: ramp(env['s'], env['d'], i), 'real', ret=e,
        retspec=lambda env: fmul(fc(V, e), env['d']), retmode='real', hyp='fin')
    add('set_exp', [o, s, d], 'V x; %s r = x.set_exp(s, d); x.store(o); return r;' % t, lambda env, off, i: geo(env['s'], env['d'], i), 'real', ret=e,
        retspec=lambda env: geo(env['s'], env['d'], bvc(V, 64)), retmode='real', hyp='fin')
    m = mask(FW[e])
    gens = {'gen_zero': 0}
    if vk != 'generic':
        gens.update({'gen_one': f2bits(1.0, e), 'gen_05': f2bits(0.5, e), 'gen_ones': m, 'gen_sign_mask': SIGN[e], 'gen_abs_mask': m >> 1})
        if e == 'f':
            gens.update({'gen_exp_mask': 0x7F800000, 'gen_exp_mask_1': 0x3F000000})
        else: gens.update({'gen_exp_mask': 0x7FF << 52, 'gen_exp_mask_1': 0x3FE << 52})
        if not (vk == 'sse2'): pass
        else:
            gens.pop('gen_exp_mask'); gens.pop('gen_exp_mask_1')
        if vk == 'avx' and e == 'd': gens.pop('gen_exp_mask', 0); gens.pop('gen_exp_mask_1', 0)
    for g, b in gens.items():
        add(g, [o], 'V x = V::%s(); x.store(o);' % g, (lambda b: lambda env, off, i: fcb(b, e))(b))
    if e == 'f' and cfg in ('sse1', 'sse2', 'sse41', 'avx', 'fma'):
        for g, b in (('gen_sign_mask', 0x80000000), ('gen_abs_mask', 0x7fffffff), ('gen_one', f2bits(1.0, 'f')), ('gen_05', f2bits(0.5, 'f')), ('gen_025', f2bits(0.25, 'f'))):
            ks.append(K('vu_%s_f' % g, 'vec', 'f', 'vec', [o], '_mm_storeu_ps(o, nova::detail::%s());' % g, outs=['o'], nconst=4, aligned=False, cfg=cfg,
                        op=Op(g, 0, (lambda b: lambda env, off, i: fcb(b, 'f'))(b), 'bit'), meta={}))
        for j in (0, 3):
            ks.append(K('vu_extract%d_f' % j, 'vec', 'f', 'vec', [a], 'return nova::detail::extract_%d(_mm_loadu_ps(a));' % j, outs=[], nconst=4, aligned=False, cfg=cfg, ret='f',
                        op=Op('extract', 0, None, 'bit'), meta={'retspec': (lambda j: lambda env: L(env, 'a', j, 'f'))(j), 'retmode': 'bit'}))
    # multiples of the vector size are aligned, the elements between them are not
    step = 1 if vk == 'generic' else V
    for j in range(0, 2 * V + 1):
        if vk == 'generic' and e == 'd' and j > 1: break
        add('is_aligned%d' % j, [('o', 'a')], 'return V::is_aligned(a + %d);' % j, None, ret='i', retspec=(lambda j: lambda env: bvc(int(j % step == 0), 32))(j), out=False, al=True)
    ks.append(K('va_size_%s' % e, 'vec', e, 'vec', [], 'typedef nova::vec<%s> V; return (int)V::size * 1000 + (int)V::objects_per_cacheline;' % t, outs=[], nconst=V, cfg=cfg, ret='i',
                op=Op('size', 0, None, 'bit'), meta={'retspec': lambda env: bvc(V * 1000 + 64 // es, 32), 'retmode': 'bit'}))
    return ks

def vec_arith(cfg, e, thorough=False):
    """C07"""
    ks = []; V = vsize(cfg, e); t = CT[e]; vk = vkind(cfg, e)
    st = ' r.store(o);'
    def add(name, nin, body, spec, mode='num', dom='any', scal=0, hyp=None, meta=None):
        ks.append(vec_entry(cfg, e, name, nin, body, Op(name, nin + scal, spec, mode, dom, hyp), scal=scal, extra_meta=meta))
    for nm, c, f in (('add', '+', fadd), ('sub', '-', fsub), ('mul', '*', fmul), ('div', '/', fdiv)):
        add(nm, 2, 'V r = x0 %s x1;' % c + st, f)
        add(nm + '_eq', 2, 'V r = x0; r %s= x1;' % c + st, f)
        if vk != 'generic':
            add(nm + '_vs', 1, 'V r = x0 %s s0;' % c + st, f, scal=1)
            if e == 'f': add(nm + '_sv', 1, 'V r = s0 %s x0;' % c + st, lambda x, s, f=f: f(s, x), scal=1)
        add(nm + '_keep', 2, 'V r = x0 %s x1; r = x1;' % c + st, lambda x, y: y, 'bit')
    if vk != 'generic' and e == 'f': add('neg', 1, 'V r = -x0;' + st, fneg, 'num')
    add('madd', 3, 'V r = madd(x0, x1, x2);' + st, lambda x, y, z: fadd(fmul(x, y), z), 'madd')
    add('min', 2, 'V r = min_(x0, x1);' + st, MIN, 'num', 'nn')
    add('max', 2, 'V r = max_(x0, x1);' + st, MAX, 'num', 'nn')
    add('collect', 1, '%s k = s0; V r = x0.collect([k](%s v) { return v * k; });' % (t, t) + st, lambda x, s: fmul(x, s), scal=1)
    cmp = (('lt', '<', olt), ('le', '<=', ole), ('gt', '>', lambda x, y: olt(y, x)), ('ge', '>=', lambda x, y: ole(y, x)),
           ('eq', '==', oeq), ('neq', '!=', lambda x, y: bnot(oeq(x, y))))
    ones = fcb(mask(FW[e]), e)
    for nm, c, f in cmp:
        add('cmp_' + nm, 2, 'V r = x0 %s x1;' % c + st, lambda x, y, f=f: bool_f(f(x, y), e), 'bit')
        if vk != 'generic':
            add('mask_' + nm, 2, 'V r = mask_%s(x0, x1);' % nm + st, lambda x, y, f=f: ite(f(x, y), ones, fcb(0, e)), 'bit')
    if vk != 'generic':
        # a mask has all bits of a lane set or all clear
        add('select', 2, 'V m = mask_lt(x0, x1); V r = select(x0, x1, m);' + st, lambda x, y: ite(olt(x, y), y, x), 'bit')
        add('select2', 3, 'V m = mask_eq(x2, x2); V r = select(x0, x1, m);' + st, lambda x, y, z: ite(oeq(z, z), y, x), 'bit')
        for nm, c, f in (('and', '&', band), ('or', '|', bor), ('xor', '^', bxor)):
            add(nm, 2, 'V r = x0 %s x1;' % c + st, lambda x, y, f=f: fp(f(bits(x), bits(y))), 'bit')
        if not (vk == 'avx' and e == 'd'): add('andnot', 2, 'V r = andnot(x0, x1);' + st, lambda x, y: fp(band(bxor(bits(x), bvc(-1, FW[e])), bits(y))), 'bit')
    else:
        add('select', 3, 'V r = select(x0, x1, x2);' + st, lambda x, y, z: ite(oeq(z, zero(z)), x, y), 'bit', 'nn')
    if e == 'f' and cfg in ('sse1', 'sse2', 'sse41', 'avx', 'fma'):
        k = K('vu_select_f', 'vec', 'f', 'vec', [('o', 'o'), ('v', 'a0'), ('v', 'a1')], '__m128 x = _mm_loadu_ps(a0), y = _mm_loadu_ps(a1); _mm_storeu_ps(o, nova::detail::select_vector(x, y, _mm_cmplt_ps(x, y)));',
              outs=['o'], nconst=4, aligned=False, cfg=cfg, op=Op('select_vector', 2, lambda x, y: ite(olt(x, y), y, x), 'bit'), kinds='vv', meta={})
        ks.append(k)
    if e == 'f' and cfg in ('sse2', 'sse41', 'avx', 'fma'):
        I = 'typename_I'
        pre = 'typedef V::int_vec I; I i0((nova::vec<float>::internal_vector_type)x0); '
        pre2 = pre + 'I i1((nova::vec<float>::internal_vector_type)x1); '
        fin = ' V r(q);' + st
        def b2(f): return lambda x, y: fp(f(bits(x), bits(y)))
        allm = lambda c: ite(c, bvc(-1, 32), bvc(0, 32))
        for nm, ex, f in (('iadd', 'i0 + i1', badd), ('isub', 'i0 - i1', bsub), ('iand', 'i0 & i1', band),
                          ('iandnot', 'andnot(i0, i1)', lambda x, y: band(bxor(x, bvc(-1, 32)), y)),
                          ('imask_lt', 'mask_lt(i0, i1)', lambda x, y: allm(bvslt(x, y))),
                          ('imask_gt', 'mask_gt(i0, i1)', lambda x, y: allm(bvslt(y, x))),
                          ('imask_eq', 'mask_eq(i0, i1)', lambda x, y: allm(bveq(x, y)))):
            add(nm, 2, pre2 + 'I q = %s;' % ex + fin, b2(f), 'bit')
        for c in range(32):
            add('islli%d' % c, 1, pre + 'I q = slli(i0, %d);' % c + fin, lambda x, c=c: fp(bshl(bits(x), bvc(c, 32))), 'bit')
            add('isrli%d' % c, 1, pre + 'I q = srli(i0, %d);' % c + fin, lambda x, c=c: fp(blshr(bits(x), bvc(c, 32))), 'bit')
        add('icvt', 1, pre + 'V r(i0.convert_to_float());' + st, lambda x: sitofp(bits(x), 'f'), 'bit')
        add('itrunc', 1, 'V::int_vec q = x0.truncate_to_int();' + fin, lambda x: fp(cvtt(x)), 'bit')
        for c in (0, 1, -7, 127, -2147483648, 2147483647, 0x3f800000):
            add('iset%d' % (c % 1000), 1, 'V::int_vec q(%d);' % c + fin, lambda x, c=c: fcb(c & 0xffffffff, 'f'), 'bit')
    return ks

VUN = {'sgn': 'sign'}
def vec_elementary(cfg, e, thorough=False, names=None):
    """vec level of the unary operations (C08, C09, C11)"""
    ks = []; vk = vkind(cfg, e)
    for op in UN:
        if (names is not None and op.name not in names) or absent(cfg, e, op.name, 'vec'): continue
        if op.name == 'softclip':
            ks.append(vec_entry(cfg, e, op.name, 1, 'V r = nova::detail::softclip()(x0); r.store(o);', op)); continue
        ks.append(vec_entry(cfg, e, op.name, 1, 'V r = %s(x0); r.store(o);' % VUN.get(op.name, op.name), op))
    if (names is None or 'sqrt' in names) and vk != 'generic':
        ks.append(vec_entry(cfg, e, 'sqrt', 1, 'V r = sqrt(x0); r.store(o);', Op('sqrt', 1, fsqrt, 'num')))
    for op in BIN:
        if op.name in ('pow', 'spow') and (names is None or op.name in names):
            ks.append(vec_entry(cfg, e, op.name, 2, 'V r = %s(x0, x1); r.store(o);' % {'spow': 'signed_pow'}.get(op.name, op.name), op))
    return ks

def vec_horizontal(cfg, e, thorough=False):
    ks = []; V = vsize(cfg, e); t = CT[e]
    for r in ('min', 'max', 'sum'):
        ks.append(K('vh_%s_%s' % (r, e), 'vred', e, 'vec', [('v', 'a')], 'typedef nova::vec<%s> V; V x; x.load(a); return x.horizontal_%s();' % (t, r), outs=[], nconst=V,
                    aligned=False, cfg=cfg, ret=e, meta={'ret': r, 'cells': []}))
    if e == 'f' and cfg in ('sse1', 'sse2', 'sse41', 'avx', 'fma'):
        for r in ('min', 'max'):
            ks.append(K('vu_hor_%s_f' % r, 'vred', 'f', 'vec', [('v', 'a')], 'return nova::detail::horizontal_%s(_mm_loadu_ps(a));' % r, outs=[], nconst=4,
                        aligned=False, cfg=cfg, ret='f', meta={'ret': r, 'cells': []}))
    return ks

def source(ks, cfg):
    """translation unit for a list of entries; returns (text, first line of each entry)"""
    lines = ['#include <cmath>', '#include <cstring>', '#include <limits>', '#include <cassert>']
    hs = list(HEADERS)
    if cfg != 'generic': hs.append('simd_utils.hpp')
    lines += ['#include "%s"' % h for h in hs]
    at = {}
    for k in ks:
        at[len(lines) + 1] = k.id; lines.append(k.text())
    return '\n'.join(lines) + '\n', at

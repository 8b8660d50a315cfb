"""Obligations of one entry: executes its body symbolically and discharges its contract."""
import time
from .terms import *
from . import smt, realnf
from .ir import Unsupported
from .symex import Executor, Obj, Ptr, State, Ob, ZERO64, div_exact
from . import kernels as kn
from . import units as un

INF = {'f': fcb(0x7F800000, 'f'), 'd': fcb(0x7FF0000000000000, 'd')}
def is_nn(x): return oeq(x, x)
def is_fin(x): return olt(fabs(x), INF[x.s])

class Result:
    def __init__(self, k, alias=None):
        self.k = k; self.alias = alias or {}; self.obs = []; self.unsupported = None; self.functions = set(); self.contracts = set()
        self.loops = []; self.s = 0.0; self.q = None; self.hints = []
    @property
    def id(self):
        return '%s/%s%s' % (self.k.cfg, self.k.id, '@' + ','.join('%s=%s' % p for p in sorted(self.alias.items())) if self.alias else '')
    def bad(self, kinds=None): return [o for o in self.obs if o.st != 'proved' and (kinds is None or o.kind in kinds)]

class Ctx:
    """one module (configuration x element type) with reference terms of the vec functions"""
    def __init__(self, mod, cfg, e, contracts=None):
        self.m = mod; self.cfg = cfg; self.e = e; self.contracts = contracts; self.refs = {}
    def ref_lanes(self, name):
        """lane 0 of the public vec function `name` as a term over lane 0 of its arguments, and
        whether every other lane is the same function of its own lane"""
        r = self.refs.get(name)
        if r is None:
            fid = 'v_%s_%s' % (name, self.e)
            k = self.entry(fid)
            if k is None or fid not in self.m.fn_text: raise Unsupported('no reference for ' + name)
            s = setup(k, self)
            ex = Executor(self.m, None)
            st, rv = ex.call(s.st, k.id, s.args)
            es = kn.ES[self.e]
            byoff = {w.off.a[0]: w for w in st.wlog if isc(w.off) and w.guard is TRUE and w.size == es}
            if 0 not in byoff: raise Unsupported('reference of ' + name)
            v = byoff[0].val
            ok = len(byoff) == k.nconst
            for off, w in byoff.items():
                m = {sel('a%d' % i, ZERO64, self.e): sel('a%d' % i, bvc(off, 64), self.e) for i in range(4)}
                if subst(v, m) is not w.val: ok = False
            r = self.refs[name] = (v, k, ok)
        return r[0], r[2]
    def entry(self, fid):
        if self._ent is None:
            self._ent = {x.id: x for x in kn.vec_elementary(self.cfg, self.e) + kn.vec_arith(self.cfg, self.e)}
        return self._ent.get(fid)
    def apply_ref(self, name, args):
        v, _ = self.ref_lanes(name); k = self.refs[name][1]
        m = {}
        for i, (a, kd) in enumerate(zip(args, k.kinds)):
            if kd == 'v': m[sel('a%d' % i, ZERO64, self.e)] = a
            else: m[sym('s%d' % (i - k.kinds.count('v')), self.e)] = a
        return subst(v, m)
    _ent = None
    lib = None

class Setup: pass
FULL, HALF = (1 << 32) - 1, 1 << 30
NMAX = [FULL]      # lengths considered: every value of the parameter type

def al_of(k, name, V):
    a = k.aligned
    if isinstance(a, dict): a = a.get(name, False)
    es = kn.ES[k.e]
    return V * es if a else es

def setup(k, ctx, alias=None):
    s = Setup(); e = k.e; es = kn.ES[e]
    V = kn.vsize(k.cfg, e)
    if k.nconst is not None:
        n = bvc(k.nconst, 64); s.q = None
    else:
        s.q = sym('q', 64); n = bmulc(s.q, k.gran)
        smt.ASSUME[s.q] = [bvule(bvc(1, 64), s.q), bvule(s.q, bvc(NMAX[0] // k.gran, 64))]
    s.n = n; s.nb = bmulc(n, es)
    s.objs = {}; s.env = {}; s.args = []
    lens = k.meta.get('len', {})
    for kind, nm in k.params:
        if kind in ('o', 'v'):
            tgt = (alias or {}).get(nm, nm)
            if tgt not in s.objs:
                if nm in k.meta.get('cells', ()): o = Obj(nm, 'ext', size=bvc(es, 64), al=es, elem=e)
                elif nm in lens: o = Obj(nm, 'ext', size=bvc(es * lens[nm], 64), al=al_of(k, nm, V), elem=e, writable=kind == 'o')
                else: o = Obj(tgt, 'ext', size=s.nb, al=al_of(k, tgt, V), elem=e, writable=False)
                s.objs[tgt] = o
            if kind == 'o': s.objs[tgt].writable = True
            s.objs[nm] = s.objs[tgt]; s.env[nm] = s.objs[tgt].name
            s.args.append(Ptr(s.objs[tgt], ZERO64))
        elif kind == 's':
            v = sym(nm, e); s.env[nm] = v; s.args.append(v)
        elif kind == 'n': s.args.append(trunc(n, 32))
        elif kind == 'i': v = sym(nm, 32); s.env[nm] = v; s.args.append(v)
        else: raise Unsupported('param')
    s.st = State()
    return s

def arg_terms(k, s, off, i):
    out = []
    e = k.e
    for j, kd in enumerate(k.kinds):
        if kd in 'vV': out.append(sel(s.env['a%d' % j], off, e))
        elif kd in 'sS':
            nm = 's%d' % j
            if nm not in s.env: nm = 's%d' % (j - k.kinds.count('v'))
            out.append(s.env[nm])
        elif kd == 'r': out.append(ramp(s.env['s%d' % j], s.env['d%d' % j], i))
    return out

def index_of(off, es):
    i = div_exact(off, es)
    if i is None: raise Unsupported('offset not a multiple of the element size')
    if bmulc(i, es) is not off: raise Unsupported('misaligned element')
    return i

def loop_hyps(x):
    h = []
    if x.loop is not None and x.post: h.append(bvult(x.loop.k, x.loop.K))
    return h

# ------------------------------------------------------------------ comparison of values
NF_ATOMS = {}
def canon_real(t, elem, memo=None):
    """replace maximal arithmetic subterms by atoms named by their real normal form, so that
    comparisons and selections over them can be matched"""
    if memo is None: memo = {}
    r = memo.get(t)
    if r is not None: return r
    if t.s in FW and t.op in ('fadd', 'fmul', 'fma', 'ramp', 'geo', 'fpext', 'sitofp', 'uitofp') or (t.op == 'fptrunc' and elem == 'f') or (t.s in FW and t.op == 'fdiv'):
        n = realnf.NF(elem)
        try:
            p = n.nf(t)
            if not realnf.stable(t, p, elem): memo[t] = t; return t
        except realnf.NoNF: memo[t] = t; return t
        if len(p) == 1:
            (mm, c), = p.items()
            if c == 1 and len(mm) == 1 and mm[0][1] == ((None, 1),) and isinstance(mm[0][0], T): memo[t] = mm[0][0]; return mm[0][0]
            if c == -1 and len(mm) == 1 and mm[0][1] == ((None, 1),) and isinstance(mm[0][0], T): memo[t] = fneg(mm[0][0]); return memo[t]
        if not p: r = fcb(0, t.s)
        else:
            key = frozenset(p.items()); neg = frozenset((m, -c) for m, c in p.items())
            if neg in NF_ATOMS and key not in NF_ATOMS: r = fneg(NF_ATOMS[neg])
            else:
                if key not in NF_ATOMS: NF_ATOMS[key] = fresh('real', t.s)
                r = NF_ATOMS[key]
        memo[t] = r; return r
    if t.op in ('sym', 'sel', 'fc', 'c', 'true', 'false', 'red'): r = t
    elif t.op == 'fneg': r = fneg(canon_real(t.a[0], elem, memo))
    elif t.op == 'lin': r = t
    else:
        na = tuple(canon_real(x, elem, memo) if isinstance(x, T) else x for x in t.a)
        r = t if all(x is y for x, y in zip(na, t.a)) else rebuild(t, na)
    memo[t] = r
    return r

def compare(val, spec, mode, hyps, e, has_ramp=False, timeout=20):
    """smt.Res for val == spec"""
    if val is spec: return smt.Res('proved', why='identical terms')
    if val.s != spec.s:
        if val.s in FW and isinstance(spec.s, int): val = bits(val)
        elif spec.s in FW and isinstance(val.s, int): val = fp(val)
    if mode == 'real' or has_ramp:
        t0 = time.time()
        ok = realnf.same(val, spec, e)
        if ok: return smt.Res('proved', why='real normal form', s=time.time() - t0)
        a, b = canon_real(val, e), canon_real(spec, e)
        if a is b: return smt.Res('proved', why='real normal form', s=time.time() - t0)
        if has_ramp and mode != 'real':
            hy = []
            for x in atoms((a, b)):
                if x.op in ('sym', 'sel') and x.s in FW: hy.append(is_fin(x))
            r = smt.prove(TRUE, hyps=hy, eqs=[(a, b, 'num')], timeout=timeout)
            if r.st == 'proved': return smt.Res('proved', why='real normal form + z3', s=r.s)
        d = real_differs(val, spec, e)
        if d is not None: return smt.Res('refuted', d, why='differ over the reals')
        return smt.Res('unknown', why='no common real normal form')
    if mode == 'bit':
        if isinstance(val.s, int): return smt.prove(bveq(val, spec), hyps=hyps, timeout=timeout)
        return smt.prove(TRUE, hyps=hyps, eqs=[(val, spec, 'bit')], timeout=timeout)
    if mode == 'num': return smt.prove(TRUE, hyps=hyps, eqs=[(val, spec, 'num')], timeout=timeout)
    raise Unsupported('mode ' + mode)

def real_differs(a, b, e):
    """random exact evaluation over the rationals; a witness if the terms differ"""
    import random
    from fractions import Fraction
    rnd = random.Random(7)
    at = [x for x in atoms((a, b)) if x.op in ('sym', 'sel')]
    for _ in range(6):
        asg = {}
        for x in at:
            if x.s in FW: asg[x] = Fraction(rnd.randint(-40, 40) or 3, rnd.choice([1, 2, 4, 8]))
            elif isinstance(x.s, int): asg[x] = Fraction(rnd.randint(1, 5))
        try: u = reval(a, asg, e, {}); v = reval(b, asg, e, {})
        except (Unsupported, ZeroDivisionError): return None
        if u != v: return {x: (str(y)) for x, y in asg.items()}
    return None
def reval(t, m, e, memo):
    from fractions import Fraction
    r = memo.get(t)
    if r is not None: return r
    op = t.op; a = t.a
    ev = lambda x: reval(x, m, e, memo)
    if t in m: r = m[t]
    elif op == 'fc':
        f = float(fval(t))
        if f != f or f in (float('inf'), float('-inf')): raise Unsupported('nonfinite')
        r = Fraction(f)
    elif op == 'c': r = Fraction(tosigned(a[0], t.s))
    elif op == 'true': r = True
    elif op == 'false': r = False
    elif op == 'lin':
        r = Fraction(tosigned(a[0], t.s))
        for x, k in a[1]: r += ev(x) * tosigned(k, t.s)
    elif op == 'fadd': r = ev(a[0]) + ev(a[1])
    elif op == 'fmul': r = ev(a[0]) * ev(a[1])
    elif op == 'fdiv': r = ev(a[0]) / ev(a[1])
    elif op == 'fma': r = ev(a[0]) * ev(a[1]) + ev(a[2])
    elif op == 'fneg': r = -ev(a[0])
    elif op == 'fabs': r = abs(ev(a[0]))
    elif op == 'fpext': r = ev(a[0])
    elif op == 'fptrunc':
        if e == 'd': raise Unsupported('narrowing')
        r = ev(a[0])
    elif op in ('sitofp', 'uitofp', 'zext', 'sext'): r = ev(a[0])
    elif op == 'extract' and a[1] == 0: r = ev(a[0])
    elif op == 'ramp': r = ev(a[0]) + ev(a[1]) * ev(a[2])
    elif op == 'geo':
        k = ev(a[2])
        if k.denominator != 1 or abs(k) > 400: raise Unsupported('exponent')
        r = ev(a[0]) * ev(a[1]) ** int(k)
    elif op == 'ite': r = ev(a[1]) if ev(a[0]) else ev(a[2])
    elif op == 'olt': r = ev(a[0]) < ev(a[1])
    elif op == 'ole': r = ev(a[0]) <= ev(a[1])
    elif op == 'oeq' or op == 'bveq': r = ev(a[0]) == ev(a[1])
    elif op == 'not': r = not ev(a[0])
    elif op == 'pand': r = ev(a[0]) and ev(a[1])
    elif op == 'rti':
        import math
        x = ev(a[1]); r = {'rtn': math.floor, 'rtp': math.ceil, 'rtz': math.trunc}.get(a[0], round)(x); r = Fraction(r)
    else: raise Unsupported('reval ' + op)
    memo[t] = r
    return r

# ------------------------------------------------------------------ tiling
def coef(t, k):
    if t is k: return 1
    if t.op == 'lin':
        c = 0
        for a, v in t.a[1]:
            if a is k: c = tosigned(v, 64)
            elif contains(a, k): return None
        return c
    return None if contains(t, k) else 0

def pieces(items):
    """items with off,size,loop,post,guard -> list of (start, end, guard, exact?)"""
    out = []; loops = {}
    for w in items:
        if w.loop is None: out.append([w.off, badd(w.off, bvc(w.size, 64)), w.guard])
        else: loops.setdefault((w.loop.id, w.post, w.guard), []).append(w)
    res = []
    # straight line: coalesce
    res += out
    for (lid, post, g), ws in loops.items():
        L = ws[0].loop; k = L.k
        cnt = L.K if post else badd(L.K, bvc(1, 64))
        groups = {}
        for w in ws:
            S = coef(w.off, k)
            if S is None or S == 0: raise Unsupported('access not affine in the loop counter')
            b = subst(w.off, {k: ZERO64})
            groups.setdefault(S, []).append((b, w.size))
        for S, bs in groups.items():
            b0 = bs[0][0]; cs = []
            for b, sz in bs:
                d = bsub(b, b0)
                if not isc(d): raise Unsupported('loop accesses at unrelated offsets')
                cs.append((tosigned(d.a[0], 64), sz))
            cs.sort()
            lo = cs[0][0]; hi = lo; overlap = False
            runs = []
            for c, sz in cs:
                if c > hi and hi != lo: runs.append((lo, hi)); lo = hi = c
                if c < hi: overlap = True
                hi = max(hi, c + sz)
            runs.append((lo, hi))
            for lo, hi in runs:
                if hi - lo < abs(S): raise Unsupported('loop leaves gaps')
                if hi - lo > abs(S): overlap = True
                start = badd(b0, bvc(lo, 64))
                span = bmulc(badd(cnt, bvc(-1, 64)), abs(S))
                if S < 0: start = bsub(start, span)
                res.append([start, badd(badd(start, span), bvc(hi - lo, 64)), g, overlap])
    return res

def tile(items, total, what, allow_overlap=True, kind='tile'):
    """obligations: the items cover [0,total) (exactly once unless overlap is allowed)"""
    try: ps = pieces(items)
    except Unsupported as x: return [Ob(kind, what, st='unknown', why=str(x))]
    guards = []
    for p in ps:
        for g in conjuncts(p[2]):
            if g not in guards and bnot(g) not in guards: guards.append(g)
    if len(guards) > 5: return [Ob(kind, what, st='unknown', why='too many cases')]
    obs = []
    for mk_ in range(1 << len(guards)):
        hy = [g if mk_ >> j & 1 else bnot(g) for j, g in enumerate(guards)]
        if hy and not smt.satisfiable(hy): continue
        truth = set(hy)
        act = [p for p in ps if all(g in truth for g in conjuncts(p[2]))]
        if not allow_overlap and any(len(p) > 3 and p[3] for p in act):
            obs.append(Ob(kind, what, st='refuted', why='an element is accounted for more than once')); continue
        cur = ZERO64; rest = list(act); ok = True
        while rest:
            nx = next((p for p in rest if p[0] is cur), None)
            if nx is None:
                nx = next((p for p in rest if smt.prove(bveq(p[0], cur), hyps=hy, timeout=5).st == 'proved'), None)
            if nx is None and allow_overlap:
                nx = next((p for p in rest if smt.prove(pand(bvule(p[0], cur), bvule(cur, p[1])), hyps=hy, timeout=5).st == 'proved'), None)
            if nx is None:
                if allow_overlap:
                    # leftovers that lie inside what is already covered
                    if all(smt.prove(bvule(p[1], cur), hyps=hy, timeout=5).st == 'proved' for p in rest): break
                ok = False; break
            rest.remove(nx)
            cur = nx[1]
        r = smt.prove(bveq(cur, total), hyps=hy, timeout=10)
        if ok and r.st == 'proved': obs.append(Ob(kind, what, r))
        elif ok: obs.append(Ob(kind, what + ': covered up to %s of %s' % (show(cur), show(total)), r))
        else: obs.append(Ob(kind, what + ': no piece continues at %s' % show(cur), st='unknown', why='pieces do not chain', model=r.model))
    return obs
def conjuncts(g):
    if g is TRUE: return []
    if g.op == 'pand': return conjuncts(g.a[0]) + conjuncts(g.a[1])
    return [g]

# ------------------------------------------------------------------ the entry
def verify(k, ctx, alias=None, values_too=True):
    res = Result(k, alias); t0 = time.time()
    try:
        s = setup(k, ctx, alias); res.q = s.q
        con = None
        if ctx.lib is not None: con = ctx.lib.view(exact_only=k.fam in ('red', 'vred', 'vec'))
        ex = Executor(ctx.m, con)
        try: st, rv = ex.call(s.st, k.id, s.args)
        finally: res.hints = ex.hints
        res.functions = ex.functions; res.contracts = ex.used_contracts; res.loops = ex.loops
        res.obs += ex.obs
        footprint(k, s, ex, res)
        if k.fam in ('red', 'vred'):
            if values_too or k.meta.get('cells'): reduction(k, s, st, rv, ex, res)
        else: values(k, s, st, rv, ex, res, ctx, values_too)
    except Unsupported as x: res.unsupported = str(x)
    except RecursionError: res.unsupported = 'recursion'
    except (AssertionError, KeyError, IndexError, TypeError, ValueError, AttributeError, NotImplementedError) as x:
        res.unsupported = 'internal: %s %s' % (type(x).__name__, x)
    res.s = time.time() - t0
    for o in res.obs: o.kernel = res.id
    return res

def footprint(k, s, ex, res):
    seen = set()
    for a in ex.acc:
        key = (a.obj, a.off, a.size, a.write, a.al, a.pc, a.loop, a.post)
        if key in seen: continue
        seen.add(key)
        hy = ([a.pc] if a.pc is not TRUE else []) + loop_hyps(a)
        o = a.obj; nm = o.name
        end = badd(a.off, a.size)
        r = smt.prove(pand(bvule(a.off, o.size), pand(bvule(a.size, o.size), bvule(end, o.size))), hyps=hy, timeout=10)
        res.obs.append(Ob('bounds-write' if a.write else 'bounds-read', '%s of %s bytes at %s+%s stays inside' % ('write' if a.write else 'read', show(a.size), nm, show(a.off)), r))
        if a.write and not o.writable: res.obs.append(Ob('bounds-write', 'write to input buffer %s' % nm, st='refuted', why='const buffer'))
        if a.al > 1:
            if a.al > o.al:
                # under the conditions on the address that the code has checked itself
                ad = sym('address of ' + nm, 64)
                smt.ASSUME[ad] = [bveq(band(ad, bvc(o.al - 1, 64)), ZERO64)]
                r = smt.prove(bveq(band(badd(ad, a.off), bvc(a.al - 1, 64)), ZERO64), hyps=hy, timeout=10)
                res.obs.append(Ob('align', '%s accessed with alignment %d, only %d is required' % (nm, a.al, o.al), r))
            else:
                al = a.al
                if a.off.op == 'lin' and all(c % al == 0 for _, c in a.off.a[1]) and a.off.a[0] % al == 0 or (isc(a.off) and a.off.a[0] % al == 0):
                    res.obs.append(Ob('align', '%s+%s multiple of %d' % (nm, show(a.off), al), smt.Res('proved', why='linear')))
                else:
                    r = smt.prove(bveq(band(a.off, bvc(al - 1, 64)), ZERO64), hyps=hy, timeout=10)
                    res.obs.append(Ob('align', '%s+%s multiple of %d' % (nm, show(a.off), al), r))

def dom_hyps(op, args):
    h = []
    for x in args:
        if x.op == 'ramp': continue
        if op.dom == 'nn': h.append(is_nn(x))
        elif op.dom == 'fin': h.append(is_fin(x))
    if op.hyp is not None: h.append(op.hyp(*args))
    return h

def value_ob(k, s, w, outname, ctx):
    """obligation for one written element"""
    e = k.e; es = kn.ES[e]; op = k.op
    i = index_of(w.off, es)
    hy = loop_hyps(w) + conjuncts(w.guard)
    desc = '%s[%s]' % (outname, show(i))
    val = w.val
    if w.size != es: raise Unsupported('write of %d bytes' % w.size)
    if op.ar == 0:
        sp = op.spec[outname] if isinstance(op.spec, dict) else op.spec
        spec = sp(s.env, w.off, i); val = expand(val, ctx)
        has_ramp = any(x.op in ('ramp', 'geo') for x in atoms((spec,)))
        return Ob('value', desc, compare(val, spec, op.mode, hy, e, has_ramp and op.mode != 'real'))
    args = arg_terms(k, s, w.off, i)
    ramps = any(x.op == 'ramp' for x in args)
    hy = hy + dom_hyps(op, args)
    if val.op == 'app' and val.a[0].startswith('V.'):
        nm = val.a[0][2:]; c = ctx.lib.table.get(nm) if ctx.lib else None
        if c is not None and list(val.a[1:]) == args and (c[1] is op or (c[1].spec is op.spec and c[1].mode == op.mode and c[1].dom == op.dom and c[1].hyp is op.hyp)):
            return Ob('value', desc, smt.Res('proved', why='contract of ' + nm))
    if op.mode == 'unit':
        st, why = un.check(op.name, e, val, args[0])
        return Ob('value', desc, st=st, why=why)
    val = expand(val, ctx)
    if op.mode == 'pred':
        return Ob('value', desc, smt.prove(op.spec(val, *args), hyps=hy, timeout=60))
    if op.mode == 'madd':
        cands = (op.spec(*args), fma(*args))
        if val in cands: return Ob("value", desc, smt.Res("proved", why="identical terms"))
        for sp in cands:
            r = compare(val, sp, 'num', hy, e)
            if r.st == 'proved': break
        return Ob('value', desc, r)
    if op.mode == 'ref':
        if k.form == 'plain' or not kn.approximated(k.cfg, e, op.name): return Ob('value', desc, compare(val, op.spec(*args), 'num', hy, e))
        spec = ctx.apply_ref(op.name, args)
        return Ob('value', desc, compare(val, spec, 'num', hy, e, timeout=5))
    if ramps and op.mode != 'real':
        # ordering hypotheses cannot be stated pointwise for a ramp: compare the shapes
        args2 = args
        spec = op.spec(*args2)
        r = compare(val, spec, op.mode, hy, e, has_ramp=True)
        if r.st != 'proved' and op.name in ('clip', 'clip2'):
            alt = alt_spec(op, args2)
            r2 = compare(val, alt, op.mode, hy, e, has_ramp=True)
            if r2.st == 'proved': r = r2
            else:
                # canonical atoms with the ordering hypothesis
                a, b = canon_real(val, e), canon_real(spec, e)
                ca = [canon_real(x, e) for x in args2]
                h2 = [op.hyp(*ca)] + [is_fin(x) for x in atoms((a, b)) if x.op in ('sym', 'sel') and x.s in FW]
                r3 = smt.prove(TRUE, hyps=h2, eqs=[(a, b, 'num')], timeout=20)
                if r3.st == 'proved': r = r3
        return Ob('value', desc, r)
    spec = op.spec(*args)
    return Ob('value', desc, compare(val, spec, op.mode, hy, e, timeout=60))
def alt_spec(op, a):
    if op.name == 'clip': return kn.MAX(kn.MIN(a[0], a[2]), a[1])
    return kn.MAX(fneg(a[1]), kn.MIN(a[0], a[1]))
def expand(t, ctx):
    """unfold contract results V.name(x) into the reference term"""
    ap = [x for x in atoms((t,)) if x.op == 'app' and x.a[0].startswith('V.')]
    if not ap: return t
    m = {x: ctx.apply_ref(x.a[0][2:], [expand(y, ctx) for y in x.a[1:]]) for x in ap}
    return subst(t, m)

def values(k, s, st, rv, ex, res, ctx, values_too=True):
    for on in k.outs:
        o = s.objs[on]
        ws = [w for w in st.wlog if w.obj is o]
        nb = s.nb
        res.obs += tile(ws, o.size, '%s: every element below n is written' % on)
        for w in ws if values_too else ():
            outname = on
            try: res.obs.append(value_ob(k, s, w, outname, ctx))
            except Unsupported as x: res.obs.append(Ob('value', '%s[%s]' % (on, show(w.off)), st='unknown', why=str(x)))
    if k.ret is not None and values_too:
        spec = k.meta['retspec'](s.env)
        res.obs.append(Ob('value', 'return value', compare(rv, spec, k.meta['retmode'], [], k.e)))

# ------------------------------------------------------------------ reductions
class Leaf:
    __slots__ = ('t', 'loop', 'post', 'guard', 'off', 'size')
def nn_simplify(t):
    m = {x: TRUE for x in atoms((t,)) if x.op == 'oeq' and x.a[0] is x.a[1]}
    return subst(t, m) if m else t
def flatten(t, kind, out, loop=None):
    from .symex import minmax_of
    if kind == 'sum':
        if t.op == 'fadd':
            flatten(t.a[0], kind, out, loop); flatten(t.a[1], kind, out, loop); return
        if t.op == 'fma':
            flatten(fmul(t.a[0], t.a[1]), kind, out, loop); flatten(t.a[2], kind, out, loop); return
    else:
        r = minmax_of(t)
        if r is not None and r[0] == kind:
            flatten(r[1], kind, out, loop); flatten(r[2], kind, out, loop); return
    if t.op == 'red' and t.a[0] == kind:
        if loop is not None: raise Unsupported('nested reduction')
        _, v0, gs, kv, cnt = t.a
        flatten(v0, kind, out, None)
        for g in gs: flatten(g, kind, out, (kv, cnt))
        return
    l = Leaf(); l.t = t; l.loop = loop; out.append(l)

class _L:
    def __init__(self, k, K): self.k = k; self.K = K; self.id = (k, K)

CONTRIB = {}
def same_contribution(kind, ts, want, x):
    """the terms of one sample together contribute fn(sample)"""
    key = (kind, tuple(ts), want); r = CONTRIB.get(key)
    if r is None:
        if kind == 'sum':
            a = ts[0]
            for t in ts[1:]: a = fadd(a, t)
            r = 'proved' if canon_real(a, x.s) is canon_real(want, x.s) else 'open'
        else:
            a = ts[0]
            for t in ts[1:]: a = ite(olt(a, t), t, a) if kind == 'max' else ite(olt(t, a), t, a)
            # the sample itself is generalised: its position does not matter
            v = sym('SAMPLE', x.s); r = smt.prove(TRUE, [oeq(v, v)], eqs=[(subst(a, {x: v}), subst(want, {x: v}), 'num')], timeout=20).st
        CONTRIB[key] = r
    return r

def reduce_ob(what, val, kind, fn, prev, s, k, total, what_kind):
    """val == fold of kind over fn(a[i]), i < n, and prev (a cell term or None)"""
    e = k.e; es = kn.ES[e]
    obs = []
    val = nn_simplify(val)
    leaves = []
    flatten(val, kind, leaves)
    items = []; prevs = 0; extra = []; groups = {}
    for l in leaves:
        t = l.t
        if prev is not None and t is prev and l.loop is None: prevs += 1; continue
        if isfc(t): extra.append(t); continue
        sels = [x for x in atoms((t,)) if x.op == 'sel' and x.a[0] == s.env['a']]
        if len(sels) == 1: groups.setdefault((sels[0], l.loop), []).append(t); continue
        return [Ob('value', '%s: unexpected contribution %s' % (what, show(t, 5)), st='unknown', why='not a sample of the buffer')]
    for (x, lp), ts in groups.items():
        plain = sum(t is fn(x) for t in ts)
        if plain < len(ts):
            if same_contribution(kind, ts, fn(x), x) != 'proved': return [Ob('value', '%s: unexpected contribution %s' % (what, show([t for t in ts if t is not fn(x)][0], 5)), st='unknown', why='not a sample of the buffer')]
            plain = 1
        it = Leaf(); it.off = x.a[1]; it.size = es; it.guard = TRUE
        if lp: it.loop = _L(*lp); it.post = True
        else: it.loop = None; it.post = False
        items += [it] * plain
    if prev is not None:
        ok = prevs == 1 or (prevs > 1 and kind != 'sum')
        obs.append(Ob('value', '%s includes the previous value' % what, st='proved' if ok else 'refuted', why='leaf multiset'))
    for c in extra:
        v = float(fval(c)); ok = False
        if kind == 'sum': ok = v == 0
        elif kind == 'max':
            ok = v == float('-inf') or (what_kind == 'peak' and v <= 0)
        elif kind == 'min': ok = v == float('inf')
        obs.append(Ob('value', '%s: constant %r does not influence the result' % (what, v), st='proved' if ok else 'refuted', why='neutral element'))
    obs += tile(items, total, '%s accounts for every sample' % what, allow_overlap=kind != 'sum', kind='value')
    return obs

def reduction(k, s, st, rv, ex, res):
    e = k.e; es = kn.ES[e]
    ident = lambda x: x
    def one(what, val, rk, cell):
        if rk in ('max', 'min', 'sum'): return reduce_ob(what, val, rk, ident, None, s, k, s.nb, rk)
        if rk == 'peak': return reduce_ob(what, val, 'max', fabs, sel(cell, ZERO64, e), s, k, s.nb, rk)
        if rk == 'sqsum': return reduce_ob(what, val, 'sum', lambda x: fmul(x, x), sel(cell, ZERO64, e), s, k, s.nb, rk)
        if rk == 'last':
            last = fabs(sel(s.env['a'], bsub(s.nb, bvc(es, 64)), e))
            return [Ob('value', 'last magnitude', compare(val, last, 'num', [], e))]
        raise Unsupported(rk)
    for c in k.meta.get('cells', ()):
        o = s.objs[c]
        ws = [w for w in st.wlog if w.obj is o]
        if not ws or any(w.loop is not None or w.guard is not TRUE for w in ws): raise Unsupported('result cell written in a loop')
        w = ws[-1]
        if w.off is not ZERO64 or w.size != es: raise Unsupported('result cell')
        res.obs += one('*' + c, w.val, k.meta[c], c)
        res.obs.append(Ob('tile', '%s is written' % c, st='proved', why='straight line'))
    if k.meta.get('ret'): res.obs += one('return value', rv, k.meta['ret'], None)

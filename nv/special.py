"""C11: the single-precision approximations.

Deductive part (terms of the real bodies, nv/symex.py): the four vector configurations compute the
same term per lane; the functions are odd/even; pow and signed_pow are what the callee contracts of
exp, log and pow make of them.  The numeric lemmas left over (unary functions of one 32-bit
argument) are decided by evaluating the compiled function on every argument of the range
(nv/cxx/acc.cpp) against the double-precision library function: a complete enumeration.
"""
import collections, json, math, multiprocessing as mp, os, shutil, struct, subprocess, tempfile, time, traceback
from . import build, contracts, ir, kernels as kn, smt, verify
from .ir import Unsupported
from .symex import Executor, ZERO64
from .terms import *

HERE = os.path.dirname(os.path.abspath(__file__))
VCFG = ['sse2', 'sse41', 'avx', 'fma']
TOL = 5e-7
FN1 = kn.MATH1 + ['reciprocal']
ODD = ['sin', 'tan', 'asin', 'atan', 'tanh']
NEG = 0x80000000
# (mode, lo, hi) on the magnitude bits; negative half too where the flag is set
DOM = {'sin': [('rel', 0, 0x40800000, 1), ('abs', 0x40800001, 0x46000000, 1)], 'cos': [('rel', 0, 0x40800000, 1), ('abs', 0x40800001, 0x46000000, 1)],
       'tan': [('rel', 0, 0x40800000, 1)], 'asin': [('rel', 0, 0x3F800000, 1)], 'acos': [('rel', 0, 0x3F800000, 1)],
       'atan': [('rel', 0, 0x7F7FFFFF, 1)], 'tanh': [('rel', 0, 0x7F7FFFFF, 1)],
       'log': [('rel', 0x00800000, 0x7F7FFFFF, 0)], 'log2': [('rel', 0x00800000, 0x7F7FFFFF, 0)], 'log10': [('rel', 0x00800000, 0x7F7FFFFF, 0)],
       'exp': [('rel', 0, 0x42B17217, 0), ('rel', NEG, 0xC2AEAC4F, 0)], 'reciprocal': [('rel', 0x00800000, 0x7E7FFFFF, 1)]}
NPOW = 1 << 24

def f32(b): return struct.unpack('<f', struct.pack('<I', b & 0xFFFFFFFF))[0]

# ------------------------------------------------------------------ terms
class Over:
    """callee contracts: given functions first, then those of the library"""
    def __init__(self, lib, fns): self.lib = lib; self.fns = fns
    def lookup(self, ex, name):
        c = self.lib.by_fn.get(name)
        if c is None or c[0] not in self.fns: return None
        nm, shape, kinds = c
        r = contracts.Contract(nm, shape, kinds, self.fns[nm]); r.lib = self.lib; r.exact = True
        return r

def lane_terms(ctx, name, view):
    """terms of all lanes of the vec function, under a set of callee contracts"""
    k = ctx.entry('v_%s_f' % name)
    if k is None or k.id not in ctx.m.fn_text: raise Unsupported('no entry ' + name)
    s = verify.setup(k, ctx)
    ex = Executor(ctx.m, view)
    st, rv = ex.call(s.st, k.id, s.args)
    byoff = {w.off.a[0]: w for w in st.wlog if isc(w.off) and w.guard is TRUE and w.size == 4}
    if len(byoff) != k.nconst or 0 not in byoff: raise Unsupported('lanes of ' + name)
    v = byoff[0].val
    for off, w in byoff.items():
        if subst(v, {sel('a%d' % i, ZERO64, 'f'): sel('a%d' % i, bvc(off, 64), 'f') for i in range(3)}) is not w.val: raise Unsupported('lanes of %s differ' % name)
    return v, ex.functions

X = lambda: sel('a0', ZERO64, 'f')
Y = lambda: sel('a1', ZERO64, 'f')

def abstract(t, x, memo, inv):
    """maximal subterms that do not change under x -> -x become fresh symbols"""
    r = memo.get(t)
    if r is not None: return r
    if t.op in ('fc', 'c', 'true', 'false', 'sym') or t is x: r = t
    elif isinstance(t.s, (int, str)) and contains(t, x) and subst(t, {x: fneg(x)}) is t:
        r = sym('A%d' % len(inv), t.s); inv[t] = r
    elif t.op == 'lin':
        r = bvc(t.a[0], t.s)
        for a, c in t.a[1]: r = badd(r, bmulc(abstract(a, x, memo, inv), c))
    else: r = rebuild(t, tuple(abstract(y, x, memo, inv) if isinstance(y, T) else y for y in t.a))
    memo[t] = r
    return r

class Ob:
    def __init__(self, name, kind): self.name = name; self.kind = kind; self.st = 'open'; self.why = ''; self.case = None; self.found = False; self.info = None
    def ok(self, why): self.st = 'proved'; self.why = why
    def fail(self, case, found): self.st = 'violated'; self.case = case; self.found = found
    def part(self, why): self.st = 'bounded'; self.why = why

class Special:
    def __init__(self, cfgs, tier, seed):
        self.cfgs = [c for c in VCFG if c in cfgs]; self.tier = tier; self.seed = seed
        self.obs = []; self.lemmas = []; self.t0 = time.time(); self.bin = {}; self.fns = set(); self.cons = set()
        self.limit = 500 if tier == 'quick' else 3000
    def ob(self, name, kind):
        o = Ob(name, kind); self.obs.append(o); return o
    # -------------------------------------------------------------- deductive part
    def terms(self, cfg):
        ks = kn.vec_elementary(cfg, 'f') + kn.vec_arith(cfg, 'f')
        wd = os.path.join(self.wd, cfg); os.makedirs(wd, exist_ok=True)
        text, bad = build.to_ir(ks, cfg, wd)
        ctx = verify.Ctx(ir.Module(text), cfg, 'f'); ctx.lib = contracts.Library(ctx)
        out = {}
        # contract of round: to nearest, ties to even, for every argument that is not NaN
        fns = {}
        o = self.ob('%s/round is roundTiesToEven' % cfg, 'lemma')
        try:
            t, f = lane_terms(ctx, 'round', Over(ctx.lib, {})); x = X(); w = rti('rne', x)
            if t is w: o.ok('identical terms')
            else:
                r = smt.prove(TRUE, [oeq(x, x)], eqs=[(t, w, 'bit')], timeout=60)
                if r.st == 'proved': o.ok('z3')
            if o.st == 'proved': fns['round'] = lambda a: rti('rne', a)
            else: self.obs.remove(o)
        except Unsupported: self.obs.remove(o)
        for n in FN1:
            try:
                out[n], f = lane_terms(ctx, n, Over(ctx.lib, fns)); self.fns |= set(f)
            except Unsupported as x: out[n] = None
        V = lambda nm: (lambda *a: app('V.' + nm, a, 'f'))
        for n, use in (('pow', ('exp', 'log')), ('spow', ('pow',))):
            try: out[n], f = lane_terms(ctx, n, Over(ctx.lib, dict(fns, **{u: V(u) for u in use}))); self.fns |= set(f); self.cons |= set(use)
            except Unsupported: out[n] = None
        return out
    def deduce(self):
        self.T = {}
        for c in self.cfgs:
            try: self.T[c] = self.terms(c)
            except (Unsupported, build.BuildError, RecursionError): self.T[c] = {}
            except Exception: self.T[c] = {}
        base = self.base = self.cfgs[-1] if 'avx' not in self.cfgs else 'avx'
        self.same = {}
        for c in self.cfgs:
            for n in FN1 + ['pow', 'spow']:
                a, b = self.T[c].get(n), self.T[base].get(n)
                self.same[c, n] = a is not None and a is b
        x = X()
        self.sym = {}
        for c in self.cfgs:
            for n in ODD + ['cos']:
                t = self.T[c].get(n)
                if t is None: continue
                want = 'even' if n == 'cos' else 'odd'
                key = (t, want)
                if key not in self.sym:
                    inv = {}
                    try:
                        g = abstract(t, x, {}, inv)
                        m = subst(g, {x: fneg(x)}); w = g if want == 'even' else fneg(g)
                        if m is w: self.sym[key] = 'identical terms'
                        else:
                            r = smt.prove(TRUE, eqs=[(m, w, 'num')], timeout=30)
                            self.sym[key] = 'z3' if r.st == 'proved' else None
                    except Exception: self.sym[key] = None
        # pow and spow
        self.powok = {}; self.spowok = {}
        for c in self.cfgs:
            t = self.T[c].get('pow')
            e_ = app('V.exp', (fmul(Y(), app('V.log', (X(),), 'f')),), 'f')
            self.powok[c] = t is not None and (t is ite(oeq(X(), fc(0, 'f')), fc(0, 'f'), e_) or t is e_)
            if t is not None and not self.powok[c]:
                # on positive arguments, with exp(..) abstracted
                try:
                    A = sym('Aexp', 'f'); g = subst(t, {e_: A})
                    if not any(q.op == 'app' for q in atoms((g,))):
                        r = smt.prove(TRUE, [olt(fc(0, 'f'), X())], eqs=[(g, A, 'num')], timeout=20)
                        self.powok[c] = r.st == 'proved'
                except Exception: pass
            # sign of pow: every exp(..) inside it has its sign bit clear or is NaN
            def nonneg(q): return bnot(pand(signbit(q), oeq(q, q)))
            try:
                ps = None
                if t is not None:
                    A = sym('Aexp', 'f'); g = subst(t, {e_: A})
                    if not any(q.op == 'app' for q in atoms((g,))): ps = smt.prove(nonneg(g), [nonneg(A)], timeout=20).st == 'proved'
                u = self.T[c].get('spow')
                if ps and u is not None:
                    P = sym('Apow', 'f'); p_ = app('V.pow', (fabs(X()), Y()), 'f'); g = subst(u, {p_: P})
                    if not any(q.op == 'app' for q in atoms((g,))):
                        m = subst(g, {x: fneg(x)})
                        self.spowok[c] = smt.prove(TRUE, [nonneg(P)], eqs=[(m, fneg(g), 'num')], timeout=20).st == 'proved'
            except Exception: pass
    # -------------------------------------------------------------- enumeration
    def binary(self, cfg):
        if cfg not in self.bin:
            p = os.path.join(self.wd, 'acc_' + cfg)
            r = build.run(['g++', '-std=gnu++14', '-O2', '-w', '-ffp-contract=off', '-fno-fast-math'] + kn.CFGS[cfg] + (['-DONLY_RECIPROCAL'] if cfg == 'sse1' else []) + ['-I', build.REPO, os.path.join(HERE, 'cxx', 'acc.cpp'), '-o', p, '-pthread'])
            self.bin[cfg] = p if r.returncode == 0 else None
            if r.returncode: self.lemmas.append({'note': 'the evaluation program does not compile for ' + cfg, 'log': r.stderr[:600]})
        return self.bin[cfg]
    def left(self): return max(5.0, self.limit - (time.time() - self.t0))
    def enum(self, cfg, lines, share=1.0):
        """runs a list of (mode, fn, lo, hi, tol)"""
        p = self.binary(cfg)
        if p is None or not lines: return None
        txt = '\n'.join('%s %s %x %x %g' % l for l in lines) + '\n'
        lim = self.left() * share
        try: r = subprocess.run([p, '%g' % lim], input=txt, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=lim + 120)
        except subprocess.TimeoutExpired: return None
        if r.returncode: return None
        return [json.loads(l) for l in r.stdout.splitlines()]
    def crit(self, n, cfg):
        """arguments worth trying first: float constants of the body, and their neighbours"""
        t = self.T.get(cfg, {}).get(n)
        s = set()
        if t is not None:
            for q in atoms((t,)):
                if q.op == 'fc' and q.s == 'f': s.add(q.a[0] & 0x7FFFFFFF)
        return sorted(s)
    def accuracy(self):
        groups = collections.OrderedDict()          # config -> functions to enumerate there
        cover = {}
        for n in FN1:
            for c in self.cfgs:
                d = c if c == self.base or not self.same[c, n] else self.base
                cover[c, n] = d
                groups.setdefault(d, [])
                if n not in groups[d]: groups[d].append(n)
        cover['sse1', 'reciprocal'] = 'sse1'; groups['sse1'] = ['reciprocal']
        res = {}
        need_odd = {}; need_nonneg = set()
        for c in self.cfgs:
            for n in ODD + ['cos']:
                t = self.T[c].get(n); want = 'even' if n == 'cos' else 'odd'
                if t is None or not self.sym.get((t, want)): need_odd[c, n] = want
            if self.spowok.get(c): need_nonneg.add(cover[c, 'exp'])
        self.cover = cover
        plan = collections.OrderedDict()
        for d, fs in groups.items():
            L = plan.setdefault(d, [])
            for n in fs:
                for mode, lo, hi, both in DOM[n]:
                    L.append((mode, n, lo, hi, TOL))
                    if both: L.append((mode, n, lo | NEG, hi | NEG, TOL))
        for (c, n), want in need_odd.items():
            d = cover[c, n]; l = (want, n, 0, 0x7F7FFFFF, 0)
            if l not in plan[d]: plan[d].append(l)
        for d in need_nonneg: plan[d] += [('nonneg', 'exp', 0, 0x7FFFFFFF, 0), ('nonneg', 'exp', NEG, 0xFFFFFFFF, 0)]
        for c in self.cfgs:
            plan.setdefault(c, []).append(('pow', 'pow', 0, NPOW - 1, TOL))
            if not (self.spowok.get(c)): plan[c].append(('spow', 'spow', 0, NPOW - 1, 0))
        # critical arguments first, in a run of their own
        first = {}
        for d, fs in groups.items():
            L = []
            for n in fs:
                for b in self.crit(n, d):
                    for mode, lo, hi, both in DOM[n]:
                        l_, h_ = lo & 0x7FFFFFFF, hi & 0x7FFFFFFF
                        a, z = max(b - 40, l_), min(b + 40, h_)
                        if a <= z:
                            if both or lo < NEG: L.append((mode, n, a, z, TOL))
                            if both or lo >= NEG: L.append((mode, n, a | NEG, z | NEG, TOL))
            r = self.enum(d, L, 0.2)
            for l, x in zip(L, r or ()):
                if x['bad']: first.setdefault((d, x['fn']), x)
        costs = {d: sum(l[3] - l[2] for l in L) for d, L in plan.items()}
        order = sorted(plan, key=lambda d: costs[d]); rest = sum(costs.values())
        for d in order:
            if not plan[d]: continue
            r = self.enum(d, plan[d], max(0.05, costs[d] / max(1, rest))); rest -= costs[d]
            for l, x in zip(plan[d], r or [None] * len(plan[d])): res[(d,) + l[:4]] = x
        self.res = res; self.first = first
        worst = {}
        for c in self.cfgs + ['sse1']:
            if c == 'sse1' and 'sse1' not in plan: continue
            for n in FN1 if c != 'sse1' else ['reciprocal']:
                d = cover[c, n]
                o = self.ob('%s/%s: error bound %g' % (c, n, TOL), 'accuracy')
                runs = []
                for mode, lo, hi, both in DOM[n]:
                    runs.append(res.get((d, mode, n, lo, hi)))
                    if both: runs.append(res.get((d, mode, n, lo | NEG, hi | NEG)))
                how = 'complete enumeration of the arguments' + ('' if d == c else ' in configuration %s and identical terms' % d)
                self.close(o, d, n, runs, how, first.get((d, n)))
                if all(runs): worst[n] = max([worst.get(n, 0)] + [x['worst'] for x in runs if x['mode'] == 'rel'])
        self.worst = worst
        self.lemmas.append({'largest relative error found': worst, 'arguments evaluated': sum(x['done'] for x in res.values() if x)})
        for c in self.cfgs:
            for n in ODD + ['cos']:
                t = self.T[c].get(n); want = 'even' if n == 'cos' else 'odd'
                o = self.ob('%s/%s is %s' % (c, n, want), 'symmetry')
                w = t is not None and self.sym.get((t, want))
                if w: o.ok(w); continue
                d = cover[c, n]
                self.close(o, d, n, [res.get((d, want, n, 0, 0x7F7FFFFF))], 'complete enumeration of the arguments' + ('' if d == c else ' in configuration %s and identical terms' % d))
    def close(self, o, d, n, runs, how, first=None):
        bad = [x for x in runs + [first] if x and x['bad']]
        if bad: return o.fail(self.case(d, bad[0]), True)
        if all(x and x['done'] == x['hi'] - x['lo'] + 1 for x in runs): return o.ok(how)
        tot = sum(x['hi'] - x['lo'] + 1 for x in runs if x); dn = sum(x['done'] for x in runs if x)
        o.part('%d of %d arguments evaluated' % (dn, tot) if all(runs) else 'not executed')
    def case(self, d, x):
        c = {'what': {'rel': 'relative error above %g', 'abs': 'absolute error above %g'}.get(x['mode'], x['mode'] + ' violated') .replace('%g', '%g' % x['tol']), 'entry': x['fn'], 'config': d, 'flags': kn.CFGS[d],
             'inputs at index': [repr(f32(x['fat']))] + ([repr(f32(x['fat2']))] if x['mode'] in ('pow', 'spow') else []), 'bits': '%08x' % x['fat'], 'got': repr(f32(x['got'])), 'want': x['want'], 'failing_arguments_seen': x['bad'],
             'acc': {'mode': x['mode'], 'fn': x['fn'], 'lo': x['fat'] if x['mode'] not in ('pow', 'spow') else x['lo'], 'hi': x['fat'] if x['mode'] not in ('pow', 'spow') else x['hi'], 'tol': x['tol'], 'config': d}}
        return c
    def cross(self):
        """same result in all vector configurations"""
        for n in FN1 + ['pow', 'spow']:
            for c in self.cfgs:
                if c == self.base: continue
                if n == 'reciprocal' and c == 'fma': continue
                o = self.ob('%s/%s: same function as in %s' % (c, n, self.base), 'configurations')
                if self.same[c, n]: o.ok('identical terms'); continue
                a, b = self.T[c].get(n), self.T[self.base].get(n)
                if n in ('pow', 'spow'): self.cross_pow(o, c, n); continue
                if a is not None and b is not None:
                    r = smt.prove(TRUE, [oeq(X(), X())], eqs=[(a, b, 'num')], timeout=10)
                    if r.st == 'proved': o.ok('z3'); continue
                L = [('hash', n, 0, 0x7F800000, 0), ('hash', n, NEG, NEG | 0x7F800000, 0)]
                ra, rb = self.enum(c, L, 0.3), self.enum(self.base, L, 0.3)
                if not ra or not rb: o.part('not executed'); continue
                bad = None
                for p, q in zip(ra, rb):
                    full = p['done'] == q['done'] == p['hi'] - p['lo'] + 1
                    for i, (u, v) in enumerate(zip(p['h'], q['h'])):
                        if u != v and u and v: bad = (p['lo'] + i * (1 << 14)); break
                    if bad is not None: break
                if bad is not None:
                    P = [('print', n, bad, min(bad + (1 << 14) - 1, (bad & NEG) | 0x7F800000), 0)]
                    pa, pb = self.enum(c, P), self.enum(self.base, P)
                    da = dict(z.split(':') for z in pa[0]['text'].split()); db = dict(z.split(':') for z in pb[0]['text'].split())
                    nan = lambda h: int(h, 16) & 0x7FFFFFFF > 0x7F800000
                    for h in sorted(da):
                        if da[h] != db[h] and not (nan(da[h]) and nan(db[h])) and not (int(da[h], 16) | int(db[h], 16)) & 0x7FFFFFFF == 0:
                            o.fail({'what': 'the configurations %s and %s give different results' % (c, self.base), 'entry': n, 'config': c, 'flags': kn.CFGS[c], 'inputs at index': [repr(f32(int(h, 16)))], 'bits': h, 'got': repr(f32(int(da[h], 16))), 'want': repr(f32(int(db[h], 16)))}, True); break
                    else: o.part('digests differ, values do not')
                elif all(p['done'] == q['done'] == p['hi'] - p['lo'] + 1 for p, q in zip(ra, rb)): o.ok('complete enumeration of the arguments in both configurations')
                else: o.part('partly enumerated')
    def cross_pow(self, o, c, n):
        o.part('bodies differ as terms; both satisfy their own bounds')
    def powers(self):
        for c in self.cfgs:
            o = self.ob('%s/pow: error bound %g*(1+|y ln x|)' % (c, TOL), 'accuracy')
            x = self.res.get((c, 'pow', 'pow', 0, NPOW - 1))
            if x and x['bad']: o.fail(self.case(c, x), True); continue
            ee, el = self.worst.get('exp'), self.worst.get('log')
            acc = {q.name: q for q in self.obs if q.kind == 'accuracy'}
            okl = all(acc['%s/%s: error bound %g' % (c, q, TOL)].st == 'proved' for q in ('exp', 'log'))
            # exp(fl(y log x)), fl(y log x) = y ln x (1+d), |d| <= el + u + el*u, |y ln x| <= 88.8
            if self.powok.get(c) and okl and ee is not None and el is not None:
                u = 2.0 ** -24; d = el + u + el * u
                if ee * (1 + 1e-4) < TOL * 0.99 and d * (1 + 1e-4) * (1 + ee) < TOL * 0.99:
                    o.ok('structure exp(y*log(x)) and the error bounds of exp and log'); continue
            o.part('%d pseudo-random arguments' % (x['done'] if x else 0))
        for c in self.cfgs:
            o = self.ob('%s/spow is odd' % c, 'symmetry')
            d = self.cover[c, 'exp']
            nn = [self.res.get((d, 'nonneg', 'exp', 0, 0x7FFFFFFF)), self.res.get((d, 'nonneg', 'exp', NEG, 0xFFFFFFFF))]
            x = self.res.get((c, 'spow', 'spow', 0, NPOW - 1))
            if x and x['bad']: o.fail(self.case(c, x), True); continue
            if self.spowok.get(c) and all(q and not q['bad'] and q['done'] == q['hi'] - q['lo'] + 1 for q in nn): o.ok('z3, with exp(z) >= 0 or NaN by complete enumeration'); continue
            if self.spowok.get(c) and x is None:
                r = self.enum(c, [('spow', 'spow', 0, NPOW - 1, 0)]); x = r[0] if r else None
                if x and x['bad']: o.fail(self.case(c, x), True); continue
            o.part('%d pseudo-random arguments' % (x['done'] if x else 0))
    def run(self):
        self.wd = tempfile.mkdtemp(prefix='nvs_')
        try:
            smt.DEADLINE[0] = time.time() + 200
            self.deduce(); self.accuracy(); self.powers(); self.cross()
            return self.out()
        except Exception: return {'cfg': 'all', 'e': 'f', 'error': traceback.format_exc()}
        finally: shutil.rmtree(self.wd, ignore_errors=True)
    def out(self):
        by = collections.Counter(); kinds = collections.Counter()
        o = {'cfg': 'vector', 'e': 'f', 'obligations': len(self.obs), 'discharged': sum(q.st == 'proved' for q in self.obs), 'entries': 0, 'functions': sorted(self.fns), 'contracts': sorted(self.cons), 'loops': 0,
             'bounded': [], 'violations': [], 'skipped': [], 'notes': [], 'samples': [], 'calls': 0, 'solver': dict(smt.STATS)}
        for q in self.obs:
            kinds[q.kind] += 1
            if q.st == 'proved': by[q.why.split(' in conf')[0]] += 1
            elif q.st == 'violated': o['violations'].append({'obligation': q.name, 'kind': q.kind, 'found': q.found, 'case': q.case})
            else: o['bounded'].append({'entry': q.name, 'undecided': q.why, 'executed': True})
        o['by'] = by; o['kinds'] = kinds; o['extra'] = self.lemmas
        return o

def _go(cfgs, tier, seed, conn):
    try: conn.send(Special(cfgs, tier, seed).run())
    finally: conn.close()
def start(cfgs, tier, seed):
    a, b = mp.Pipe(False)
    p = mp.get_context('fork').Process(target=_go, args=(cfgs, tier, seed, b)); p.start(); b.close()
    return p, a
def finish(h, outs):
    p, a = h
    try: r = a.recv()
    except EOFError: r = {'cfg': 'all', 'e': 'f', 'error': 'the process of the vector configurations ended early'}
    p.join(); return [r]

"""Verification of one (property, configuration, element type)."""
import collections, json, os, shutil, signal, tempfile, time, traceback
from . import build, concrete, contracts, ir, kernels as kn, props, smt, verify
from .ir import Unsupported
from .terms import *

class Tick(Exception): pass
def _alarm(*a): raise Unsupported('time limit of the entry')
def limited(sec, f):
    old = signal.signal(signal.SIGALRM, _alarm); signal.setitimer(signal.ITIMER_REAL, sec)
    try: return f()
    finally: signal.setitimer(signal.ITIMER_REAL, 0); signal.signal(signal.SIGALRM, old)

def detail_only(k): return 'nova::detail::' in k.code or 'int_vec' in k.code
def unreliable(ob):
    """the counterexample rests on a value the verifier does not know"""
    if ob.model is None: return not (ob.st == 'refuted')
    return any(isinstance(t, T) and t.op == 'sym' and '!' in t.a[0] and t.a[0].split('!')[0] not in ('undef', 'k', 'kb', 'k1', 'ke') for t in ob.model)

def model_values(obs, hints=()):
    vals = []; ns = set(); show_ = {}
    for md in list(hints)[-6:]:
        for t, v in md.items():
            if isinstance(t, T) and t.op == 'sym' and t.a[0] == 'q' and isinstance(v, int): ns.add(v)
    for o in obs:
        for t, v in (o.model or {}).items():
            if not isinstance(t, T): continue
            if t.s in FW and isinstance(v, int):
                f = float(bits2f(v, t.s)); vals.append(f)
            elif t.s in FW:
                try:
                    from fractions import Fraction
                    vals.append(float(Fraction(v)))
                except (ValueError, TypeError): pass
            if t.op == 'sym' and t.a[0] == 'q' and isinstance(v, int): ns.add(v)
    return vals[:64], ns
def bits2f(b, s):
    import struct
    return struct.unpack('<f' if s == 'f' else '<d', struct.pack('<I' if s == 'f' else '<Q', b & mask(FW[s])))[0]

def run(prop, cfg, e, tier, seed, t_sym, t_con, t_end=None):
    t0 = time.time()
    if t_end is not None:      # what is left of the whole run
        left = t_end - t0; t_con = max(5, min(t_con, left / 4)); t_sym = max(5, min(t_sym, left - t_con - 10))
    thorough = tier == 'thorough'
    out = {'cfg': cfg, 'e': e, 'obligations': 0, 'discharged': 0, 'by': collections.Counter(), 'kinds': collections.Counter(), 'entries': 0, 'functions': set(), 'contracts': set(),
           'loops': 0, 'bounded': [], 'violations': [], 'skipped': [], 'short': [], 'notes': [], 'samples': [], 'inlined': 0, 'calls': 0}
    wd = tempfile.mkdtemp(prefix='nv_')
    try: _run(prop, cfg, e, thorough, seed, t_sym, t_con, out, wd, t0)
    except build.BuildError as x: out['build_error'] = str(x)
    except Exception: out['error'] = traceback.format_exc()
    finally: shutil.rmtree(wd, ignore_errors=True)
    out['s'] = time.time() - t0; out['solver'] = dict(smt.STATS)
    out['functions'] = sorted(out['functions']); out['contracts'] = sorted(out['contracts'])
    return out

def _run(prop, cfg, e, thorough, seed, t_sym, t_con, out, wd, t0):
    js = props.jobs(prop, cfg, e, thorough)
    pre = props.prereq(prop, cfg, e, thorough)
    ents = props.dedupe(pre + [j.k for j in js])
    try: text, bad = build.to_ir(ents, cfg, wd)
    except build.BuildError as x:
        # not accepted by clang: the repository's own compiler decides whether that is an error
        so, badc = concrete.compile_so(ents, cfg, wd, name='chk')
        text = None; bad = {k.id: str(x)[:500] for k in ents}
        out['notes'].append('clang: ' + str(x)[:300])
    byid = {k.id: k for k in ents}; ours = {j.k.id for j in js}
    hit = [i for i in bad if i in ours and not detail_only(byid[i])]
    gbad = {}
    if hit:
        try: so, gbad = concrete.compile_so([byid[i] for i in hit], cfg, wd, name='chk')
        except build.BuildError as x: gbad = {i: str(x)[:2000] for i in hit}
    todo = []
    for i, msg in bad.items():
        if i not in ours: continue
        if detail_only(byid[i]): out['skipped'].append('%s/%s: not offered by this tree' % (cfg, i)); continue
        if i not in gbad:
            for j in js:
                if j.k.id == i:
                    r = verify.Result(j.k, j.alias); r.unsupported = 'clang does not compile the entry, g++ does'; out['obligations'] += 1; out['entries'] += 1; todo.append((j, r, []))
            continue
        out['violations'].append({'obligation': '%s/%s is well-formed' % (cfg, i), 'kind': 'compile', 'found': True, 'case': {'what': 'public function does not compile', 'code': byid[i].text(), 'flags': kn.CFGS[cfg], 'config': cfg, 'entry': i, 'log': gbad[i]}})
    js = [j for j in js if j.k.id not in bad]
    pre0 = pre
    pre = [k for k in pre if k.id not in bad]
    if text is None:
        if todo: replay(prop, cfg, e, thorough, seed, t_con, out, wd, todo, pre0, ents)
        return
    try:
        m = ir.Module(text)
        ctx = verify.Ctx(m, cfg, e)
        ctx.lib = contracts.Library(ctx)
    except Exception as x:
        out['notes'].append('module not understood: %s' % str(x)[:300])
        for j in js:
            r = verify.Result(j.k, j.alias); r.unsupported = 'module not understood'; out['obligations'] += 1; out['entries'] += 1; todo.append((j, r, []))
        return replay(prop, cfg, e, thorough, seed, t_con, out, wd, todo, pre, ents)
    t_end = t0 + t_sym; smt.DEADLINE[0] = t_end
    done = {}
    per = 240 if thorough else 60
    def one(k, alias=None):
        r = one_(k, alias)
        if k.nconst is None and (r.unsupported or not r.obs or any(o.st != 'proved' for o in r.obs)):
            # e.g. a signed counter: decide the entry for lengths up to 2^30
            verify.NMAX[0] = verify.HALF
            try: r = one_(k, alias)
            finally: verify.NMAX[0] = verify.FULL
            if not r.unsupported and r.obs and all(o.st == 'proved' for o in r.obs): out['short'].append('%s/%s' % (cfg, r.id))
        return r
    def one_(k, alias=None):
        left = t_end - time.time()
        if left < 1:
            r = verify.Result(k, alias); r.unsupported = 'time budget of the run'; return r
        try: return limited(min(per, max(2, left)), lambda: verify.verify(k, ctx, alias, values_too=props.values_too(prop) or k.id.startswith('v_')))
        except Unsupported as x:
            r = verify.Result(k, alias); r.unsupported = str(x); return r
        except Exception as x:      # a construct the verifier does not foresee: the entry goes to the bounded stand-in
            r = verify.Result(k, alias); r.unsupported = 'internal %s: %s' % (type(x).__name__, str(x)[:200]); return r
    used_pre = set()
    for k in pre:
        r = one(k); done[k.id] = r
        try: ctx.lib.enable(r)
        except Exception: pass
    for j in js:
        r = done[j.k.id] if j.k.id in done and not j.alias else one(j.k, j.alias)
        account(out, prop, r)
        used_pre |= r.contracts
        obs = [o for o in r.obs if props.relevant(prop, o)]
        bad_ = [o for o in obs if o.st != 'proved']
        if r.unsupported or bad_ or not r.obs: todo.append((j, r, bad_))
    # obligations of the contracts the entries rely on
    names = {c for c in used_pre}
    for k in pre:
        if k.id in ours: continue
        nm = k.id[2:-2]
        if any(c == nm for c in names): account(out, prop, done[k.id], support=True)
    out['live'] = len(ctx.lib.live)
    out['opaque'] = sorted(n for n, v in ctx.lib.table.items() if not v[0])
    if todo: replay(prop, cfg, e, thorough, seed, t_con, out, wd, todo, pre, ents, m)
    if thorough: conformance(prop, cfg, e, seed, t_con, out, wd, js, {x[0].key for x in todo}, pre)
    return ctx

def conformance(prop, cfg, e, seed, t_con, out, wd, js, seen, pre):
    """cross-check of the trusted front end and instruction semantics: the optimised g++ builds are run against the same contracts"""
    t1 = time.time(); js = [j for j in js if j.key not in seen]; c = out['conformance'] = {'builds': ['g++ -O1', 'g++ -O3 -DNDEBUG'], 'entries': 0, 'runs': 0}
    for opt in ('-O1', '-O3 -DNDEBUG'):
        for i in range(0, len(js), 400):
            part = js[i:i + 400]; left = t_con - (time.time() - t1)
            if left < 30: return
            try: so, bad = concrete.compile_so(props.dedupe(pre + [j.k for j in part]), cfg, wd, opt=opt)
            except build.BuildError as x: out['notes'].append('g++ %s: %s' % (opt, str(x)[:200])); continue
            if so is None: continue
            part = [j for j in part if j.k.id not in bad]
            concrete.REFENT[cfg, e] = {k.id: k for k in pre + [j.k for j in part]}
            rr, calls = concrete.isolated(so, cfg, [(j.key, j.k, {'alias': j.alias, 'seed': seed + 17, 'budget': 0.04, 'tile': prop == 'C02'}) for j in part], timeout=max(30, left))
            c['runs'] += calls; c['entries'] += len(part)
            for j in part:
                d = rr.get(j.key)
                if d and 'error' not in d and props.covers_fail(prop, d.get('kind')):
                    out['violations'].append({'obligation': '%s/%s: %s build agrees with the contract' % (cfg, j.key, opt), 'kind': d.get('kind'), 'found': True, 'case': dict(d, optimisation=opt), 'verifier': []})
            os.unlink(so)

def account(out, prop, r, support=False):
    out['entries'] += not support
    obs = [o for o in r.obs if support or props.relevant(prop, o)]
    out['obligations'] += len(obs) + (1 if r.unsupported else 0)
    for o in obs:
        out['kinds'][o.kind] += 1
        if o.st == 'proved':
            out['discharged'] += 1
            w = o.why if not o.why.startswith('contract') else 'contract of a callee'
            out['by'][w or 'z3'] += 1
    out['functions'] |= {f for f in r.functions if f != r.k.id}
    out['contracts'] |= set(r.contracts)
    out['loops'] += len(r.loops)
    if len(out['samples']) < 2 and obs and not support: out['samples'].append({'entry': r.id, 'code': r.k.text(), 'obligation': '%s: %s' % (obs[-1].kind, obs[-1].desc[:300]), 'status': obs[-1].st, 'by': obs[-1].why})

def big_n(o):
    """refuted by a length that does not fit into 4 GiB of byte counts"""
    return o.st == 'refuted' and (any(isinstance(v, int) and v >= 1 << 18 for t, v in (o.model or {}).items() if isinstance(t, T) and t.s == 64))

def replay(prop, cfg, e, thorough, seed, t_con, out, wd, todo, pre, ents, m=None):
    """runs the undecided and refuted entries on real inputs"""
    ks = props.dedupe(pre + [j.k for j, _, _ in todo])
    so = None
    try:
        so, badc = concrete.compile_so(ks, cfg, wd)
        for j, r, b in todo:
            if j.k.id in badc: out['notes'].append('%s does not compile with g++: %s' % (j.k.id, badc[j.k.id][:200]))
    except build.BuildError as x:
        out['notes'].append('g++: ' + str(x)[:300]); badc = {}
    def rank(x):
        j, r, b = x
        return 0 if any(o.st == 'refuted' for o in b) else 1
    todo.sort(key=rank)
    concrete.REFENT[cfg, e] = {k.id: k for k in ks}
    t1 = time.time(); nfail = 0
    res = {}; nbig = 0
    if so is not None:
        left = lambda: t_con - (time.time() - t1)
        for n_, (j, r, b) in enumerate(todo):
            if j.k.id in badc: continue
            if left() < 0 or nfail >= 6: break
            vals, qs = model_values(b, r.hints if r.unsupported else ())
            rem = len(todo) - n_
            bud = max(0.15, min(20.0 if thorough else (4.0 if rank((j, r, b)) == 0 else 2.0), left() / rem))
            ns = []
            for q in qs:
                for d in (0, -1, 1, 2): ns.append((q + d) * j.k.gran)
            fs, il = ir.literals(m, j.k.id) if m is not None else ((), ())
            for c in il:
                c = (c + j.k.gran - 1) // j.k.gran * j.k.gran
                ns += [c, c - j.k.gran, c + j.k.gran] if c <= 1 << 17 else []
            # a constant may also count iterations: vectors, unrolled blocks, or a mask just below a power of two
            for c in sorted(set(il) | {c + 1 for c in il}):
                ns += [(c + d) * j.k.gran for d in (0, 1, 2) if (c + d) * j.k.gran <= 1 << 20]
            kw = {'alias': j.alias, 'lits': sorted(fs)[:200], 'seed': seed, 'budget': bud, 'extra': vals, 'ns': [x for x in ns if x > 0], 'tile': prop == 'C02'}
            rr, calls = concrete.isolated(so, cfg, [(j.key, j.k, kw)], timeout=max(20 if thorough else 10, bud * 5))
            out['calls'] += calls
            d = rr.get(j.key)
            if d is None and rank((j, r, b)) == 0 and nbig < 2 and not j.alias and any(big_n(o) for o in b):
                nbig += 1
                rr, calls = concrete.isolated(so, cfg, [(j.key, j.k, {'big': True})], timeout=60)
                d = rr.get(j.key); out['calls'] += calls
            res[j.key] = (d, bud)
            if d and 'error' not in d and props.covers_fail(prop, d.get('kind')): nfail += 1
    for j, r, b in todo:
        nm = '%s/%s' % (cfg, j.key)
        d, bud = res.get(j.key, (None, 0))
        what = ['%s' % o for o in b[:6]] + (['undecided: ' + r.unsupported] if r.unsupported else [])
        if d and 'error' not in d and props.covers_fail(prop, d.get('kind')):
            out['violations'].append({'obligation': '%s: %s' % (nm, (b[0].kind + ' ' + b[0].desc) if b else r.unsupported), 'kind': d.get('kind'), 'found': True, 'case': d, 'verifier': what})
            continue
        rel = [o for o in b if o.st == 'refuted' and not unreliable(o)]
        if rel:
            out['violations'].append({'obligation': '%s: %s %s' % (nm, rel[0].kind, rel[0].desc), 'kind': rel[0].kind, 'found': False, 'case': {'entry': j.k.id, 'config': cfg, 'flags': kn.CFGS[cfg], 'code': j.k.text(), 'alias': j.alias}, 'verifier': what,
                                      'model': {show(t): (repr(bits2f(v, t.s)) if t.s in FW and isinstance(v, int) else str(v)) for t, v in (rel[0].model or {}).items() if isinstance(t, T)}})
            continue
        out['bounded'].append({'entry': nm, 'undecided': what[:3], 'seconds': round(bud, 2), 'executed': bool(j.key in res)})

"""Runs the recorded failing cases of a replay file again, against /repo's current tree."""
import base64, json, os, shutil, subprocess, sys, tempfile
import numpy as np
from . import build, concrete, kernels as kn, props

def find(cfg, entry):
    for th in (False, True):
        for e in 'fd':
            for p in ('C02', 'C06', 'C07', 'C08', 'C09', 'C10', 'C11', 'C12', 'C13', 'C05', 'C04'):
                for k in props.entries(p, cfg, e, th):
                    if k.id == entry: return k
    return None

def one(v, wd):
    c = v['case']
    if not v.get('found'): return 'no failing input recorded; failed obligation: ' + v['obligation'][:200]
    if 'acc' in c:
        a = c['acc']; p = os.path.join(wd, 'acc')
        r = build.run(['g++', '-std=gnu++14', '-O2', '-w', '-ffp-contract=off'] + kn.CFGS[a['config']] + (['-DONLY_RECIPROCAL'] if a['config'] == 'sse1' else []) + ['-I', build.REPO, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'cxx', 'acc.cpp'), '-o', p, '-pthread'])
        if r.returncode: return 'does not compile: ' + r.stderr[:300]
        r = subprocess.run([p, '600'], input='%s %s %x %x %g\n' % (a['mode'], a['fn'], a['lo'], a['hi'], a['tol']), stdout=subprocess.PIPE, text=True)
        x = json.loads(r.stdout); return 'FAILS: %s' % r.stdout.strip() if x['bad'] else 'passes'
    if v.get('kind') == 'compile' or 'n' not in c: return 'see the log in the file: %s' % str(c.get('what'))
    k = find(c['config'], c['entry'])
    if k is None: return 'entry %s is not known' % c['entry']
    pre = props.prereq('C01', k.cfg, k.e, False)
    so, bad = concrete.compile_so(props.dedupe(pre + [k]), k.cfg, wd)
    if k.id in bad: return 'does not compile: ' + bad[k.id][:300]
    concrete.REFENT[k.cfg, k.e] = {x.id: x for x in pre}
    dt = concrete.DT[k.e]
    bufs = {q: np.frombuffer(base64.b64decode(b), dtype=dt).copy() for q, b in c.get('data', {}).items()}
    if not bufs: return 'the buffers were too large to record'
    if v.get('kind') == 'tile':
        R = concrete.Runner(so, k.cfg); outs = []
        for x in (0, 0x2a5a5a5a):
            b = dict(bufs)
            for on in k.outs: b[on] = np.frombuffer((bufs[on].view(concrete.UT[k.e]) ^ concrete.UT[k.e](x)).tobytes(), dtype=dt).copy()
            _, o = R.call(k, c['n'], b, {q: float(x) for q, x in c.get('scalars', {}).items()}); outs.append((b, o))
        for on in k.outs:
            un = np.logical_and.reduce([o[on].view(concrete.UT[k.e]) == b[on].view(concrete.UT[k.e]) for b, o in outs])
            if un.any(): return 'FAILS: %s[%d] is never written' % (on, int(np.argmax(un)))
        return 'passes'
    scal = {q: float(x) for q, x in c.get('scalars', {}).items()}; al = c.get('alias') or {}
    pid = os.fork()
    if pid == 0:
        try:
            R = concrete.Runner(so, k.cfg)
            for end in (True, False):
                ret, out = R.call(k, c['n'], {q: b for q, b in bufs.items() if q not in al}, scal, al, end, c.get('shift'))
                full = dict(bufs)
                for a_, t_ in al.items(): full[a_] = full[t_]
                ramps = 'r' in k.kinds or k.meta.get('prop') == 'C04' or any(p[1][0] == 'd' for p in k.params if p[0] == 's')
                concrete.check_out(R, k, c['n'], full, scal, al, ret, out, ramps)
            print('passes'); sys.stdout.flush(); os._exit(0)
        except concrete.Fail as f:
            print('FAILS: %s, index %s, got %s, want %s' % (f.d.get('what'), f.d.get('index'), f.d.get('got'), f.d.get('want'))); sys.stdout.flush(); os._exit(1)
        except BaseException as x: print('error', repr(x)[:300]); sys.stdout.flush(); os._exit(2)
    _, st = os.waitpid(pid, 0)
    return 'FAILS: signal %d' % os.WTERMSIG(st) if os.WIFSIGNALED(st) else 'done'

def main(path):
    d = json.load(open(path)); n = 0
    for v in d['violations'][:6]:
        wd = tempfile.mkdtemp(prefix='nvr_')
        try: print(v['obligation'][:160]); print('   ' + one(v, wd))
        finally: shutil.rmtree(wd, ignore_errors=True)
    return 0

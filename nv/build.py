"""Extraction of the code under verification: clang -> LLVM IR from /repo's working tree."""
import os, re, subprocess, tempfile
from . import kernels
REPO = os.environ.get('NOVA_REPO', '/repo')
OPT = '/usr/lib/llvm-18/bin/opt'
CLANG = ['clang++', '-std=gnu++14', '-O0', '-Xclang', '-disable-O0-optnone', '-ffp-contract=off', '-fno-exceptions', '-fno-discard-value-names', '-fno-math-errno', '-w']

class BuildError(Exception): pass

def run(cmd, **kw): return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, **kw)

def to_ir(ks, cfg, workdir):
    """IR text of the entries, plus {id: compiler message} of entries that do not compile"""
    bad = {}
    ks = list(ks)
    for rnd in range(6):
        src, at = kernels.source(ks, cfg)
        p = os.path.join(workdir, 'tu.cpp')
        open(p, 'w').write(src)
        ll = os.path.join(workdir, 'tu.ll'); l2 = os.path.join(workdir, 'tu2.ll')
        r = run(CLANG + ['-ferror-limit=0', '-S', '-emit-llvm'] + kernels.CFGS[cfg] + ['-I', REPO, p, '-o', ll])
        if r.returncode == 0: break
        hit = set()
        for m in re.finditer(r'tu\.cpp:(\d+):\d+: (error|note)[^\n]*', r.stderr):
            ln = int(m.group(1))
            if ln in at: hit.add(at[ln])
        if not hit: raise BuildError(r.stderr[:3000])
        for h in hit: bad[h] = r.stderr[:2000]
        ks = [k for k in ks if k.id not in bad]
    else: raise BuildError('compile does not converge')
    if not ks: return None, bad
    r = run([OPT, '-S', '-passes=sroa', ll, '-o', l2])
    if r.returncode: raise BuildError(r.stderr[:3000])
    return open(l2).read(), bad

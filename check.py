#!/usr/bin/env python3-vt
"""check.py --property Cxx --tier quick|thorough      decide one property on /repo's working tree
check.py --replay FILE                               run a recorded failing case again"""
import argparse, collections, json, multiprocessing as mp, os, sys, time
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)

ASSUMPTIONS = [
    'clang 18 -O0 translates the C++ of /repo to LLVM IR faithfully; the mem2reg/SROA pass of opt preserves meaning',
    'the x86 intrinsics and LLVM instructions mean what nv/intrin.py and nv/symex.py say',
    'floating-point environment: round to nearest even, no contraction, denormals on',
    'run-time lengths n: every value of unsigned int (2^32-1); compile-time lengths are checked for the instantiated sizes only',
    'n is a multiple of the cache-line element count for the _simd forms, buffers are disjoint or identical, and aligned where the function requires it',
    'x86 configurations only (generic, SSE, SSE2, SSE4.1, AVX, AVX+FMA); AltiVec and NEON code is not reachable with this toolchain',
    'libm functions are pure functions of their arguments',
]
REALS = 'where a postcondition allows rounding (ramps, cube, muladd, ampmod, sums, mixes, unit conversions) the two sides are compared over the real numbers'
TRUSTED = ['clang++ 18.1 front end and opt -passes=sroa', 'nv/ir.py, nv/symex.py, nv/intrin.py (verification-condition generator)', 'nv/terms.py (term rewriting), nv/realnf.py (normal form over the reals)', 'z3 (python z3-solver)']

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('--property'); ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick')); ap.add_argument('--replay'); ap.add_argument('--cfg'); ap.add_argument('--elem'); ap.add_argument('-v', action='store_true')
    a = ap.parse_args()
    if a.replay: from nv import replay; sys.exit(replay.main(a.replay))
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    from nv import kernels as kn, worker, report
    prop = a.property; tier = a.tier
    cfgs = a.cfg.split(',') if a.cfg else kn.ALLCFG
    elems = a.elem or 'fd'
    tasks = [(prop, c, e, tier, seed) for c in cfgs for e in elems]
    t_sym, t_con = (240, 60) if tier == 'quick' else (3000, 600)
    extra = None
    if prop == 'C11':
        from nv import special
        extra = special.start(cfgs, tier, seed)
    ctx = mp.get_context('fork')
    with ctx.Pool(min(8, len(tasks)), maxtasksperchild=1) as p:
        rs = [p.apply_async(worker.run, t + (t_sym, t_con, t0 + (660 if tier == 'quick' else 20000))) for t in tasks]
        outs = [r.get() for r in rs]
    if extra is not None: outs += special.finish(extra, outs)
    sys.exit(report.report(prop, tier, seed, outs, time.time() - t0, a.v, ASSUMPTIONS + ([REALS] if prop in ('C01', 'C03', 'C04', 'C05', 'C08', 'C10', 'C12', 'C13') else []), TRUSTED))
if __name__ == '__main__': main()

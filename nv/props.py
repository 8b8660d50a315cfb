"""Which entries, aliasing patterns and obligation kinds decide which property."""
from . import kernels as kn

MEM = {'bounds-read', 'bounds-write', 'align'}
ROUND = {'floor', 'ceil', 'trunc', 'round', 'frac'}
EXACT = {'abs', 'sgn', 'square', 'cube', 'undenormalize', 'signed_sqrt', 'softclip', 'sqrt'}
SPECIAL = set(kn.MATH1) | {'reciprocal', 'pow', 'spow'}
CTQ = (1, 8); CTT = (1, 2, 4, 5, 8, 16)

class Job:
    __slots__ = ('k', 'alias')
    def __init__(self, k, alias=None): self.k = k; self.alias = alias or {}
    @property
    def key(self): return self.k.id + (('@' + ','.join('%s=%s' % p for p in sorted(self.alias.items()))) if self.alias else '')

def ct_extra(cfg, e, ks, thorough):
    """further compile-time lengths of the buffer-only combinations"""
    out = []
    for k in ks:
        if k.form == 'ct' and k.op is not None and k.op.ar and (thorough or set(k.kinds) == {'v'}):
            for m in CTT if thorough else CTQ: out.append(kn.elementwise(cfg, e, k.op, k.kinds, 'ct', k.fam, mult=m))
    return out

def dedupe(ks):
    seen = set(); return [k for k in ks if not (k.id in seen or seen.add(k.id))]

def ramp_entry(k): return 'r' in k.kinds or k.meta.get('prop') == 'C04' or (k.fam == 'pan' and k.id.startswith('pan2_r'))

def entries(prop, cfg, e, thorough):
    """entries of a property"""
    E = lambda: kn.elementwise_all(cfg, e, thorough)
    R = lambda: kn.elementwise_all(cfg, e, thorough, ramps=True)
    if prop == 'C01':
        ks = E() + [k for k in kn.mix_all(cfg, e, thorough) if 'r' not in k.kinds]
        return dedupe(ks + ct_extra(cfg, e, ks, thorough))
    if prop == 'C02':
        ks = E() + kn.mix_all(cfg, e, thorough)
        ks += ct_extra(cfg, e, ks, thorough) + R()
        return dedupe(ks + kn.memory(cfg, e, thorough) + kn.pan(cfg, e, thorough) + kn.reductions(cfg, e, thorough) + kn.units(cfg, e, thorough)
                      + [k for k in kn.vec_access(cfg, e, thorough) if k.params and 'is_aligned' not in k.id] + kn.vec_horizontal(cfg, e, thorough))
    if prop == 'C03':
        return dedupe([k for k in E() + kn.mix_all(cfg, e, thorough) + kn.units(cfg, e, thorough) + kn.memory(cfg, e, thorough) + kn.pan(cfg, e, thorough)
                       if any(p[0] == 'v' for p in k.params)] + [k for k in R() if k.op.name in ('plus', 'times', 'muladd') or thorough])
    if prop == 'C04':
        ks = R() + [k for k in kn.memory(cfg, e, thorough) + kn.mix_all(cfg, e, thorough) + kn.pan(cfg, e, thorough) if ramp_entry(k)]
        ks += [k for k in kn.vec_access(cfg, e, thorough) if 'set_slope' in k.id or 'set_exp' in k.id]
        if thorough: ks += ct_extra(cfg, e, ks, True)
        return dedupe(ks)
    if prop == 'C05': return dedupe([k for k in kn.memory(cfg, e, thorough) if k.meta.get('prop') != 'C04'])
    if prop == 'C06': return kn.vec_access(cfg, e, thorough)
    if prop == 'C07': return kn.vec_arith(cfg, e, thorough)
    if prop in ('C08', 'C09'):
        names = EXACT if prop == 'C08' else ROUND
        ks = kn.vec_elementary(cfg, e, thorough, names)
        ks += [k for k in E() if k.op.name in names or (prop == 'C08' and k.op.name in ('clip', 'clip2'))]
        return dedupe(ks)
    if prop == 'C10': return dedupe(kn.vec_horizontal(cfg, e, thorough) + kn.reductions(cfg, e, thorough))
    if prop == 'C11': return dedupe(kn.vec_elementary(cfg, e, thorough, SPECIAL) + [k for k in E() if k.op.name in SPECIAL])
    if prop == 'C12': return kn.units(cfg, e, thorough)
    if prop == 'C13': return dedupe(kn.mix_all(cfg, e, thorough) + kn.pan(cfg, e, thorough))
    raise KeyError(prop)

def aliases(k):
    """in-place patterns of an entry"""
    ins = [nm for kd, nm in k.params if kd == 'v']; outs = k.outs
    res = []
    for o in outs:
        for i in ins: res.append({i: o})
    if len(ins) > 1: res.append({i: outs[0] for i in ins})
    return res

def jobs(prop, cfg, e, thorough):
    js = []
    for k in entries(prop, cfg, e, thorough):
        if prop == 'C03': js += [Job(k, a) for a in aliases(k)]
        else: js.append(Job(k))
    return js

def prereq(prop, cfg, e, thorough):
    """vec functions whose contracts the entries use"""
    return kn.vec_arith(cfg, e, thorough) + kn.vec_elementary(cfg, e, thorough)

def relevant(prop, ob):
    if prop == 'C02': return ob.kind != 'value'
    return ob.kind not in MEM
def values_too(prop): return prop != 'C02'
def covers_fail(prop, kind):
    """does a concrete failure of this kind concern the property"""
    if prop == 'C02': return kind != 'value'
    return True

"""Contracts of the vec<F> functions, used at call sites instead of their bodies.

A contract says: every lane of the result is F(the same lane of the arguments), the function
touches nothing but its result.  It is only enabled after the entry v_<name> of the same module
was verified in this run:
  exact contracts   the body computes exactly the specified IEEE operation: callers see that term
  opaque contracts  callers see an uninterpreted V.<name>(lane); what is known about it is the
                    postcondition proved for v_<name> (verify.value_ob discharges with it)
A function without an enabled contract is executed at the call site.
"""
import re, subprocess
from .terms import *
from . import kernels as kn
from .symex import V, Ptr, Executor, ZERO64
from .ir import Unsupported

OPS = {'+': 'add', '-': 'sub', '*': 'mul', '/': 'div'}
CMP = {'<': 'lt', '<=': 'le', '>': 'gt', '>=': 'ge', '==': 'eq', '!=': 'neq'}
BIT = {'&': 'and', '|': 'or', '^': 'xor'}
NAMES = {'sign': 'sgn', 'signed_pow': 'spow', 'min_': 'min', 'max_': 'max'}
ELEM = [o.name for o in kn.UN if o.name != 'softclip'] + ['sqrt', 'pow', 'spow', 'min', 'max', 'madd', 'andnot'] + ['mask_' + c for c in CMP.values()]

def classify(dem, e):
    """demangled name -> (entry name, shape) ; shape: 'ret' args by pointer/value in order, 'inplace'"""
    t = kn.CT[e]
    s = dem.replace('nova::vec<%s>' % t, 'V').replace('nova::', '')
    m = re.match(r'^(V::)?(operator[^\s(]+|\w+)\((.*)\)( const)?$', s)
    if not m: return None
    mem, nm, ps, const = m.groups()
    ps = [p.strip() for p in ps.split(',')] if ps else []
    kinds = ''
    for p in ps:
        if p in ('V const&', 'V'): kinds += 'v'
        elif p == t: kinds += 's'
        else: return None
    if mem: kinds = 'v' + kinds
    if nm.startswith('operator'):
        o = nm[8:]
        if mem and const and kinds == 'vv':
            if o in OPS: return OPS[o], 'ret', kinds
            if o in CMP: return 'cmp_' + CMP[o], 'ret', kinds
            if o in BIT: return BIT[o], 'ret', kinds
        if mem and not const and kinds == 'vv' and o[:-1] in OPS and o.endswith('='): return OPS[o[:-1]] + '_eq', 'inplace', kinds
        if not mem and o in OPS and kinds == 'vs': return OPS[o] + '_vs', 'ret', kinds
        if not mem and o in OPS and kinds == 'sv': return OPS[o] + '_sv', 'ret', kinds
        if not mem and o == '-' and kinds == 'v': return 'neg', 'ret', kinds
        return None
    if mem: return None
    nm = NAMES.get(nm, nm)
    if nm in ELEM and kinds in ('v', 'vv', 'vvv'): return nm, 'ret', kinds
    return None

class Contract:
    def __init__(self, name, shape, kinds, fn): self.name = name; self.shape = shape; self.kinds = kinds; self.fn = fn
    def apply(self, ex, st, av, fr):
        e = self.lib.e; n = self.lib.V
        vt = ('vec', n, (e,))
        args = list(av); dst = None
        if self.shape == 'ret': dst = args.pop(0)
        else: dst = args[0]
        if len(args) != len(self.kinds) or not isinstance(dst, Ptr) or dst.obj.kind == 'ext': raise Unsupported('call of %s' % self.name)
        lanes = []
        for a, k in zip(args, self.kinds):
            if k == 'v':
                if not isinstance(a, Ptr) or a.obj.kind == 'ext': raise Unsupported('call of %s' % self.name)
                lanes.append(list(ex.load(st, vt, a, None, fr)))
            else: lanes.append([a] * n)
        if self.kinds == 'sv': lanes = [lanes[1], lanes[0]]
        out = V(self.fn(*[l[i] for l in lanes]) for i in range(n))
        ex.store(st, vt, out, dst, None, fr)
        return args[0] if self.shape == 'inplace' else None

class Library:
    """contracts of one module; exact=True leaves out the opaque ones"""
    def __init__(self, ctx, dem=None):
        self.ctx = ctx; self.e = ctx.e; self.V = kn.vsize(ctx.cfg, ctx.e)
        self.table = {}          # entry name -> (exact?, op)
        self.by_fn = {}
        names = list(ctx.m.fn_text)
        if dem is None:
            r = subprocess.run(['c++filt'], input='\n'.join(names), stdout=subprocess.PIPE, text=True)
            dem = dict(zip(names, r.stdout.split('\n')))
        self.dem = dem
        for n in names:
            d = dem.get(n, n)
            if d == n: continue
            c = classify(d, self.e)
            if c is not None: self.by_fn[n] = c
        self.live = {}
    def enable(self, res):
        """register the contract of a verified v_ entry"""
        if res.unsupported or res.bad() or not res.obs: return
        k = res.k; name = k.id[2:-2]
        vals = [o for o in res.obs if o.kind == 'value']
        if len(vals) != self.V: return
        exact = k.op.mode != 'ref' and all(o.why == 'identical terms' for o in vals)
        if not exact:
            # opaque: all lanes must be the same function of their lane
            ref, lanes = self.ctx.ref_lanes(name)
            if not lanes: return
        for fn, (nm, shape, kinds) in self.by_fn.items():
            if nm != name: continue
            if exact: f = lambda *a, nm=name: self.ctx.apply_ref(nm, a)
            else: f = lambda *a, nm=name: app('V.' + nm, a, self.e)
            c = Contract(name, shape, kinds, f); c.lib = self; c.exact = exact
            self.live[fn] = c
        self.table[name] = (exact, k.op)
    def view(self, exact_only=False): return View(self, exact_only)
class View:
    def __init__(self, lib, exact_only): self.lib = lib; self.exact_only = exact_only
    def lookup(self, ex, name):
        c = self.lib.live.get(name)
        if c is None or (self.exact_only and not c.exact): return None
        return c

"""Verification-condition generator: symbolic execution of LLVM IR with a loop rule.

One run of a function body covers all inputs.  Loops with a constant trip count are
executed; every other loop is handled by an invariant over a ghost iteration counter k
(affine integers and pointers, iterated sums/products/maxima of floats, shifted values)
that is proved inductive on the loop body, plus an exit index K with the obligations
"the loop continues for every k < K" and "it leaves at k = K".
"""
import sys
from .terms import *
from . import smt
from .ir import Unsupported, EXIT

sys.setrecursionlimit(20000)

class Obj:
    _n = [0]
    __slots__ = ('name', 'kind', 'size', 'al', 'elem', 'writable', 'id', 'init')
    def __init__(self, name, kind, size=None, al=1, elem=None, writable=True):
        Obj._n[0] += 1; self.id = Obj._n[0]
        self.name = name; self.kind = kind; self.size = size; self.al = al; self.elem = elem; self.writable = writable; self.init = None
    def __repr__(self): return '<%s %s>' % (self.kind, self.name)

class Ptr:
    __slots__ = ('obj', 'off')
    def __init__(self, obj, off): self.obj = obj; self.off = off
    def __repr__(self): return '&%s+%s' % (self.obj.name, show(self.off))
class PIte:
    __slots__ = ('c', 'a', 'b')
    def __init__(self, c, a, b): self.c = c; self.a = a; self.b = b
class FnPtr:
    __slots__ = ('name',)
    def __init__(self, n): self.name = n
class NullP: pass
NULL = NullP()
class V(list): pass       # vector lanes
class Agg(list): pass     # struct / array value

ZERO64 = bvc(0, 64)

class Loop:
    __slots__ = ('k', 'K', 'id')
    _n = [0]
    def __init__(self, k, K): self.k = k; self.K = K; Loop._n[0] += 1; self.id = Loop._n[0]

class Acc:   # external access, for bounds and alignment obligations
    __slots__ = ('obj', 'off', 'size', 'al', 'write', 'loop', 'post', 'pc', 'fn')
class W:     # external write of one scalar
    __slots__ = ('obj', 'off', 'size', 'val', 'loop', 'post', 'guard')
class R:     # external read of one scalar
    __slots__ = ('obj', 'off', 'size', 'loop', 'post', 'nw')

class Ob:
    __slots__ = ('kind', 'desc', 'st', 'why', 'model', 's', 'kernel', 'goal')
    def __init__(self, kind, desc, res=None, st=None, why='', model=None):
        self.kind = kind; self.desc = desc
        if res is not None: st, why, model = res.st, res.why, res.model
        self.st = st; self.why = why; self.model = model; self.s = res.s if res else 0.0; self.kernel = None; self.goal = None
    def __repr__(self): return '[%s] %s: %s (%s)' % (self.st, self.kind, self.desc, self.why)

# ------------------------------------------------------------------ integer lifting
def lift(t):
    """64-bit term equal to the (narrow) term t provided nothing wraps; atoms that are
    truncations of 64-bit terms become those terms"""
    if t.s == 64:
        if t.op == 'zext': return lift(t.a[0]) if t.a[0].op in ('lin', 'extract', 'c', 'udiv') else t
        if t.op == 'sext': return lift(t.a[0]) if t.a[0].op in ('lin', 'extract', 'c', 'udiv') else t
        if t.op == 'lin':
            r = bvc(t.a[0], 64)
            for a, k in t.a[1]: r = badd(r, bmulc(lift(a), k))
            return r
        return t
    if t.op == 'c': return bvc(tosigned(t.a[0], t.s), 64)
    if t.op == 'extract' and t.a[1] == 0 and t.a[0].s == 64: return lift(t.a[0])
    if t.op == 'extract' and t.a[1] == 0 and t.a[0].s < 64: return lift(t.a[0])
    if t.op == 'lin':
        r = bvc(tosigned(t.a[0], t.s), 64)
        for a, k in t.a[1]: r = badd(r, bmulc(lift(a), tosigned(k, t.s)))
        return r
    if t.op == 'zext': return lift(t.a[0])
    if t.op == 'sext': return lift(t.a[0])
    if t.op == 'udiv' and isc(t.a[1]):
        return div_exact(lift(t.a[0]), t.a[1].a[0]) or budiv(lift(t.a[0]), bvc(t.a[1].a[0], 64))
    return zext(t, 64)

def div_exact(y, c):
    """y / c for a linear term all of whose coefficients are divisible by c (constant part floors)"""
    if y.op == 'c': return bvc(tosigned(y.a[0], 64) // c, 64)
    if y.op == 'lin':
        if any(tosigned(k, 64) % c for _, k in y.a[1]): return None
        r = bvc(tosigned(y.a[0], 64) // c, 64)
        for a, k in y.a[1]: r = badd(r, bmulc(a, tosigned(k, 64) // c))
        return r
    return y if c == 1 else None

_lc = {}
def zext_n(x, w):
    r = zext(x, w)
    if r.op != 'zext' or w != 64 or r.a[0].op not in ('lin', 'extract', 'udiv'): return r
    x = r.a[0]
    hit = _lc.get(('z', x))
    if hit is not None: return hit
    y = lift(x)
    if trunc(y, x.s) is x:
        g = bvult(y, bvc(1 << x.s, 64))
        if smt.prove(g, timeout=5).st == 'proved':
            _lc[('z', x)] = y; return y
    return r
def sext_n(x, w):
    r = sext(x, w)
    if r.op == 'zext': return zext_n(r.a[0], w)
    if r.op != 'sext' or w != 64 or r.a[0].op not in ('lin', 'extract', 'udiv'): return r
    x = r.a[0]
    hit = _lc.get(('s', x))
    if hit is not None: return hit
    y = lift(x)
    if trunc(y, x.s) is x:
        h = 1 << (x.s - 1)
        if smt.prove(bvult(badd(y, bvc(h, 64)), bvc(2 * h, 64)), timeout=5).st == 'proved':
            _lc[('s', x)] = y; return y
    return r
def renorm(t, hyps=()):
    """widening conversions inside of t replaced by linear terms where nothing can wrap"""
    if t.op in ('ite', 'bite') and t.a[0].op == 'bveq':
        a = renorm(t.a[1], hyps); b = renorm(t.a[2], tuple(hyps) + (bnot(t.a[0]),))
        return (ite if t.op == 'ite' else bite)(t.a[0], a, b)
    for rnd in range(4):
        m = {}
        for x in atoms(t):
            if x.op in ('zext', 'sext') and x.s == 64 and x.a[0].op in ('lin', 'extract', 'udiv'):
                y = zext_n(x.a[0], 64) if x.op == 'zext' else sext_n(x.a[0], 64)
                if y is x and hyps:
                    l = lift(x.a[0]); w = x.a[0].s
                    if trunc(l, w) is x.a[0]:
                        g = bvult(l, bvc(1 << w, 64)) if x.op == 'zext' else bvult(badd(l, bvc(1 << (w - 1), 64)), bvc(1 << w, 64))
                        if smt.prove(g, hyps=list(hyps), timeout=5).st == 'proved': y = l
                if y is not x: m[x] = y
        if not m: break
        t = subst(t, m)
    return t
def udiv_n(x, y):
    r = budiv(x, y)
    if r.op != 'udiv' or not isc(r.a[1]): return r
    c = r.a[1].a[0]
    hit = _lc.get(('d', x, c))
    if hit is not None: return hit
    l = lift(x)
    d = div_exact(l, c)
    if d is not None and trunc(l, x.s) is x:
        # x = l (no wrap) and l = c*d + rest, 0 <= rest < c
        ok = smt.prove(bvult(l, bvc(1 << min(x.s, 63), 64)), timeout=5).st == 'proved'
        if ok:
            res = trunc(d, x.s)
            _lc[('d', x, c)] = res; return res
    return r
def urem_n(x, y):
    if isc(y) and y.a[0] and (y.a[0] & (y.a[0] - 1)) == 0 and x.op in ('lin', 'extract', 'sym'):
        # x mod 2^j : drop coefficients divisible by 2^j
        c = y.a[0]
        if x.op == 'lin' and all(k % c == 0 for _, k in x.a[1]): return bvc(x.a[0] % c, x.s)
    return burem(x, y)

def is_fresh(t): return t.op == 'sym' and '!' in t.a[0]

class Executor:
    def __init__(self, mod, contracts=None, inline_log=None):
        self.m = mod
        self.contracts = contracts
        self.obs = []
        self.acc = []
        self.reads = []
        self.loops = []
        self.quiet = 0
        self.steps = 0
        self.max_steps = 400000
        self.functions = set()
        self.used_contracts = set()
        self.globals = {}
        self.gmem = {}
        self.post = False
        self.loop = None
        self._leaves = {}
        self.undef_n = 0; self.uread = []
        self.interfere = []
        self.asserts = 0
        self.depth = 0
        self.assume_alloc = True
        self.hints = []          # models of refuted exit candidates

    # -------------------------------------------------------------- types
    def leaves(self, t):
        r = self._leaves.get(id(t))
        if r is not None and r[0] is t: return r[1]
        out = []
        self._lv(t, 0, out)
        self._leaves[id(t)] = (t, out)
        return out
    def _lv(self, t, o, out):
        t = self.m.resolve(t); k = t[0]
        if k in ('i', 'f', 'd', 'ptr'): out.append((o, t))
        elif k in ('vec', 'arr'):
            s = self.m.size(t[2])
            for i in range(t[1]): self._lv(t[2], o + i * s, out)
        elif k == 'st':
            for i in range(len(t[1])):
                fo, ft = self.m.field(t, i); self._lv(ft, o + fo, out)
        else: raise Unsupported('type %r' % (t,))
    def sort(self, t):
        t = self.m.resolve(t)
        if t[0] == 'i': return 'B' if t[1] == 1 else t[1]
        if t[0] in ('f', 'd'): return t[0]
        raise Unsupported('sort %r' % (t,))
    def build(self, t, it):
        t = self.m.resolve(t); k = t[0]
        if k in ('i', 'f', 'd', 'ptr'): return next(it)
        if k == 'vec': return V(self.build(t[2], it) for _ in range(t[1]))
        if k == 'arr': return Agg(self.build(t[2], it) for _ in range(t[1]))
        if k == 'st': return Agg(self.build(e, it) for e in t[1])
        raise Unsupported('build')
    def flat(self, v, out):
        if isinstance(v, (V, Agg)):
            for x in v: self.flat(x, out)
        else: out.append(v)
        return out
    def undef(self, t):
        t = self.m.resolve(t)
        if t[0] == 'ptr': return NULL
        if t[0] in ('vec', 'arr', 'st'):
            return self.build(t, (self.undef(lt) for _, lt in self.leaves(t)))
        return fresh('undef', self.sort(t))
    def zero(self, t):
        t = self.m.resolve(t)
        if t[0] == 'ptr': return NULL
        if t[0] == 'i': return FALSE if t[1] == 1 else bvc(0, t[1])
        if t[0] in ('f', 'd'): return fcb(0, t[0])
        return self.build(t, (self.zero(lt) for _, lt in self.leaves(t)))

    # -------------------------------------------------------------- operands
    def val(self, fr, v, ty=None):
        k = v[0]
        if k == 'reg':
            try: return fr.env[v[1]]
            except KeyError: raise Unsupported('undefined register %s in %s' % (v[1], fr.fn.name))
        if k == 'int':
            t = self.m.resolve(v[2])
            return boolc(v[1] & 1) if t[1] == 1 else bvc(v[1], t[1])
        if k == 'fp': return fcb(v[1], v[2])
        if k == 'zero': return self.zero(v[1])
        if k == 'undef': return self.undef(v[1])
        if k == 'null': return NULL
        if k == 'agg':
            l = [self.val(fr, x, t) for t, x in v[1]]
            return V(l) if self.m.resolve(v[2])[0] == 'vec' else Agg(l)
        if k == 'glob':
            n = v[1]
            if n in self.m.fn_text or n in self.m.decl: return FnPtr(n)
            return Ptr(self.glob(n), ZERO64)
        if k == 'cgep':
            base = self.val(fr, v[2][0][1]); idx = [(t, self.val(fr, x)) for t, x in v[2][1:]]
            return self.gep(v[1], base, idx)
        if k == 'ccast':
            return self.val(fr, v[3])
        raise Unsupported('operand %r' % (v,))
    def glob(self, n):
        o = self.globals.get(n)
        if o is None:
            o = Obj('@' + n, 'global'); self.globals[n] = o
            line = self.m.gl_text.get(n)
            if line is None or ' external ' in line: raise Unsupported('external global ' + n)
            if self.m.global_stored(n): raise Unsupported('mutable global ' + n)
            import re
            from .ir import P, toks
            ts = toks(line)
            i = next((j for j, x in enumerate(ts) if x in ('global', 'constant')), None)
            if i is None: raise Unsupported('global ' + n)
            p = P(ts, self.m); p.i = i + 1
            t = p.type(); v = p.value(t)
            fr = None
            if v[0] == 'bytes': raise Unsupported('string global')
            val = self.val(fr, v)
            cells = {}
            for (o_, lt), x in zip(self.leaves(t), self.flat(val, [])): cells[o_] = (self.m.size(lt), x)
            o.init = cells
        return o

    # -------------------------------------------------------------- pointers
    def gep(self, bt, base, idx):
        if isinstance(base, PIte): return PIte(base.c, self.gep(bt, base.a, idx), self.gep(bt, base.b, idx))
        if not isinstance(base, Ptr): raise Unsupported('gep on %r' % (base,))
        off = base.off; t = bt
        for j, (it, iv) in enumerate(idx):
            if j == 0: sz = self.m.size(t)
            else:
                rt = self.m.resolve(t)
                if rt[0] == 'st':
                    fo, t = self.m.field(rt, iv.a[0]); off = badd(off, bvc(fo, 64)); continue
                t = rt[2]; sz = self.m.size(t)
            i64 = iv if iv.s == 64 else sext_n(iv, 64)
            off = badd(off, bmulc(i64, sz))
        return Ptr(base.obj, off)

    # -------------------------------------------------------------- memory
    def load(self, st, t, p, al, fr=None):
        if isinstance(p, PIte):
            return self.merge_val(p.c, self.load(st, t, p.a, al, fr), self.load(st, t, p.b, al, fr))
        if not isinstance(p, Ptr): raise Unsupported('load through %r' % (p,))
        o = p.obj
        if o.kind == 'ext':
            self.access(st, o, p.off, self.m.size(t), al, False, fr)
            return self.build(t, (self.ext_read(st, o, badd(p.off, bvc(fo, 64)), lt) for fo, lt in self.leaves(t)))
        if not isc(p.off): raise Unsupported('symbolic offset into local memory')
        base = p.off.a[0]
        if len(self.leaves(t)) == 1 and self.leaves(t)[0][0] == 0 and self.m.resolve(t)[0] != 'arr' and self.m.resolve(t)[0] not in ('st', 'vec'):
            return self.cell(st, o, base, self.leaves(t)[0][1])
        return self.build(t, (self.cell(st, o, base + fo, lt) for fo, lt in self.leaves(t)))
    def conv(self, v, lt):
        """reinterpret stored value as leaf type"""
        k = lt[0]
        if k == 'ptr':
            if isinstance(v, T):
                if isc(v) and v.a[0] == 0: return NULL
                raise Unsupported('int to pointer through memory')
            return v
        if not isinstance(v, T): raise Unsupported('pointer read as %r' % (lt,))
        if k in ('f', 'd'):
            if v.s == k: return v
            if isinstance(v.s, int): return fp(v)
            raise Unsupported('reinterpret')
        w = lt[1]
        if v.s in FW: v = bits(v)
        if v.s == 'B': v = zext(v, 8)
        if w == 1: return trunc(v, 'B')
        if v.s == w: return v
        if v.s > w: return trunc(v, w)
        return zext(v, w)
    def cells(self, st, o):
        c = st.mem.get(o)
        if c is None:
            if o.kind == 'global': return o.init
            c = st.mem[o] = {}
        return c
    def cell(self, st, o, off, lt):
        c = self.cells(st, o); sz = self.m.size(lt)
        e = c.get(off)
        if e is not None and e[0] == sz: return self.conv(e[1], lt)
        # assemble
        if e is None:
            for o2, (s2, v2) in c.items():
                if o2 < off and off + sz <= o2 + s2:
                    if not isinstance(v2, T): raise Unsupported('partial pointer read')
                    b = bits(v2) if v2.s in FW else v2
                    return self.conv(extract(b, 8 * (off - o2), 8 * sz), lt)
        elif e[0] > sz:
            b = bits(e[1]) if e[1].s in FW else e[1]
            return self.conv(extract(b, 0, 8 * sz), lt)
        ov = [(o2, s2, v2) for o2, (s2, v2) in c.items() if o2 < off + sz and off < o2 + s2]
        if not ov:
            v = NULL if lt[0] == 'ptr' else fresh('undef', self.sort(lt) if not (lt[0] == 'i' and lt[1] == 1) else 8)
            c2 = self.cells(st, o)
            if o.kind != 'global': c2[off] = (sz, v); self.uread.append((o, off))
            return self.conv(v, lt)
        ov.sort()
        acc = None; pos = off
        for o2, s2, v2 in ov:
            if not isinstance(v2, T): raise Unsupported('mixed pointer read')
            if o2 > pos:
                g = fresh('undef', 8 * (o2 - pos)); acc = g if acc is None else concat(g, acc); pos = o2
            b = bits(v2) if v2.s in FW else (zext(v2, 8) if v2.s == 'B' else v2)
            lo = pos - o2; hi = min(o2 + s2, off + sz) - o2
            piece = extract(b, 8 * lo, 8 * (hi - lo))
            acc = piece if acc is None else concat(piece, acc); pos = o2 + hi
        if pos < off + sz: acc = concat(fresh('undef', 8 * (off + sz - pos)), acc)
        return self.conv(acc, lt)
    def put(self, st, o, off, sz, v):
        c = self.cells(st, o)
        if o.kind == 'global': raise Unsupported('store to global')
        e = c.get(off)
        if e is not None and e[0] == sz: c[off] = (sz, v); return
        for o2 in [x for x, (s2, _) in c.items() if x < off + sz and off < x + s2]:
            s2, v2 = c.pop(o2)
            if isinstance(v2, T):
                b = bits(v2) if v2.s in FW else (zext(v2, 8) if v2.s == 'B' else v2)
                if o2 < off: c[o2] = (off - o2, extract(b, 0, 8 * (off - o2)))
                if o2 + s2 > off + sz: c[off + sz] = (o2 + s2 - off - sz, extract(b, 8 * (off + sz - o2), 8 * (o2 + s2 - off - sz)))
        c[off] = (sz, v)
    def store(self, st, t, v, p, al, fr=None):
        if isinstance(p, PIte):
            # conditional store
            for q, c in ((p.a, p.c), (p.b, bnot(p.c))):
                old = self.load_quiet(st, t, q)
                self.store(st, t, self.merge_val(c, v, old), q, al, fr)
            return
        if not isinstance(p, Ptr): raise Unsupported('store through %r' % (p,))
        o = p.obj
        vals = self.flat(v, [])
        if o.kind == 'ext':
            self.access(st, o, p.off, self.m.size(t), al, True, fr)
            for (fo, lt), x in zip(self.leaves(t), vals):
                self.ext_write(st, o, badd(p.off, bvc(fo, 64)), self.m.size(lt), x)
            return
        if not isc(p.off): raise Unsupported('symbolic offset into local memory')
        for (fo, lt), x in zip(self.leaves(t), vals):
            self.put(st, o, p.off.a[0] + fo, self.m.size(lt), x)
    def load_quiet(self, st, t, p):
        self.quiet += 1
        try: return self.load(st, t, p, None)
        finally: self.quiet -= 1

    def access(self, st, o, off, size, al, write, fr):
        if self.quiet or self.probe: return
        a = Acc(); a.obj = o; a.off = off; a.size = bvc(size, 64); a.al = al or 1; a.write = write
        a.loop = self.loop; a.post = self.post; a.pc = st.pc; a.fn = fr.fn.name if fr else ''
        self.acc.append(a)
    def ext_write(self, st, o, off, size, x):
        if not isinstance(x, T): raise Unsupported('pointer stored to buffer')
        if o.elem and isinstance(x.s, int) and size == FW[o.elem] // 8: x = fp(x)
        w = W(); w.obj = o; w.off = off; w.size = size; w.val = x; w.loop = self.loop; w.post = self.post; w.guard = TRUE
        st.wlog.append(w)
    def ext_read(self, st, o, off, lt):
        sz = self.m.size(lt)
        want = self.sort(lt)
        if not self.quiet and not self.probe:
            r = R(); r.obj = o; r.off = off; r.size = sz; r.loop = self.loop; r.post = self.post; r.nw = len(st.wlog); self.reads.append(r)
        return self.read_back(st, o, off, sz, lt, len(st.wlog))
    def read_back(self, st, o, off, sz, lt, upto):
        # latest write wins
        def found(w, v, j):
            if w.guard is TRUE or w.guard is st.pc: return v
            return self.merge_val(w.guard, v, self.read_back(st, o, off, sz, lt, j))
        for j in range(upto - 1, -1, -1):
            w = st.wlog[j]
            if w.obj is not o: continue
            if w.loop is self.loop:
                d = bsub(off, w.off)
                if isc(d):
                    dv = tosigned(d.a[0], 64)
                    if dv == 0 and w.size == sz: return found(w, self.conv(w.val, lt), j)
                    if dv >= w.size or dv <= -sz: continue
                    if 0 <= dv and dv + sz <= w.size:
                        b = bits(w.val) if w.val.s in FW else w.val
                        return found(w, self.conv(extract(b, 8 * dv, 8 * sz), lt), j)
                    raise Unsupported('partially overlapping buffer access')
                if self.quiet or self.probe: continue          # probe run: relations are not known yet
                # not comparable syntactically: prove disjointness
                ok = smt.prove(pand(bvule(bvc(w.size, 64), d), bvule(d, bvc(-sz, 64))), hyps=[st.pc], timeout=5)
                if ok.st == 'proved': continue
                raise Unsupported('unresolved buffer aliasing')
            if self.quiet or self.probe: continue
            v = self.cross(st, w, off, sz, lt)
            if v is not None: return found(w, v, j)
        es = o.elem
        if es and FW[es] // 8 == sz:
            return self.conv(sel(o.name, off, es), lt)
        return self.conv(sel(o.name, off, 8 * sz), lt)
    probe = 0
    def cross(self, st, w, off, sz, lt):
        """read that may see a write of another (finished) loop or of straight-line code"""
        if w.loop is None:
            d = bsub(off, w.off)
            hy = [st.pc]
            if isc(d) and tosigned(d.a[0], 64) == 0 and w.size == sz: return self.conv(w.val, lt)
            if isc(d):
                dv = tosigned(d.a[0], 64)
                if dv >= w.size or dv <= -sz: return None
            ok = smt.prove(pand(bvule(bvc(w.size, 64), d), bvule(d, bvc(-sz, 64))), hyps=hy, timeout=5)
            if ok.st == 'proved': return None
            raise Unsupported('read depends on straight-line write')
        k2 = w.loop.k
        S = self.coef(w.off, k2)
        if S is None or S == 0: raise Unsupported('non-affine write')
        base = subst(w.off, {k2: ZERO64})
        q = div_exact(bsub(off, base), abs(S))
        rest = bsub(bsub(off, base), bmulc(q, abs(S))) if q is not None else None
        if q is not None and isc(rest):
            rv = rest.a[0]
            if rv == 0 and w.size == sz:
                kk = q if S > 0 else bneg(q)
                lim = bvult(kk, w.loop.K) if w.post else bvule(kk, w.loop.K)
                if smt.prove(lim, hyps=[st.pc], timeout=5).st == 'proved':
                    return self.conv(subst(w.val, {k2: kk}), lt)
            elif rv >= w.size and rv + sz <= abs(S): return None
        kf = fresh('k2', 64)
        wo = subst(w.off, {k2: kf}); d = bsub(off, wo)
        hy = [st.pc, bvult(kf, w.loop.K) if w.post else bvule(kf, w.loop.K)]
        ok = smt.prove(pand(bvule(bvc(w.size, 64), d), bvule(d, bvc(-sz, 64))), hyps=hy, timeout=5)
        if ok.st == 'proved': return None
        raise Unsupported('read depends on another loop')
    def coef(self, t, k):
        """coefficient of k in a linear 64-bit term; None if k occurs elsewhere"""
        if t is k: return 1
        if t.op == 'lin':
            c = 0
            for a, v in t.a[1]:
                if a is k: c = tosigned(v, 64)
                elif contains(a, k): return None
            return c
        return None if contains(t, k) else 0

    # -------------------------------------------------------------- memset / memcpy
    def clear_range(self, st, o, off, n):
        c = self.cells(st, o)
        hit = [x for x, (s2, _) in c.items() if x < off + n and off < x + s2]
        for x in hit:
            s2, v2 = c[x]
            if x >= off and x + s2 <= off + n: del c[x]
            else: self.put(st, o, max(x, off), min(x + s2, off + n) - max(x, off), fresh('undef', 8 * (min(x + s2, off + n) - max(x, off))))
    def pseudo(self, st, n, es):
        """ghost loop over the elements of a bulk operation of n bytes; (loop, number of elements)"""
        if self.loop is not None: raise Unsupported('bulk operation of symbolic length inside a loop')
        l = lift(n); g = es; cnt = div_exact(l, g)
        while cnt is None and g > 1: g //= 2; cnt = div_exact(l, g)
        if cnt is None: raise Unsupported('bulk length')
        if l is not n: self.oblige('exit', 'the byte count of a bulk operation does not wrap around', bveq(n, l), st.pc)
        k = fresh('kb', 64); K = badd(cnt, bvc(-1, 64))
        L = Loop(k, K)
        hy = [bvule(k, K)] + ([st.pc] if st.pc is not TRUE else [])
        # the loop is only meaningful for at least one element
        self.oblige('exit', 'bulk operation on at least one element', bvult(K, bvc(1 << 40, 64)), st.pc)
        smt.ASSUME[k] = hy
        return L, g
    def bulk_acc(self, st, p, n, write, fr):
        if self.quiet or self.probe: return
        a = Acc(); a.obj = p.obj; a.off = p.off; a.size = n; a.al = 1; a.write = write
        a.loop = self.loop; a.post = self.post; a.pc = st.pc; a.fn = fr.fn.name if fr else ''
        self.acc.append(a)
    def bulk_set(self, fr, st, p, v, n):
        if not isinstance(p, Ptr): raise Unsupported('memset')
        if not isc(v): raise Unsupported('memset value')
        b = v.a[0] & 255
        if n.s != 64: n = zext_n(n, 64)
        o = p.obj
        if o.kind != 'ext':
            if not isc(n) or not isc(p.off): raise Unsupported('memset local')
            off, ln = p.off.a[0], n.a[0]
            self.clear_range(st, o, off, ln)
            while ln:
                w = 8 if ln >= 8 and off % 8 == 0 else (4 if ln >= 4 and off % 4 == 0 else 1)
                self.put(st, o, off, w, bvc(int.from_bytes(bytes([b]) * w, 'little'), 8 * w)); off += w; ln -= w
            return
        es = FW[o.elem] // 8
        val = fcb(int.from_bytes(bytes([b]) * es, 'little'), o.elem)
        self.bulk_acc(st, p, n, True, fr)
        if isc(n):
            if n.a[0] % es: raise Unsupported('memset length')
            for j in range(0, n.a[0], es): self.ext_write(st, o, badd(p.off, bvc(j, 64)), es, val)
            return
        L, g = self.pseudo(st, n, es)
        if g != es: val = bvc(int.from_bytes(bytes([b]) * g, 'little'), 8 * g)
        self.loop = L
        try: self.ext_write(st, o, badd(p.off, bmulc(L.k, g)), g, val)
        finally: self.loop = None
    def bulk_copy(self, fr, st, d, s, n):
        if not isinstance(d, Ptr) or not isinstance(s, Ptr): raise Unsupported('memcpy')
        if n.s != 64: n = zext_n(n, 64)
        do, so = d.obj, s.obj
        if so.kind != 'ext' and do.kind != 'ext':
            if not (isc(n) and isc(d.off) and isc(s.off)): raise Unsupported('memcpy local')
            ln = n.a[0]; o1 = s.off.a[0]; o2 = d.off.a[0]
            cs = self.cells(st, so)
            part = sorted((x, e) for x, e in cs.items() if x < o1 + ln and o1 < x + e[0])
            self.clear_range(st, do, o2, ln)
            for x, (sz, v) in part:
                if x >= o1 and x + sz <= o1 + ln: self.put(st, do, o2 + x - o1, sz, v)
                else:
                    if not isinstance(v, T): raise Unsupported('memcpy partial pointer')
                    bb = bits(v) if v.s in FW else (zext(v, 8) if v.s == 'B' else v)
                    lo = max(x, o1); hi = min(x + sz, o1 + ln)
                    self.put(st, do, o2 + lo - o1, hi - lo, extract(bb, 8 * (lo - x), 8 * (hi - lo)))
            return
        elem = do.elem if do.kind == 'ext' else so.elem
        es = FW[elem] // 8
        if do.kind == 'ext': self.bulk_acc(st, d, n, True, fr)
        if so.kind == 'ext': self.bulk_acc(st, s, n, False, fr)
        if isc(n):
            if n.a[0] % es: raise Unsupported('memcpy length')
            vals = []
            for j in range(0, n.a[0], es):
                off = badd(s.off, bvc(j, 64))
                if so.kind == 'ext': vals.append(self.ext_read(st, so, off, (elem,)))
                else:
                    if not isc(off): raise Unsupported('memcpy offset')
                    vals.append(self.cell(st, so, off.a[0], (elem,)))
            for j, v in zip(range(0, n.a[0], es), vals):
                off = badd(d.off, bvc(j, 64))
                if do.kind == 'ext': self.ext_write(st, do, off, es, v)
                else:
                    if not isc(off): raise Unsupported('memcpy offset')
                    self.put(st, do, off.a[0], es, v)
            return
        if so.kind != 'ext' or do.kind != 'ext': raise Unsupported('memcpy symbolic')
        if so is do and s.off is not d.off: raise Unsupported('overlapping copy')
        L, g = self.pseudo(st, n, es)
        self.loop = L
        try:
            if g != es: self.ext_write(st, do, badd(d.off, bmulc(L.k, g)), g, fresh('undef', 8 * g)); return
            v = self.ext_read(st, so, badd(s.off, bmulc(L.k, es)), (elem,))
            self.ext_write(st, do, badd(d.off, bmulc(L.k, es)), es, v)
        finally: self.loop = None

    # -------------------------------------------------------------- merging
    def merge_val(self, c, a, b):
        if a is b: return a
        if isinstance(a, T) and isinstance(b, T):
            if a.s != b.s:
                if a.s in FW and isinstance(b.s, int): return ite(c, bits(a), b)
                if b.s in FW and isinstance(a.s, int): return ite(c, a, bits(b))
                raise Unsupported('merge sorts')
            return ite(c, a, b)
        if isinstance(a, V): return V(self.merge_val(c, x, y) for x, y in zip(a, b))
        if isinstance(a, Agg): return Agg(self.merge_val(c, x, y) for x, y in zip(a, b))
        if isinstance(a, Ptr) and isinstance(b, Ptr) and a.obj is b.obj and a.off is b.off: return a
        if isinstance(a, FnPtr) and isinstance(b, FnPtr) and a.name == b.name: return a
        if isinstance(a, (Ptr, PIte)) and isinstance(b, (Ptr, PIte)): return PIte(c, a, b)
        if a is NULL: return b     # uninitialised pointer on one path
        if b is NULL: return a
        raise Unsupported('merge %r %r' % (a, b))
    def merge_state(self, c, s1, s2, base_w):
        st = State(); st.pc = None
        st.mem = {}
        for o in set(s1.mem) | set(s2.mem):
            m1 = s1.mem.get(o); m2 = s2.mem.get(o)
            if m1 is None: st.mem[o] = m2; continue
            if m2 is None: st.mem[o] = m1; continue
            if m1 == m2: st.mem[o] = m1; continue
            r = {}
            for off in set(m1) | set(m2):
                e1 = m1.get(off); e2 = m2.get(off)
                if e1 == e2: r[off] = e1; continue
                if e1 is None or e2 is None or e1[0] != e2[0]:
                    # different shapes: rebuild both sides at the granularity of the smaller pieces
                    e = e1 or e2
                    if e1 is None and not any(x < off + e[0] and off < x + s for x, (s, _) in m1.items()): r[off] = e2; continue
                    if e2 is None and not any(x < off + e[0] and off < x + s for x, (s, _) in m2.items()): r[off] = e1; continue
                    raise Unsupported('merge memory shapes')
                r[off] = (e1[0], self.merge_val(c, e1[1], e2[1]))
            st.mem[o] = r
        # external writes: pair equal locations, guard the rest
        n = base_w
        w1, w2 = s1.wlog[n:], s2.wlog[n:]
        out = list(s1.wlog[:n])
        if w1 or w2:
            used = set()
            for a in w1:
                j = next((i for i, b in enumerate(w2) if i not in used and b.obj is a.obj and b.off is a.off and b.size == a.size and b.loop is a.loop), None)
                x = W(); x.obj = a.obj; x.off = a.off; x.size = a.size; x.loop = a.loop; x.post = a.post
                if j is not None and a.guard is TRUE and w2[j].guard is TRUE:
                    used.add(j); x.guard = TRUE; x.val = self.merge_val(c, a.val, w2[j].val)
                else: x.guard = pand(a.guard, c); x.val = a.val
                out.append(x)
            for i, b in enumerate(w2):
                if i in used: continue
                x = W(); x.obj = b.obj; x.off = b.off; x.size = b.size; x.loop = b.loop; x.post = b.post; x.guard = pand(b.guard, bnot(c)); x.val = b.val
                out.append(x)
            # guarded writes become writes of ite(guard, value, previous content)
            res = list(s1.wlog[:n])
            for x in out[n:]:
                if x.guard is not TRUE:
                    if x.loop is not self.loop or self.loop is None: res.append(x); continue   # whole guarded loop / top-level write: handled by the tiling
                    tmp = State(); tmp.wlog = res; tmp.pc = TRUE; tmp.mem = {}
                    self.quiet += 1
                    lt = (x.val.s,) if x.val.s in FW else ('i', x.size * 8)
                    old = self.ext_read(tmp, x.obj, x.off, lt)
                    self.quiet -= 1
                    x.val = self.merge_val(x.guard, x.val, old); x.guard = TRUE
                res.append(x)
            out = res
        st.wlog = out
        return st

    # -------------------------------------------------------------- running
    def call(self, st, name, args, caller=None):
        """args: list of values; returns (state, value)"""
        fn = self.m.fn(name)
        if fn is None: raise Unsupported('no body for ' + name)
        self.depth += 1
        if self.depth > 200: raise Unsupported('recursion depth')
        if not self.quiet and not self.probe: self.functions.add(name)
        fr = Frame(); fr.fn = fn; fr.env = {}; fr.ret = None; fr.active = set(); fr.exits = None; fr.bd = 0
        for (pn, pt, at), v in zip(fn.params, args): fr.env[pn] = v
        st = self.walk(fr, st, fn.entry, None, EXIT)[0]
        self.depth -= 1
        # dead stack objects of this frame are dropped to keep states small
        for o in fr.allocas: st.mem.pop(o, None)
        return st, fr.ret

    def phis(self, fr, blk, prev):
        r = {}
        for ins in fr.fn.blocks[blk]:
            if ins.op != 'phi': break
            v = ins.d[1].get(prev)
            if v is None: raise Unsupported('phi without incoming %s' % prev)
            r[ins.res] = self.undef(ins.d[0]) if v[0] == 'undef' else self.val(fr, v)
        return r

    def walk(self, fr, st, blk, prev, stop, phis_done=False, first=False):
        """execute from blk until control reaches stop; returns (state, phi values for stop)"""
        fn = fr.fn
        while True:
            if blk == stop and not first:
                return st, (self.phis(fr, blk, prev) if blk != EXIT and not phis_done else {})
            first = False
            if blk == EXIT: return st, {}
            if blk in fn.loops and blk not in fr.active:
                init = {} if phis_done else self.phis(fr, blk, prev)
                if phis_done:
                    for ins in fn.blocks[blk]:
                        if ins.op != 'phi': break
                        init[ins.res] = fr.env[ins.res]
                phis_done = False
                st, prev, blk = self.do_loop(fr, st, blk, init)
                continue
            if not phis_done:
                if prev is not None: fr.env.update(self.phis(fr, blk, prev))
            phis_done = False
            nxt = None
            for ins in fn.blocks[blk]:
                self.steps += 1
                if self.steps > self.max_steps: raise Unsupported('step budget')
                op = ins.op
                if op == 'phi': continue
                if op == 'jmp': nxt = ins.d
                elif op == 'br':
                    c = self.val(fr, ins.d[0])
                    a, b = ins.d[1], ins.d[2]
                    if a == b: nxt = a
                    else:
                        # loop exit?
                        lx = fr.exits
                        if lx is not None and ((a in lx.body) != (b in lx.body)):
                            cont = c if a in lx.body else bnot(c)
                            inside, outside = (a, b) if a in lx.body else (b, a)
                            if lx.mode == 'concrete':
                                if cont is TRUE: nxt = inside
                                elif cont is FALSE:
                                    if fr.bd != lx.bd: raise NotConcrete()
                                    raise LoopExit(st, blk, outside)
                                else: raise NotConcrete()
                            else:
                                if st.pc is not lx.pc0: raise Unsupported('conditional loop exit')
                                if outside not in fn.canexit and outside != EXIT:
                                    self.oblige('assert', 'assertion in %s' % fn.name, cont, st.pc)
                                    nxt = inside
                                elif cont is TRUE and False: nxt = inside
                                else:
                                    if lx.exit is not None: raise Unsupported('several loop exits')
                                    lx.exit = (cont, blk, outside)
                                    lx.snap = (st.copy(), dict(fr.env))
                                    self.post = True if self.loop is lx.loopobj else self.post
                                    nxt = inside
                        elif c is TRUE: nxt = a
                        elif c is FALSE: nxt = b
                        else:
                            r = self.branch(fr, st, blk, c, a, b, stop)
                            if r[0] == 'done': return r[1], r[2]
                            st, nxt = r[1], r[2]; phis_done = r[0] == 'next'
                elif op == 'switch':
                    v = self.val(fr, ins.d[1])
                    if isc(v):
                        nxt = next((tb for cv, tb in ins.d[3] if (cv & mask(v.s)) == v.a[0]), ins.d[2])
                    else: raise Unsupported('symbolic switch')
                elif op == 'ret':
                    rv = self.val(fr, ins.d[1]) if ins.d and ins.d[0][0] != 'void' else None
                    fr.ret = rv
                    nxt = EXIT
                elif op == 'unreachable':
                    raise Unsupported('reached unreachable in ' + fn.name)
                elif op == 'call':
                    st = self.do_call(fr, st, ins)
                else:
                    self.simple(fr, st, ins)
            prev, blk = blk, nxt

    def branch(self, fr, st, blk, c, a, b, stop):
        fn = fr.fn
        dead_a = a not in fn.canexit and a != EXIT
        dead_b = b not in fn.canexit and b != EXIT
        if dead_a or dead_b:
            if dead_a and dead_b: raise Unsupported('dead branch')
            self.oblige('assert', 'assertion in %s' % fn.name, bnot(c) if dead_a else c, st.pc)
            t = b if dead_a else a
            return ('live', st, t)
        join = fn.ipdom.get(blk)
        if join is None: raise Unsupported('no join')
        lx = fr.exits
        if lx is not None and join != stop and join not in lx.body and blk in lx.body:
            # the arms meet only outside of the loop: an inner conditional exit
            raise NotConcrete() if lx.mode == 'concrete' else Unsupported('conditional loop exit')
        base_w = len(st.wlog); env0 = fr.env; pc0 = st.pc
        res = []
        for tgt, cc in ((a, c), (b, bnot(c))):
            s1 = st.copy(); s1.pc = pand(pc0, cc)
            fr.env = dict(env0); fr.ret = None
            fr.bd += 1
            try: s1, ph = self.walk(fr, s1, tgt, blk, join)
            finally: fr.bd -= 1
            res.append((s1, ph, fr.ret))
        fr.env = env0
        (s1, p1, r1), (s2, p2, r2) = res
        sm = self.merge_state(c, s1, s2, base_w); sm.pc = pc0
        if join == EXIT:
            if r1 is not None or r2 is not None: fr.ret = self.merge_val(c, r1, r2)
            return ('done', sm, {}) if stop == EXIT else ('done', sm, {})
        ph = {k: self.merge_val(c, p1[k], p2[k]) for k in p1}
        if join == stop: return ('done', sm, ph)
        fr.env.update(ph)
        return ('next', sm, join)

    def oblige(self, kind, desc, goal, pc=TRUE, timeout=20):
        if self.quiet or self.probe: return
        r = smt.prove(goal, hyps=[pc] if pc is not TRUE else [], timeout=timeout)
        self.obs.append(Ob(kind, desc, r))

    # -------------------------------------------------------------- loops
    def do_loop(self, fr, st, H, init):
        """returns (state, prev, next block)"""
        fn = fr.fn; body = fn.loops[H]
        # 1. constant trip count
        snap = st.copy(); env0 = dict(fr.env)
        marks = (len(self.acc), len(self.reads), len(self.obs), set(self.functions))
        saved = (fr.exits, set(fr.active))
        lx = LX(); lx.body = body; lx.mode = 'concrete'; lx.bd = fr.bd; lx.exit = None; lx.loopobj = None
        fr.exits = lx; fr.active.add(H)
        cur = init; s = st
        try:
            for it in range(5000):
                fr.env.update(cur)
                s, cur = self._run(fr, s, H)
            raise Unsupported('constant loop too long')
        except LoopExit as e:
            fr.exits, fr.active = saved[0], saved[1]
            return e.st, e.blk, e.out
        except NotConcrete:
            pass
        finally:
            fr.exits, fr.active = saved[0], saved[1]
        st = snap; fr.env = env0
        del self.acc[marks[0]:]; del self.reads[marks[1]:]; del self.obs[marks[2]:]
        if self.loop is not None: raise Unsupported('nested symbolic loop')
        return self.sym_loop(fr, st, H, init)

    def _run(self, fr, st, H):
        """one iteration: header H (phis already in the environment) until control is back at H"""
        return self.walk(fr, st, H, None, H, phis_done=True, first=True)

    def sym_loop(self, fr, st, H, init):
        fn = fr.fn; body = fn.loops[H]
        env0 = dict(fr.env)
        extra_cells = []       # (obj, off, size) local cells modified by the loop
        saved = (fr.exits, set(fr.active))
        # ---- generic run from a symbolised state, until the set of modified cells is stable
        self.probe += 1
        try:
            for rnd in range(12):
                syms = {}
                def symb(v, nm):
                    if isinstance(v, T):
                        s = fresh(nm, v.s); return s
                    if isinstance(v, Ptr): return Ptr(v.obj, fresh(nm, 64))
                    if isinstance(v, V): return V(symb(x, nm) for x in v)
                    if isinstance(v, Agg): return Agg(symb(x, nm) for x in v)
                    raise Unsupported('loop-carried %r' % (v,))
                ph = {n: symb(v, n) for n, v in init.items()}
                g = st.copy()
                cellsym = {}
                for (o, off) in extra_cells:
                    sz, v = st.mem[o][off]
                    nv = symb(v, 'cell'); cellsym[(o, off)] = nv
                    g.mem[o][off] = (sz, nv)
                lx = LX(); lx.body = body; lx.mode = 'sym'; lx.exit = None; lx.pc0 = g.pc; lx.loopobj = None
                fr.exits = lx; fr.active = set(saved[1]) | {H}
                fr.env = dict(env0); fr.env.update(ph)
                before = {o: dict(c) for o, c in g.mem.items()}
                nu = len(self.uread)
                g2, nxt = self._run(fr, g, H)
                uread = set(self.uread[nu:])
                # modified cells of objects that existed before the loop
                mod = []; new = []
                for o, c in before.items():
                    c2 = g2.mem.get(o)
                    if c2 is None: continue
                    for off, e in c2.items():
                        e1 = c.get(off)
                        if e1 is None:
                            # first written inside of the loop: loop-carried if an iteration or the code
                            # after the loop can read it
                            if ((o, off) in uread or o not in fr.allocas or self.mentioned(fn, o.name[1:], body)) and self.plain(e[1]) \
                               and not any(x < off + e[0] and off < x + s2 for x, (s2, _) in c.items()): new.append((o, off, e))
                            continue
                        if e1[0] != e[0]: raise Unsupported('loop reshapes stack cell')
                        if e1[1] is not e[1] and not self._eqv(e1[1], e[1]) and (o, off) not in extra_cells: mod.append((o, off))
                    for off in c:
                        if off not in c2: raise Unsupported('loop reshapes stack cell')
                for o, off, (sz, v) in new:
                    st.mem[o] = dict(st.mem[o]); st.mem[o][off] = (sz, self.undef_like(v)); mod.append((o, off))
                if not mod: break
                extra_cells += mod
            else: raise Unsupported('loop cells do not stabilise')
        finally:
            self.probe -= 1
            fr.exits, fr.active = saved[0], set(saved[1])
        if lx.exit is None: raise Unsupported('loop without exit')
        cont_g = lx.exit[0]
        # ---- variables
        vs = []   # (key, init T, sym T, next T)
        def addvar(key, i, s, n):
            if isinstance(s, T):
                if not isinstance(n, T): raise Unsupported('loop var')
                if n.s != s.s:
                    if s.s in FW and isinstance(n.s, int): n = fp(n)
                    elif n.s in FW and isinstance(s.s, int): n = bits(n)
                    else: raise Unsupported('loop var sort')
                vs.append([key, i, s, n])
            elif isinstance(s, Ptr):
                if not isinstance(n, Ptr) or n.obj is not s.obj: raise Unsupported('pointer changes object in loop')
                vs.append([key, i.off, s.off, n.off])
            else:
                for j, (a, b, c) in enumerate(zip(i, s, n)): addvar(key + (j,), a, b, c)
        for n in init: addvar(('phi', n), init[n], ph[n], nxt[n])
        for (o, off) in extra_cells: addvar(('cell', o, off), st.mem[o][off][1], cellsym[(o, off)], g2.mem[o][off][1])
        k = fresh('k', 64)
        closed = self.solve(vs, k)
        # ---- exit index
        cont = subst(cont_g, closed)
        hyp0 = [st.pc] if st.pc is not TRUE else []
        K = self.find_exit(cont, k, hyp0)
        if K is None: raise Unsupported('loop exit not found: ' + show(cont))
        kk, obs = K
        if not self.quiet and not self.probe: self.obs += obs
        L = Loop(k, kk)
        smt.ASSUME[k] = [bvule(k, kk)] + hyp0
        closed = {s_: renorm(v) for s_, v in closed.items()}
        # ---- final run with closed forms
        def close(v):
            if isinstance(v, T): return subst(v, closed)
            if isinstance(v, Ptr): return Ptr(v.obj, subst(v.off, closed))
            if isinstance(v, V): return V(close(x) for x in v)
            return Agg(close(x) for x in v)
        g = st.copy(); nw0 = len(g.wlog); nr0 = len(self.reads)
        for key, s in cellsym.items(): g.mem[key[0]][key[1]] = (g.mem[key[0]][key[1]][0], close(s))
        fr.env = dict(env0); fr.env.update({n: close(v) for n, v in ph.items()})
        lx = LX(); lx.body = body; lx.mode = 'sym'; lx.exit = None; lx.pc0 = g.pc; lx.loopobj = L
        fr.exits = lx; fr.active = set(saved[1]) | {H}
        self.loop = L; self.post = False
        try:
            g2, nxt2 = self._run(fr, g, H)
        finally:
            self.loop = None; self.post = False
            fr.exits, fr.active = saved[0], set(saved[1])
        # ---- invariant preservation: what the body computes from the closed forms is what the
        # generic run said (the recurrences were solved from the generic run)
        for key, i, s, n in vs:
            if key[0] == 'phi': v = nxt2[key[1]]; path = key[2:]
            else: v = g2.mem[key[1]][key[2]][1]; path = key[3:]
            for j in path: v = v[j]
            if isinstance(v, Ptr): v = v.off
            if v.s != n.s and v.s in FW: v = bits(v)
            elif v.s != n.s and n.s in FW: v = fp(v)
            e = subst(n, closed)
            if e is not v: e = renorm(e)
            if e is not v:
                if self.congruent(e, v): continue
                raise Unsupported('loop invariant not preserved for %s: %s vs %s' % (key, show(e, 4), show(v, 4)))
        # ---- interference: reads must not see writes of earlier iterations
        ws = g2.wlog[nw0:]
        for r in self.reads[nr0:]:
            for w in ws:
                if w.obj is not r.obj: continue
                k1 = fresh('ke', 64)
                wo = subst(w.off, {k: k1}); d = bsub(r.off, wo)
                goal = pand(bvule(bvc(w.size, 64), d), bvule(d, bvc(-r.size, 64)))
                res = self.interf_fast(r, w, k)
                if res is None:
                    res = smt.prove(goal, hyps=[bvult(k1, k)], timeout=5)
                if not self.quiet and not self.probe:
                    self.obs.append(Ob('interfere', 'read of %s at %s sees no write of an earlier iteration at %s' % (r.obj.name, show(r.off), show(w.off)), res))
                if res.st != 'proved': self.interfere.append((r, w))
        if not self.quiet and not self.probe: self.loops.append((fn.name, show(kk)))
        # ---- state after the loop: the exit snapshot at k = K
        cont2, eblk, outside = lx.exit
        s_ex, env_ex = lx.snap
        m = {k: kk}
        def at(v):
            if isinstance(v, T): return subst(v, m)
            if isinstance(v, Ptr): return Ptr(v.obj, subst(v.off, m))
            if isinstance(v, V): return V(at(x) for x in v)
            if isinstance(v, Agg): return Agg(at(x) for x in v)
            if isinstance(v, PIte): return PIte(at(v.c), at(v.a), at(v.b))
            return v
        fr.env = {n: (at(v) if env0.get(n) is not v else v) for n, v in env_ex.items()}
        for o in list(s_ex.mem):
            c = s_ex.mem[o]
            s_ex.mem[o] = {off: (sz, at(v)) for off, (sz, v) in c.items()}
        s_ex.wlog = g2.wlog
        s_ex.pc = st.pc
        return s_ex, eblk, outside

    def interf_fast(self, r, w, k):
        """linear offsets with equal stride: decide by integer arithmetic"""
        a = self.coef(r.off, k); b = self.coef(w.off, k)
        if a is None or a != b: return None
        d = bsub(r.off, w.off)   # constant offset difference at the same iteration
        if not isc(d): return None
        dv = tosigned(d.a[0], 64)
        # r(k) - w(k') = dv + a*(k-k'), k-k' >= 1 unbounded above
        if a > 0 and dv + a >= w.size: return smt.Res('proved', why='linear')
        if a < 0 and dv + a <= -r.size: return smt.Res('proved', why='linear')
        return None

    def congruent(self, a, b):
        """equal up to provably equal integer subterms"""
        if a is b: return True
        if isinstance(a, tuple) and isinstance(b, tuple): return len(a) == len(b) and all(self.congruent(x, y) for x, y in zip(a, b))
        if not isinstance(a, T) or not isinstance(b, T): return a == b
        if a.s != b.s: return False
        if isinstance(a.s, int): return smt.prove(bveq(a, b), timeout=5).st == 'proved'
        return a.op == b.op and len(a.a) == len(b.a) and all(self.congruent(x, y) for x, y in zip(a.a, b.a))

    def plain(self, v):
        return isinstance(v, T) or (isinstance(v, (V, Agg)) and all(self.plain(x) for x in v))
    def undef_like(self, v):
        if isinstance(v, T): return fresh('undef', v.s)
        return type(v)(self.undef_like(x) for x in v)
    def mentioned(self, fn, reg, body):
        """is a register used outside of these blocks"""
        def has(x):
            if isinstance(x, (tuple, list)): return (len(x) == 2 and x[0] == 'reg' and x[1] == reg) or any(has(y) for y in x)
            if isinstance(x, dict): return any(has(y) for y in x.values())
            return False
        for b, inss in fn.blocks.items():
            if b in body: continue
            for ins in inss:
                if ins.res != reg and has(ins.d): return True
        return False

    def _eqv(self, a, b):
        if isinstance(a, Ptr) and isinstance(b, Ptr): return a.obj is b.obj and a.off is b.off
        if isinstance(a, FnPtr) and isinstance(b, FnPtr): return a.name == b.name
        return False

    # -------------------------------------------------------------- recurrences
    def solve(self, vs, k):
        closed = {}
        todo = list(vs)
        syms = {v[2] for v in vs}
        used = set()
        for v in vs: used |= {x for x in atoms(v[3]) if x in syms and x is not v[2]}
        def unresolved(t): return [x for x in atoms(t) if x in syms and x not in closed]
        progress = True
        while todo and progress:
            progress = False
            for v in list(todo):
                key, i, s, n = v
                r = self.rec(i, s, subst(n, closed) if closed else n, k, unresolved)
                if r is not None:
                    closed[s] = r; todo.remove(v); progress = True
            if not progress:
                # values overwritten in every iteration: x(k) = next(k-1)
                for v in list(todo):
                    key, i, s, n = v
                    n2 = subst(n, closed)
                    if not [x for x in unresolved(n2)]:
                        prev = subst(n2, {k: badd(k, bvc(-1, 64))})
                        at0 = subst(n2, {k: bvc(-1, 64)})
                        if at0 is i: closed[s] = prev
                        else:
                            closed[s] = ite(bveq(k, ZERO64), i, prev) if i.s != 'B' else bite(bveq(k, ZERO64), i, prev)
                        todo.remove(v); progress = True; break
        if todo: raise Unsupported('unsolved recurrence: %s' % ', '.join(show(v[3], 5) for v in todo[:2]))
        return closed

    def rec(self, i, s, n, k, unresolved):
        if n is s: return i
        un = unresolved(n)
        if any(x is not s for x in un): return None
        inv = lambda t: not contains(t, s) and not contains(t, k)
        if isinstance(s.s, int):
            d = bsub(n, s)
            if inv(d):
                kk = trunc(k, s.s) if s.s != 64 else k
                return badd(i, bmul(d, kk)) if not isc(d) else badd(i, bmulc(kk, d.a[0]))
            return None
        if s.s == 'B': return None
        if s not in un: return None
        # sum / product / max / min trees
        if n.op in ('fadd', 'fma'):
            lv = sum_leaves(n, s)
            if lv is not None:
                if all(inv(x) for x in lv):
                    d = lv[0]
                    for x in lv[1:]: d = fadd(d, x)
                    return ramp(i, d, k)
                if all(not contains(x, s) for x in lv): return red('sum', i, lv, k, k)
        if n.op == 'fmul':
            lv = tree_leaves(n, 'fmul')
            if lv.count(s) == 1:
                lv.remove(s)
                if all(inv(x) for x in lv):
                    d = lv[0]
                    for x in lv[1:]: d = fmul(d, x)
                    return geo(i, d, k)
        mt = minmax_leaves(n)
        if mt is not None:
            kind, lv = mt
            if lv.count(s) == 1:
                lv.remove(s)
                if all(not contains(x, s) for x in lv): return red(kind, i, lv, k, k)
        return None

    # -------------------------------------------------------------- loop exit
    def find_exit(self, cont, k, hyps):
        """K with: cont(k) for all k < K, not cont(K).  Returns (K, obligations)"""
        cands = []
        def add(c):
            if c is not None and c not in cands: cands.append(c)
        for a in list(atoms(cont)):
            if a.op in ('bveq', 'bvult', 'bvslt') and contains(a, k):
                x, y = a.a
                d = lift(bsub(x, y)) if x.s == 64 or True else None
                for dd in ({d, bsub(lift(x), lift(y))}):
                    c = self.coef(dd, k)
                    if not c: continue
                    A = subst(dd, {k: ZERO64})
                    if c > 0: A = bneg(A)
                    c = abs(c)
                    e = div_exact(A, c)
                    if e is not None:
                        for delta in (0, -1, 1): add(badd(e, bvc(delta, 64)))
                    if c > 1:
                        add(budiv(A, bvc(c, 64))); add(budiv(badd(A, bvc(c - 1, 64)), bvc(c, 64))); add(badd(budiv(badd(A, bvc(c - 1, 64)), bvc(c, 64)), bvc(-1, 64))); add(budiv(badd(A, bvc(c, 64)), bvc(c, 64)))
                if x.s != 64 and a.op == 'bveq':
                    # counter narrower than the length: leaves at the first k that is congruent
                    dd = bsub(x, y); c = self.coef(dd, extract(k, 0, x.s))
                    if c:
                        c = c - (1 << x.s) if c >> (x.s - 1) else c
                        if abs(c) == 1:
                            A = subst(dd, {k: ZERO64}); add(zext(bneg(A) if c > 0 else A, 64))
        if cont is FALSE: cands.insert(0, ZERO64)
        add(ZERO64)
        for K in cands:
            small = bvult(K, bvc(1 << 40, 64))
            at = subst(cont, {k: K})
            r1 = smt.prove(pand(bnot(at), small), hyps=hyps, timeout=8)
            if r1.st != 'proved':
                if r1.st == 'refuted' and r1.model: self.hints.append(r1.model)
                continue
            r2 = smt.prove(cont, hyps=hyps + [bvult(k, K)], timeout=8)
            if r2.st != 'proved':
                if r2.st == 'refuted' and r2.model: self.hints.append(r2.model)
                continue
            return K, [Ob('exit', 'loop leaves at iteration %s' % show(K), r1), Ob('exit', 'loop continues before iteration %s' % show(K), r2)]
        return None

    # -------------------------------------------------------------- instructions
    def simple(self, fr, st, ins):
        op = ins.op; d = ins.d; env = fr.env
        if op == 'load':
            env[ins.res] = self.load(st, d[0], self.val(fr, d[1]), d[2], fr)
        elif op == 'store':
            self.store(st, d[0], self.val(fr, d[1]), self.val(fr, d[2]), d[3], fr)
        elif op == 'alloca':
            if d[2] is not None:
                nv = self.val(fr, d[2])
                if not isc(nv) or nv.a[0] != 1: raise Unsupported('dynamic alloca')
            o = Obj('%' + ins.res, 'local', al=d[1] or 1)
            fr.allocas.append(o); st.mem[o] = {}
            env[ins.res] = Ptr(o, ZERO64)
        elif op == 'getelementptr':
            base = self.val(fr, d[1])
            idx = [(t, self.val(fr, v)) for t, v in d[2]]
            env[ins.res] = self.gep(d[0], base, idx)
        elif op in BINF:
            t = self.m.resolve(d[0]); a = self.val(fr, d[1]); b = self.val(fr, d[2])
            f = BINF[op]
            env[ins.res] = V(f(x, y) for x, y in zip(a, b)) if t[0] == 'vec' else self.bin(op, a, b)
        elif op == 'fneg':
            a = self.val(fr, d[1]); env[ins.res] = V(fneg(x) for x in a) if isinstance(a, V) else fneg(a)
        elif op == 'icmp':
            a = self.val(fr, d[2]); b = self.val(fr, d[3])
            env[ins.res] = V(self.icmp(d[0], x, y) for x, y in zip(a, b)) if isinstance(a, V) else self.icmp(d[0], a, b)
        elif op == 'fcmp':
            a = self.val(fr, d[2]); b = self.val(fr, d[3])
            env[ins.res] = V(fcmp(d[0], x, y) for x, y in zip(a, b)) if isinstance(a, V) else fcmp(d[0], a, b)
        elif op == 'cast':
            env[ins.res] = self.cast(d[0], self.m.resolve(d[1]), self.val(fr, d[2]), self.m.resolve(d[3]))
        elif op == 'select':
            c = self.val(fr, d[0][1]); a = self.val(fr, d[1][1]); b = self.val(fr, d[2][1])
            if isinstance(c, V): env[ins.res] = V(ite(x, y, z) for x, y, z in zip(c, a, b))
            else: env[ins.res] = self.merge_val(c, a, b) if c not in (TRUE, FALSE) else (a if c is TRUE else b)
        elif op == 'extractelement':
            v = self.val(fr, d[0][1]); i = self.val(fr, d[1][1])
            if not isc(i): raise Unsupported('symbolic lane index')
            env[ins.res] = v[i.a[0]]
        elif op == 'insertelement':
            v = V(self.val(fr, d[0][1])); x = self.val(fr, d[1][1]); i = self.val(fr, d[2][1])
            if not isc(i): raise Unsupported('symbolic lane index')
            v[i.a[0]] = x; env[ins.res] = v
        elif op == 'shufflevector':
            a = self.val(fr, d[0][1]); b = self.val(fr, d[1][1]); mv = d[2]
            mv = mv[1]
            n = len(a); src = list(a) + list(b)
            mt = self.m.resolve(d[2][0])
            if mv[0] == 'zero': ix = [0] * mt[1]
            elif mv[0] == 'undef': ix = [None] * mt[1]
            else: ix = [None if x[0] == 'undef' else x[1] for _, x in mv[1]]
            et = self.m.resolve(d[0][0])[2]
            env[ins.res] = V(self.undef(et) if i is None else src[i] for i in ix)
        elif op == 'extractvalue':
            v = self.val(fr, d[0][1])
            for i in d[1]: v = v[i]
            env[ins.res] = v
        elif op == 'insertvalue':
            v = self.val(fr, d[0][1]); x = self.val(fr, d[1][1])
            def ins_(v, path):
                v = Agg(v); v[path[0]] = x if len(path) == 1 else ins_(v[path[0]], path[1:]); return v
            env[ins.res] = ins_(v, d[2])
        elif op == 'freeze':
            env[ins.res] = self.val(fr, d[0][1])
        else: raise Unsupported('instruction ' + op)

    def bin(self, op, a, b):
        if isinstance(a, Ptr) or isinstance(b, Ptr) or isinstance(a, PInt) or isinstance(b, PInt):
            if op == 'sub' and isinstance(a, PInt) and isinstance(b, PInt) and a.p.obj is b.p.obj: return bsub(a.p.off, b.p.off)
            if op == 'and' and isinstance(a, PInt) and isc(b):
                if a.p.obj.al > b.a[0] or a.p.obj.al % (b.a[0] + 1) == 0: return band(a.p.off, b)
                ad = sym('address of ' + a.p.obj.name, 64)
                smt.ASSUME[ad] = [bveq(band(ad, bvc(a.p.obj.al - 1, 64)), bvc(0, 64))]
                return band(badd(ad, a.p.off), b)
            raise Unsupported('pointer arithmetic')
        if a.s == 'B':
            return {'and': pand, 'or': por, 'xor': pxor}[op](a, b)
        return BINF[op](a, b)

    def icmp(self, pred, a, b):
        if isinstance(a, PInt): a = a.p
        if isinstance(b, PInt): b = b.p
        if isinstance(a, (Ptr, NullP)) or isinstance(b, (Ptr, NullP)):
            if a is NULL and b is NULL: eq = TRUE
            elif a is NULL or b is NULL: eq = FALSE
            elif isinstance(a, Ptr) and isinstance(b, Ptr) and a.obj is b.obj:
                a, b = a.off, b.off; eq = None
            elif isinstance(a, Ptr) and isinstance(b, Ptr) and pred in ('eq', 'ne'): eq = FALSE
            else: raise Unsupported('pointer comparison')
            if eq is not None: return eq if pred == 'eq' else bnot(eq)
        if isinstance(a, PIte) or isinstance(b, PIte): raise Unsupported('pointer comparison')
        if a.s == 'B':
            e = bnot(pxor(a, b))
            if pred == 'eq': return e
            if pred == 'ne': return bnot(e)
            raise Unsupported('icmp i1')
        if a.s in FW: a = bits(a)
        if b.s in FW: b = bits(b)
        if pred == 'eq': return bveq(a, b)
        if pred == 'ne': return bnot(bveq(a, b))
        if pred == 'ult': return bvult(a, b)
        if pred == 'ugt': return bvult(b, a)
        if pred == 'ule': return bvule(a, b)
        if pred == 'uge': return bvule(b, a)
        if pred == 'slt': return bvslt(a, b)
        if pred == 'sgt': return bvslt(b, a)
        if pred == 'sle': return bvsle(a, b)
        if pred == 'sge': return bvsle(b, a)
        raise Unsupported(pred)

    def cast(self, op, t, v, t2):
        if op == 'bitcast':
            if t[0] == 'ptr': return v
            return self.bitcast(t, v, t2)
        if isinstance(v, V):
            return V(self.cast(op, t[2], x, t2[2]) for x in v)
        if op == 'ptrtoint':
            if isinstance(v, Ptr): return PInt(v)
            raise Unsupported('ptrtoint')
        if op == 'inttoptr':
            if isinstance(v, PInt): return v.p
            raise Unsupported('inttoptr')
        if isinstance(v, PInt):
            raise Unsupported('pointer integer cast')
        if op == 'zext': return zext_n(v, t2[1])
        if op == 'sext': return sext_n(v, t2[1])
        if op == 'trunc': return trunc(v, 'B' if t2[1] == 1 else t2[1])
        if op == 'fpext': return fpext(v)
        if op == 'fptrunc': return fptrunc(v)
        if op == 'fptosi': return fptosi(v, t2[1])
        if op == 'fptoui': return fptoui(v, t2[1])
        if op == 'sitofp': return sitofp(v, t2[0]) if v.s != 'B' else ite(v, fc(-1, t2[0]), fc(0, t2[0]))
        if op == 'uitofp': return uitofp(v, t2[0])
        raise Unsupported('cast ' + op)

    def bitcast(self, t, v, t2):
        src = [(x, self.sort(lt)) for (_, lt), x in zip(self.leaves(t), self.flat(v, []))]
        dl = self.leaves(t2)
        ws = [FW[s] if s in FW else (1 if s == 'B' else s) for _, s in src]
        wd = [self.bw(lt) for _, lt in dl]
        if ws == wd:
            out = []
            for (x, s), (_, lt) in zip(src, dl):
                ds = self.sort(lt)
                if s == ds: out.append(x)
                elif ds in FW: out.append(fp(x))
                elif s in FW: out.append(bits(x))
                else: raise Unsupported('bitcast')
        else:
            acc = None
            parts = [(bits(x) if s in FW else x) for x, s in src]
            if any(s == 'B' for _, s in src): raise Unsupported('bitcast of i1 vector')
            out = []
            # common refinement
            pos = 0; starts = []
            for p, w in zip(parts, ws): starts.append(pos); pos += w
            lo = 0
            for (_, lt), w in zip(dl, wd):
                acc = None; p0 = lo
                while p0 < lo + w:
                    j = max(i for i, s0 in enumerate(starts) if s0 <= p0)
                    hi = min(starts[j] + ws[j], lo + w)
                    piece = extract(parts[j], p0 - starts[j], hi - p0)
                    acc = piece if acc is None else concat(piece, acc); p0 = hi
                ds = self.sort(lt)
                out.append(fp(acc) if ds in FW else acc); lo += w
        return self.build(t2, iter(out))
    def bw(self, lt): return lt[1] if lt[0] == 'i' else (32 if lt[0] == 'f' else 64)

    # -------------------------------------------------------------- calls
    def do_call(self, fr, st, ins):
        t, callee, args = ins.d
        cv = self.val(fr, callee)
        if not isinstance(cv, FnPtr): raise Unsupported('indirect call')
        name = cv.name
        av = [self.val(fr, a[1]) for a in args]
        if name in self.m.fn_text:
            if self.contracts is not None:
                c = self.contracts.lookup(self, name)
                if c is not None:
                    r = c.apply(self, st, av, fr)
                    if not self.quiet and not self.probe: self.used_contracts.add(name)
                    if ins.res is not None: fr.env[ins.res] = r
                    return st
            st, r = self.call(st, name, av, fr)
            if ins.res is not None: fr.env[ins.res] = r
            return st
        from . import intrin
        r = intrin.call(self, fr, st, name, t, args, av)
        if ins.res is not None: fr.env[ins.res] = r
        return st

class PInt:
    """integer obtained from a pointer"""
    __slots__ = ('p',)
    def __init__(self, p): self.p = p
    s = 64

class LX: pass
class LoopExit(Exception):
    def __init__(self, st, blk, out): self.st = st; self.blk = blk; self.out = out
class NotConcrete(Exception): pass

class Frame:
    def __init__(self): self.allocas = []
class State:
    __slots__ = ('mem', 'wlog', 'pc')
    def __init__(self): self.mem = {}; self.wlog = []; self.pc = TRUE
    def copy(self):
        s = State(); s.mem = {o: dict(c) for o, c in self.mem.items()}; s.wlog = list(self.wlog); s.pc = self.pc
        return s

BINF = {'add': badd, 'sub': bsub, 'mul': bmul, 'udiv': udiv_n, 'urem': urem_n, 'sdiv': bsdiv, 'srem': bsrem,
        'and': band, 'or': bor, 'xor': bxor, 'shl': bshl, 'lshr': blshr, 'ashr': bashr,
        'fadd': fadd, 'fsub': fsub, 'fmul': fmul, 'fdiv': fdiv}
def _band2(a, b):
    if a.s == 'B': return pand(a, b)
    return band(a, b)
def _bor2(a, b):
    if a.s == 'B': return por(a, b)
    return bor(a, b)
def _bxor2(a, b):
    if a.s == 'B': return pxor(a, b)
    return bxor(a, b)
BINF['and'] = _band2; BINF['or'] = _bor2; BINF['xor'] = _bxor2
def _lshr2(x, y):
    if isc(y) and x.op in ('lin', 'extract', 'sym') and 0 < y.a[0] < 31: return udiv_n(x, bvc(1 << y.a[0], x.s))
    return blshr(x, y)
BINF['lshr'] = _lshr2

def tree_leaves(t, op):
    if t.op == op: return tree_leaves(t.a[0], op) + tree_leaves(t.a[1], op)
    return [t]
def sum_leaves(t, s):
    """leaves of a sum tree of which s is one; None if s occurs otherwise"""
    out = []; cnt = [0]
    def go(x):
        if x is s: cnt[0] += 1; return
        if x.op == 'fadd' : go(x.a[0]); go(x.a[1])
        elif x.op == 'fma' and contains(x.a[2], s): out.append(fmul(x.a[0], x.a[1])); go(x.a[2])
        else: out.append(x)
    go(t)
    if cnt[0] != 1 or not out: return None
    return out
def minmax_of(t):
    """t == max(p,q) or min(p,q) for operands that are not NaN (up to the sign of zero)"""
    if t.op != 'ite': return None
    c, a, b = t.a
    if c.op in ('olt', 'ole'):
        p, q = c.a
        if p is a and q is b: return ('min', a, b)
        if p is b and q is a: return ('max', a, b)
    return None
def minmax_leaves(t):
    r = minmax_of(t)
    if r is None: return None
    kind = r[0]; out = []
    def go(x):
        rr = minmax_of(x)
        if rr is not None and rr[0] == kind: go(rr[1]); go(rr[2])
        else: out.append(x)
    go(t)
    return kind, out

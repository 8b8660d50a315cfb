"""Minimal parser for textual LLVM IR (clang 18 output, opaque pointers)."""
import re, struct

class Unsupported(Exception): pass

TOK = re.compile(r'''
   c"(?:[^"\\]|\\.)*" | "(?:[^"\\]|\\.)*" | [%@](?:"(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+) | \#\d+ | ![a-zA-Z_.0-9]* |
   0x[HKLMR]?[0-9A-Fa-f]+ | -?\d+\.\d*(?:[eE][-+]?\d+)? | -?\d+ | \.\.\. | [a-zA-Z_$.][-a-zA-Z$._0-9]* | [][(){}<>,=*:|] ''', re.X)

def toks(s): return TOK.findall(s)

# types: ('i',n) ('f',) ('d',) ('ptr',) ('vec',n,t) ('arr',n,t) ('st',[t],packed) ('void',) ('named',name)
class Module:
    def __init__(self, text):
        self.types = {}
        self.gl_text = {}
        self.fn_text = {}
        self.fn_head = {}
        self.decl = set()
        self.functions = {}
        self.globals = {}
        cur = None; buf = []
        for line in text.split('\n'):
            if cur is not None:
                if line == '}':
                    self.fn_text[cur] = buf; cur = None; buf = []
                else: buf.append(line)
                continue
            if line.startswith('define'):
                m = re.search(r'@("[^"]*"|[-a-zA-Z$._0-9]+)\(', line)
                cur = m.group(1).strip('"'); buf = []
                self.fn_head[cur] = line
            elif line.startswith('declare'):
                m = re.search(r'@("[^"]*"|[-a-zA-Z$._0-9]+)\(', line)
                self.decl.add(m.group(1).strip('"'))
            elif line.startswith('%'):
                n, r = line.split(' = type ', 1)
                self.types[n] = r
            elif line.startswith('@'):
                n = re.match(r'@("[^"]*"|[-a-zA-Z$._0-9]+)', line).group(1).strip('"')
                self.gl_text[n] = line
        self._tcache = {}
        self._stores = None

    def named(self, n):
        t = self._tcache.get(n)
        if t is None:
            r = self.types[n]
            if r == 'opaque': t = ('st', [], False)
            else:
                p = P(toks(r), self); t = p.type()
            self._tcache[n] = t
        return t

    def fn(self, name):
        f = self.functions.get(name)
        if f is None:
            if name not in self.fn_text: return None
            f = self.functions[name] = parse_fn(self, name)
        return f

    def resolve(self, t):
        while t[0] == 'named': t = self.named(t[1])
        return t
    def size(self, t):
        t = self.resolve(t); k = t[0]
        if k == 'i': return (t[1] + 7) // 8
        if k == 'f': return 4
        if k == 'd': return 8
        if k == 'ptr': return 8
        if k == 'vec':
            return self.size(t[2]) * t[1]
        if k == 'arr': return self.size(t[2]) * t[1]
        if k == 'st':
            o = 0; al = 1
            for e in t[1]:
                a = 1 if t[2] else self.align(e)
                al = max(al, a); o = (o + a - 1) // a * a; o += self.size(e)
            return (o + al - 1) // al * al
        raise Unsupported('size of %r' % (t,))
    def align(self, t):
        t = self.resolve(t); k = t[0]
        if k in 'ifd': return min(8, self.size(t))
        if k == 'ptr': return 8
        if k == 'vec': return self.size(t)
        if k == 'arr': return self.align(t[2])
        if k == 'st': return 1 if t[2] else max([self.align(e) for e in t[1]] or [1])
        raise Unsupported('align')
    def field(self, t, i):
        t = self.resolve(t); o = 0
        for j, e in enumerate(t[1]):
            a = 1 if t[2] else self.align(e)
            o = (o + a - 1) // a * a
            if j == i: return o, e
            o += self.size(e)
        raise Unsupported('field')

    def global_stored(self, name):
        """is @name ever the target of a store / passed somewhere mutable?"""
        if self._stores is None:
            self._stores = set()
            for f, lines in self.fn_text.items():
                for l in lines:
                    if '@' in l:
                        m = re.search(r'\bstore\b.*, ptr @("[^"]*"|[-a-zA-Z$._0-9]+)', l)
                        if m: self._stores.add(m.group(1).strip('"'))
        return name in self._stores

PARAM_ATTR = set('noundef nonnull readonly readnone writeonly writable noalias nocapture dead_on_unwind signext zeroext inreg returned immarg nofree nest swiftself'.split())
PARAM_ATTR_ARG = set('align dereferenceable dereferenceable_or_null sret byval noundef_ elementtype preallocated inalloca byref'.split())

class P:
    def __init__(self, t, m): self.t = t; self.i = 0; self.m = m
    def peek(self, k=0): return self.t[self.i + k] if self.i + k < len(self.t) else None
    def next(self):
        x = self.t[self.i]; self.i += 1; return x
    def acc(self, x):
        if self.peek() == x: self.i += 1; return True
        return False
    def exp(self, x):
        y = self.next()
        if y != x: raise Unsupported('expected %s got %s in %s' % (x, y, ' '.join(self.t)))
    def type(self):
        x = self.next()
        if x == 'void': t = ('void',)
        elif x == 'float': t = ('f',)
        elif x == 'double': t = ('d',)
        elif x == 'ptr': t = ('ptr',)
        elif x == 'label': t = ('label',)
        elif x == 'metadata': t = ('metadata',)
        elif x == 'half' or x == 'x86_fp80' or x == 'fp128': t = ('xf', x)
        elif re.fullmatch(r'i\d+', x): t = ('i', int(x[1:]))
        elif x == '<':
            if self.acc('{'):
                t = self._struct(True); self.exp('>'); return t
            n = int(self.next()); self.exp('x'); e = self.type(); self.exp('>'); t = ('vec', n, e)
        elif x == '[':
            n = int(self.next()); self.exp('x'); e = self.type(); self.exp(']'); t = ('arr', n, e)
        elif x == '{': t = self._struct(False)
        elif x[0] == '%': t = ('named', x)
        else: raise Unsupported('type %s in %s' % (x, ' '.join(self.t)))
        if self.peek() == '(':   # function type (varargs call)
            d = 0
            while True:
                y = self.next()
                if y == '(': d += 1
                if y == ')':
                    d -= 1
                    if d == 0: break
        return t
    def _struct(self, packed):
        l = []
        if not self.acc('}'):
            while True:
                l.append(self.type())
                if self.acc('}'): break
                self.exp(',')
        return ('st', l, packed)
    def attrs(self):
        at = {}
        while True:
            x = self.peek()
            if x in PARAM_ATTR: at[x] = True; self.i += 1
            elif x in PARAM_ATTR_ARG:
                self.i += 1
                if self.acc('('):
                    s = self.i
                    d = 1
                    while d:
                        y = self.next()
                        if y == '(': d += 1
                        elif y == ')': d -= 1
                    at[x] = self.t[s:self.i - 1]
                elif x == 'align': at[x] = [self.next()]
                else: at[x] = True
            else: return at
    def value(self, ty):
        """operand of known type -> ('reg',n) ('const',..)"""
        x = self.next()
        if x[0] == '%': return ('reg', x[1:].strip('"'))
        if x[0] == '@': return ('glob', x[1:].strip('"'))
        if x in ('undef', 'poison'): return ('undef', ty)
        if x == 'zeroinitializer': return ('zero', ty)
        if x == 'null': return ('null',)
        if x == 'true': return ('int', 1, ty)
        if x == 'false': return ('int', 0, ty)
        if x == '<' or x == '[' or x == '{':
            end = {'<': '>', '[': ']', '{': '}'}[x]
            if x == '<' and self.peek() == '{':
                self.next(); l = self._agg('}'); self.exp('>'); return ('agg', l, ty)
            return ('agg', self._agg(end), ty)
        if x[0] == 'c' and x[1:2] == '"':
            return ('bytes', x[2:-1], ty)
        r = self.m.resolve(ty)
        if r[0] == 'i': return ('int', int(x), ty)
        if r[0] in 'fd':
            if x.startswith('0x'):
                bits = int(x[2:], 16)
                v = struct.unpack('<d', struct.pack('<Q', bits))[0]
                if r[0] == 'f':
                    # exact double representation of the float; keep NaN payload
                    if v != v:
                        b = ((bits >> 63) << 31) | 0x7f800000 | ((bits >> 29) & 0x7fffff)
                    else: b = struct.unpack('<I', struct.pack('<f', v))[0]
                    return ('fp', b, 'f')
                return ('fp', bits, 'd')
            v = float(x)
            if r[0] == 'f': return ('fp', struct.unpack('<I', struct.pack('<f', v))[0], 'f')
            return ('fp', struct.unpack('<Q', struct.pack('<d', v))[0], 'd')
        if x == 'getelementptr':
            self.acc('inbounds'); self.exp('(')
            bt = self.type(); self.exp(',')
            ops = []
            while True:
                t = self.type(); ops.append((t, self.value(t)))
                if self.acc(')'): break
                self.exp(',')
            return ('cgep', bt, ops)
        if x in ('bitcast', 'inttoptr', 'ptrtoint'):
            self.exp('('); t = self.type(); v = self.value(t); self.exp('to'); t2 = self.type(); self.exp(')')
            return ('ccast', x, t, v, t2)
        raise Unsupported('value %s : %r in %s' % (x, ty, ' '.join(self.t)))
    def _agg(self, end):
        l = []
        if self.acc(end): return l
        while True:
            t = self.type(); l.append((t, self.value(t)))
            if self.acc(end): return l
            self.exp(',')
    def tv(self):
        t = self.type(); a = self.attrs(); return (t, self.value(t), a)

class Ins:
    __slots__ = ('res', 'op', 'd')
    def __init__(self, res, op, d): self.res = res; self.op = op; self.d = d
    def __repr__(self): return '%s = %s %r' % (self.res, self.op, self.d)

class Fn: pass

FLAGS = set('nuw nsw exact fast nnan ninf nsz arcp contract afn reassoc inbounds disjoint nneg'.split())
BIN = set('add sub mul udiv sdiv urem srem shl lshr ashr and or xor fadd fsub fmul fdiv frem'.split())
CAST = set('zext sext trunc fptrunc fpext fptosi fptoui sitofp uitofp bitcast ptrtoint inttoptr addrspacecast'.split())

def parse_fn(m, name):
    head = m.fn_head[name]
    f = Fn(); f.name = name; f.m = m
    ts = toks(head)
    i = next(k for k, x in enumerate(ts) if x[0] == '@')
    # return type: parse the tokens just before @name
    p = P(ts, m)
    # find return type start: skip keywords
    p.i = 1
    while True:
        x = p.peek()
        if x in ('dso_local', 'linkonce_odr', 'internal', 'weak_odr', 'hidden', 'local_unnamed_addr', 'noundef', 'nonnull', 'zeroext', 'signext', 'noalias', 'available_externally', 'private', 'linkonce', 'external', 'weak'): p.i += 1
        elif x == 'align': p.i += 2
        elif x == 'dereferenceable': p.i += 4
        else: break
    f.ret = p.type()
    while p.peek()[0] != '@': p.i += 1
    p.i += 1; p.exp('(')
    f.params = []
    if not p.acc(')'):
        while True:
            if p.peek() == '...': raise Unsupported('varargs')
            t = p.type(); a = p.attrs(); n = p.next()[1:].strip('"')
            f.params.append((n, t, a))
            if p.acc(')'): break
            p.exp(',')
    f.blocks = {}; f.order = []
    cur = None
    lines = m.fn_text[name]
    # join multi-line switch
    joined = []; acc = None
    for l in lines:
        if acc is not None:
            acc += ' ' + l.strip()
            if ']' in l: joined.append(acc); acc = None
            continue
        s = l.strip()
        if s.startswith('switch') and ']' not in s: acc = s; continue
        joined.append(l)
    for l in joined:
        if not l.strip() or l.strip().startswith(';'): continue
        mm = re.match(r'^("[^"]*"|[-a-zA-Z$._0-9]+):', l)
        if mm:
            cur = mm.group(1).strip('"'); f.blocks[cur] = []; f.order.append(cur); continue
        if cur is None:
            # unnamed entry block gets the next number; name it specially
            cur = '%entry%'; f.blocks[cur] = []; f.order.append(cur)
        f.blocks[cur].append(parse_ins(m, l.strip()))
    f.entry = f.order[0]
    analyse(f)
    return f

def parse_ins(m, s):
    c = s.find(', !')
    nt = '!nontemporal' in s
    if c >= 0: s = s[:c]
    c = s.find(' ;')
    if c >= 0: s = s[:c]
    ts = toks(s)
    p = P(ts, m)
    res = None
    if len(ts) > 1 and ts[1] == '=' and ts[0][0] == '%':
        res = ts[0][1:].strip('"'); p.i = 2
    op = p.next()
    while op in ('tail', 'musttail', 'notail'): op = p.next()
    if op in BIN:
        fl = set()
        while p.peek() in FLAGS: fl.add(p.next())
        t = p.type(); a = p.value(t); p.exp(','); b = p.value(t)
        return Ins(res, op, (t, a, b, fl))
    if op == 'fneg':
        while p.peek() in FLAGS: p.next()
        t = p.type(); return Ins(res, op, (t, p.value(t)))
    if op in ('icmp', 'fcmp'):
        while p.peek() in FLAGS: p.next()
        pred = p.next(); t = p.type(); a = p.value(t); p.exp(','); b = p.value(t)
        return Ins(res, op, (pred, t, a, b))
    if op in CAST:
        while p.peek() in FLAGS: p.next()
        t = p.type(); v = p.value(t); p.exp('to'); t2 = p.type()
        return Ins(res, 'cast', (op, t, v, t2))
    if op == 'load':
        vol = p.acc('volatile')
        t = p.type(); p.exp(','); pt = p.type(); v = p.value(pt)
        al = None
        if p.acc(','):
            p.exp('align'); al = int(p.next())
        return Ins(res, op, (t, v, al))
    if op == 'store':
        p.acc('volatile')
        t = p.type(); v = p.value(t); p.exp(','); pt = p.type(); q = p.value(pt)
        al = None
        if p.acc(','):
            p.exp('align'); al = int(p.next())
        return Ins(res, op, (t, v, q, al, nt))
    if op == 'alloca':
        t = p.type(); al = None; num = None
        while p.acc(','):
            if p.acc('align'): al = int(p.next())
            else:
                tt = p.type(); num = p.value(tt)
        return Ins(res, op, (t, al, num))
    if op == 'getelementptr':
        while p.peek() in FLAGS: p.next()
        bt = p.type(); p.exp(',')
        pt = p.type(); base = p.value(pt); idx = []
        while p.acc(','):
            t = p.type(); idx.append((t, p.value(t)))
        return Ins(res, op, (bt, base, idx, pt))
    if op == 'br':
        if p.acc('label'): return Ins(res, 'jmp', p.next()[1:].strip('"'))
        t = p.type(); c = p.value(t); p.exp(','); p.exp('label'); a = p.next()[1:].strip('"'); p.exp(','); p.exp('label'); b = p.next()[1:].strip('"')
        return Ins(res, 'br', (c, a, b))
    if op == 'switch':
        t = p.type(); v = p.value(t); p.exp(','); p.exp('label'); d = p.next()[1:].strip('"'); p.exp('[')
        cs = []
        while not p.acc(']'):
            tt = p.type(); cv = p.value(tt); p.exp(','); p.exp('label'); cs.append((cv[1], p.next()[1:].strip('"')))
        return Ins(res, 'switch', (t, v, d, cs))
    if op == 'phi':
        while p.peek() in FLAGS: p.next()
        t = p.type(); inc = []
        while True:
            p.exp('['); v = p.value(t); p.exp(','); b = p.next()[1:].strip('"'); p.exp(']'); inc.append((v, b))
            if not p.acc(','): break
        return Ins(res, op, (t, dict((b, v) for v, b in inc)))
    if op == 'ret':
        t = p.type()
        return Ins(res, op, (t, None if t[0] == 'void' else p.value(t)))
    if op == 'unreachable': return Ins(res, op, ())
    if op == 'select':
        while p.peek() in FLAGS: p.next()
        a = p.tv(); p.exp(','); b = p.tv(); p.exp(','); c = p.tv()
        return Ins(res, op, (a, b, c))
    if op == 'extractelement':
        a = p.tv(); p.exp(','); b = p.tv(); return Ins(res, op, (a, b))
    if op == 'insertelement':
        a = p.tv(); p.exp(','); b = p.tv(); p.exp(','); c = p.tv(); return Ins(res, op, (a, b, c))
    if op == 'shufflevector':
        a = p.tv(); p.exp(','); b = p.tv(); p.exp(','); c = p.tv(); return Ins(res, op, (a, b, c))
    if op == 'extractvalue':
        a = p.tv(); idx = []
        while p.acc(','): idx.append(int(p.next()))
        return Ins(res, op, (a, idx))
    if op == 'insertvalue':
        a = p.tv(); p.exp(','); b = p.tv(); idx = []
        while p.acc(','): idx.append(int(p.next()))
        return Ins(res, op, (a, b, idx))
    if op == 'freeze':
        a = p.tv(); return Ins(res, op, (a,))
    if op == 'call':
        while p.peek() in FLAGS: p.next()
        ra = p.attrs()
        while p.peek() in ('fastcc', 'ccc'): p.next()
        t = p.type(); callee = p.value(('ptr',))
        p.exp('('); args = []
        if not p.acc(')'):
            while True:
                at = p.type()
                if at[0] == 'metadata':
                    raise Unsupported('metadata arg')
                a = p.attrs(); args.append((at, p.value(at), a))
                if p.acc(')'): break
                p.exp(',')
        return Ins(res, op, (t, callee, args))
    raise Unsupported('instruction %s' % s)

EXIT = '%EXIT%'

def succs(f, b):
    t = f.blocks[b][-1]
    if t.op == 'jmp': return [t.d]
    if t.op == 'br': return [t.d[1], t.d[2]]
    if t.op == 'switch': return [t.d[2]] + [x for _, x in t.d[3]]
    if t.op == 'ret': return [EXIT]
    return []

def analyse(f):
    S = {b: succs(f, b) for b in f.order}
    f.succ = S
    preds = {b: [] for b in f.order}; preds[EXIT] = []
    for b in f.order:
        for s in S[b]: preds[s].append(b)
    f.preds = preds
    # dominators
    allb = set(f.order)
    reach = []; seen = set()
    st = [f.entry]
    while st:
        b = st.pop()
        if b in seen or b == EXIT: continue
        seen.add(b); reach.append(b); st.extend(S[b])
    dom = {b: set(seen) for b in seen}; dom[f.entry] = {f.entry}
    ch = True
    while ch:
        ch = False
        for b in f.order:
            if b not in seen or b == f.entry: continue
            ps = [dom[p] for p in preds[b] if p in seen]
            n = set.intersection(*ps) | {b} if ps else {b}
            if n != dom[b]: dom[b] = n; ch = True
    f.dom = dom
    # loops
    f.loops = {}
    for b in seen:
        for s in S[b]:
            if s in dom[b]:
                body = f.loops.setdefault(s, {s})
                st = [b]
                while st:
                    x = st.pop()
                    if x in body: continue
                    body.add(x); st.extend(p for p in preds[x] if p in seen)
    # post-dominators (ignoring blocks that end in unreachable)
    nodes = [b for b in f.order if b in seen] + [EXIT]
    dead = set()
    # blocks from which EXIT is unreachable
    canexit = {EXIT}; ch = True
    while ch:
        ch = False
        for b in seen:
            if b not in canexit and any(s in canexit for s in S[b]): canexit.add(b); ch = True
    f.canexit = canexit
    pd = {b: set(n for n in nodes if n in canexit) for b in nodes if b in canexit}; pd[EXIT] = {EXIT}
    ch = True
    while ch:
        ch = False
        for b in nodes:
            if b == EXIT or b not in canexit: continue
            ss = [pd[s] for s in S[b] if s in canexit]
            n = set.intersection(*ss) | {b}
            if n != pd[b]: pd[b] = n; ch = True
    f.ipdom = {}
    for b in nodes:
        if b == EXIT or b not in canexit: continue
        c = pd[b] - {b}
        # immediate: the one that is post-dominated by all others
        for x in c:
            if pd[x] == c: f.ipdom[b] = x

_FC = re.compile(r'(?<![\w.])(?:(?:float|double) )?(0x[0-9A-Fa-f]{16}|-?\d+\.\d+e[+-]\d+)')
_IC = re.compile(r'(?:icmp \w+|udiv|sdiv|and|urem) i\d+ %?[^,]+, (-?\d+)')
def literals(m, entry):
    """(floating-point, integer) constants in the functions reachable from an entry"""
    import struct
    seen = set(); work = [entry]; fs = set(); ns = set(); gl = set()
    while work:
        f = work.pop()
        if f in seen or f not in m.fn_text: continue
        seen.add(f)
        tx = '\n'.join(m.fn_text[f])
        for x in re.findall(r'@("[^"]*"|[-a-zA-Z$._0-9]+)', tx):
            x = x.strip('"')
            if x in m.fn_text: work.append(x)
            elif x in m.gl_text and x not in gl: gl.add(x); tx += '\n' + str(m.gl_text[x])
        for x in _FC.findall(tx):
            try: v = struct.unpack('<d', struct.pack('<Q', int(x, 16)))[0] if x.startswith('0x') else float(x)
            except ValueError: continue
            if v == v and abs(v) != float('inf') and v: fs.add(abs(v))
        for x in _IC.findall(tx):
            if 2 <= int(x) <= 1 << 20: ns.add(int(x))
    return fs, ns

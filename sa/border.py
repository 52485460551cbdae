"""Byte order: what is reversed when a page or the header comes from the file
and when it goes there.

The functions are lowered with everything of their file inlined and local
copies dissolved; each byte a function stores is traced to the byte of memory
it came from. A stored word whose bytes are those of a word in reverse order is
a conversion. Where a conversion lies is an expression over the page, the loop
counter and the (converted) values read from the page; when it is made is the
set of conditions that dominate it."""
import re

HDR = ((0, 4), (4, 4), (8, 4), (12, 4), (16, 2), (18, 2), (20, 4), (24, 4))     # words every page starts with
CHK = 20
SHAPES = ('_ffdb_datap_', '_ffdb_data_header_', '_config_info_')


# ---------------------------------------------------------------- linear terms
def lin(c=0, **_):
    return ((), c)


def atom(a):
    return (((a, 1),), 0)


def ladd(a, b, k=1):
    d = dict(a[0])
    for x, c in b[0]:
        d[x] = d.get(x, 0) + k * c
    return (tuple(sorted(((x, c) for x, c in d.items() if c), key=repr)), a[1] + k * b[1])


def lmul(a, k):
    return (tuple((x, c * k) for x, c in a[0]) if k else (), a[1] * k)


def isconst(a):
    return not a[0]


def mentions(t, p):
    """does an atom for which p holds occur in t, at any depth"""
    if isinstance(t, tuple):
        if t and isinstance(t[0], str) and p(t):
            return True
        return any(mentions(x, p) for x in t)
    return False


def subst(t, m):
    """replace atoms"""
    if not isinstance(t, tuple):
        return t
    if len(t) == 2 and isinstance(t[0], tuple) and isinstance(t[1], int) and all(isinstance(x, tuple) and len(x) == 2 for x in t[0]):
        r = ((), t[1])
        for a, c in t[0]:
            if a in m:
                r = ladd(r, m[a], c)
            else:
                r = ladd(r, (((tuple(subst(x, m) for x in a), 1),), 0), c)
        return r
    return tuple(subst(x, m) for x in t)


WID = {'i1': 1, 'i8': 1, 'i16': 2, 'i32': 4, 'i64': 8, 'ptr': 8}


class Trace:
    def __init__(self, mod, fn, page=None, flip=False):
        """page: the argument that is a page; flip: its words arrive reversed"""
        self.mod, self.fn, self.page, self.flip = mod, fn, page, flip
        fn.prep()
        self.dominators()
        self.sub = {}
        self.sweep(); self.sweep()
        # phis of loop heads: counters and chains
        for bi in fn.heads:
            for ins in fn.blocks[bi]:
                if ins['op'] != 'phi':
                    break
                self.loopphi(bi, ins)
        self.sweep(); self.sweep()

    # ---- control
    def dominators(self):
        fn = self.fn
        o = fn.order
        idom = {o[0]: o[0]}
        ch = True
        while ch:
            ch = False
            for b in o[1:]:
                ps = [p for p in fn.pred[b] if p in idom]
                n = ps[0]
                for p in ps[1:]:
                    x, y = p, n
                    while x != y:
                        while fn.rpo[x] > fn.rpo[y]:
                            x = idom[x]
                        while fn.rpo[y] > fn.rpo[x]:
                            y = idom[y]
                    n = x
                if idom.get(b) != n:
                    idom[b] = n
                    ch = True
        self.idom = idom

    def dom(self, a, b):
        while True:
            if a == b:
                return True
            if self.idom.get(b, b) == b:
                return False
            b = self.idom[b]

    # ---- values
    def nbytes(self, ty):
        return WID.get(ty, 0)

    def opnd(self, o):
        if isinstance(o, int):
            if o in self.env:
                return self.env[o]
            return ('lin', atom(('u', o)))
        if isinstance(o, dict):
            if 'c' in o:
                return ('lin', ((), o['c']))
            if 'g' in o:
                return ('lin', atom(('g', o['g'])))
        return ('lin', atom(('k', repr(o))))

    def word(self, a, w, rev):
        """the integer in w bytes at a; rev: read in reverse order"""
        if self.page is not None and self.paged(a):
            return atom(('val' if rev == self.flip else 'raw', a, w))
        return atom(('raw' if rev else 'val', a, w))

    def paged(self, a):
        return any(x == ('arg', self.page) for x, c in a[0])

    def tolin(self, v):
        if v[0] == 'lin':
            return v[1]
        bs = list(v[1])
        while len(bs) > 1 and bs[-1] == 0:
            bs.pop()
        w = len(bs)
        if all(isinstance(b, int) for b in bs):
            return ((), sum(b << (8 * i) for i, b in enumerate(bs)))
        if all(isinstance(b, tuple) and b[0] == 'B' for b in bs):
            a = bs[0][1]
            if all(bs[i][1] == ladd(a, ((), i)) for i in range(w)):
                return self.word(a, w, False)
            z = bs[-1][1]
            if all(bs[w - 1 - i][1] == ladd(z, ((), i)) for i in range(w)):
                return self.word(z, w, True)
        if all(isinstance(b, tuple) and b[0] == 'P' for b in bs) and all(b[1] == bs[0][1] and b[2] == i for i, b in enumerate(bs)):
            return atom(('phi', bs[0][1]))
        if all(isinstance(b, tuple) and b[0] == 'X' for b in bs) and all(b[1] == bs[0][1] and b[2] == i for i, b in enumerate(bs)):
            return bs[0][1]
        return atom(('bytes', tuple(bs)))

    def tobytes(self, v, w):
        if v[0] == 'bytes':
            bs = tuple(v[1][:w])
            return bs + (0,) * (w - len(bs))
        if isconst(v[1]):
            return tuple((v[1][1] >> (8 * i)) & 255 for i in range(w))
        return tuple(('X', v[1], i) for i in range(w))

    # ---- one pass over the function
    def sweep(self):
        fn = self.fn
        old = getattr(self, 'out', {})
        self.env = {a['id']: ('lin', atom(('arg', i))) for i, a in enumerate(fn.args)}
        self.out, self.writes, self.cmps, self.alts = {}, [], {}, {}
        self.twice, self.fresh = [], set()
        for b in fn.order:
            self.block(b, old)

    def block(self, b, old):
        fn = self.fn
        ins_ = []
        own = set()
        for i in fn.blocks[b]:
            if i['op'] == 'phi':
                own.add(('phi', i['id']))
                own |= {x for x, c in self.sub.get(('phi', i['id']), ((), 0))[0]}
        back = lambda p: self.dom(b, p)
        mems = []
        for p in fn.pred[b]:
            m = self.out.get(p) if not back(p) else old.get(p)
            if m is None:
                continue
            if back(p):
                m = {k: v for k, v in m.items() if not mentions(k, lambda a: a in own and a[0] in ('phi', 'iv', 'mu'))}
            mems.append(m)
        mem = {}
        if mems:
            for k in set().union(*mems):
                vs = {m.get(k, ('B', k)) for m in mems}
                mem[k] = vs.pop() if len(vs) == 1 else ('X', atom(('join', b)), 0)
        for ins in fn.blocks[b]:
            self.step(b, ins, mem)
        self.out[b] = mem

    def load(self, mem, a, w):
        return ('bytes', tuple(mem.get(ladd(a, ((), i)), ('B', ladd(a, ((), i)))) for i in range(w)))

    def step(self, b, ins, mem):
        op, i = ins['op'], ins['id']
        E = self.env
        V = lambda k: self.opnd(ins['ops'][k])
        L = lambda k: self.tolin(V(k))
        if op == 'phi':
            a = ('phi', i)
            if a in self.sub:
                E[i] = ('lin', self.sub[a])
                return
            vs = []
            for v, p in ins['in']:
                if isinstance(v, int) and v not in E:
                    vs.append(('lin', atom(('u', v))))
                else:
                    vs.append(self.opnd(v))
            self.alts[i] = [(p, v) for (x, p), v in zip(ins['in'], vs)]
            w = self.nbytes(ins['ty'])
            if b not in self.fn.heads and len({repr(self.tolin(v)) for v in vs}) == 1:
                E[i] = vs[0]
            elif b not in self.fn.heads and w and ins['ty'] != 'ptr':
                E[i] = ('bytes', tuple(('P', i, k) for k in range(w)))
            else:
                E[i] = ('lin', atom(a))
        elif op == 'load':
            w = self.nbytes(ins['ty'])
            a = L(0)
            E[i] = self.load(mem, a, w) if w else ('lin', atom(('u', i)))
        elif op == 'store':
            w = self.nbytes(ins['vty'])
            a = self.tolin(self.opnd(ins['ops'][1]))
            if w:
                for k, x in enumerate(self.tobytes(V(0), w)):
                    q = ladd(a, ((), k))
                    if x == ('B', q) and isinstance(mem.get(q), tuple) and mem[q][0] == 'B' and mem[q] != x and (b, q) not in self.fresh:
                        self.twice.append((ins.get('line', 0), q))
                    if x != ('B', q):
                        self.fresh.add((b, q))
                    mem[ladd(a, ((), k))] = x
                    self.writes.append((b, ladd(a, ((), k)), x, ins.get('line', 0), ins['ops'][0]))
        elif op == 'getelementptr':
            r = ladd(self.tolin(self.opnd(ins['base'])), ((), ins['off']))
            for o, s in ins['var']:
                r = ladd(r, self.tolin(self.opnd(o)), s)
            E[i] = ('lin', r)
        elif op in ('zext', 'sext', 'bitcast', 'freeze', 'inttoptr', 'ptrtoint'):
            v = V(0)
            E[i] = v
            if v[0] == 'bytes' and op == 'zext':
                E[i] = ('bytes', self.tobytes(v, self.nbytes(ins.get('from', 'i32'))) + (0,) * max(0, self.nbytes(ins['ty']) - self.nbytes(ins.get('from', 'i32'))))
        elif op == 'trunc':
            v = V(0)
            w = self.nbytes(ins['ty'])
            if v[0] == 'bytes' and w:
                E[i] = ('bytes', tuple(v[1][:w]))
            elif w and w < self.nbytes(ins.get('from', 'i64')) and not isconst(v[1]) and w < 4:
                E[i] = ('bytes', self.tobytes(v, w))
            else:
                E[i] = v
        elif op in ('lshr', 'shl', 'ashr') and isconst(L(1)) and L(1)[1] % 8 == 0 and (V(0)[0] == 'bytes' or op != 'shl' and L(1)[1]):
            w = self.nbytes(ins['ty'])
            n = L(1)[1] // 8
            bs = self.tobytes(V(0), w)
            E[i] = ('bytes', (bs[n:] + (0,) * n) if op != 'shl' else ((0,) * n + bs)[:w])
        elif op in ('or', 'xor', 'add') and self.bytewise(V(0), V(1), self.nbytes(ins['ty'])) is not None:
            E[i] = ('bytes', self.bytewise(V(0), V(1), self.nbytes(ins['ty'])))
        elif op == 'and' and isconst(L(1)) and V(0)[0] == 'bytes' and all(((L(1)[1] >> (8 * k)) & 255) in (0, 255) for k in range(self.nbytes(ins['ty']))):
            w = self.nbytes(ins['ty'])
            bs = self.tobytes(V(0), w)
            E[i] = ('bytes', tuple(x if (L(1)[1] >> (8 * k)) & 255 else 0 for k, x in enumerate(bs)))
        elif op in ('add', 'or') :
            E[i] = ('lin', ladd(L(0), L(1))) if op == 'add' else ('lin', atom(('or', L(0), L(1))))
        elif op == 'sub':
            E[i] = ('lin', ladd(L(0), L(1), -1))
        elif op in ('mul', 'shl') and (isconst(L(0)) or isconst(L(1))):
            if op == 'shl':
                E[i] = ('lin', lmul(L(0), 1 << L(1)[1])) if isconst(L(1)) else ('lin', atom(('shl', L(0), L(1))))
            else:
                E[i] = ('lin', lmul(L(0), L(1)[1]) if isconst(L(1)) else lmul(L(1), L(0)[1]))
        elif op in ('call', 'invoke'):
            c = ins['callee'].get('g', '') if isinstance(ins['callee'], dict) else ''
            w = self.nbytes(ins['ty'])
            m = re.match(r'llvm\.bswap\.i(16|32|64)$', c)
            if m:
                E[i] = ('bytes', tuple(reversed(self.tobytes(V(0), int(m[1]) // 8))))
            elif re.match(r'llvm\.fsh[lr]\.i16$', c) and ins['ops'][0] == ins['ops'][1] and isconst(L(2)) and L(2)[1] % 16 == 8:
                E[i] = ('bytes', tuple(reversed(self.tobytes(V(0), 2))))
            elif c.startswith('llvm.memcpy') or c in ('memcpy', 'memmove') or c.startswith('llvm.memmove'):
                d, s, n = L(0), L(1), L(2)
                if isconst(n) and n[1] <= 4096:
                    bs = [self.load(mem, ladd(s, ((), k)), 1)[1][0] for k in range(n[1])]
                    for k, x in enumerate(bs):
                        mem[ladd(d, ((), k))] = x
                        self.writes.append((b, ladd(d, ((), k)), x, ins.get('line', 0), None))
                E[i] = ('lin', d)
            elif w:
                E[i] = ('lin', atom(('call', c, i)))
        elif op == 'icmp':
            self.cmps[i] = ('icmp', ins['pred'], L(0), L(1))
            E[i] = ('lin', atom(('u', i)))
        elif op in ('and', 'or', 'xor', 'select') and ins['ty'] == 'i1':
            self.cmps[i] = (op, ins['ops'])
            E[i] = ('lin', atom(('u', i)))
        elif op == 'select':
            self.alts[i] = [(ins['ops'][0], True, self.opnd(ins['ops'][1])), (ins['ops'][0], False, self.opnd(ins['ops'][2]))]
            E[i] = ('lin', atom(('sel', i)))
        elif op == 'alloca':
            E[i] = ('lin', atom(('alloca', i)))
        elif op in ('udiv', 'sdiv', 'urem', 'srem', 'and', 'xor', 'lshr', 'ashr', 'mul', 'shl'):
            E[i] = ('lin', atom((op, L(0), L(1))))
        elif ins['ty'] != 'void':
            E[i] = ('lin', atom(('u', i)))
        if op in ('and', 'or', 'xor') and ins['ty'] == 'i1':
            self.cmps[i] = (op, ins['ops'])

    @staticmethod
    def bytewise(a, b, w):
        """or of values that have no byte in common"""
        if a[0] != 'bytes' or b[0] != 'bytes':
            return None
        x, y = list(a[1]) + [0] * (w - len(a[1])), list(b[1]) + [0] * (w - len(b[1]))
        r = []
        for p, q in zip(x, y):
            if p != 0 and q != 0:
                return None
            r.append(p if q == 0 else q)
        return tuple(r)

    def loopphi(self, b, ins):
        a = ('phi', ins['id'])
        inits, steps = [], []
        for v, p in ins['in']:
            (steps if self.dom(b, p) else inits).append(self.tolin(self.opnd(v)))
        if not inits or not steps or len(set(map(repr, inits))) > 1 or len(set(map(repr, steps))) > 1:
            return
        d = ladd(steps[0], atom(a), -1)
        depth = sum(1 for h in self.fn.heads if h != b and self.dom(h, b) and self.inloop(h, b))
        if isconst(d):
            self.sub[a] = ladd(inits[0], atom(('iv', depth)), d[1])
        else:
            self.sub[a] = atom(('mu', inits[0], subst(steps[0], {a: atom(('self',))})))

    def inloop(self, h, b):
        """b can reach h again"""
        seen, st = set(), [b]
        while st:
            x = st.pop()
            for s in self.fn.succ[x]:
                if s == h:
                    return True
                if s not in seen and self.dom(h, s):
                    seen.add(s)
                    st.append(s)
        return False

    # ---- conditions
    def facts(self, c, t, out):
        """conditions that hold if c is t"""
        if not isinstance(c, int) or c not in self.cmps:
            out.add(('?',))
            return
        k = self.cmps[c]
        if k[0] == 'icmp':
            out.add(self.norm(k[1], k[2], k[3], t))
        elif k[0] == 'and' and t or k[0] == 'or' and not t:
            for o in k[1]:
                self.facts(o, t, out)
        elif k[0] == 'xor' and k[1][1] in ({'w': 1, 'c': 1}, {'w': 1, 'c': -1}):
            self.facts(k[1][0], not t, out)
        elif k[0] == 'select' and len(k[1]) == 3 and isinstance(k[1][2], dict) and k[1][2].get('c') == 0 and t:
            self.facts(k[1][0], True, out)
            self.facts(k[1][1], True, out)
        elif k[0] == 'select' and len(k[1]) == 3 and isinstance(k[1][1], dict) and k[1][1].get('c') in (1, -1) and not t:
            self.facts(k[1][0], False, out)
            self.facts(k[1][2], False, out)
        else:
            out.add(('?',))

    @staticmethod
    def norm(pred, a, b, t):
        inv = {'eq': 'ne', 'ne': 'eq', 'ult': 'uge', 'uge': 'ult', 'ugt': 'ule', 'ule': 'ugt', 'slt': 'sge', 'sge': 'slt', 'sgt': 'sle', 'sle': 'sgt'}
        if not t:
            pred = inv[pred]
        d = ladd(a, b, -1)
        if pred in ('ugt', 'sgt'):
            pred, d = 'lt', lmul(d, -1)
        elif pred in ('uge', 'sge'):                # a >= b: b < a + 1
            pred, d = 'lt', ladd(lmul(d, -1), ((), -1))
        elif pred in ('ule', 'sle'):
            pred, d = 'lt', ladd(d, ((), -1))
        elif pred in ('ult', 'slt'):
            pred = 'lt'
        ivs = [c for x, c in d[0] if x[0] == 'iv']
        if ivs and pred in ('lt', 'ne'):
            if ivs[0] < 0 and pred == 'ne':
                d = lmul(d, -1)
            k = abs(ivs[0])
            if k > 1 and d[1] % k == 0 and all(c % k == 0 for x, c in d[0]):
                d = (tuple((x, c // k) for x, c in d[0]), d[1] // k)
            return ('bound', d)
        if pred == 'lt' and d[1] == 0 and len(d[0]) == 1 and d[0][0][1] == -1:       # 0 < x
            return ('ne', lmul(d, -1))
        if pred in ('eq', 'ne') and d[0] and d[0][0][1] < 0:
            d = lmul(d, -1)
        return (pred, d)

    def guards(self, b):
        out = set()
        x = b
        while self.idom.get(x, x) != x:
            d = self.idom[x]
            t = self.fn.blocks[d][-1]
            if t['op'] == 'br' and 'cond' in t:
                for k, s in enumerate(t['succ']):
                    if t['succ'][0] != t['succ'][1] and self.edge(d, s, x):
                        self.facts(t['cond'], k == 0, out)
            elif t['op'] == 'switch':
                vals = [c for c, s in t['cases'] if self.edge(d, s, x)]
                if vals and t['default'] not in [s for c, s in t['cases'] if c in vals]:
                    e = self.tolin(self.opnd(t['cond']))
                    if len(vals) == 1:
                        out.add(self.norm('eq', e, ((), vals[0]), True))
                    else:
                        out.add(('in', e, tuple(sorted(vals))))
            x = d
        eqs = {g[1][0] for g in out if g[0] == 'eq'}
        return frozenset(g for g in out if not (g[0] == 'ne' and g[1][0] in eqs and g[1][0]))

    def edge(self, d, s, x):
        """x is reached only through the edge d -> s"""
        return self.dom(s, x) and [p for p in self.fn.pred[s] if not self.dom(s, p)] == [d]

    # ---- result
    def conversions(self):
        """[(destination, source, width, guards, line)], [(line, address)] of bytes moved about in another way"""
        by = {}
        for b, a, x, line, _ in self.writes:
            if isinstance(x, tuple) and x[0] == 'B':
                by.setdefault(b, {})[a] = (x[1], line)
            elif isinstance(x, tuple) and x[0] == 'X':      # a value computed before: its bytes, numbered
                by.setdefault(b, {})[a] = (ladd(atom(('computed', x[1])), ((), x[2])), line)
            else:
                by.setdefault(b, {}).pop(a, None)
        res, odd = [], []
        for b, m in by.items():
            todo = dict(m)
            for a in sorted(m, key=lambda a: (repr(a[0]), a[1])):
                if a not in todo:
                    continue
                y, line = todo[a]
                if y == a:
                    del todo[a]
                    continue
                for w in (8, 4, 2):
                    if all(ladd(a, ((), j)) in todo and todo[ladd(a, ((), j))][0] == ladd(y, ((), -j)) for j in range(w)):
                        res.append((a, ladd(y, ((), 1 - w)), w, self.guards(b), line))
                        for j in range(w):
                            del todo[ladd(a, ((), j))]
                        break
                else:
                    n = 1
                    while ladd(a, ((), n)) in todo and todo[ladd(a, ((), n))][0] == ladd(y, ((), n)):
                        n += 1
                    for j in range(n):
                        del todo[ladd(a, ((), j))]
                    if n == 1 and a[0] == y[0]:
                        odd.append((line, a, y))
        return res, odd


    def edgefacts(self, p, b):
        out = set(self.guards(p))
        t = self.fn.blocks[p][-1]
        if t['op'] == 'br' and 'cond' in t and t['succ'][0] != t['succ'][1]:
            self.facts(t['cond'], t['succ'][0] == b, out)
        return frozenset(out)

    def variants(self, b, bs):
        """the bytes stored in block b, by the way b is reached: [(guards, bytes)]"""
        ph = {x[1] for x in bs if isinstance(x, tuple) and x[0] == 'P'}
        if not ph:
            return [(self.guards(b), bs)]
        blk = {self.fn.defblk[i] for i in ph}
        if len(blk) != 1:
            return []
        b = blk.pop()
        r = []
        for p in self.fn.pred[b]:
            v = []
            for x in bs:
                if isinstance(x, tuple) and x[0] == 'P':
                    al = dict(self.alts[x[1]])
                    v.append(self.tobytes(al[p], 8)[x[2]] if p in al else None)
                else:
                    v.append(x)
            r.append((self.edgefacts(p, b), tuple(v)))
        return r


# ---------------------------------------------------------------- the rules
def show(t):
    if isinstance(t, tuple) and len(t) == 2 and isinstance(t[0], tuple) and isinstance(t[1], int):
        return ' + '.join([('' if c == 1 else '%d*' % c) + show(a) for a, c in t[0]] + ([str(t[1])] if t[1] or not t[0] else []))
    if isinstance(t, tuple) and t and t[0] in ('val', 'raw'):
        return '%s[%s]' % ('' if t[0] == 'val' else 'unconverted', show(t[1]))
    if isinstance(t, tuple) and t and isinstance(t[0], str):
        return {'arg': 'page' if t[1:] == (2,) else 'handle', 'iv': 'i', 'mu': 'chain', 'self': 'it'}.get(t[0]) or '%s(%s)' % (t[0], ', '.join(show(x) for x in t[1:]))
    return str(t)


def canon(t):
    """a chain read through its addresses is the chain of what is read"""
    if not isinstance(t, tuple):
        return t
    t = tuple(canon(x) for x in t)
    if len(t) == 3 and t[0] in ('val', 'raw') and isinstance(t[1], tuple) and len(t[1]) == 2 and len(t[1][0]) == 1 and t[1][1] == 0 \
            and t[1][0][0][1] == 1 and t[1][0][0][0][0] == 'mu':
        mu = t[1][0][0][0]
        me = (t[0], atom(('self',)), t[2])
        st = subst(mu[2], {me: atom(('self',))})
        return ('mu', atom((t[0], mu[1], t[2])), atom((t[0], st, t[2])))
    return t


def key(c):
    a, s, w, g, line = c
    return canon(a), w


def split(a):
    """non-constant part, constant part"""
    return a[0], a[1]


def typ(g, tloc, types):
    for x in g:
        if x[0] == 'eq' and len(x[1][0]) == 1 and x[1][0][0][0][:2] == ('val', tloc):
            return -x[1][1] * x[1][0][0][1]
    return None


def pages(mod, fin, fout, K, shapes):
    """violations in what the two filters convert"""
    viol, seen = [], dict(conversions=[], judged=[])
    ti, to = Trace(mod, fin, 2, True), Trace(mod, fout, 2, False)
    res = {}
    P = atom(('arg', 2))
    tloc = ladd(P, ((), 18))
    chk = (ladd(P, ((), CHK)), 4)

    def rep(rule, fn, line, msg):
        viol.append(dict(rule=rule, function=fn.name, location='ffdb_page.c:%d' % line, message=msg, call_path=[], path=[]))

    told = set()
    for way, t, fn in (('read', ti, fin), ('written', to, fout)):
        cs, odd = t.conversions()
        cs = [c for c in cs if t.paged(c[0])]
        res[way] = cs
        for line, a, y in odd:
            if t.paged(a):
                rep('byte-order', fn, line, 'when a page is %s, byte %s becomes byte %s: that is no conversion of a whole number' % (way, show(y), show(a)))
        for line, a in t.twice:
            if t.paged(a):
                rep('byte-order', fn, line, 'when a page is %s, the number at %s is converted twice' % (way, show(a)))
        for c in cs:
            if c[0] != c[1] and not (key(c) == chk and mentions(c[1], lambda x: x[0] == 'computed')):
                rep('byte-order', fn, c[4], 'when a page is %s, %s receives the converted number of %s' % (way, show(c[0]), show(c[1])))
            if way not in told and any(x[0] == 'eq' and len(x[1][0]) == 2 and all(y[0] == 'val' and not mentions(y, lambda z: z == ('arg', 2)) for y, k in x[1][0]) for x in c[3]):
                told.add(way)
                rep('byte-order', fn, c[4], 'when a page is %s, it is converted when the order of the file is that of the machine' % way)
            if mentions((c[0], tuple(c[3])), lambda x: x[0] == 'raw'):
                rep('byte-order', fn, c[4], 'when a page is %s, the place or the condition of a conversion (%s) is taken from a number that is not in the order of the machine' % (way, show(c[0])))
            seen['conversions'].append('%s:%d %s %d bytes' % (fn.name, c[4], show(canon(c[0])), c[2]))
    if not res['read'] or not res['written']:
        return viol, None
    ki, ko = {}, {}
    for k, cs in ((ki, res['read']), (ko, res['written'])):
        for c in cs:
            if key(c) != chk:
                k.setdefault((key(c), typ(c[3], tloc, K)), []).append(c)
    one, two = [k for k in ki if k not in ko], [k for k in ko if k not in ki]

    def pat(ks):
        """by page type and place in the group only"""
        g = {}
        for (a, w), ty in ks:
            g.setdefault((ty, a[0]), []).append((a[1], w))
        return sorted(((repr(ty), sorted((o - min(x[0] for x in v), w) for o, w in v)) for (ty, n), v in g.items()), key=repr)
    bases = lambda ks: {(k[0][0][0], k[1]) for k in ks}
    if pat(one) != pat(two) or bases(one) & bases(two):
        for ks, have, a, b in ((one, two, 'read', 'written'), (two, one, 'written', 'read')):
            for k in ks:
                c = (ki if k in ki else ko)[k][0]
                rep('byte-order', fin if a == 'read' else fout, c[4], 'the number at %s (%d bytes) is converted when a page is %s but not when it is %s' % (show(k[0][0]), k[0][1], a, b))
    def loose(g):
        return frozenset(x if x[0] != 'bound' else ('bound', canon(x[1])) for x in g if x[0] != '?')
    for k in ki:
        if k in ko:
            gi, go = loose(ki[k][0][3]), loose(ko[k][0][3])
            unk = any(x[0] in ('?', 'in') or mentions(x, lambda y: y[0] in ('phi', 'u', 'call', 'sel')) for c in (ki[k][0], ko[k][0]) for x in c[3])
            bi, bo = {x for x in gi if x[0] == 'bound'}, {x for x in go if x[0] == 'bound'}
            if gi != go and not unk and not (gi - bi == go - bo and (not bi or not bo)):
                rep('byte-order', fout, ko[k][0][4], 'the number at %s is converted under other conditions when a page is written than when it is read (%s / %s)'
                    % (show(k[0][0]), ', '.join(sorted(show(x) for x in go - gi)), ', '.join(sorted(show(x) for x in gi - go))))
    # completeness
    odd_ = lambda a: mentions(a, lambda x: x[0] in ('g', 'phi', 'u', 'call', 'k'))
    for way, cs, fn in (('read', res['read'], fin), ('written', res['written'], fout)):
        if any(odd_(c[0]) for c in cs):
            continue
        fixed = {(c[0][1], c[2]) for c in cs if c[0][0] == P[0] and typ(c[3], tloc, K) is None}
        for o, w in HDR:
            seen['judged'].append('%s: word %d of the page header' % (fn.name, o))
            if (o, w) not in fixed and not (way == 'written' and o == CHK):
                rep('byte-order', fn, fn.line, 'when a page is %s, the number at byte %d of its header is not converted' % (way, o))
        groups = {}
        for c in cs:
            groups.setdefault((typ(c[3], tloc, K), canon(c[0])[0]), set()).add((c[0][1], c[2]))
        tys = {t for t, n in groups}
        if tys - {None}:
            for n, v in K.items():
                seen['judged'].append('%s: %s' % (fn.name, n))
                if v not in tys:
                    rep('byte-order', fn, fn.line, 'when a page is %s, nothing of a page of type %s is converted' % (way, n))
        norm_ = [sorted((o - min(x[0] for x in g), w) for o, w in g) for g in groups.values()]
        want = {}
        for n in SHAPES:
            want.setdefault(tuple(shapes[n]), []).append(n)
        for sh, ns in want.items():
            seen['judged'].append('%s: every number of %s' % (fn.name, ', '.join(ns)))
            if sum(1 for g in norm_ if g == list(sh)) < len(ns):
                rep('byte-order', fn, fn.line, 'when a page is %s, not every number of %s is converted' % (way, ' or '.join(ns)))
        for (ty, n), g in groups.items():
            st = [c for x, c in n if x[0] == 'iv']
            if len(st) == 1 and len(n) == 2 and sum(w for o, w in g) != st[0] and sorted((o - min(x[0] for x in g), w) for o, w in g) not in [list(x) for x in want]:
                rep('byte-order', fn, fn.line, 'when a page is %s, %d of the %d bytes of an entry are converted' % (way, sum(w for o, w in g), st[0]))
    # the checksum of a page that is written
    order = None
    for c in res['written']:
        gs = [x for x in c[3] if x[0] == 'ne' and not mentions(x, lambda y: y == ('arg', 2))]
        order = gs[0] if len(gs) == 1 and typ(c[3], tloc, K) is None else order
    last = {}
    for b, a, x, line, _ in to.writes:
        if a[0] == P[0] and CHK <= a[1] < CHK + 4 and not (isinstance(x, tuple) and x[0] == 'B'):
            last.setdefault((b, line), {})[a[1] - CHK] = x
    for (b, line), d in last.items():
        if len(d) != 4 or order is None:
            continue
        for g, bs in to.variants(b, tuple(d[k] for k in range(4))):
            if not all(isinstance(x, tuple) and x[0] == 'X' for x in bs) or len({x[1] for x in bs}) != 1:
                continue
            lanes = [x[2] for x in bs]
            seen['judged'].append('%s: checksum' % fout.name)
            yes, no = order in g, ('eq', order[1]) in g
            later = any(key(c) == chk and order in c[3] and mentions(c[1], lambda x: x[0] == 'computed') for c in res['written'])
            if not yes and not no and lanes == [0, 1, 2, 3] and not later and not any(x[0] == '?' for x in g):
                yes = True
            if yes and lanes == [0, 1, 2, 3] or no and lanes == [3, 2, 1, 0]:
                rep('byte-order', fout, line, 'the checksum of a page is %s when the order of the file is %s' % (
                    ('not converted', 'not that of the machine') if yes else ('converted', 'that of the machine')))
    return viol, seen


def header(mod, members, hoff):
    """violations in the conversions of the header of the file"""
    viol, seen = [], []
    for fn in mod.funcs.values():
        if fn.decl:
            continue
        t = Trace(mod, fn)
        cs, odd = t.conversions()
        groups = {}
        for c in cs:
            n = tuple(x for x in c[0][0] if x[0][0] != 'iv')
            groups.setdefault(n, []).append(c)
        for n, g in groups.items():
            if len(g) < 8 or any(mentions(c[0], lambda x: x[0] in ('g', 'phi', 'u', 'k', 'mu')) for c in g):
                continue
            cov, some = {}, set()
            for a, s, w, gd, line in g:
                iv = [(x, c) for x, c in a[0] if x[0] == 'iv']
                if not iv:
                    cov[(a[1], w)] = (a, s, line)
                    continue
                bd = [x[1] for x in gd if x[0] == 'bound' and [y for y in x[1][0] if y[1] > 0] == [(iv[0][0], 1)] and len(x[1][0]) == 1]
                if len(iv) == 1 and bd:
                    top = max(-x[1] for x in bd)
                    for k in set(range(top)) - {-x[1] for x in bd}:
                        cov[(a[1] + k * iv[0][1], w)] = (a, s, line)
                else:
                    some.add(a[1])
            best = max((hoff, 0, min(o for o, w in cov)), key=lambda h: len({(o - h, w) for o, w in cov} & members.keys()))
            got = {(o - best, w) for o, w in cov}
            if len(got & members.keys()) * 2 < len(members) and not some:
                continue
            copy = any(c[0] != c[1] for c in g)
            seen.append('%s:%d %s, %d numbers' % (fn.name, fn.line, 'header copied' if copy else 'header in place', len(got)))
            for m in sorted(members.keys() - got):
                if some and members[m][1]:
                    continue
                if copy and members[m][0] == 'chksum':
                    continue
                viol.append(dict(rule='byte-order', function=fn.name, location='ffdb_hash.c:%d' % fn.line, call_path=[], path=[],
                                 message='%s of the header of the file (byte %d, %d bytes) is not converted' % (members[m][0], m[0], m[1])))
            diff = {}
            for (o, w), (a, s, line) in cov.items():
                if not mentions(s, lambda x: x[0] == 'computed'):
                    diff.setdefault(ladd(a, s, -1), []).append((o, line))
            if diff:
                top = max(diff, key=lambda d: len(diff[d]))
                for d, xs in diff.items():
                    if d != top:
                        viol.append(dict(rule='byte-order', function=fn.name, location='ffdb_hash.c:%d' % xs[0][1], call_path=[], path=[],
                                         message='byte %d of the header of the file receives the number of another place' % (xs[0][0] - best)))
    return viol, seen

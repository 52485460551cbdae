"""Path-sensitive dataflow ("property simulation", ESP style) over LLVM IR.

A state is an abstract store plus a property state (tokens, flags).  At join
points states with the same property state are merged, at loop heads always,
elsewhere when more than K accumulate, so the analysis is a terminating
fixpoint over a finite set of abstract names; nothing is executed and no path
formula is handed to a solver.  Calls to functions defined in the analysed
program are followed (each call string is its own context); calls that leave it
are interpreted by models.
"""
import heapq, sys

sys.setrecursionlimit(20000)

C0 = ('c', 0)
UNDEF = ('undef',)


class AnalysisError(Exception):
    """the analysis itself cannot give a verdict (not a violation)"""


def cst(n):
    return ('c', n)


def wrap(n, w):
    n &= (1 << w) - 1
    if n >> (w - 1):
        n -= 1 << w
    return n


def uns(n, w):
    return n & ((1 << w) - 1)


def depth(v):
    if not isinstance(v, tuple):
        return 0
    t = v[0]
    if t in ('c', 's', 'undef', 'fn'):
        return 1
    if t == 'p':
        return 1
    if t == 'b':
        return 1 + max(depth(v[2]), depth(v[3]))
    if t == 'cmp':
        return 1 + max(depth(v[2]), depth(v[3]))
    if t in ('zx', 'tr'):
        return 1 + depth(v[1])
    return 1


def subst(v, old, new):
    if v == old:
        return new
    if not isinstance(v, tuple):
        return v
    if v and v[0] in ('c', 'fn', 'undef', 'g', 'a'):
        return v
    ch = False
    out = []
    for x in v:
        if isinstance(x, tuple):
            y = subst(x, old, new)
            if y is not x:
                ch = True
            out.append(y)
        else:
            out.append(x)
    return tuple(out) if ch else v


def atoms(v, acc):
    """symbols and objects referenced by a value"""
    if not isinstance(v, tuple) or not v:
        return
    t = v[0]
    if t == 's':
        acc.add(v)
    elif t == 'p':
        acc.add(v[1])
        if v[1][0] == 'd':
            atoms(v[1][1], acc)
    elif t in ('b', 'cmp'):
        atoms(v[2], acc)
        atoms(v[3], acc)
    elif t in ('zx', 'tr'):
        atoms(v[1], acc)
    elif t in ('c', 'fn', 'undef', 'nullgep', 'str'):
        pass
    elif t in ('a', 'h', 'pg', 'g'):
        acc.add(v)
    elif t == 'd':
        acc.add(v)
        atoms(v[1], acc)
    else:
        for x in v:
            if isinstance(x, tuple):
                atoms(x, acc)


def orderatoms(v, acc):
    """atoms in a deterministic order; 'd' objects followed by what they hang off"""
    if not isinstance(v, tuple) or not v:
        return
    t = v[0]
    if t in ('s', 'a', 'h', 'pg', 'g'):
        acc.append(v)
    elif t == 'p':
        orderatoms(v[1], acc)
    elif t == 'd':
        orderatoms(v[1], acc)
        acc.append(v)
    elif t in ('b', 'cmp'):
        orderatoms(v[2], acc)
        orderatoms(v[3], acc)
    elif t in ('zx', 'tr'):
        orderatoms(v[1], acc)
    elif t == 'agg':
        for x in v[1]:
            orderatoms(x, acc)
    elif t in ('c', 'fn', 'undef', 'nullgep', 'str'):
        pass
    else:
        for x in v:
            if isinstance(x, tuple):
                orderatoms(x, acc)


def remap(v, m, tag, memo):
    """rename the atoms of v; names not in m are prefixed with tag"""
    if not isinstance(v, tuple) or not v:
        return v
    r = memo.get(v)
    if r is not None:
        return r
    r = m.get(v)
    if r is None:
        t = v[0]
        if t in ('s', 'a', 'h', 'pg'):
            r = v if tag is None else (t, ('r', tag, v[1]))
        elif t in ('c', 'fn', 'undef', 'g', 'nullgep'):
            r = v
        elif t == 'p':
            r = ('p', remap(v[1], m, tag, memo), v[2])
            if r[1][0] == 'd' and r[2] == 0:
                r = r[1][1]
        elif t == 'd':
            x = remap(v[1], m, tag, memo)
            r = x[1] if x[0] == 'p' and x[2] == 0 else ('d', x)
        elif t in ('b', 'cmp'):
            r = (t, v[1], remap(v[2], m, tag, memo), remap(v[3], m, tag, memo), v[4])
        elif t in ('zx', 'tr'):
            r = (t, remap(v[1], m, tag, memo), v[2])
        elif t == 'agg':
            r = (t, tuple(remap(x, m, tag, memo) for x in v[1]))
        else:
            r = tuple(remap(x, m, tag, memo) if isinstance(x, tuple) else x for x in v)
    memo[v] = r
    return r


class State:
    __slots__ = ('envs', 'mem', 'facts', 'tok', 'flags', 'trace')

    def __init__(self):
        self.envs = [{}]
        self.mem = {}
        self.facts = {}
        self.tok = {}
        self.flags = {}
        self.trace = ()

    def copy(self):
        s = State.__new__(State)
        s.envs = list(self.envs)
        s.envs[-1] = dict(s.envs[-1])
        s.mem = dict(self.mem)
        s.facts = dict(self.facts)
        s.tok = dict(self.tok)
        s.flags = dict(self.flags)
        s.trace = self.trace
        return s

    def same(self, o):
        return (self.tok == o.tok and self.flags == o.flags and self.envs == o.envs
                and self.mem == o.mem and self.facts == o.facts)

    def note(self, msg):
        t = self.trace + (msg,)
        self.trace = t[-60:]

    # ---- memory
    def read(self, obj, off, size):
        d = self.mem.get(obj)
        if d is None:
            return None
        e = d.get(off)
        if e is not None:
            if e[1] == size:
                return e[0]
            if e[0] == C0 and size <= e[1]:
                return C0
            if e[0][0] == 'c' and size < e[1]:
                return ('c', wrap(e[0][1], size * 8))
            return None
        z = d.get('Z')
        if z is not None and off is not None and z[0] <= off and off + size <= z[1]:
            for o, e in d.items():
                if o != 'Z' and o < off + size and off < o + e[1]:
                    return None
            return C0
        return None

    def write(self, obj, off, size, val):
        d = self.mem.get(obj)
        if off is None:
            # unknown offset: everything about the object is forgotten
            if d is not None:
                self.mem[obj] = {}
            return
        nd = {}
        if d:
            for o, e in d.items():
                if o == 'Z':
                    nd['Z'] = e
                    continue
                if o < off + size and off < o + e[1]:
                    continue
                nd[o] = e
        nd[off] = (val, size)
        self.mem[obj] = nd

    def kill(self, obj, lo, hi):
        """forget [lo,hi) of obj (hi None = to the end)"""
        d = self.mem.get(obj)
        if not d:
            return
        nd = {}
        for o, e in d.items():
            if o == 'Z':
                if lo is None or e[0] >= (lo or 0):
                    if hi is not None and lo is not None and e[0] >= hi:
                        nd['Z'] = e
                    continue
                # keep the part below lo
                if e[1] > lo:
                    nd['Z'] = (e[0], lo)
                else:
                    nd['Z'] = e
                continue
            if lo is None:
                continue
            if (hi is None or o < hi) and lo < o + e[1]:
                continue
            nd[o] = e
        self.mem[obj] = nd

    def zero(self, obj, lo, hi):
        d = self.mem.get(obj) or {}
        nd = {}
        for o, e in d.items():
            if o == 'Z':
                continue
            if o < hi and lo < o + e[1]:
                continue
            nd[o] = e
        nd['Z'] = (lo, hi)
        self.mem[obj] = nd

    def rename(self, old, new):
        def sv(v):
            return subst(v, old, new)
        self.envs = [{k: sv(v) for k, v in e.items()} for e in self.envs]
        nm = {}
        for obj, d in self.mem.items():
            o2 = sv(obj)
            d2 = {k: ((sv(v[0]), v[1]) if k != 'Z' else v) for k, v in d.items()}
            if o2 in nm:
                # two objects collapse: keep agreeing content only
                a = nm[o2]
                nm[o2] = {k: v for k, v in d2.items() if a.get(k) == v}
            else:
                nm[o2] = d2
        self.mem = nm
        nf = {}
        for k, v in self.facts.items():
            k2 = sv(k)
            if k2 in nf and nf[k2] != v:
                del nf[k2]
                continue
            nf[k2] = v
        self.facts = nf
        nt = {}
        for k, v in self.tok.items():
            k2 = sv(k)
            nt[k2] = v
        self.tok = nt
        self.flags = {sv(k) if isinstance(k, tuple) else k: (sv(v) if isinstance(v, tuple) else v) for k, v in self.flags.items()}

    def mentions(self, x):
        def has(v):
            if v == x:
                return True
            if isinstance(v, tuple):
                for y in v:
                    if isinstance(y, tuple) and has(y):
                        return True
            return False
        for e in self.envs:
            for v in e.values():
                if has(v):
                    return True
        for obj, d in self.mem.items():
            if has(obj):
                return True
            for k, v in d.items():
                if k != 'Z' and has(v[0]):
                    return True
        for k in self.facts:
            if has(k):
                return True
        for k in self.tok:
            if has(k):
                return True
        for k, v in self.flags.items():
            if has(k) or has(v):
                return True
        return False


FULL = (None, None, False)


class Engine:
    joinheap = False

    K = 1                   # states kept apart per join point and property state
    MAXDEPTH = 40
    MAXSTEPS = 4000000
    bitmasks = ()           # single bits of flag words that joins keep track of

    def __init__(self, mod, mon=None):
        self.mod = mod
        self.mon = mon
        self.models = {}
        self.steps = 0
        self.analysed = set()
        self.vcur = {}
        self.funcs_seen = set()
        self.calls_seen = set()
        self.unknown_ext = set()
        self.inline_pred = lambda fn: True
        self.ctx = ()
        self.stack = ()
        self.cache = {}
        self.nsum = 0
        self.loopflag = False
        self.site_counts = {}
        self.null_event = None

    # ------------------------------------------------------------ reporting
    def report(self, rule, fn, ins, msg, st=None):
        loc = fn.loc(ins) if ins is not None else '%s:%s' % (fn.file.split('/')[-1], fn.line)
        self.addv((rule, fn.name, loc, msg, (), st.trace if st is not None else ()))

    def addv(self, v):
        k = (v[0], v[2], v[3], v[4][:self.CHAIN])
        if k not in self.vcur:
            self.vcur[k] = v

    CHAIN = 2                # callers that are part of a report's identity

    def results(self):
        """the reports of the root activation"""
        out = []
        for v in self.vcur.values():
            out.append({'rule': v[0], 'function': v[1], 'location': v[2], 'message': v[3],
                        'call_path': list(reversed(v[4])), 'path': list(v[5])})
        return out

    # ------------------------------------------------------------ symbols
    def site(self, fn, ins, tag=''):
        return (fn.name, ins['id'], tag)

    def fresh(self, st, site, kind='s'):
        s = (kind, site)
        if self.loopflag and st.mentions(s):
            p = (kind, (site, 'prev'))
            if st.mentions(p):
                # collapse the older generation: forget what is known about it
                pp = (kind, (site, 'old'))
                st.rename(p, pp)
                for k in [k for k in st.facts if self._mentions(k, pp)]:
                    del st.facts[k]
            st.rename(s, p)
        return s

    @staticmethod
    def _mentions(v, x):
        if v == x:
            return True
        if isinstance(v, tuple):
            return any(isinstance(y, tuple) and Engine._mentions(y, x) for y in v)
        return False

    # ------------------------------------------------------------ ranges
    def rng(self, st, v):
        """(lo, hi, nonzero) as signed integers; None = unbounded"""
        t = v[0]
        if t == 'c':
            return (v[1], v[1], v[1] != 0)
        f = st.facts.get(v)
        if t == 'p':
            return (None, None, True)
        if t == 'fn':
            return (None, None, True)
        if t == 'cmp':
            b = self.truth(st, v)
            if b is True:
                return (1, 1, True)
            if b is False:
                return (0, 0, False)
            return (0, 1, False)
        base = FULL
        if t == 'zx':
            lo, hi, nz = self.rng(st, v[1])
            w = v[2]
            if lo is not None and lo >= 0:
                base = (lo, hi if hi is not None else (1 << w) - 1, nz)
            else:
                base = (0, (1 << w) - 1, nz)
        elif t == 'tr':
            lo, hi, nz = self.rng(st, v[1])
            w = v[2]
            if lo is not None and hi is not None and -(1 << (w - 1)) <= lo and hi < (1 << (w - 1)):
                base = (lo, hi, nz)
        elif t == 'b':
            op, a, b, w = v[1], v[2], v[3], v[4]
            if op == 'and':
                for x in (a, b):
                    if x[0] == 'c' and x[1] >= 0:
                        base = (0, x[1], False)
                if b[0] == 'c' and b[1] > 0 and b[1] & (b[1] - 1) and bin(b[1]).count('1') <= 6:
                    # a mask of several bits, from what is known of each
                    fs = [st.facts.get(('b', 'and', a, ('c', 1 << i), w)) for i in range(32) if b[1] >> i & 1]
                    if any(isinstance(x, tuple) and x[2] for x in fs):
                        base = (1, b[1], True)
                    elif all(isinstance(x, tuple) and x[0] == 0 and x[1] == 0 for x in fs):
                        base = (0, 0, False)
            elif op == 'add' or op == 'sub':
                la, ha, _ = self.rng(st, a)
                lb, hb, _ = self.rng(st, b)
                if op == 'sub':
                    lb, hb = (None if hb is None else -hb), (None if lb is None else -lb)
                lo = None if la is None or lb is None else la + lb
                hi = None if ha is None or hb is None else ha + hb
                m = 1 << (w - 1)
                if (lo is None or lo >= -m) and (hi is None or hi < m) and (lo is not None or hi is not None):
                    # may still wrap when one side is unbounded: only keep if both ends bounded
                    if lo is not None and hi is not None:
                        base = (lo, hi, lo > 0 or hi < 0)
            elif op == 'or':
                for x in (a, b):
                    if self.rng(st, x)[2]:
                        base = (None, None, True)
            elif op in ('urem', 'srem'):
                if b[0] == 'c' and b[1] > 0:
                    base = (0 if op == 'urem' else -(b[1] - 1), b[1] - 1, False)
            elif op == 'lshr' and b[0] == 'c' and b[1] > 0:
                base = (0, (1 << (w - b[1])) - 1, False)
        if f is None or not isinstance(f, tuple):
            return base
        lo = base[0] if f[0] is None else (f[0] if base[0] is None else max(f[0], base[0]))
        hi = base[1] if f[1] is None else (f[1] if base[1] is None else min(f[1], base[1]))
        nz = base[2] or f[2] or (lo is not None and lo > 0) or (hi is not None and hi < 0)
        return (lo, hi, nz)

    def setrng(self, st, v, lo=None, hi=None, nz=False):
        """refine; returns False if contradictory"""
        if v[0] == 'cmp':
            if nz or (lo is not None and lo >= 1):
                return self.assume(st, v, True) is not None
            if hi is not None and hi <= 0:
                return self.assume(st, v, False) is not None
            return True
        l0, h0, n0 = self.rng(st, v)
        l = l0 if lo is None else (lo if l0 is None else max(l0, lo))
        h = h0 if hi is None else (hi if h0 is None else min(h0, hi))
        n = n0 or nz
        if n and l == 0:
            l = 1
        if n and h == 0:
            h = -1
        if l is not None and h is not None and l > h:
            return False
        if n and l == 0 and h == 0:
            return False
        if v[0] in ('c',):
            return True
        if v[0] == 'p':
            # known non-null pointer
            if l == 0 and h == 0:
                return False
            return True
        if (l, h, n) != (l0, h0, n0):
            st.facts[v] = (l, h, n)
            # invertible shapes
            if l is not None and l == h:
                if l == 0 and v[0] == 'b' and v[1] == 'or':
                    return self.setrng(st, v[2], 0, 0) and self.setrng(st, v[3], 0, 0)
                if l == 0 and v[0] == 'b' and v[1] == 'and' and v[3][0] == 'c' and v[3][1] > 0 and bin(v[3][1]).count('1') in range(2, 7):
                    for i in range(32):
                        if v[3][1] >> i & 1 and not self.setrng(st, ('b', 'and', v[2], ('c', 1 << i), v[4]), 0, 0):
                            return False
                    return True
                if v[0] == 'b' and v[1] == 'add' and v[3][0] == 'c' and v[2][0] != 'c':
                    return self.setrng(st, v[2], wrap(l - v[3][1], v[4]), wrap(l - v[3][1], v[4]))
                if v[0] == 'b' and v[1] == 'sub' and v[3][0] == 'c' and v[2][0] != 'c':
                    return self.setrng(st, v[2], wrap(l + v[3][1], v[4]), wrap(l + v[3][1], v[4]))
                if v[0] == 'zx':
                    return self.setrng(st, v[1], wrap(l, v[2]), wrap(l, v[2]))
            elif v[0] == 'zx' and n and not n0:
                return self.setrng(st, v[1], None, None, True)
            if v[0] == 'zx' and h is not None and h < (1 << (v[2] - 1)):
                if not self.setrng(st, v[1], l, h, n):
                    return False
        return True

    # ------------------------------------------------------------ conditions
    NEG = {'eq': 'ne', 'ne': 'eq', 'slt': 'sge', 'sge': 'slt', 'sgt': 'sle', 'sle': 'sgt',
           'ult': 'uge', 'uge': 'ult', 'ugt': 'ule', 'ule': 'ugt'}
    SWAP = {'eq': 'eq', 'ne': 'ne', 'slt': 'sgt', 'sgt': 'slt', 'sle': 'sge', 'sge': 'sle',
            'ult': 'ugt', 'ugt': 'ult', 'ule': 'uge', 'uge': 'ule'}

    def mkcmp(self, pred, a, b, w):
        if pred not in self.NEG:
            return None
        if a[0] == 'c' and b[0] != 'c':
            a, b, pred = b, a, self.SWAP[pred]
        if b == C0 and a[0] == 'cmp':
            if pred == 'ne' or pred == 'ugt':
                return a
            if pred == 'eq':
                return ('cmp', self.NEG[a[1]], a[2], a[3], a[4])
        if b == C0 and a[0] == 'zx' and pred in ('eq', 'ne'):
            return self.mkcmp(pred, a[1], b, a[2])
        if b[0] == 'c' and a[0] == 'zx' and pred in ('eq', 'ne') and 0 <= b[1] < (1 << (a[2] - 1)):
            return self.mkcmp(pred, a[1], b, a[2])
        return ('cmp', pred, a, b, w)

    def truth(self, st, c):
        """True/False/None of a condition value in st"""
        if c[0] == 'c':
            return c[1] != 0
        if c[0] != 'cmp':
            lo, hi, nz = self.rng(st, c)
            if nz:
                return True
            if lo == 0 and hi == 0:
                return False
            return None
        _, pred, a, b, w = c
        if a == b:
            return pred in ('eq', 'sle', 'sge', 'ule', 'uge')
        f = st.facts.get(c)
        if f is True or f is False:
            return f
        f = st.facts.get(('cmp', self.NEG[pred], a, b, w))
        if f is True or f is False:
            return not f
        if a[0] == 'fn' or b[0] == 'fn':
            if a[0] == 'fn' and b[0] == 'fn':
                return {'eq': a == b, 'ne': a != b}.get(pred)
            if b == C0 or a == C0:
                return {'eq': False, 'ne': True}.get(pred)
            return None
        if a[0] == 'p' or b[0] == 'p':
            if b == C0 or a == C0:
                return {'eq': False, 'ne': True, 'ugt': True}.get(pred)
            if a[0] == 'p' and b[0] == 'p':
                if a[1] == b[1]:
                    if a[2] is not None and b[2] is not None:
                        x, y = a[2], b[2]
                        return {'eq': x == y, 'ne': x != y, 'ult': x < y, 'ule': x <= y,
                                'ugt': x > y, 'uge': x >= y}.get(pred)
                    return None
                if self.distinct(st, a[1], b[1]):
                    return {'eq': False, 'ne': True}.get(pred)
            elif a[0] == 'p' and b[0] == 's' or a[0] == 's' and b[0] == 'p':
                p, s = (a, b) if a[0] == 'p' else (b, a)
                if self.distinct(st, p[1], ('d', s)):
                    return {'eq': False, 'ne': True}.get(pred)
            return None
        if a[0] == 'undef' or b[0] == 'undef':
            return None
        la, ha, na = self.rng(st, a)
        lb, hb, nb = self.rng(st, b)
        if pred in ('eq', 'ne'):
            r = None
            if la is not None and la == ha and lb is not None and lb == hb and la == lb:
                r = True
            elif (ha is not None and lb is not None and ha < lb) or (la is not None and hb is not None and la > hb):
                r = False
            elif b == C0 and na:
                r = False
            if r is None:
                return None
            return r if pred == 'eq' else not r
        if pred[0] == 'u':
            # decide only when both are known non-negative (or constants)
            if a[0] == 'c':
                la = ha = uns(a[1], w)
            elif la is None or la < 0:
                if pred in ('ult', 'uge') and b == C0:
                    return pred == 'uge'
                if pred in ('ugt', 'ule') and b == C0 and na:
                    return pred == 'ugt'
                return None
            if b[0] == 'c':
                lb = hb = uns(b[1], w)
            elif lb is None or lb < 0:
                return None
            pred = 's' + pred[1:]
        if pred == 'slt':
            if ha is not None and lb is not None and ha < lb:
                return True
            if la is not None and hb is not None and la >= hb:
                return False
        elif pred == 'sle':
            if ha is not None and lb is not None and ha <= lb:
                return True
            if la is not None and hb is not None and la > hb:
                return False
        elif pred == 'sgt':
            if la is not None and hb is not None and la > hb:
                return True
            if ha is not None and lb is not None and ha <= lb:
                return False
        elif pred == 'sge':
            if la is not None and hb is not None and la >= hb:
                return True
            if ha is not None and lb is not None and ha < lb:
                return False
        return None

    def distinct(self, st, o1, o2):
        """objects that certainly do not overlap"""
        if o1 == o2:
            return False
        k1, k2 = o1[0], o2[0]
        own = ('a', 'h', 'pg', 'g')
        if k1 in own and k2 in own:
            return True
        # an address taken from elsewhere cannot be a local that was never stored;
        # a freshly allocated block differs from anything read from memory earlier
        return False

    def assume(self, st, c, truth):
        """refine st in place with condition; None if infeasible"""
        t = self.truth(st, c)
        if t is not None:
            if t != truth:
                return None
            # fall through: may still refine
        if c[0] == 'c':
            return st if (c[1] != 0) == truth else None
        if c[0] != 'cmp':
            ok = self.setrng(st, c, None, None, True) if truth else self.setrng(st, c, 0, 0)
            return st if ok else None
        _, pred, a, b, w = c
        if not truth:
            pred = self.NEG[pred]
        if a[0] in ('undef',) or b[0] in ('undef',):
            return st
        ok = True
        if b[0] == 'c' and a[0] != 'c':
            k = b[1]
            if pred == 'eq':
                ok = self.setrng(st, a, k, k)
            elif pred == 'ne':
                if k == 0:
                    ok = self.setrng(st, a, None, None, True)
                else:
                    lo, hi, nz = self.rng(st, a)
                    if lo == k:
                        ok = self.setrng(st, a, k + 1, None)
                    elif hi == k:
                        ok = self.setrng(st, a, None, k - 1)
                    else:
                        st.facts[('cmp', 'ne', a, b, w)] = True
                        # also usable through its dual
            elif pred == 'slt':
                ok = self.setrng(st, a, None, k - 1)
            elif pred == 'sle':
                ok = self.setrng(st, a, None, k)
            elif pred == 'sgt':
                ok = self.setrng(st, a, k + 1, None)
            elif pred == 'sge':
                ok = self.setrng(st, a, k, None)
            else:
                ku = uns(k, w)
                half = 1 << (w - 1)
                lo, hi, nz = self.rng(st, a)
                if pred == 'ult':
                    if ku == 0:
                        return None
                    if ku <= half:
                        ok = self.setrng(st, a, 0, ku - 1)
                elif pred == 'ule':
                    if ku < half:
                        ok = self.setrng(st, a, 0, ku)
                elif pred == 'ugt':
                    if lo is not None and lo >= 0:
                        ok = self.setrng(st, a, ku + 1, None)
                    else:
                        ok = self.setrng(st, a, None, None, True)
                elif pred == 'uge':
                    if ku > 0:
                        if lo is not None and lo >= 0:
                            ok = self.setrng(st, a, ku, None)
                        else:
                            ok = self.setrng(st, a, None, None, True)
                if ok:
                    st.facts[('cmp', pred, a, b, w)] = True
            return st if ok else None
        if pred == 'eq':
            # propagate ranges both ways
            la, ha, na = self.rng(st, a)
            lb, hb, nb = self.rng(st, b)
            if a[0] in ('s', 'b', 'zx', 'tr'):
                ok = self.setrng(st, a, lb, hb, nb)
            if ok and b[0] in ('s', 'b', 'zx', 'tr'):
                ok = self.setrng(st, b, la, ha, na)
            if not ok:
                return None
        elif pred in ('slt', 'sgt', 'sle', 'sge'):
            la, ha, _ = self.rng(st, a)
            lb, hb, _ = self.rng(st, b)
            d = 1 if pred in ('slt', 'sgt') else 0
            if pred in ('slt', 'sle'):
                if hb is not None and a[0] != 'c':
                    ok = self.setrng(st, a, None, hb - d)
                if ok and la is not None and b[0] != 'c':
                    ok = self.setrng(st, b, la + d, None)
            else:
                if lb is not None and a[0] != 'c':
                    ok = self.setrng(st, a, lb + d, None)
                if ok and ha is not None and b[0] != 'c':
                    ok = self.setrng(st, b, None, ha - d)
            if not ok:
                return None
        elif pred in ('ult', 'ugt') and a[0] != 'p' and b[0] != 'p':
            # a <u b  =>  b != 0
            tgt = b if pred == 'ult' else a
            ok = self.setrng(st, tgt, None, None, True)
            if not ok:
                return None
        st.facts[('cmp', pred, a, b, w)] = True
        return st

    # ------------------------------------------------------------ operands
    def val(self, st, o):
        if isinstance(o, int):
            return st.envs[-1].get(o, UNDEF)
        if 'c' in o:
            return ('c', o['c'])
        if 'null' in o or 'zero' in o:
            return C0
        if 'g' in o:
            f = self.mod.funcs.get(o['g'])
            if f is not None:
                return ('fn', o['g'])
            return ('p', ('g', o['g']), 0)
        if 'undef' in o:
            return UNDEF
        if o.get('op') == 'gep':
            b = self.val(st, o['base'])
            return self.gepval(st, b, o['off'] if not o['var'] else None)
        if 'ops' in o and o.get('op') in ('ptrtoint', 'inttoptr', 'bitcast'):
            return self.val(st, o['ops'][0])
        return UNDEF

    def gepval(self, st, base, off):
        if base[0] == 'p':
            if off is None or base[2] is None:
                return self.normptr(('p', base[1], None))
            return self.normptr(('p', base[1], base[2] + off))
        if base == C0:
            # &((T*)0)->f : stays a null-derived address
            return ('nullgep', off)
        if base[0] == 'nullgep':
            return base
        if base[0] in ('s', 'b', 'zx', 'tr'):
            if off == 0:
                return base
            return ('p', ('d', base), off)
        return UNDEF

    @staticmethod
    def normptr(p):
        if p[1][0] == 'd' and p[2] == 0:
            return p[1][1]
        return p

    def deref(self, st, fn, ins, p, what):
        """(obj, off) or None when the access is impossible/unknown"""
        if p[0] == 'p':
            return (p[1], p[2])
        if p == C0 or p[0] == 'nullgep':
            if self.mon:
                self.mon.on_null(self, st, fn, ins, what)
            return 'null'
        if p[0] in ('s', 'b', 'zx', 'tr'):
            lo, hi, nz = self.rng(st, p)
            if lo == 0 and hi == 0:
                if self.mon:
                    self.mon.on_null(self, st, fn, ins, what)
                return 'null'
            return (('d', p), 0)
        return None

    # ------------------------------------------------------------ property key
    def droptok(self, tv):
        """token states that stop mattering once nothing points at the object"""
        return False

    def tokkey(self, tv):
        return tv

    def key(self, st):
        locs = []
        for i, e in enumerate(st.envs):
            for k, v in e.items():
                if v[0] == 'p' and v[1] in st.tok:
                    locs.append(('e', i, k, v[1]))
        for obj, d in st.mem.items():
            for o, v in d.items():
                if o != 'Z' and v[0][0] == 'p' and v[0][1] in st.tok:
                    locs.append(('m', obj, o, v[0][1]))
        fl = st.flags
        if self.mon:
            fl = self.mon.key_flags(st)
        return (frozenset((k, self.tokkey(v)) for k, v in st.tok.items()), frozenset(fl.items()), frozenset(locs))

    # ------------------------------------------------------------ gc / join
    def gc(self, st):
        live = set()
        for e in st.envs:
            for v in e.values():
                atoms(v, live)
        for k, v in st.flags.items():
            if isinstance(v, tuple):
                atoms(v, live)
            if isinstance(k, tuple):
                atoms(k, live)
        for k, tv in st.tok.items():
            if not self.droptok(tv):
                live.add(k)
        roots = getattr(self.mon, 'root_objs', ()) if self.mon else ()
        work = list(live) + [o for o in st.mem if o[0] == 'g' or o in roots]
        seen = set(work)
        livesym = set()
        for x in work:
            if x[0] == 's':
                livesym.add(x)
        while work:
            x = work.pop()
            if x[0] == 's':
                livesym.add(x)
                x = ('d', x)
            elif x[0] == 'd':
                acc = set()
                atoms(x[1], acc)
                for a in acc:
                    if a not in seen:
                        seen.add(a)
                        work.append(a)
            d = st.mem.get(x)
            if not d:
                continue
            seen.add(x)
            for k, v in d.items():
                if k == 'Z':
                    continue
                acc = set()
                atoms(v[0], acc)
                for a in acc:
                    if a not in seen:
                        seen.add(a)
                        work.append(a)
                    if a[0] == 's':
                        livesym.add(a)
        nm = {}
        for obj, d in st.mem.items():
            if obj in seen or obj[0] == 'g' or (obj[0] == 'd' and (obj[1] in seen or obj[1][0] != 's')):
                if d:
                    nm[obj] = d
        st.mem = nm
        for k in [k for k, tv in st.tok.items() if k not in seen and self.droptok(tv)]:
            del st.tok[k]
        nf = {}
        for k, v in st.facts.items():
            acc = set()
            atoms(k, acc)
            ok = True
            for a in acc:
                if a[0] == 's' and a not in livesym:
                    ok = False
                    break
            if ok:
                nf[k] = v
        st.facts = nf

    def join(self, A, B, tag, widen):
        """A is the accumulated state; returns joined state (new)"""
        # names created by an earlier join here mean the previous value inside B
        for s in list(self._joinsyms(B, tag)):
            B.rename(s, ('s', (s[1], 'prev')))
        R = A.copy()
        R.envs = [dict(e) for e in R.envs]
        newfacts = {}
        joined = {}
        claimed = set()

        def jv(x, y, name):
            if x == y:
                return x
            k = (x, y)
            if k in joined:
                return joined[k]
            if x == UNDEF or y == UNDEF:
                return UNDEF
            if x[0] == 'p' and y[0] == 'p' and x[1] == y[1]:
                r = ('p', x[1], None)
                joined[k] = r
                return r
            if x[0] == 'p' and y[0] == 'p' and x[1][0] == 'd' and y[1][0] == 'd' and x[2] == y[2] and x[2] is not None:
                b = jv(x[1][1], y[1][1], (name, 'b'))
                r = UNDEF if b == UNDEF else self.normptr(('p', ('d', b), x[2]))
                joined[k] = r
                return r
            if x[0] == 's' and isinstance(x[1], tuple) and len(x[1]) == 3 and x[1][0] == 'j' and x[1][1] == tag:
                r = x
            else:
                r = ('s', ('j', tag, name))
            # one name never stands for two different pairs of values
            if r in claimed:
                r = ('s', ('j', tag, name))
                while r in claimed:
                    name = (name, 'x')
                    r = ('s', ('j', tag, name))
            claimed.add(r)
            la, ha, na = self.rng(A, x)
            lb, hb, nb = self.rng(B, y)
            lo = None if la is None or lb is None else min(la, lb)
            hi = None if ha is None or hb is None else max(ha, hb)
            if widen:
                if lo is not None and (la is None or lo < la):
                    lo = 0 if lo >= 0 else None
                if hi is not None and (ha is None or hi > ha):
                    hi = None
            nz = na and nb
            if (lo, hi, nz) != FULL:
                newfacts[r] = (lo, hi, nz)
            else:
                newfacts[r] = None
            for m in self.bitmasks:
                # known bits survive a join
                bk = ('b', 'and', r, ('c', m), 32)
                newfacts[bk] = None
                ba = self.binop(A, 'and', x, ('c', m), 32)
                bb = self.binop(B, 'and', y, ('c', m), 32)
                if ba is not None and bb is not None and ba[0] != 'undef' and bb[0] != 'undef':
                    ta, tb = self.truth(A, ba), self.truth(B, bb)
                    if ta is not None and ta == tb:
                        newfacts[bk] = (None, None, True) if ta else (0, 0, False)
            joined[k] = r
            return r

        for i, e in enumerate(R.envs):
            eb = B.envs[i]
            for k in list(e):
                if k not in eb:
                    del e[k]
                    continue
                e[k] = jv(e[k], eb[k], ('e', i, k))
        nm = {}
        for obj, d in A.mem.items():
            db = B.mem.get(obj)
            if db is None:
                continue
            nd = {}
            for k, v in d.items():
                w = db.get(k)
                if w is None:
                    z = db.get('Z')
                    if k != 'Z' and z is not None and z[0] <= k and k + v[1] <= z[1]:
                        w = (C0, v[1])
                    else:
                        continue
                if k == 'Z':
                    if v == w:
                        nd['Z'] = v
                    continue
                if v[1] != w[1]:
                    continue
                nd[k] = (jv(v[0], w[0], ('m', obj, k)), v[1])
            if 'Z' in nd:
                # entries present only in B shadow the zero range
                for k, w in db.items():
                    if k != 'Z' and k not in d:
                        nd[k] = (jv(C0, w[0], ('m', obj, k)), w[1])
            nm[obj] = nd
        if self.joinheap:
            # two pointers became one: so does what they point at
            done = set()
            for rnd in range(2):
                for (x, y), r in list(joined.items()):
                    if r[0] != 's' or (x, y) in done:
                        continue
                    done.add((x, y))
                    if ('d', r) in B.mem and y != r:
                        continue
                    dx = A.mem.get(('d', x)) if x[0] == 's' else (A.mem.get(x[1]) if x[0] == 'p' and x[2] == 0 else None)
                    dy = B.mem.get(('d', y)) if y[0] == 's' else (B.mem.get(y[1]) if y[0] == 'p' and y[2] == 0 else None)
                    if dx and y == C0:
                        # NULL points at nothing
                        nm[('d', r)] = dict(dx)
                        continue
                    if dy and x == C0:
                        nm[('d', r)] = dict(dy)
                        continue
                    if not dx or not dy:
                        continue
                    nd = {}
                    for k, v in dx.items():
                        w = dy.get(k)
                        if k == 'Z' or w is None or v[1] != w[1]:
                            continue
                        nd[k] = (jv(v[0], w[0], ('m', ('d', r), k)), v[1])
                    if nd:
                        nm[('d', r)] = nd
        R.mem = nm
        nf = {}
        for k, v in A.facts.items():
            w = B.facts.get(k)
            if isinstance(v, tuple):
                la, ha, na = v
                lb, hb, nb = self.rng(B, k)
                lo = None if la is None or lb is None else min(la, lb)
                hi = None if ha is None or hb is None else max(ha, hb)
                if widen:
                    if lo != la:
                        lo = None
                    if hi != ha:
                        hi = None
                if (lo, hi, na and nb) != FULL:
                    nf[k] = (lo, hi, na and nb)
            elif w == v:
                nf[k] = v
            elif w is None and k[0] == 'cmp' and self.truth(B, k) is v:
                nf[k] = v
        for k, v in newfacts.items():
            if v is None:
                nf.pop(k, None)
            else:
                nf[k] = v
        # a comparison that held of both values holds of the joined one
        xs = {}
        for (x, y), r in joined.items():
            if r[0] == 's' and x[0] in ('s', 'p', 'b'):
                xs.setdefault(x, []).append((y, r))
        if xs:
            for k, v in A.facts.items():
                if k[0] != 'cmp' or v not in (True, False):
                    continue
                for i in (2, 3):
                    o = k[5 - i]
                    if k[i] not in xs or o in xs or o == UNDEF:
                        continue
                    for y, r in xs[k[i]]:
                        if self.truth(B, self.mkcmp(k[1], *((y, o) if i == 2 else (o, y)), k[4])) is v:
                            n = self.mkcmp(k[1], *((r, o) if i == 2 else (o, r)), k[4])
                            if n[0] == 'cmp':
                                nf[n] = v
        R.facts = nf
        if self.mon:
            self.mon.join_flags(A, B, R, jv)
        return R

    def _joinsyms(self, st, tag):
        acc = set()

        def scan(v):
            if not isinstance(v, tuple):
                return
            if len(v) == 2 and v[0] == 's' and isinstance(v[1], tuple) and len(v[1]) == 3 and v[1][0] == 'j' and v[1][1] == tag:
                acc.add(v)
                return
            for y in v:
                if isinstance(y, tuple):
                    scan(y)
        for e in st.envs:
            for v in e.values():
                scan(v)
        for obj, d in st.mem.items():
            scan(obj)
            for k, v in d.items():
                if k != 'Z':
                    scan(v[0])
        for k in st.facts:
            scan(k)
        for k, v in st.flags.items():
            scan(k)
            scan(v)
        return acc

    # ------------------------------------------------------------ running
    def call(self, fn, st, args, callins=None, callfn=None):
        """effect of calling fn: list of (state, retval, kind).

        The callee is analysed on the part of the store it can reach, under
        canonical names, and the outcome is remembered: the same abstract
        situation is analysed once, wherever it arises."""
        fn.prep()
        self.funcs_seen.add(fn.name)
        if len(self.stack) > self.MAXDEPTH or any(c[1] == fn.name for c in self.stack):
            raise AnalysisError('recursion through %s' % fn.name)
        callid = callins['id'] if callins is not None else -1
        # ---- reachable part
        fwd, order, inobjs = {}, [], []

        def name(v):
            if v in fwd:
                return
            k = (v[0], ('in', len(fwd)))
            fwd[v] = k
            order.append(v)

        work = []

        def visit(v):
            acc = []
            orderatoms(v, acc)
            for x in acc:
                if x[0] == 'd':
                    if x not in seenobj:
                        seenobj.add(x)
                        work.append(x)
                    continue
                if x[0] in ('g',):
                    if x not in seenobj:
                        seenobj.add(x)
                        work.append(x)
                    continue
                if x not in fwd:
                    name(x)
                    o = ('d', x) if x[0] == 's' else x
                    if o not in seenobj:
                        seenobj.add(o)
                        work.append(o)
        seenobj = set()
        for v in args:
            visit(v)
        for k in sorted(st.flags, key=repr):
            v = st.flags[k]
            if isinstance(v, tuple):
                visit(v)
            if isinstance(k, tuple):
                visit(k)
        for o in st.mem:
            if o[0] == 'g' and o not in seenobj:
                seenobj.add(o)
                work.append(o)
        i = 0
        while i < len(work):
            o = work[i]
            i += 1
            d = st.mem.get(o)
            if d:
                for k in sorted(x for x in d if x != 'Z'):
                    visit(d[k][0])
        # complex-address objects whose atoms are all reachable
        for o in st.mem:
            if o[0] == 'd' and o not in seenobj:
                acc = []
                orderatoms(o[1], acc)
                if acc and all(x in fwd for x in acc):
                    seenobj.add(o)
                    work.append(o)
                    j = i
                    while j < len(work):
                        d = st.mem.get(work[j])
                        j += 1
                        if d:
                            for k in sorted(x for x in d if x != 'Z'):
                                visit(d[k][0])
                    i = j
        memo = {}

        def f(v):
            return remap(v, fwd, None, memo)
        R = State()
        R.envs = [{}]
        for v in order:
            R.envs[0][fwd[v]] = fwd[v] if v[0] == 's' else ('p', fwd[v], 0)
        refs = {}
        for o in work:
            d = st.mem.get(o)
            if d:
                for k, e in d.items():
                    if k != 'Z' and e[0][0] == 's':
                        refs[e[0]] = refs.get(e[0], 0) + 1
        argset = set(args)
        taken = set(work)
        for o in work:
            d = st.mem.get(o)
            if d:
                nd = {}
                for k, e in d.items():
                    if k == 'Z':
                        nd[k] = e
                        continue
                    v = e[0]
                    if v[0] == 's' and o[0] == 'd' and refs[v] == 1 and v not in argset and v not in st.facts \
                            and ('d', v) not in st.mem and v not in st.tok and not self.keepsym(st, v):
                        continue
                    nd[k] = (f(v), e[1])
                if nd:
                    R.mem[f(o)] = nd
        infacts = []
        for k, v in st.facts.items():
            acc = []
            orderatoms(k, acc)
            if all(x in fwd or x[0] in ('g', 'd') for x in acc) and acc:
                R.facts[f(k)] = v
        for k, v in st.tok.items():
            if k in fwd or k in taken:
                R.tok[f(k)] = self.tok_in(v)
        R.flags = {(f(k) if isinstance(k, tuple) else k): (f(v) if isinstance(v, tuple) else v) for k, v in st.flags.items()}
        cargs = tuple(f(v) for v in args)
        key = (fn.name, cargs, frozenset((o, frozenset(d.items())) for o, d in R.mem.items()),
               frozenset(R.facts.items()), frozenset(R.tok.items()), frozenset(R.flags.items()))
        res = self.cache.get(key)
        if res is None:
            self.stack = self.stack + (((callfn.loc(callins) if callins is not None else 'root') + ' -> ' + fn.name, fn.name),)
            ctx0, loop0, v0 = self.ctx, self.loopflag, self.vcur
            self.ctx = (fn.name,)
            self.loopflag = False
            self.vcur = {}
            r = self.analyse(fn, R, cargs)
            res = (r, list(self.vcur.values()))
            self.ctx, self.loopflag, self.vcur = ctx0, loop0, v0
            self.stack = self.stack[:-1]
            self.cache[key] = res
            self.nsum += 1
            self.analysed.add(fn.name)
        res, vs = res
        if vs:
            here = (callfn.loc(callins) + ' ' + callfn.name if callins is not None else 'root') + ' -> ' + fn.name
            for v in vs:
                self.addv(v[:4] + (v[4] + (here,),) + ((st.trace + v[5])[-60:],))
        # ---- back to the caller's names
        inv = {v: k for k, v in fwd.items()}
        created = set()
        for s, rv, kind in res:
            self.created(s, rv, created)
        tagc = (callfn.name if callfn is not None else '', callid)
        if self.loopflag and created:
            for c in created:
                t = (c[0], ('r', tagc, c[1]))
                if st.mentions(t):
                    ren = [(t, (c[0], (t[1], 'prev')))]
                    if st.mentions(ren[0][1]):
                        old = (c[0], (t[1], 'old'))
                        ren.insert(0, (ren[0][1], old))
                    for x, y in ren:
                        st.rename(x, y)
                        if y[1][1] == 'old':
                            for k in [k for k in st.facts if self._mentions(k, y)]:
                                del st.facts[k]
                        inv = {k: subst(v, x, y) for k, v in inv.items()}
                        taken = {subst(o, x, y) for o in taken}
        out = []
        for s, rv, kind in res:
            m2 = {}

            def g(v):
                return remap(v, inv, tagc, m2)
            n = State.__new__(State)
            n.envs = list(st.envs)
            n.envs[-1] = dict(n.envs[-1])
            n.mem = {o: d for o, d in st.mem.items() if o not in taken}
            for o, d in s.mem.items():
                if d:
                    n.mem[g(o)] = {k: ((g(e[0]), e[1]) if k != 'Z' else e) for k, e in d.items()}
            n.facts = dict(st.facts)
            ok = True
            for k, v in s.facts.items():
                k2 = g(k)
                if isinstance(v, tuple):
                    if k2[0] in ('c', 'p', 'fn', 'undef'):
                        continue
                    o = n.facts.get(k2)
                    if isinstance(o, tuple):
                        lo = v[0] if o[0] is None else (o[0] if v[0] is None else max(o[0], v[0]))
                        hi = v[1] if o[1] is None else (o[1] if v[1] is None else min(o[1], v[1]))
                        v = (lo, hi, o[2] or v[2])
                n.facts[k2] = v
            n.tok = {k: v for k, v in st.tok.items() if k not in fwd and k not in taken}
            # objects that were passed keep their identity even after renaming
            for k, v in s.tok.items():
                n.tok[g(k)] = self.tok_out(v, fn, k, callfn, callins)
            n.flags = {(g(k) if isinstance(k, tuple) else k): (g(v) if isinstance(v, tuple) else v) for k, v in s.flags.items()}
            n.trace = (st.trace + s.trace)[-60:]
            out.append((n, g(rv) if rv is not None else None, kind))
        return out

    def keepsym(self, st, v):
        return False

    def tok_in(self, v):
        return v

    def tok_out(self, v, fn, obj, callfn, callins):
        return v

    @staticmethod
    def created(s, rv, acc):
        def scan(v):
            if not isinstance(v, tuple) or not v:
                return
            t = v[0]
            if t in ('s', 'a', 'h', 'pg'):
                if not (isinstance(v[1], tuple) and v[1] and v[1][0] == 'in'):
                    acc.add(v)
                return
            if t in ('c', 'fn', 'undef', 'g'):
                return
            for y in v[1:]:
                if isinstance(y, tuple):
                    scan(y)
        for o, d in s.mem.items():
            scan(o)
            for k, e in d.items():
                if k != 'Z':
                    scan(e[0])
        for k in s.facts:
            scan(k)
        for k in s.tok:
            scan(k)
        for k, v in s.flags.items():
            scan(k)
            scan(v)
        if rv is not None:
            scan(rv)

    def analyse(self, fn, st, args):
        st = st.copy()
        env = {}
        for a, v in zip(fn.args, args):
            env[a['id']] = v
        st.envs.append(env)
        inscc = self.scc(fn)
        exits = []
        tables = {}
        visits = {}
        heap = []
        cnt = 0
        ctxid = self.ctx

        def push(b, prev, s):
            nonlocal cnt
            # phis
            phis = []
            for ins in fn.blocks[b]:
                if ins['op'] != 'phi':
                    break
                for v, pb in ins['in']:
                    if pb == prev:
                        phis.append((ins['id'], self.val(s, v)))
                        break
            e = s.envs[-1]
            for k, v in phis:
                e[k] = v
            live = fn.livein[b]
            s.envs[-1] = {k: v for k, v in e.items() if k in live}
            if len(fn.pred[b]) > 1 or b in fn.heads:
                self.gc(s)
                k = self.key(s)
                if fn.boolids and b not in fn.heads:
                    # what a condition kept in a variable says is not forgotten
                    k = (k, tuple((i, v) for i, v in sorted(s.envs[-1].items(), key=repr) if i in fn.boolids and v[0] == 'c'))
                tb = tables.setdefault(b, {})
                lst = tb.setdefault(k, [])
                for x in lst:
                    if x.same(s):
                        return
                limit = 1 if b in fn.heads else self.K
                if len(lst) >= limit:
                    vk = (b, k)
                    if visits.get(vk, 0) > 60:
                        raise AnalysisError('no fixpoint in %s block %d' % (fn.name, b))
                    A = lst[-1]
                    J = self.join(A, s, (fn.name, b), visits.get(vk, 0) > 3 and b in self.scc(fn))
                    self.gc(J)
                    J.trace = A.trace
                    if J.same(A):
                        return
                    visits[vk] = visits.get(vk, 0) + 1
                    lst[-1] = J
                    s = J
                else:
                    lst.append(s)
                s = s.copy()
            cnt += 1
            heapq.heappush(heap, (fn.rpo.get(b, 1 << 30), cnt, b, s))

        cnt += 1
        heapq.heappush(heap, (0, cnt, 0, st))
        while heap:
            _, _, b, s = heapq.heappop(heap)
            self.loopflag = b in inscc
            self.block(fn, b, s, push, exits)
        # drop the frame
        out = []
        for s, rv, kind in exits:
            s.envs.pop()
            dead = [o for o in s.mem if o[0] == 'a' and not (isinstance(o[1], tuple) and o[1][0] == 'in')]
            for o in dead:
                del s.mem[o]
            out.append((s, rv, kind))
        return self.merge_exits(out, fn, ctxid)

    EXITK = 1

    def merge_exits(self, out, fn, ctxid):
        groups = {}
        order = []
        for s, rv, kind in out:
            # expose the return value during gc
            s.envs[-1] = dict(s.envs[-1])
            s.envs[-1]['ret'] = rv if rv is not None else C0
            self.gc(s)
            lo, hi, nz = self.rng(s, rv) if rv is not None and rv[0] not in ('undef', 'nullgep') else FULL
            rc = (lo, hi, nz) if (lo is not None and lo == hi) else ('nz' if nz else ('sgn', lo is not None and lo >= 0, hi is not None and hi <= 0))
            k = (kind, rc, self.key(s))
            if k not in groups:
                groups[k] = []
                order.append(k)
            lst = groups[k]
            if any(x.same(s) for x in lst):
                continue
            if len(lst) >= self.EXITK:
                A = lst[-1]
                J = self.join(A, s, (fn.name, 'exit'), False)
                J.trace = A.trace
                lst[-1] = J
            else:
                lst.append(s)
        res = []
        for k in order:
            for s in groups[k]:
                s.envs[-1] = dict(s.envs[-1])
                rv = s.envs[-1].pop('ret')
                res.append((s, rv, k[0]))
        return res

    def scc(self, fn):
        if not hasattr(fn, '_scc'):
            # blocks on a cycle
            n = len(fn.blocks)
            reach = [set() for _ in range(n)]
            for b in range(n):
                st = list(fn.succ[b])
                while st:
                    x = st.pop()
                    if x in reach[b]:
                        continue
                    reach[b].add(x)
                    st += fn.succ[x]
            fn._scc = {b for b in range(n) if b in reach[b]}
        return fn._scc

    def block(self, fn, b, st, push, exits):
        self.run(fn, b, 0, st, push, exits)

    def run(self, fn, b, start, st, push, exits):
        insts = fn.blocks[b]
        i = start
        n = len(insts)
        while i < n:
            ins = insts[i]
            op = ins['op']
            self.steps += 1
            if self.steps > self.MAXSTEPS:
                raise AnalysisError('analysis budget exceeded in %s' % fn.name)
            if op == 'phi':
                i += 1
                continue
            if op in ('call', 'invoke'):
                res = self.docall(fn, ins, st)
                if op == 'invoke':
                    for s, rv, kind in res:
                        if kind == 'unwind':
                            push(ins['unwind'], b, s)
                        else:
                            s.envs[-1][ins['id']] = rv if rv is not None else UNDEF
                            push(ins['normal'], b, s)
                    return
                cont = []
                for s, rv, kind in res:
                    if kind == 'unwind':
                        exits.append((s, None, 'unwind'))
                    else:
                        s.envs[-1][ins['id']] = rv if rv is not None else UNDEF
                        cont.append(s)
                if not cont:
                    return
                for s in cont[1:]:
                    self.run(fn, b, i + 1, s, push, exits)
                st = cont[0]
                i += 1
                continue
            if op == 'select':
                # decided like a branch, so that both values stay tied to the condition
                c, x, y = (self.val(st, o) for o in ins['ops'])
                if c[0] not in ('undef', 'nullgep') and x != y and self.truth(st, c) is None:
                    s1 = st.copy()
                    r1 = self.assume(s1, c, True)
                    r2 = self.assume(st, c, False)
                    if r1 is not None:
                        r1.envs[-1][ins['id']] = x
                    if r2 is not None:
                        r2.envs[-1][ins['id']] = y
                    if r1 is None and r2 is None:
                        return
                    if r1 is not None and r2 is not None:
                        self.run(fn, b, i + 1, r1, push, exits)
                        st = r2
                    else:
                        st = r1 if r1 is not None else r2
                    i += 1
                    continue
            if op == 'br':
                if 'cond' not in ins:
                    push(ins['succ'][0], b, st)
                    return
                c = self.val(st, ins['cond'])
                t, f = ins['succ']
                if c[0] in ('undef', 'nullgep'):
                    push(t, b, st.copy())
                    push(f, b, st)
                    return
                s1 = st.copy()
                r1 = self.assume(s1, c, True)
                r2 = self.assume(st, c, False)
                if r1 is not None:
                    push(t, b, r1)
                if r2 is not None:
                    push(f, b, r2)
                return
            if op == 'switch':
                c = self.val(st, ins['cond'])
                rest = st
                for cv, tgt in ins['cases']:
                    s1 = rest.copy()
                    if c[0] == 'undef':
                        push(tgt, b, s1)
                        continue
                    cc = self.mkcmp('eq', c, ('c', cv), 32)
                    r1 = self.assume(s1, cc, True)
                    if r1 is not None:
                        push(tgt, b, r1)
                    if self.assume(rest, cc, False) is None:
                        rest = None
                        break
                if rest is not None:
                    push(ins['default'], b, rest)
                return
            if op == 'ret':
                rv = self.val(st, ins['ops'][0]) if ins.get('ops') else None
                if self.mon:
                    self.mon.on_ret(self, st, fn, ins, rv)
                exits.append((st, rv, 'ret'))
                return
            if op == 'unreachable':
                return
            if op == 'resume':
                exits.append((st, None, 'unwind'))
                return
            v = self.simple(fn, ins, st)
            if v == 'dead':
                return
            if v is not None:
                st.envs[-1][ins['id']] = v
            i += 1

    # ------------------------------------------------------------ simple insts
    def simple(self, fn, ins, st):
        op = ins['op']
        if op == 'alloca':
            obj = ('a', (fn.name, ins['id']))
            st.mem.pop(obj, None)
            return ('p', obj, 0)
        if op == 'getelementptr':
            b = self.val(st, ins['base'])
            off = ins['off']
            if ins['var']:
                for v, stride in ins['var']:
                    x = self.val(st, v)
                    lo, hi, _ = self.rng(st, x) if x[0] not in ('undef', 'nullgep') else FULL
                    if lo is not None and lo == hi:
                        off += lo * stride
                    else:
                        off = None
                        break
            if self.mon:
                r = self.mon.on_gep(self, st, fn, ins, b)
                if r is not None:
                    return r
            return self.gepval(st, b, off)
        if op == 'load':
            p = self.val(st, ins['ops'][0])
            d = self.deref(st, fn, ins, p, 'load')
            if d == 'null':
                return 'dead'
            if d is None:
                return self.fresh(st, self.site(fn, ins))
            obj, off = d
            if self.mon:
                r = self.mon.on_load(self, st, fn, ins, obj, off)
                if r is not None:
                    return r
            if off is not None:
                v = st.read(obj, off, ins['size'])
                if v is not None:
                    return v
                if obj[0] == 'g' and off == 0:
                    g = self.mod.globals.get(obj[1])
                    if g and g.get('const') and 'init' in g:
                        return ('c', g['init'])
            v = self.fresh(st, self.site(fn, ins))
            if off is not None:
                # fresh() may have renamed obj
                p = self.val(st, ins['ops'][0])
                d2 = self.deref(st, fn, ins, p, 'load')
                if d2 not in (None, 'null'):
                    obj, off = d2
                    dd = dict(st.mem.get(obj) or {})
                    cl = [k for k, e in dd.items() if k != 'Z' and k < off + ins['size'] and off < k + e[1]]
                    if all(off <= k and k + dd[k][1] <= off + ins['size'] for k in cl):
                        for k in cl:        # bytes written one by one, now read as one value
                            del dd[k]
                        dd[off] = (v, ins['size'])
                        st.mem[obj] = dd
            return v
        if op == 'store':
            v = self.val(st, ins['ops'][0])
            p = self.val(st, ins['ops'][1])
            d = self.deref(st, fn, ins, p, 'store')
            if d == 'null':
                return 'dead'
            if d is None:
                return None
            obj, off = d
            if self.mon:
                r = self.mon.on_store(self, st, fn, ins, obj, off, v)
                if r == 'dead':
                    return 'dead'
            if off is None:
                r = self.array_range(fn, st, ins['ops'][1], obj)
                if r is not None:
                    st.kill(obj, *r)
                    return None
            st.write(obj, off, ins['size'], v)
            return None
        if op == 'icmp':
            a = self.val(st, ins['ops'][0])
            b = self.val(st, ins['ops'][1])
            if a[0] in ('undef', 'nullgep') or b[0] in ('undef', 'nullgep'):
                return self.fresh(st, self.site(fn, ins))
            o = ins['ops']
            w = 64
            for x in o:
                if isinstance(x, dict) and 'w' in x:
                    w = x['w']
                elif isinstance(x, int):
                    k, dd = fn.defs[x]
                    t = dd['ty']
                    if t[0] == 'i' and t[1:].isdigit():
                        w = int(t[1:])
            c = self.mkcmp(ins['pred'], a, b, w)
            if c is None or depth(c) > 7:
                return self.fresh(st, self.site(fn, ins))
            if c[0] == 'cmp':
                t = self.truth(st, c)
                if t is not None:
                    return ('c', 1 if t else 0)
            return c
        if op in ('zext', 'sext', 'trunc', 'bitcast', 'ptrtoint', 'inttoptr', 'addrspacecast', 'freeze'):
            a = self.val(st, ins['ops'][0])
            return self.cast(fn, ins, st, op, a)
        if op == 'select':
            c = self.val(st, ins['ops'][0])
            a = self.val(st, ins['ops'][1])
            b = self.val(st, ins['ops'][2])
            if c[0] not in ('undef', 'nullgep'):
                t = self.truth(st, c)
                if t is True:
                    return a
                if t is False:
                    return b
            if a == b:
                return a
            return self.fresh(st, self.site(fn, ins))
        if op in ('add', 'sub', 'mul', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr', 'udiv', 'sdiv', 'urem', 'srem'):
            a = self.val(st, ins['ops'][0])
            b = self.val(st, ins['ops'][1])
            w = int(ins['ty'][1:]) if ins['ty'][0] == 'i' and ins['ty'][1:].isdigit() else 64
            if self.mon:
                self.mon.on_binop(self, st, fn, ins, op, a, b)
            r = self.binop(st, op, a, b, w)
            if r is None or depth(r) > 6:
                return self.fresh(st, self.site(fn, ins))
            return r
        if op == 'extractvalue':
            a = self.val(st, ins['ops'][0])
            if a[0] == 'agg' and len(ins['idx']) == 1:
                return a[1][ins['idx'][0]] if ins['idx'][0] < len(a[1]) else UNDEF
            return self.fresh(st, self.site(fn, ins))
        if op == 'landingpad':
            return self.fresh(st, self.site(fn, ins))
        # anything else: unknown scalar
        if ins['ty'] != 'void':
            return self.fresh(st, self.site(fn, ins))
        return None

    def cast(self, fn, ins, st, op, a):
        if a[0] in ('undef', 'nullgep'):
            return a
        tw = int(ins['ty'][1:]) if ins['ty'][0] == 'i' and ins['ty'][1:].isdigit() else 64
        fw = int(ins['from'][1:]) if ins.get('from', 'p')[0] == 'i' and ins['from'][1:].isdigit() else 64
        if op in ('bitcast', 'ptrtoint', 'inttoptr', 'addrspacecast', 'freeze'):
            return a
        if op == 'sext':
            if a[0] == 'cmp':
                return self.binop(st, 'sub', C0, a, tw) or self.fresh(st, self.site(fn, ins))
            return a
        if op == 'zext':
            if a[0] == 'c':
                return ('c', uns(a[1], fw))
            if a[0] == 'cmp':
                return a
            if a[0] in ('zx',):
                return a
            lo, hi, nz = self.rng(st, a)
            if lo is not None and lo >= 0:
                return a
            if depth(a) > 5:
                return self.fresh(st, self.site(fn, ins))
            return ('zx', a, fw)
        if op == 'trunc':
            if a[0] == 'c':
                return ('c', wrap(a[1], tw))
            if a[0] == 'zx' and a[2] == tw:
                return a[1]
            if a[0] == 'cmp':
                return a
            lo, hi, nz = self.rng(st, a)
            if lo is not None and hi is not None and -(1 << (tw - 1)) <= lo and hi < (1 << (tw - 1)):
                return a
            if depth(a) > 5:
                return self.fresh(st, self.site(fn, ins))
            return ('tr', a, tw)
        return a

    def binop(self, st, op, a, b, w):
        if a[0] in ('undef', 'nullgep') or b[0] in ('undef', 'nullgep'):
            return UNDEF
        if a[0] == 'c' and b[0] == 'c':
            x, y = a[1], b[1]
            try:
                if op == 'add': r = x + y
                elif op == 'sub': r = x - y
                elif op == 'mul': r = x * y
                elif op == 'and': r = x & y
                elif op == 'or': r = x | y
                elif op == 'xor': r = x ^ y
                elif op == 'shl': r = x << y if 0 <= y < w else None
                elif op == 'lshr': r = uns(x, w) >> y if 0 <= y < w else None
                elif op == 'ashr': r = x >> y if 0 <= y < w else None
                elif op == 'udiv': r = uns(x, w) // uns(y, w)
                elif op == 'urem': r = uns(x, w) % uns(y, w)
                elif op == 'sdiv':
                    r = abs(x) // abs(y)
                    r = r if (x < 0) == (y < 0) else -r
                elif op == 'srem':
                    r = abs(x) % abs(y)
                    r = r if x >= 0 else -r
                else:
                    r = None
            except ZeroDivisionError:
                r = None
            if r is None:
                return None
            return ('c', wrap(r, w))
        if op in ('add', 'mul', 'and', 'or', 'xor') and a[0] == 'c':
            a, b = b, a
        if a[0] == 'p' or b[0] == 'p':
            if op == 'sub' and a[0] == 'p' and b[0] == 'p' and a[1] == b[1] and a[2] is not None and b[2] is not None:
                return ('c', a[2] - b[2])
            if op in ('add', 'sub') and a[0] == 'p' and b[0] == 'c':
                d = b[1] if op == 'add' else -b[1]
                return ('p', a[1], None if a[2] is None else a[2] + d)
            return None
        if b[0] == 'c':
            k = b[1]
            if k == 0:
                if op in ('add', 'sub', 'or', 'xor', 'shl', 'lshr', 'ashr'):
                    return a
                if op in ('mul', 'and'):
                    return C0
            if op == 'sub':
                op, k = 'add', wrap(-k, w)
                b = ('c', k)
            if op == 'add' and a[0] == 'b' and a[1] == 'add' and a[3][0] == 'c' and a[4] == w:
                s = wrap(a[3][1] + k, w)
                return a[2] if s == 0 else ('b', 'add', a[2], ('c', s), w)
            if op == 'mul' and k == 1:
                return a
            if op == 'and':
                if k == -1 or (a[0] == 'zx' and k == (1 << a[2]) - 1):
                    return a
                if a[0] == 'b' and a[1] == 'and' and a[3][0] == 'c':
                    m = a[3][1] & k
                    return C0 if m == 0 else ('b', 'and', a[2], ('c', m), w)
                if a[0] == 'b' and a[1] == 'or' and a[3][0] == 'c':
                    if uns(a[3][1], w) & uns(k, w) == 0:
                        return self.binop(st, 'and', a[2], b, w)
                    if uns(k, w) & ~uns(a[3][1], w) == 0:
                        return ('c', wrap(k, w))
            if op == 'or' and a[0] == 'b' and a[1] == 'or' and a[3][0] == 'c':
                return ('b', 'or', a[2], ('c', wrap(a[3][1] | k, w)), w)
            if op == 'xor' and a[0] == 'cmp' and (k & 1):
                return ('cmp', self.NEG[a[1]], a[2], a[3], a[4])
        if op == 'sub' and a == b:
            return C0
        if op == 'and' and a == b:
            return a
        return ('b', op, a, b, w)

    def array_range(self, fn, st, op, obj):
        """bytes of obj a subscript of a declared array can denote"""
        for _ in range(4):
            if not isinstance(op, int):
                return None
            k, g = fn.defs[op]
            if k != 'ins' or g['op'] != 'getelementptr':
                return None
            if g['var']:
                src = g.get('src', '')
                if len(g['var']) != 1 or not src.startswith('[') or g['path']:
                    return None
                n = int(src[1:].split(' ')[0])
                b = self.val(st, g['base'])
                if b[0] == 's':
                    b = ('p', ('d', b), 0)
                if b[0] != 'p' or b[1] != obj or b[2] is None:
                    return None
                return b[2] + g['off'], b[2] + g['off'] + n * g['var'][0][1]
            op = g['base']
        return None

    # ------------------------------------------------------------ calls
    def callee_name(self, fn, ins, st):
        c = ins['callee']
        if isinstance(c, dict) and 'g' in c:
            return c['g'], None
        v = self.val(st, c)
        if v[0] == 'fn':
            return v[1], None
        return None, v

    def docall(self, fn, ins, st):
        name, tgt = self.callee_name(fn, ins, st)
        args = [self.val(st, a) for a in ins['ops']]
        if name is None:
            ikey = self.indirect_key(fn, ins)
            self.calls_seen.add((fn.name, ins['id'], str(ikey)))
            m = self.models.get(('indirect', ikey)) if ikey else None
            if m is None:
                m = self.models.get('indirect')
            if m is not None:
                r = m(self, st, fn, ins, args, ikey)
                if r is not None:
                    return r
            return self.opaque(fn, ins, st, args, '<indirect>')
        self.calls_seen.add((fn.name, ins['id'], name))
        if name.startswith('llvm.'):
            return self.intrinsic(fn, ins, st, name, args)
        m = self.models.get(name)
        if m is not None:
            r = m(self, st, fn, ins, args, name)
            if r is not None:
                return r
        f = self.mod.funcs.get(name)
        if f is not None and not f.decl and self.inline_pred(f):
            return self.call(f, st, args, ins, fn)
        if ins.get('noreturn'):
            return []
        return self.opaque(fn, ins, st, args, name)

    def indirect_key(self, fn, ins):
        """('struct', 'field') when the callee was loaded from a struct member"""
        c = ins['callee']
        if not isinstance(c, int):
            return None
        k, d = fn.defs[c]
        if k != 'ins' or d['op'] != 'load':
            return None
        p = d['ops'][0]
        if not isinstance(p, int):
            return None
        k, g = fn.defs[p]
        if k != 'ins':
            return None
        if g['op'] == 'getelementptr' and g['path']:
            s, idx = g['path'][-1]
            so = self.mod.structs.get(s)
            if so:
                return (s.lstrip('%').replace('struct.', ''), self.mod.field_name(s, so['offs'][idx]))
        return None

    def intrinsic(self, fn, ins, st, name, args):
        if name.startswith('llvm.memcpy') or name.startswith('llvm.memmove'):
            return self.memcpy(fn, ins, st, args)
        if name.startswith('llvm.memset'):
            return self.memset(fn, ins, st, args)
        if ins['ty'] == 'void':
            return [(st, None, 'ret')]
        return [(st, self.fresh(st, self.site(fn, ins)), 'ret')]

    def memcpy(self, fn, ins, st, args):
        dst, src, ln = args[0], args[1], args[2]
        d = self.deref(st, fn, ins, dst, 'memcpy dst')
        s = self.deref(st, fn, ins, src, 'memcpy src')
        if d == 'null' or s == 'null':
            lo, hi, nz = self.rng(st, ln) if ln[0] not in ('undef',) else FULL
            if lo == 0 and hi == 0:
                return [(st, None, 'ret')]
            return []
        if self.mon:
            self.mon.on_memcpy(self, st, fn, ins, dst, src, ln, d, s)
        if d is not None:
            obj, off = d
            n = ln[1] if ln[0] == 'c' else None
            if off is None:
                st.kill(obj, None, None)
            else:
                ent = []
                if n is not None and s is not None and s[1] is not None:
                    sd = st.mem.get(s[0]) or {}
                    for k, v in sd.items():
                        if k != 'Z' and s[1] <= k and k + v[1] <= s[1] + n:
                            ent.append((k - s[1] + off, v))
                st.kill(obj, off, None if n is None else off + n)
                if ent:
                    dd = dict(st.mem.get(obj) or {})
                    for k, v in ent:
                        dd[k] = v
                    st.mem[obj] = dd
        return [(st, args[0], 'ret')]

    def memset(self, fn, ins, st, args):
        dst, v, ln = args[0], args[1], args[2]
        d = self.deref(st, fn, ins, dst, 'memset')
        if d == 'null':
            return []
        if self.mon:
            self.mon.on_memset(self, st, fn, ins, dst, v, ln, d)
        if d is not None:
            obj, off = d
            n = ln[1] if ln[0] == 'c' else None
            if off is None:
                st.kill(obj, None, None)
            elif v == C0 and n is not None:
                st.zero(obj, off, off + n)
            else:
                st.kill(obj, off, None if n is None else off + n)
        return [(st, args[0], 'ret')]

    def opaque(self, fn, ins, st, args, name):
        """unknown code: may write through pointer arguments, result unknown"""
        self.unknown_ext.add(name)
        for a in args:
            if a[0] == 'p' and a[1][0] in ('a', 'h') :
                st.kill(a[1], a[2] if a[2] is not None else None, None)
        rv = None
        if ins['ty'] != 'void':
            rv = self.fresh(st, self.site(fn, ins))
        return [(st, rv, 'ret')]


class Monitor:
    root_objs = ()

    def on_null(self, eng, st, fn, ins, what): pass
    def on_load(self, eng, st, fn, ins, obj, off): return None
    def on_store(self, eng, st, fn, ins, obj, off, v): return None
    def on_gep(self, eng, st, fn, ins, base): return None
    def on_binop(self, eng, st, fn, ins, op, a, b): pass
    def on_memcpy(self, eng, st, fn, ins, dst, src, ln, d, s): pass
    def on_memset(self, eng, st, fn, ins, dst, v, ln, d): pass
    def on_ret(self, eng, st, fn, ins, rv): pass
    def key_flags(self, st): return st.flags
    def join_flags(self, A, B, R, jv): pass

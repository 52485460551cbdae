"""Extent of every write: pages and caller's buffers of the C layer.

The table and page layers are lowered as one program with everything inlined
into the calls of the interface. Every pointer and length is a linear form over
the values read from memory, counters and page sizes. At each store or copy
whose target lies in a page (or in a buffer of the caller) the obligation is
that the extent lies within the page (the length the caller gave). It is decided
by linear inequalities: the branch conditions that dominate the place, the
alternatives of each merge, and relations that hold for every round of a loop
(kept only if the first entry establishes and each round preserves them)."""
import os, re
from math import gcd
from border import isconst, Trace
import lib

K = lambda c: ((), c)


class At(tuple):
    """an atom: equal only to itself"""
    __hash__ = object.__hash__
    __eq__ = object.__eq__
    __ne__ = object.__ne__


_AT = {}


def mk(t):
    if type(t) is At:
        return t
    r = _AT.get(t)
    if r is None:
        r = At(t)
        r.i = len(_AT)
        _AT[t] = r
    return r


def atom(t):
    return (((mk(t), 1),), 0)


def ladd(a, b, k=1):
    if not b[0]:
        return (a[0], a[1] + k * b[1])
    d = dict(a[0])
    for x, c in b[0]:
        v = d.get(x, 0) + k * c
        if v:
            d[x] = v
        else:
            d.pop(x, None)
    return (tuple(sorted(d.items(), key=lambda t: t[0].i)), a[1] + k * b[1])


def lmul(a, k):
    return (tuple((x, c * k) for x, c in a[0]) if k else (), a[1] * k)


BS = mk(('bsize',))
MAXC = 600


# ---------------------------------------------------------------- linear inequalities (>= 0)
def tight(d, c):
    g = 0
    for v in d.values():
        g = gcd(g, abs(v))
    if g > 1:
        d = {k: v // g for k, v in d.items()}
        c = c // g          # floor: integers
    return d, c


def feasible(cs, model=False):
    """cs: list of linear forms >= 0 over the integers, decided over the rationals with rounding.
    False: no solution. With model: an integer solution or None"""
    cur = []
    seen = set()
    for f in cs:
        d, c = tight(dict(f[0]), f[1])
        if not d:
            if c < 0:
                return False
            continue
        k = (frozenset(d.items()), c)
        if k not in seen:
            seen.add(k)
            cur.append((d, c))
    hist = []
    while True:
        atoms = {}
        for d, c in cur:
            for a, v in d.items():
                p, n = atoms.get(a, (0, 0))
                atoms[a] = (p + (v > 0), n + (v < 0))
        if not atoms:
            break
        a = min(atoms, key=lambda x: (atoms[x][0] * atoms[x][1] - atoms[x][0] - atoms[x][1], x.i))
        pos = [(d, c) for d, c in cur if d.get(a, 0) > 0]
        neg = [(d, c) for d, c in cur if d.get(a, 0) < 0]
        rest = [(d, c) for d, c in cur if not d.get(a, 0)]
        hist.append((a, pos + neg))
        best = {}
        for d, c in rest:
            k = frozenset(d.items())
            best[k] = min(best.get(k, c), c)
        for dp, cp in pos:
            for dn, cn in neg:
                x, y = dp[a], -dn[a]
                d = {}
                for q, v in dp.items():
                    d[q] = d.get(q, 0) + y * v
                for q, v in dn.items():
                    d[q] = d.get(q, 0) + x * v
                d = {q: v for q, v in d.items() if v}
                d, c = tight(d, y * cp + x * cn)
                if not d:
                    if c < 0:
                        return False
                    continue
                k = frozenset(d.items())
                best[k] = min(best.get(k, c), c)
        if len(best) > MAXC:
            return None if model else True          # too many: not decided
        cur = [(dict(k), c) for k, c in best.items()]
    if not model:
        return True
    m = {}
    for a, cons in reversed(hist):
        lo, hi = None, None
        for d, c in cons:
            r = c + sum(v * m.get(q, 0) for q, v in d.items() if q != a)
            v = d[a]
            if v > 0:                       # v*a + r >= 0: a >= -r/v
                x = -(r // v)
                lo = x if lo is None else max(lo, x)
            else:
                x = r // (-v)
                hi = x if hi is None else min(hi, x)
        if lo is not None and hi is not None and lo > hi:
            return None
        m[a] = lo if lo is not None else (hi if hi is not None else 0)
    return m


def relevant(goal, facts, without=()):
    """the facts connected with the goal"""
    at = {a for a, c in goal[0] if a not in without}
    out, todo = [], [(f, {a for a, c in f[0] if a not in without}) for f in facts]
    ch = True
    while ch:
        ch = False
        nx = []
        for f, s in todo:
            if s & at:
                out.append(f)
                at |= s
                ch = True
            else:
                nx.append((f, s))
        todo = nx
    return out


# ---------------------------------------------------------------- lowering
def lower(work, pool=False):
    """table and page layer as one module, inlined into the interface -> json"""
    base = os.path.join(work.dir, 'boundsp' if pool else 'bounds')
    bcs = []
    srcs = [s for s in lib.c_sources() if (os.path.basename(s) == 'ffdb_pagepool.c') == pool]
    for s in srcs:
        o = base + os.path.basename(s) + '.bc'
        lib.sh(['clang', '-std=gnu17', '-w', '-O1', '-g', '-Xclang', '-disable-llvm-passes', '-D_FILE_OFFSET_BITS=64', '-I', os.path.dirname(s), '-emit-llvm', '-c', s, '-o', o])
        bcs.append(o)
    lib.sh(['llvm-link'] + bcs + ['-o', base + '.all.bc'])
    hdr = open(os.path.join(lib.REPO, 'filehash', 'ffdb_pagepool.h' if pool else 'ffdb_db.h')).read()
    api = sorted(set(re.findall(r'\b(_*ffdb_\w+)\s*\(', hdr)))
    lib.sh(['opt', '-force-attribute=alwaysinline', '-passes=forceattrs,function(sroa,early-cse),internalize,globaldce,always-inline,globaldce,function(sroa,early-cse<memssa>,instsimplify,early-cse<memssa>)',
            '-internalize-public-api-list=' + ','.join(api + ['__ffdb_hash_open']), base + '.all.bc', '-o', base + '.flat.bc'])
    lib.sh([lib.irdump_bin(), base + '.flat.bc', base + '.json'])
    return base + '.json'


WID = {'i1': 1, 'i8': 1, 'i16': 2, 'i32': 4, 'i64': 8, 'ptr': 8}
GET = ('ffdb_pagepool_get_page', 'ffdb_pagepool_new_page')
PUT = ('ffdb_pagepool_put_page',)


class Form:
    """linear forms of every value of one function, with alternatives of each merge"""

    def __init__(self, mod, fn, spec):
        self.mod, self.fn, self.spec = mod, fn, spec
        fn.prep()
        Trace.dominators(self)
        self._dom = {}
        self.alias, self.kept, self.round = {}, set(), 0
        self.ptrphi = set()
        self.alts = {}              # atom -> (block, {pred: lin})
        self.blockatoms = {}        # block -> [atoms]
        self.old = {}
        for k in range(12):
            self.round = k
            self.sweep()
            sig = {b: dict(m) for b, m in self.out.items()}
            if sig == self.old:
                break
            self.old = sig
        self.rounds = k + 1
        self.aliases()
        if self.alias:
            self.old = {}
            self.kept = set()
            for k in range(12):
                self.round = k
                self.sweep()
                sig = {b: dict(m) for b, m in self.out.items()}
                if sig == self.old:
                    break
                self.old = sig

    def aliases(self):
        """pointers of one merge that are equal unless one of them is null"""
        cand = {}
        for a, (b, vals) in self.alts.items():
            if a in self.ptrphi and b in self.fn.heads:
                cand.setdefault(b, []).append(a)
        for b, l in cand.items():
            for x in l:
                for y in l:
                    if x != y and x not in self.alias and y not in self.alias and self.same(atom(x), atom(y), frozenset()):
                        self.alias[x] = y

    def same(self, u, v, seen):
        if u == K(0) or u == v:
            return True
        if (u, v) in seen or len(seen) > 40:
            return (u, v) in seen
        seen = seen | {(u, v)}
        if len(u[0]) != 1 or u[1] != 0 or u[0][0][1] != 1:
            return False
        x = u[0][0][0]
        y = v[0][0][0] if len(v[0]) == 1 and v[1] == 0 and v[0][0][1] == 1 else None
        if x not in self.alts:
            return False
        b, vals = self.alts[x]
        if isinstance(b, tuple):
            return False
        other = self.alts[y][1] if y in self.alts and self.alts[y][0] == b else None
        return all(self.same(w, other.get(p, v) if other is not None else v, seen) for p, w in vals.items())

    def dom(self, a, b):
        r = self._dom.get((a, b))
        if r is None:
            r = self._dom[(a, b)] = Trace.dom(self, a, b)
        return r

    def edge(self, d, s, x):
        return Trace.edge(self, d, s, x)

    # ---- evaluation
    def opnd(self, o):
        if isinstance(o, int):
            return self.env.get(o) or atom(('u', o))
        if isinstance(o, dict):
            if 'c' in o:
                return K(o['c'])
            if 'g' in o:
                return atom(('g', o['g']))
            if o.get('null'):
                return K(0)
        if repr(o).find('null') >= 0:
            return K(0)
        return atom(('k', repr(o)))

    def sweep(self):
        fn = self.fn
        self.prev = getattr(self, 'env', {})
        self.env = {a['id']: atom(('arg', i)) for i, a in enumerate(fn.args)}
        self.out, self.obl, self.cmps, self.puts, self.caps = {}, [], {}, [], {}
        self.alts, self.blockatoms, self.getnum, self.where, self.sizes = {}, {}, {}, {}, {}
        for b in fn.order:
            mem = self.enter(b)
            for ins in fn.blocks[b]:
                self.step(b, ins, mem)
            self.out[b] = mem

    def merge(self, b, a, vals):
        """the atom of a merge; or the common value"""
        a = mk(a)
        vs = set(vals.values()) - {atom(a)}
        if len(vs) == 1 and not (self.round >= 4 and a in self.kept):
            return vs.pop()
        if self.round >= 3:
            self.kept.add(a)
        self.alts[a] = (b, vals)
        self.blockatoms.setdefault(b, []).append(a)
        return atom(self.alias.get(a, a))

    def enter(self, b):
        fn = self.fn
        preds = [p for p in fn.pred[b] if p in fn.rpo]
        if not preds:
            return {}
        ms = {}
        for p in preds:
            m = self.out.get(p) if not self.dom(b, p) else self.old.get(p)
            if m is not None:
                ms[p] = m
        keys = set().union(*ms.values()) if ms else set()
        mem = {}
        for k in keys:
            if any(x[0] == 'm' and x[1] == b for x, _ in k[0][0]):
                continue                # through a pointer that has a new value here
            vals = {p: m.get(k, atom(('val', k[0], k[1]))) for p, m in ms.items()}
            mem[k] = self.merge(b, ('m', b, k), vals)
        return mem

    @staticmethod
    def root(a):
        """(the one pointer atom of an address, rest) or None"""
        ps = [x for x, c in a[0] if c == 1 and x[0] in ('page', 'arg', 'alloca', 'heap', 'g', 'm', 'phi', 'val', 'call')]
        return ps

    def store(self, mem, a, w, v):
        for k in list(mem):
            if k[0][0] == a[0] and k != (a, w) and k[0][1] < a[1] + w and a[1] < k[0][1] + k[1]:
                del mem[k]
        mem[(a, w)] = v

    def loadv(self, mem, a, w, depth=0):
        if (a, w) in mem:
            return mem[(a, w)]
        for k in mem:
            if k[0][0] == a[0] and k[0][1] < a[1] + w and a[1] < k[0][1] + k[1]:
                if k[0][1] == a[1] and isconst(mem[k]) and w < k[1]:
                    return K(mem[k][1] & ((1 << (8 * w)) - 1))
                return atom(('part', a, w, mem[k]))
        # through a merged pointer: what each alternative holds there
        for x, c in a[0]:
            if c == 1 and x[0] in ('m', 'phi') and x in self.alts and depth < 4:
                b, vals = self.alts[x]
                r, plain = {}, True
                for p, v in vals.items():
                    m = self.out.get(p) if not self.dom(b, p) else self.old.get(p)
                    y = ladd(ladd(a, atom(x), -1), v)
                    if m is None or isconst(v):
                        continue
                    r[p] = self.loadv(m, y, w, depth + 1)
                    plain = plain and r[p] == self.raw(y, w)
                if not plain and r:
                    vs = set(r.values())
                    q = mk(('m', b, (a, w)))
                    if len(vs) == 1:
                        return vs.pop()
                    if q not in self.alts:
                        self.alts[q] = (b, r)
                        self.blockatoms.setdefault(b, []).append(q)
                    return atom(q)
        return self.raw(a, w)

    def raw(self, a, w):
        if len(a[0]) == 1 and a[1] == self.spec['bsize'] and a[0][0][1] == 1 and w == 4:
            r = a[0][0][0]
            if r[0] in ('heap', 'arg') or r[0] == 'val' and r[1][1] not in self.spec['pageptr']:
                return atom(BS)
        return atom(('val', a, w))

    def step(self, b, ins, mem):
        op, i = ins['op'], ins['id']
        E = self.env
        L = lambda k: self.opnd(ins['ops'][k])
        ln = ins.get('line', 0)
        if op == 'phi':
            vals = {}
            for v, p in ins['in']:
                if p in self.fn.rpo:
                    vals[p] = self.opnd(v) if not (isinstance(v, int) and v not in E) else (self.prev.get(v) or atom(('u', v)))
            a = mk(('phi', i))
            if ins['ty'] == 'ptr':
                self.ptrphi.add(a)
            for k in [k for k in mem if any(x is a for x, _ in k[0][0])]:
                del mem[k]              # a new value of the pointer
            E[i] = self.merge(b, a, vals)
            if ins['ty'] == 'i1':
                self.cmps.setdefault(i, ('phi', b, {p: v for v, p in ins['in']}))
        elif op == 'load':
            w = WID.get(ins['ty'], 0)
            E[i] = self.loadv(mem, L(0), w) if w else atom(('u', i))
        elif op == 'store':
            w = WID.get(ins['vty'], 0) or 8
            a = L(1)
            self.obl.append(('w', b, a, K(w), ln, ins))
            v = L(0)
            if ins['vty'] in ('i8', 'i16') and not isconst(v):
                v = v if self.narrow(v, w) else atom(('tr', v, w))
            if w == 8 and len(a[0]) == 1 and a[1] in self.spec['keeps']:
                self.sizes[id(ins)] = atom(BS) if self.spec.get('pool') else self.loadv(mem, ladd(a, K(self.spec['bsize'] - a[1])), 4)
            self.store(mem, a, w, v)
        elif op == 'getelementptr':
            r = ladd(self.opnd(ins['base']), K(ins['off']))
            for o, s in ins['var']:
                r = ladd(r, self.opnd(o), s)
            E[i] = r
        elif op in ('zext', 'sext', 'bitcast', 'freeze', 'inttoptr', 'ptrtoint'):
            E[i] = L(0)
            if ins['ops'][0] in self.cmps if isinstance(ins['ops'][0], int) else False:
                self.cmps[i] = ('same', ins['ops'][0])
        elif op == 'trunc':
            w = WID.get(ins['ty'], 0)
            v = L(0)
            if isconst(v):
                E[i] = K(v[1] & ((1 << 8 * w) - 1)) if w > 1 or ins['ty'] == 'i8' else K(v[1] & 1)
            elif w and w < 4 and not self.narrow(v, w):
                E[i] = atom(('tr', v, w))
            else:
                E[i] = v
            if ins['ty'] == 'i1':
                self.cmps[i] = ('icmp', 'ne', v, K(0))
        elif op == 'icmp':
            self.cmps[i] = ('icmp', ins['pred'], L(0), L(1))
            E[i] = atom(('u', i))
        elif op in ('and', 'or', 'xor', 'select') and ins['ty'] == 'i1':
            self.cmps[i] = (op, ins['ops'])
            E[i] = atom(('u', i))
        elif op == 'add':
            E[i] = self.wrap(ladd(L(0), L(1)), ins)
        elif op == 'sub':
            E[i] = self.wrap(ladd(L(0), L(1), -1), ins)
        elif op in ('mul', 'shl'):
            x, y = L(0), L(1)
            if op == 'shl':
                small = isconst(y) and len(x[0]) == 1 and x[1] == 0 and x[0][0][1] == 1 and self.bits(x[0][0][0]) + y[1] <= 8 * WID.get(ins['ty'], 0)
                E[i] = lmul(x, 1 << y[1]) if isconst(y) and y[1] < 40 and (isconst(x) or y[1] < 8 or small) else atom(('shl', x, y))
            elif isconst(y):
                E[i] = lmul(x, y[1])
            elif isconst(x):
                E[i] = lmul(y, x[1])
            else:
                E[i] = atom(('mul', x, y))
        elif op in ('and', 'or', 'xor', 'lshr', 'ashr', 'udiv', 'sdiv', 'urem', 'srem'):
            x, y = L(0), L(1)
            if isconst(x) and not isconst(y) and op in ('and', 'or', 'xor'):
                x, y = y, x
            if isconst(x) and isconst(y):
                f = {'and': lambda p, q: p & q, 'or': lambda p, q: p | q, 'xor': lambda p, q: p ^ q, 'lshr': lambda p, q: p >> q,
                     'ashr': lambda p, q: p >> q, 'udiv': lambda p, q: p // q if q else 0, 'sdiv': lambda p, q: p // q if q else 0,
                     'urem': lambda p, q: p % q if q else 0, 'srem': lambda p, q: p % q if q else 0}[op]
                E[i] = K(f(x[1], y[1]))
            elif op == 'and' and isconst(y) and y[1] in (1, 3, 7, 15):
                E[i] = ladd(x, lmul(atom(('udiv', x, K(y[1] + 1))), y[1] + 1), -1)
            elif op == 'and' and isconst(y) and (~y[1] & ((1 << 8 * WID.get(ins['ty'], 8)) - 1)) in (1, 3, 7, 15):
                c = (~y[1] & 15) + 1
                E[i] = lmul(atom(('udiv', x, K(c))), c)
            elif op == 'urem' and isconst(y) and 0 < y[1] < 64:
                E[i] = ladd(x, lmul(atom(('udiv', x, y)), y[1]), -1)
            elif op == 'or' and self.disjoint(x, y):
                E[i] = ladd(x, y)
            elif op == 'lshr' and isconst(y):
                E[i] = atom(('udiv', x, K(1 << y[1])))
            elif op == 'sdiv':
                E[i] = atom(('udiv', x, y))
            else:
                E[i] = atom((op, x, y))
        elif op == 'select':
            E[i] = atom(('sel', i))
            self.alts[mk(('sel', i))] = (('s', ins['ops'][0], b), {True: self.opnd(ins['ops'][1]), False: self.opnd(ins['ops'][2])})
        elif op == 'alloca':
            E[i] = atom(('alloca', i))
        elif op in ('call', 'invoke'):
            self.call(b, ins, mem)
        elif ins['ty'] != 'void':
            E[i] = atom(('u', i))

    @staticmethod
    def bits(a):
        """how many bits a number has at most"""
        if a[0] == 'val':
            return 8 * a[2]
        if a[0] == 'and' and isconst(a[2]) and a[2][1] >= 0:
            return a[2][1].bit_length()
        return 64

    def disjoint(self, x, y):
        """no bit is set in both"""
        for u, v in ((x, y), (y, x)):
            if len(u[0]) == 1 and len(v[0]) == 1 and u[1] == v[1] == 0 and v[0][0][1] == 1:
                c = u[0][0][1]
                if c > 1 and c & (c - 1) == 0 and (1 << self.bits(v[0][0][0])) <= c:
                    return True
        return False

    def narrow(self, v, w):
        """fits in w bytes anyway"""
        return isconst(v) or len(v[0]) == 1 and v[1] == 0 and v[0][0][1] == 1 and (v[0][0][0][0] in ('val', 'tr') and v[0][0][0][2] <= w)

    def wrap(self, v, ins):
        if isconst(v) and ins['ty'] in ('i32', 'i16', 'i8'):
            n = 8 * WID[ins['ty']]
            x = v[1] & ((1 << n) - 1)
            return K(x - (1 << n) if v[1] < 0 else x)
        return v

    def call(self, b, ins, mem):
        i = ins['id']
        E = self.env
        c = ins['callee'].get('g', '') if isinstance(ins['callee'], dict) else ''
        ops = [self.opnd(o) for o in ins['ops']]
        ln = ins.get('line', 0)
        w = WID.get(ins['ty'], 0)
        r = None
        if c.startswith('llvm.dbg') or c.startswith('llvm.lifetime') or c.startswith('llvm.assume'):
            return
        if re.match(r'(llvm\.mem(cpy|move)|mem(cpy|move)$)', c):
            self.obl.append(('w', b, ops[0], ops[2], ln, ins))
            self.obl.append(('r', b, ops[1], ops[2], ln, ins))
            if isconst(ops[2]) and ops[2][1] <= 512:
                for k in [k for k in mem if k[0][0] == ops[0][0] and k[0][1] < ops[0][1] + ops[2][1] and ops[0][1] < k[0][1] + k[1]]:
                    del mem[k]
                # words known in the source, or read there as words later
                for k, v in list(mem.items()):
                    if k[0][0] == ops[1][0] and ops[1][1] <= k[0][1] and k[0][1] + k[1] <= ops[1][1] + ops[2][1]:
                        self.store(mem, ladd(ops[0], K(k[0][1] - ops[1][1])), k[1], v)
            r = ops[0]
        elif re.match(r'(llvm\.memset|memset$)', c):
            self.obl.append(('w', b, ops[0], ops[2], ln, ins))
            if isconst(ops[2]) and isconst(ops[1]) and ops[1][1] == 0 and ops[2][1] <= 512:
                for k in [k for k in mem if k[0][0] == ops[0][0] and k[0][1] < ops[0][1] + ops[2][1] and ops[0][1] < k[0][1] + k[1]]:
                    del mem[k]
            r = ops[0]
        elif c in GET:
            p = mk(('page', i))
            for k in [k for k in mem if any(a == p for a, _ in k[0][0])]:
                del mem[k]
            self.getnum[p] = (self.loadv(mem, ops[1], 4), ops[2] if c == GET[0] else None)
            self.where[p] = b
            self.store(mem, ops[-1], 8, atom(p))
        elif c in PUT:
            pass
        elif c in ('malloc', 'calloc', 'realloc'):
            p = mk(('heap', i))
            self.caps[p] = ops[0] if c == 'malloc' else None
            if c == 'calloc' and (isconst(ops[0]) or isconst(ops[1])):
                self.caps[p] = lmul(ops[0], ops[1][1]) if isconst(ops[1]) else lmul(ops[1], ops[0][1])
            r = atom(p)
        elif c in ('read', 'pread', 'pread64', 'write', 'pwrite', 'pwrite64'):
            self.obl.append(('w' if 'read' in c else 'r', b, ops[1], ops[2], ln, ins))
        elif c == 'strlen':
            r = atom(('slen', ops[0]))
        elif c in ('strcpy', 'strcat'):
            if c == 'strcpy':
                self.obl.append(('w', b, ops[0], ladd(atom(('slen', ops[1])), K(1)), ln, ins))
            r = ops[0]
        elif c == 'strncpy':
            self.obl.append(('w', b, ops[0], ops[2], ln, ins))
            r = ops[0]
        elif ins['ops'] and c and not c.startswith('llvm.'):
            for k, o in enumerate(ops):
                if len(o[0]) == 1 and o[0][0][0][0] == 'alloca' and c not in ('fprintf', 'printf', 'free', '__ffdb_crc32_checksum'):
                    for q in [q for q in mem if q[0][0] == o[0]]:
                        mem[q] = atom(('out', i, q))
        m = re.match(r'llvm\.(u|s)(min|max)\.', c)
        if m:
            r = atom(('sel', i))
            x, y = ops
            pr = 'ult' if m[2] == 'min' else 'ugt'
            self.cmps[('c', i)] = ('icmp', pr, x, y)
            self.alts[mk(('sel', i))] = (('s', ('c', i), b), {True: x, False: y})
        if c in PUT:
            self.puts.append((b, ops[1], dict(mem), ln, ops[2]))
        if w:
            E[i] = r if r is not None else atom(('call', c, i))

    # ---- conditions
    INV = {'eq': 'ne', 'ne': 'eq', 'ult': 'uge', 'uge': 'ult', 'ugt': 'ule', 'ule': 'ugt', 'slt': 'sge', 'sge': 'slt', 'sgt': 'sle', 'sle': 'sgt'}

    def holds(self, c, t, out, ne, depth=0):
        """linear facts (>= 0) that hold if condition c is t; ne: forms that are not zero"""
        k = self.cmps.get(c) if not isinstance(c, dict) else None
        if k is None or depth > 6:
            return
        if k[0] == 'same':
            return self.holds(k[1], t, out, ne, depth + 1)
        if k[0] == 'icmp':
            p, x, y = k[1], k[2], k[3]
            # (cond != 0)
            if p in ('eq', 'ne') and isconst(y) and y[1] in (0, 1) and len(x[0]) == 1 and x[0][0][0][0] == 'u' and x[0][0][0][1] in self.cmps:
                return self.holds(x[0][0][0][1], (p == 'ne') == (y[1] == 0) if t else (p == 'ne') != (y[1] == 0), out, ne, depth + 1)
            self.compared(self.INV[p] if not t else p, x, y, out, ne, depth)
        elif k[0] == 'and' and t or k[0] == 'or' and not t:
            for o in k[1]:
                self.holds(o, t, out, ne, depth + 1)
        elif k[0] == 'xor' and isinstance(k[1][1], dict) and k[1][1].get('c') in (1, -1):
            self.holds(k[1][0], not t, out, ne, depth + 1)
        elif k[0] == 'select':
            c0, x, y = k[1]
            if isinstance(y, dict) and y.get('c') == 0 and t:
                self.holds(c0, True, out, ne, depth + 1)
                self.holds(x, True, out, ne, depth + 1)
            elif isinstance(x, dict) and x.get('c') in (1, -1) and not t:
                self.holds(c0, False, out, ne, depth + 1)
                self.holds(y, False, out, ne, depth + 1)
        elif k[0] == 'phi':
            # short-circuit: the constant arms exclude their edges
            live = [(p, v) for p, v in k[2].items() if not (isinstance(v, dict) and 'c' in v and bool(v['c'] & 1) != t)]
            if len(live) == 1:
                p, v = live[0]
                if not isinstance(v, dict):
                    self.holds(v, t, out, ne, depth + 1)
                f, n = self.at(p)
                out += f
                ne += n
                self.edgefacts(p, k[1], out, ne)

    def boolish(self, a, depth=0):
        """zero or one"""
        if a[0] == 'u':
            return a[1] in self.cmps
        if depth > 4 or a not in self.alts:
            return False
        return all(v in (K(0), K(1)) or len(v[0]) == 1 and v[1] == 0 and v[0][0][1] == 1 and self.boolish(v[0][0][0], depth + 1) for v in self.alts[a][1].values())

    def flags(self, fs):
        """what the facts say about the outcome of comparisons"""
        out, ne = [], []
        for f in fs:
            if len(f[0]) == 1 and f[0][0][0][0] == 'u' and f[0][0][0][1] in self.cmps:
                c, k = f[0][0][1], f[1]
                if c < 0 and k < -c:
                    self.holds(f[0][0][0][1], False, out, ne)
                elif c > 0 and k < 0:
                    self.holds(f[0][0][0][1], True, out, ne)
        return out

    def compared(self, p, x, y, out, ne, depth=0):
        d = ladd(x, y, -1)
        if p in ('eq', 'ne') and len(d[0]) == 1 and d[0][0][0] in self.alts and abs(d[0][0][1]) == 1 and depth < 6:
            # a flag: the only way it got that value
            blk, vals = self.alts[d[0][0][0]]
            z = -d[1] * d[0][0][1]
            live = [q for q, v in vals.items() if not (isconst(v) and (v[1] == z) != (p == 'eq'))]
            if len(live) == 1 and not isinstance(blk, tuple) and len(vals) > 1 and blk not in self.fn.heads:
                f, n = self.at(live[0])
                out += f
                ne += n
                self.edgefacts(live[0], blk, out, ne)
                if not isconst(vals[live[0]]):
                    self.compared(p, vals[live[0]], K(z), out, ne, depth + 1)
        if p == 'eq':
            out.append(d)
            out.append(lmul(d, -1))
        elif p == 'ne':
            ne.append(d)
            if len(d[0]) == 1 and abs(d[0][0][1]) == 1 and self.boolish(d[0][0][0]):
                z = -d[1] * d[0][0][1]
                if z == 0:
                    out.append(ladd(atom(d[0][0][0]), K(-1)))
                elif z == 1:
                    out.append(lmul(atom(d[0][0][0]), -1))
            if len(d[0]) == 1 and d[1] == 0 and self.nonneg(d[0][0][0]):
                out.append(ladd(lmul(d, 1 if d[0][0][1] > 0 else -1), K(-1)))
        elif p[1:] == 'gt':
            out.append(ladd(d, K(-1)))
        elif p[1:] == 'ge':
            out.append(d)
        elif p[1:] == 'lt':
            out.append(ladd(lmul(d, -1), K(-1)))
        elif p[1:] == 'le':
            out.append(lmul(d, -1))

    @staticmethod
    def nonneg(a):
        return a[0] in ('val', 'bsize', 'tr', 'and', 'or', 'udiv', 'urem', 'lshr', 'shl', 'part', 'slen')

    def edgefacts(self, p, s, out, ne):
        t = self.fn.blocks[p][-1]
        if t['op'] == 'br' and 'cond' in t and t['succ'][0] != t['succ'][1]:
            self.holds(t['cond'], t['succ'][0] == s, out, ne)
        elif t['op'] == 'switch':
            e = self.opnd(t['cond'])
            vals = [c for c, x in t['cases'] if x == s]
            if len(vals) == 1 and t['default'] != s:
                out.append(ladd(e, K(-vals[0])))
                out.append(ladd(K(vals[0]), e, -1))
            elif not vals:
                for c, x in t['cases']:
                    ne.append(ladd(e, K(-c)))

    def at(self, b):
        """(facts, not-zero forms) that hold in block b"""
        c = getattr(self, '_at', None)
        if c is None:
            c = self._at = {}
        if b in c:
            return c[b]
        out, ne = [], []
        c[b] = ([], [])
        x = b
        while self.idom.get(x, x) != x:
            d = self.idom[x]
            for s in self.fn.succ[d]:
                if self.edge(d, s, x):
                    self.edgefacts(d, s, out, ne)
            x = d
        c[b] = (list(dict.fromkeys(out)), list(dict.fromkeys(ne)))
        return c[b]


# ---------------------------------------------------------------- deciding
def atoms_of(f):
    return {a for a, c in f[0]}


class Prover:
    def __init__(self, form):
        self.f = form
        self.inv = {}           # loop head -> [facts]
        self._page, self._fresh, self._def = {}, {}, {}
        self.steps, self.memo = 0, {}

    # ---- what an atom is
    def pagelike(self, a, seen=()):
        if a[0] == 'page':
            return True
        if a in seen:
            return True
        if a in self._page:
            return self._page[a]
        r = False
        if a[0] in ('m', 'phi', 'sel') and a in self.f.alts:
            vs = [v for v in self.f.alts[a][1].values() if v != K(0)]
            r = bool(vs) and all(len(v[0]) == 1 and v[1] == 0 and v[0][0][1] == 1 and self.pagelike(v[0][0][0], seen + (a,)) for v in vs)
        elif a[0] == 'val' and a[2] == 8:
            r = any(a[1][1] == o for o in self.f.spec['pageptr']) and len(a[1][0]) == 1
        if not seen:
            self._page[a] = r
        return r

    def pageroot(self, addr):
        for x, c in addr[0]:
            if c == 1 and self.pagelike(x):
                return x
        return None

    def fresh(self, p):
        """the page number was just taken from the allocator"""
        if p in self._fresh:
            return self._fresh[p]
        r = False
        if p in self.f.getnum:
            r = self.allocnum(self.f.getnum[p][0], 0)
        elif p in self.f.alts:
            self._fresh[p] = False
            vs = [v for v in self.f.alts[p][1].values() if v != K(0)]
            r = bool(vs) and all(len(v[0]) == 1 and v[1] == 0 and self.fresh(v[0][0][0]) for v in vs)
        self._fresh[p] = r
        return r

    def allocnum(self, n, d):
        if d > 6 or len(n[0]) != 1 or n[1] != 0 or n[0][0][1] != 1:
            return False
        a = n[0][0][0]
        if a[0] == 'm' and a[2][1] == 4 and any(c == 4 for x, c in a[2][0][0]) and self.f.spec['alloc'][0] <= a[2][0][1] < self.f.spec['alloc'][1]:
            return True
        if a[0] in ('m', 'phi', 'sel') and a in self.f.alts:
            vs = [v for v in self.f.alts[a][1].values() if v != K(0)]
            return bool(vs) and all(self.allocnum(v, d + 1) for v in vs)
        if a[0] == 'val' and a[2] == 4:
            lo, hi = self.f.spec['alloc']
            if any(c == 4 for x, c in a[1][0]) and (lo <= a[1][1] < hi or self.pageroot(a[1]) is not None):
                return True
        return False

    def content(self, x, seen=()):
        """a number kept in a page behind its header words"""
        if x in seen:
            return True
        if x[0] == 'and' and isconst(x[2]) and len(x[1][0]) == 1 and x[1][1] == 0:
            return self.content(x[1][0][0][0], seen)
        if x[0] == 'val' and x[2] == 4:
            q = self.pageroot(x[1])
            if q is None:
                return False
            d = ladd(x[1], atom(q), -1)
            return bool(d[0]) or d[1] >= 28
        if x[0] == 'm' and x[2][1] == 4 and self.pageroot(x[2][0]) is not None:
            d = ladd(x[2][0], atom(self.pageroot(x[2][0])), -1)
            return bool(d[0]) or d[1] >= 28
        if x in self.f.alts and x[0] in ('phi', 'm', 'sel'):
            return all(len(v[0]) == 1 and v[1] == 0 and v[0][0][1] == 1 and self.content(v[0][0][0], seen + (x,)) for v in self.f.alts[x][1].values())
        return False

    # ---- facts that define an atom
    def defs(self, a):
        if a in self._def:
            return self._def[a]
        o = []
        A = atom(a)
        if Form.nonneg(a):
            o.append(A)
        if a is BS:
            o.append(ladd(A, K(-512)))
            o.append(ladd(K((1 << 32) - 1), A, -1))
        if a[0] == 'val' and a[2] <= 2:
            o.append(ladd(K((1 << 8 * a[2]) - 1), A, -1))
        if a[0] == 'and' and isconst(a[2]):
            c = a[2][1] & 0xffffffffffffffff
            m = (~c) & 0xffffffff if c >> 32 == 0 else (~c) & 0xffffffffffffffff
            if m and (m & (m + 1)) == 0 and m < 4096:       # clears low bits
                o.append(ladd(a[1], A, -1))
                o.append(ladd(ladd(A, a[1], -1), K(m)))
            else:
                o.append(ladd(K(c if a[2][1] >= 0 else (1 << 62)), A, -1))
        if a[0] == 'udiv' and isconst(a[2]) and a[2][1] > 0:
            c = a[2][1]
            o.append(ladd(a[1], lmul(A, c), -1))
            o.append(ladd(ladd(lmul(A, c), a[1], -1), K(c - 1)))
        if a[0] == 'urem' and isconst(a[2]) and a[2][1] > 0:
            o.append(ladd(K(a[2][1] - 1), A, -1))
        if a[0] == 'tr':
            o.append(ladd(a[1], A, -1))
            o.append(ladd(K((1 << 8 * a[2]) - 1), A, -1))
        adr = a[1] if a[0] == 'val' else (a[2][0] if a[0] == 'm' and isinstance(a[2], tuple) and len(a[2]) == 2 else None)
        w = a[2] if a[0] == 'val' else (a[2][1] if adr is not None else 0)
        if adr is not None:
            p = self.pageroot(adr)
            if p is not None:
                rest = ladd(adr, atom(p), -1)
                o.append(A)
                if isconst(rest) and rest[1] == 24 and w == 4:
                    o.append(ladd(ladd(atom(BS), K(-1)), A, -1))
                if w == 4 and rest[1] == 32 and rest[0] and all(c == 12 for x, c in rest[0]):
                    o.append(ladd(ladd(atom(BS), K(-59)), A, -1))
        self._def[a] = o
        return o

    def closure(self, fs, goal):
        """facts with what defines their atoms"""
        out, seen = dict.fromkeys(fs), set()
        todo = [a for a, c in goal[0]]
        for f in fs:
            todo += [a for a, c in f[0]]
        while todo:
            a = todo.pop()
            if a in seen:
                continue
            seen.add(a)
            for d in self.defs(a):
                out[d] = None
                todo += [x for x, c in d[0] if x not in seen]
            h = self.f.alts.get(a)
            if h and not isinstance(h[0], tuple) and h[0] in self.f.fn.heads and h[0] not in self.inv:
                self.inv[h[0]] = []
                self.loop(h[0])
            if h and h[0] in self.inv:
                for d in self.inv[h[0]]:
                    if d not in out:
                        out[d] = None
                        todo += [x for x, c in d[0] if x not in seen]
        return list(out)

    # ---- proof by cases
    def entails(self, facts, goal):
        if any(not f[0] and f[1] < 0 for f in facts):
            return True
        fs = relevant(goal, self.closure(relevant(goal, facts) if len(facts) > 60 else facts, goal))
        k = (goal, frozenset(fs))
        if k not in self.memo:
            self.steps += 1
            self.memo[k] = feasible(fs + [ladd(lmul(goal, -1), K(-1))]) is False
        return self.memo[k]

    def cases(self, blk, loop=False):
        """[(substitution, facts, not-zero forms)] of a merge"""
        f = self.f
        out = []
        if isinstance(blk, tuple):          # a choice by a condition
            _, c, b = blk
            for t in (True, False):
                fs, ne = [], []
                f.holds(c, t, fs, ne)
                sub = {a: f.alts[a][1][t] for a in f.alts if f.alts[a][0] == blk}
                out.append((sub, fs, ne))
            return out
        ats = f.blockatoms.get(blk, [])
        for p in f.fn.pred[blk]:
            if p not in f.fn.rpo or (f.dom(blk, p) and not loop == 'latch') or (loop == 'latch' and not f.dom(blk, p)):
                continue
            sub, dead = {}, False
            for a in ats:
                if a in f.alts:
                    v = f.alts[a][1].get(p)
                    if v is None:
                        continue
                    sub[a] = v
                    if a[0] == 'm':
                        adr, w = a[2]
                        if v[0] and len(v[0]) == 1 and v[0][0][0][0] == 'val' and v[0][0][0][1] != adr:
                            adr = v[0][0][0][1]
                        r = self.pageroot(adr)
                        if r is not None and self.fresh(r) and v == atom(('val', adr, w)) and self.before(r, p):
                            dead = True
            if dead:
                continue
            fs, ne = f.at(p)
            fs, ne = list(fs), list(ne)
            f.edgefacts(p, blk, fs, ne)
            out.append((sub, fs, ne))
        return out

    def before(self, r, p):
        """the page is there in block p"""
        b = self.f.where.get(r)
        if b is None and r in self.f.alts:
            b = self.f.alts[r][0]
            b = b[2] if isinstance(b, tuple) else b
        return b is None or self.f.dom(b, p)

    def pick(self, goal, facts, done):
        """the merge to split next: one the goal depends on"""
        f = self.f
        best = None
        for pool in (goal,), relevant(goal, facts):
            for x in pool:
                for a in self.deep(x):
                    h = f.alts.get(a)
                    if h is None:
                        continue
                    b = h[0]
                    if b in done or (not isinstance(b, tuple) and b in f.fn.heads):
                        continue
                    r = f.fn.rpo[b[2]] if isinstance(b, tuple) else f.fn.rpo[b]
                    if best is None or r > best[0]:
                        best = (r, b)
            if best:
                return best[1]
        ga = atoms_of(goal)
        for x in facts:                     # flags: what they were set from, if that says something about the goal
            if len(x[0]) == 1:
                h = f.alts.get(x[0][0][0])
                if h and not isinstance(h[0], tuple) and h[0] not in done and h[0] not in f.fn.heads and any(isconst(v) for v in h[1].values()):
                    if any(ga & atoms_of(q) for sub, fs, ne in self.cases(h[0]) for q in fs if q not in facts):
                        return h[0]
        x = self.here                       # the ways that lead there
        known, gb = set(facts), ga - {BS}
        if sum(d in self.joins for d in done) >= 3:
            return None
        while x is not None and f.idom.get(x, x) != x:
            if x not in done and x not in f.fn.heads and len(f.fn.pred[x]) > 1:
                if any(q not in known and gb & atoms_of(q) for sub, fs, ne in self.cases(x) for q in fs):
                    self.joins.add(x)
                    return x
            x = f.idom[x]
        return None

    here, joins = None, frozenset()

    @staticmethod
    def deep(t, out=None):
        """atoms of a linear form, also inside others (not inside addresses)"""
        out = set() if out is None else out
        for a, c in t[0]:
            if a in out:
                continue
            out.add(a)
            if a[0] in ('and', 'or', 'udiv', 'urem', 'tr', 'lshr', 'ashr', 'shl', 'mul', 'xor'):
                for x in a[1:]:
                    if isinstance(x, tuple):
                        Prover.deep(x, out)
        return out

    def prove(self, facts, goal, done=frozenset(), depth=0, budget=None, past=(), limit=7):
        budget = budget if budget is not None else [150]
        if isconst(goal):
            if goal[1] >= 0:
                return True
        if self.entails(facts, goal):
            return True
        self.leaf = None
        if depth > limit or budget[0] <= 0:
            return False
        b = self.pick(goal, facts, done)
        if b is None:
            self.leaf = (facts, goal, past)
            return False
        for sub, fs, ne in self.cases(b):
            budget[0] -= 1
            for m in past:
                fs = [self.sub(x, m) for x in fs]
                sub = {k: self.sub(v, m) for k, v in sub.items()}
            g = self.sub(goal, sub)
            ff = [self.sub(x, sub) for x in facts] + [self.sub(x, sub) for x in fs]
            fl = self.f.flags(ff)
            for m in past + (sub,):
                fl = [self.sub(x, m) for x in fl]
            ff = list(dict.fromkeys(ff + fl))
            if not self.prove(ff, g, done | {b}, depth + 1, budget, past + (sub,), limit):
                return False
        return True

    # ---- what was not shown: broken, or more than this analysis can say
    GIVEN = ('val', 'arg', 'bsize', 'page', 'alloca', 'heap', 'g', 'slen')

    def decide(self, kind, b, facts, goal):
        if self.prove(facts, goal):
            return 'shown', None
        self.here, self.joins = b, set()
        try:
            return self.decide2(kind, b, facts, goal)
        finally:
            self.here = None

    def decide2(self, kind, b, facts, goal):
        if self.prove(facts, goal, limit=14, budget=[1500]):
            return 'shown', None
        if self.leaf is None:
            return 'open', 'too many cases'
        facts, goal, past = self.leaf
        entry = {}
        for r in range(4):
            w = self.unclear(kind, b, facts, goal, entry)
            if w is None:
                break
            if r == 3 or w[0] != 'loop':
                return 'open', w[1]
            # the first round of the loops it lies in
            for h in sorted({self.f.alts[a][0] for a in w[2]}, key=lambda h: -self.f.fn.rpo[h]):
                cs = [c for c in self.cases(h)]
                if len(cs) != 1:
                    return 'open', w[1]
                sub, fs, ne = cs[0]
                goal = self.sub(goal, sub)
                facts = [self.sub(x, sub) for x in facts] + fs
                for k, v in sub.items():
                    if v != atom(k) and k not in entry:
                        entry[k] = v
                        facts += [ladd(v, atom(k), -1), ladd(atom(k), v, -1)]
            if self.prove(facts, goal):
                return 'open', w[1]
            if self.leaf is None:
                return 'open', 'too many cases'
            facts, goal, past = self.leaf
        for e in self.guards(b):
            if not self.clear(e):
                return 'open', 'a condition that is not a comparison'
        return 'broken', (facts, goal)

    def unclear(self, kind, b, facts, goal, entry):
        f = self.f
        rel = relevant(goal, self.closure(facts, goal), (BS,))
        loops, seen = [], set(entry)
        for t in [goal] + rel:
            for a in self.deep(t):
                if a in seen:
                    continue
                seen.add(a)
                if kind == 'buf' and a[0] in ('val', 'm') and self.counts(a):
                    return 'value', 'how many entries the pages of the file say they have'
                if a[0] in self.GIVEN or a[0] in ('and', 'or', 'udiv', 'urem', 'tr', 'lshr', 'ashr', 'shl', 'mul', 'xor'):
                    if a[0] in ('lshr', 'xor') or a[0] in ('and', 'or', 'udiv', 'urem', 'mul', 'shl') and not isconst(a[2]) or a[0] == 'or':
                        return 'value', 'a number this analysis does not follow'
                    continue
                h = f.alts.get(a)
                if h is None:
                    if t is not goal:
                        continue        # an unknown result that is compared with something
                    return 'value', 'a number this analysis does not follow'
                if a[0] == 'm' and self.pageroot(a[2][0]) is not None:
                    continue            # what some page holds there
                if isinstance(h[0], tuple) or h[0] not in f.fn.heads:
                    if t is goal:
                        return 'value', 'a number with more cases than it looks at'
                    continue
                if not f.dom(h[0], b) or not self.within(h[0], b):
                    return 'value', 'a number that depends on how often an earlier loop ran'
                if self.steps_by(a) is None:
                    loops.append(a)
        if loops:
            return 'loop', 'a number that depends on the rounds before', loops
        return None

    def counts(self, a):
        """the number of entries of a page"""
        adr, w = (a[1], a[2]) if a[0] == 'val' else a[2] if isinstance(a[2], tuple) and len(a[2]) == 2 else (None, 0)
        q = self.pageroot(adr) if w == 2 else None
        return q is not None and ladd(adr, atom(q), -1) == K(16)

    def within(self, h, b):
        """b lies in the loop of h"""
        fn = self.f.fn
        if b == h:
            return True
        c = self.__dict__.setdefault('_body', {})
        if h in c:
            return b in c[h]
        body, todo = {h}, [p for p in fn.pred[h] if p in fn.rpo and self.f.dom(h, p)]
        while todo:
            x = todo.pop()
            if x not in body:
                body.add(x)
                todo += [p for p in fn.pred[x] if p in fn.rpo]
        c[h] = body
        return b in body

    def steps_by(self, a):
        """a counter: starts somewhere and changes by one constant in each round"""
        h = self.f.alts[a][0]
        vs = {ladd(v, atom(a), -1) for p, v in self.f.alts[a][1].items() if self.f.dom(h, p)}
        return vs.pop()[1] if len(vs) == 1 and all(isconst(v) for v in vs) else None

    def guards(self, b):
        f, x = self.f, b
        while f.idom.get(x, x) != x:
            d = f.idom[x]
            for s in f.fn.succ[d]:
                if f.edge(d, s, x):
                    yield d, s
            x = d

    def clear(self, e):
        t = self.f.fn.blocks[e[0]][-1]
        if t['op'] == 'br' and 'cond' in t and t['succ'][0] != t['succ'][1]:
            out, ne = [], []
            self.f.holds(t['cond'], t['succ'][0] == e[1], out, ne)
            return bool(out or ne)
        return True

    def sub(self, t, m):
        ms = set(m)
        if not any(self.has(a, ms) for a, c in t[0]):
            return t
        r = K(t[1])
        for a, c in t[0]:
            if a in m:
                r = ladd(r, m[a], c)
            elif self.has(a, ms) and a[0] in ('and', 'or', 'udiv', 'urem', 'tr', 'lshr', 'ashr', 'shl', 'mul', 'xor'):
                r = ladd(r, atom((a[0],) + tuple(self.sub(x, m) if isinstance(x, tuple) else x for x in a[1:])), c)
            else:
                r = ladd(r, atom(a), c)
        return r

    def has(self, a, ms):
        if a in ms:
            return True
        if a[0] in ('and', 'or', 'udiv', 'urem', 'tr', 'lshr', 'ashr', 'shl', 'mul', 'xor'):
            return any(isinstance(x, tuple) and any(self.has(q, ms) for q, c in x[0]) for x in a[1:])
        return False

    def behind(self, t):
        out, todo = set(), [t]
        while todo and len(out) < 40:
            for a in self.deep(todo.pop()):
                if a not in out:
                    out.add(a)
                    h = self.f.alts.get(a)
                    if h and a[0] in ('phi', 'sel') and (isinstance(h[0], tuple) or h[0] not in self.f.fn.heads):
                        todo += list(h[1].values())
        return out

    def freeword(self, p, x):
        return x[0] == 'val' and x[2] == 4 and x[1] == ladd(atom(p), K(24)) or x[0] == 'm' and x[2] == (ladd(atom(p), K(24)), 4)

    def inner(self, b):
        """the loops a block lies in"""
        c = self.__dict__.setdefault('_inner', {})
        if b not in c:
            c[b] = frozenset(h for h in self.f.fn.heads if self.f.dom(h, b) and self.within(h, b))
        return c[b]

    # ---- loops
    def loop(self, h):
        f = self.f
        ats = [a for a in f.blockatoms.get(h, []) if a in f.alts and not self.pagelike(a) and not self.isptr(a)]
        first = self.cases(h)
        again = self.cases(h, 'latch')
        if not first or not again:
            return
        cand, fixed = [], []
        for a in list(ats):
            if all(s[0].get(a) in (atom(a), None) for s in again):      # the loop does not change it
                ats.remove(a)
                i0 = {s[0].get(a) for s in first}
                if len(i0) == 1 and None not in i0:
                    i0 = i0.pop()
                    fixed += [ladd(i0, atom(a), -1), ladd(atom(a), i0, -1)]
            elif a[0] == 'm' and self.pageroot(a[2][0]) is not None:
                ats.remove(a)
        for a in ats[:14]:
            inits = {s[0].get(a) for s in first}
            cand.append(atom(a))
            if len(inits) == 1 and None not in inits:
                i0 = inits.pop()
                cand.append(ladd(i0, atom(a), -1))
                cand.append(ladd(atom(a), i0, -1))
        for i, a in enumerate(ats[:8]):
            for b in ats[i + 1:8]:
                for k in (1, -1):
                    s = ladd(atom(a), atom(b), k)
                    inits = {self.sub(s, c[0]) for c in first}
                    if len(inits) == 1:
                        i0 = inits.pop()
                        if not (isconst(i0) and k == 1):
                            cand += [ladd(i0, s, -1), ladd(s, i0, -1)]
        cand = [c for c in dict.fromkeys(cand) if all(self.prove(fs, self.sub(c, sub), depth=5) for sub, fs, ne in first)]
        while cand:
            self.inv[h] = fixed + cand
            bad = []
            for c in cand:
                for sub, fs, ne in again:
                    if not self.prove(fs, self.sub(c, sub), depth=4, budget=[40]):
                        bad.append(c)
                        break
            if not bad:
                break
            cand = [c for c in cand if c not in bad]
        self.inv[h] = fixed + cand

    def isptr(self, a):
        if a[0] == 'm':
            return a[2][1] == 8 and any(len(v[0]) >= 1 and any(x[0] in ('page', 'alloca', 'heap', 'g') for x, c in v[0]) for v in self.f.alts[a][1].values())
        return any(any(x[0] in ('page', 'alloca', 'heap', 'g', 'arg') for x, c in v[0]) for v in self.f.alts[a][1].values())


def spec(mod):
    h = mod.field_off('htab', 'hdr')
    hs = mod.di['hashhdr']
    size = lambda n: next(x['size'] for x in hs['members'] if x['name'] == n)
    return {'bsize': h + mod.field_off('hashhdr', 'bsize'),
            'alloc': (h + min(mod.field_off('hashhdr', 'spares'), mod.field_off('hashhdr', 'free_pages')),
                      h + max(mod.field_off('hashhdr', 'spares') + size('spares'), mod.field_off('hashhdr', 'free_pages') + size('free_pages'))),
            'keeps': (mod.field_off('htab', 'split_buf'),), 'pageptr': (mod.field_off('htab', 'split_buf'), mod.field_off('_ffdb_crs_', 'item') + mod.field_off('hash_ent_', 'pagep')),
            'dhdr': mod.di['_ffdb_data_header_']['size'], 'dbts': DBTS, 'dbt': (mod.field_off('_ffdb_dbt_', 'data'), mod.field_off('_ffdb_dbt_', 'size'))}


def poolspec(mod):
    p = mod.field_off('_ffdb_bkt', 'page')
    return {'bsize': mod.field_off('_ffdb_pagepool_', 'pagesize'), 'alloc': (-2, -1), 'pageptr': (p,), 'keeps': (p,), 'anykeeper': True, 'after': mod.di['_ffdb_bkt']['size'], 'pool': True,
            'dhdr': 0, 'dbts': {}, 'dbt': (0, 8)}


ASSUME = ['a page in the file is well formed: the position of its free space and the places and lengths of its entries lie within it',
          'the page size is at least 512', 'a page number just taken from the header or a list of free pages names a page that nothing else uses',
          'sizes a caller passes are not negative, and sums of sizes do not wrap']
API = {'ffdb_set_user_info': {1: ('arg', 2)}, 'ffdb_get_user_info': {1: ('deref', 2)}}
DBTS = {'_ffdb_hash_get': (1, 2), '_ffdb_hash_put': (1, 2), '_ffdb_cursor_get': (1, 2)}


def capacity(form, x):
    """(bytes, whose) of the buffer an atom points to the start of"""
    if x[0] == 'heap':
        cap = form.caps.get(x)
        return (cap, 'the memory it allocated') if cap is not None and not isconst(cap) else None      # a constant: one object, not a buffer
    if x[0] == 'val' and x[2] == 8 and len(x[1][0]) == 1 and x[1][0][0][0][0] == 'arg' and x[1][1] == form.spec['dbt'][0] \
            and x[1][0][0][0][1] in form.spec['dbts'].get(form.fn.name, ()):
        return atom(('val', ladd(x[1], K(form.spec['dbt'][1] - form.spec['dbt'][0])), 8)), "the caller's buffer"
    if x[0] == 'arg' and x[1] in API.get(form.fn.name, {}):
        k, i = API[form.fn.name][x[1]]
        return (atom(('arg', i)) if k == 'arg' else atom(('val', atom(('arg', i)), 4))), "the caller's buffer"
    return None


def leads(form, x, seen=()):
    """a merge of pointers, one of them to a buffer"""
    if capacity(form, x):
        return True
    if x in seen or len(seen) > 12 or x not in form.alts or x[0] not in ('m', 'phi', 'sel'):
        return False
    return any(c == 1 and leads(form, y, seen + (x,)) for v in form.alts[x][1].values() for y, c in v[0])


def buffers(form, pr, kind, a, n, facts, depth):
    """[(goal, facts, what)]: the extent within the buffer it belongs to, for each pointer it can be"""
    for x, c in a[0]:
        cap = capacity(form, x) if c == 1 else None
        if cap is not None:
            rest = ladd(a, atom(x), -1)
            return [(ladd(cap[0], ladd(rest, n), -1), facts, ('writes' if kind == 'w' else 'reads') + ' past the end of ' + cap[1])]
    for x, c in a[0]:
        if c == 1 and depth < 4 and leads(form, x):
            blk = form.alts[x][0]
            if not isinstance(blk, tuple) and blk in form.fn.heads:
                continue
            out = []
            for sub, fs, ne in pr.cases(blk):
                out += buffers(form, pr, kind, pr.sub(a, sub), pr.sub(n, sub), [pr.sub(f, sub) for f in facts] + fs, depth + 1)
            return out
    return []


def obligations(form, pr):
    """[(kind, block, goal, facts, what, line, file)]"""
    out = []
    B = atom(BS)
    for kind, b, a, n, line, ins in form.obl:
        p = pr.pageroot(a)
        if p is not None:
            rest = ladd(a, atom(p), -1)
            if kind in 'wr':
                if isconst(rest) and isconst(n) and 0 <= rest[1] and rest[1] + n[1] <= 40:
                    continue                    # the words every page starts with
                ex = []
                for x, c in rest[0]:            # offsets and counts kept in a page describe that page
                    if c == 1 and pr.content(x):
                        ex.append(ladd(ladd(B, K(-form.spec['dhdr'])), atom(x), -1))
                    if c == 148 and x[0] in ('phi', 'm'):
                        ex.append(ladd(ladd(B, K(-28)), lmul(atom(('val', ladd(atom(p), K(16)), 2)), 148), -1))
                if kind == 'r' and len(n[0]) == 1 and n[1] == 0 and n[0][0][1] == 1 and pr.content(n[0][0][0]) and any(pr.content(x) for x, c in rest[0]):
                    continue                    # a key or value as the page says where it is
                fs = form.at(b)[0] + ex
                out.append(('page', b, ladd(B, ladd(rest, n), -1), fs, ('writes' if kind == 'w' else 'reads') + ' past the end of a page', line, ins.get('file', '')))
                out.append(('page', b, rest, fs, ('writes' if kind == 'w' else 'reads') + ' before the start of a page', line, ins.get('file', '')))
            continue
        out += [('buf', b) + t + (line, ins.get('file', '')) for t in buffers(form, pr, kind, a, n, form.at(b)[0], 0)]
    # memory kept as the place of a page has room for one
    for kind, b, a, n, line, ins in form.obl:
        if kind == 'w' and ins['op'] == 'store' and n == K(8) and len(a[0]) == 1 and a[1] in form.spec['keeps']:
            if form.spec.get('anykeeper') or a[0][0][0][0] in ('heap', 'arg'):
                v = form.opnd(ins['ops'][0])
                for x, c in v[0]:
                    cap = form.caps.get(x) if x[0] == 'heap' and c == 1 else None
                    if cap is not None:
                        out.append(('buf', b, ladd(ladd(cap, ladd(v, atom(x), -1), -1), form.sizes[id(ins)], -1), form.at(b)[0], 'keeps memory for a page that is shorter than a page', line, ins.get('file', '')))
    if form.spec.get('pool'):
        # a page is copied, read and written as a whole
        for kind, b, a, n, line, ins in form.obl:
            if ins['op'] != 'call' or 'memset' in ins['callee'].get('g', ''):
                continue
            x = pr.pageroot(a)
            x = a[0][0][0] if x is None and len(a[0]) == 1 and a[0][0][1] == 1 and leads(form, a[0][0][0]) else x
            if x is not None and (a == atom(x) or x[0] == 'heap' and a[1] == form.spec.get('after')) and not any(k == kind and i['op'] == 'call' and any(y == x for y, c in d[0]) and d != a for k, _, d, _, _, i in form.obl):
                out.append(('part', b, ladd(ladd(B, K(-1)), n, -1), form.at(b)[0], 'moves only a part of a page', line, ins.get('file', '')))
        return out
    # entries grow down from the end of a page, the table of their places up from its start
    table = []
    for kind, b, a, n, line, ins in form.obl:
        p = pr.pageroot(a) if kind == 'w' and n == K(4) else None
        if p is not None:
            rest = ladd(a, atom(p), -1)
            if len(rest[0]) == 1 and rest[0][0][1] == 12 and 28 <= rest[1] < 40:
                table.append((p, b, ladd(rest, K(40 - rest[1]))))
    for kind, b, a, n, line, ins in form.obl:
        p = pr.pageroot(a) if kind == 'w' else None
        if p is None:
            continue
        rest = ladd(a, atom(p), -1)
        if isconst(rest) or any(c == 12 for x, c in rest[0]) or not any(x is BS or pr.freeword(p, x) for x in pr.behind(rest)):
            continue
        R = form.fn.rpo
        near = sorted((0 if tb == b else 1 if form.dom(tb, b) else 2, abs(R[tb] - R[b]), i) for i, (q, tb, e) in enumerate(table)
                      if q == p and (form.dom(b, tb) or form.dom(tb, b)) and pr.inner(b) == pr.inner(tb))
        ends = [table[near[0][2]][2]] if near else []
        if ends:
            ex = [ladd(ladd(atom(('val', ladd(atom(p), K(24)), 4)), K(-27)), lmul(atom(('val', ladd(atom(p), K(16)), 2)), 12), -1)]
            out.append(('table', b, ladd(rest, ends[0], -1), form.at(b)[0] + ex, 'writes an entry over the table of entries of its page', line, ins.get('file', '')))
    # the word every page keeps its free space in
    for kind, b, a, n, line, ins in form.obl:
        if kind == 'w' and ins['op'] == 'store' and n == K(4):
            p = pr.pageroot(a)
            if p is not None and ladd(a, atom(p), -1) == K(24):
                v = form.opnd(ins['ops'][0])
                out.append(('inv', b, ladd(ladd(B, K(-1)), v, -1), form.at(b)[0], 'stores a free position outside of the page', line, ins.get('file', '')))
    return out

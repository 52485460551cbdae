"""What the checksum, the hash and the comparison of keys compute (P22).

Each is a loop over the bytes it is given. The loop is brought into a normal form: every counter and pointer that moves
by a constant is init + step*N in the N-th turn, the test that ends the loop gives the number of turns, every byte read has
an address base + N, and the running value goes through one step. The number of turns and the addresses have to cover
exactly the bytes given; the step is compared with the one of the format: for the checksum as a linear map over GF(2),
bit by bit, for the hash as a polynomial modulo 2^32. The table of the checksum is found by constant propagation.
What has another shape is not decided (and said so), never an alarm."""
import os
import re
import lib
from ir import Module

M32 = 0xffffffff
POLY = 0xedb88320
PRIME = 16777619


class Open(Exception):
    """not decided"""


def lower(work):
    base = os.path.join(work.dir, 'fold')
    src = [s for s in lib.c_sources() if os.path.basename(s) != 'ffdb_pagepool.c']
    bcs = []
    for s in src:
        o = base + os.path.basename(s) + '.bc'
        lib.sh(['clang', '-std=gnu17', '-w', '-O1', '-g', '-Xclang', '-disable-llvm-passes', '-D_FILE_OFFSET_BITS=64', '-I', os.path.dirname(s), '-emit-llvm', '-c', s, '-o', o])
        bcs.append(o)
    lib.sh(['llvm-link'] + bcs + ['-o', base + '.all.bc'])
    lib.sh(['opt', '-passes=function(sroa,early-cse,simplifycfg)', base + '.all.bc', '-o', base + '.all.opt.bc'])
    lib.sh([lib.irdump_bin(), base + '.all.opt.bc', base + '.all.json'])
    whole = Module(base + '.all.json')
    text = lib.sh(['llvm-dis', base + '.all.bc', '-o', '-'])
    dflt = dict(re.findall(r'^@(__ffdb_default_\w+) = .*?ptr @(\w+)', text, re.M))
    arrays = {}
    for n, w, body in re.findall(r'^@(\w+) = [^\n]*?\[\d+ x i(\d+)\] \[([^\]\n]*)\]', text, re.M):
        if re.fullmatch(r'(i\d+ -?\d+(, )?)*', body):
            arrays[n] = (int(w) // 8, [int(x) & ((1 << int(w)) - 1) for x in re.findall(r'i\d+ (-?\d+)', body)])
    roots = sorted(set(list(dflt.values()) + ['__ffdb_crc32_checksum', '__ffdb_crc32_init']))
    lib.sh(['opt', '-force-attribute=alwaysinline', '-passes=forceattrs,internalize,globaldce,always-inline,globaldce,function(sroa,early-cse,simplifycfg,loop-mssa(licm),loop-simplify,loop-unroll-full,'
            'instsimplify,simplifycfg,early-cse)', '-internalize-public-api-list=' + ','.join(roots), base + '.all.bc', '-o', base + '.bc'])
    lib.sh([lib.irdump_bin(), base + '.bc', base + '.json'])
    return whole, Module(base + '.json'), dflt, arrays


# ---------------------------------------------------------------- expressions
WID = {'i1': 1, 'i8': 8, 'i16': 16, 'i32': 32, 'i64': 64, 'ptr': 64}


def c(v, w):
    return ('c', w, v & ((1 << w) - 1))


BIN = ('add', 'sub', 'mul', 'xor', 'and', 'or', 'shl', 'lshr', 'ashr', 'udiv', 'urem')


def fold2(op, w, x, y):
    m = (1 << w) - 1
    if x[0] == 'c' and y[0] == 'c':
        a, b = x[2], y[2]
        if op in ('shl', 'lshr', 'ashr') and b >= w or op in ('udiv', 'urem') and b == 0:
            raise Open('a shift or division without a value')
        sa = a - (1 << w) if a >> (w - 1) else a
        r = {'add': a + b, 'sub': a - b, 'mul': a * b, 'xor': a ^ b, 'and': a & b, 'or': a | b}.get(op)
        if r is None:
            r = a << b if op == 'shl' else a >> b if op == 'lshr' else sa >> b if op == 'ashr' else a // b if op == 'udiv' else a % b
        return c(r & m, w)
    return (op, w, x, y)


def signed(v, w):
    return v - (1 << w) if v >> (w - 1) else v


def icmp(p, x, y):
    if x[0] == 'c' and y[0] == 'c':
        a, b, w = x[2], y[2], x[1]
        if p[0] == 's':
            a, b = signed(a, w), signed(b, w)
        r = {'eq': a == b, 'ne': a != b, 'lt': a < b, 'le': a <= b, 'gt': a > b, 'ge': a >= b}[p if p in ('eq', 'ne') else p[1:]]
        return c(int(r), 1)
    return ('icmp', 1, p, x, y)


def cast(op, w, x):
    if x[0] == 'c':
        return c(signed(x[2], x[1]) if op == 'sext' else x[2], w)
    if op == 'trunc' and x[0] in ('zext', 'sext') and x[2][1] == w:
        return x[2]
    return (op, w, x)


def leaves(e, out=None):
    out = set() if out is None else out
    if e[0] in ('arg', 'phi', 'ld', 'g', 'call'):
        out.add(e)
    for x in e[2:]:
        if isinstance(x, tuple):
            leaves(x, out)
    return out


def lin(e):
    """{leaf: factor, 1: constant}; widths are taken to be wide enough"""
    if e[0] == 'c':
        return {1: signed(e[2], e[1])} if e[2] else {}
    if e[0] in ('zext', 'sext', 'trunc'):
        x = e
        while x[0] in ('zext', 'sext', 'trunc'):
            if x[0] == 'trunc' and x[1] < 32 and not (x[2][0] in ('zext', 'sext') and x[2][2][1] <= x[1]):
                return {e: 1}
            x = x[2]
        return lin(x)
    if e[0] in ('add', 'sub'):
        return ladd(lin(e[2]), lin(e[3]), 1 if e[0] == 'add' else -1)
    if e[0] == 'mul' and e[3][0] == 'c':
        return {k: v * signed(e[3][2], e[3][1]) for k, v in lin(e[2]).items()}
    if e[0] == 'mul' and e[2][0] == 'c':
        return {k: v * signed(e[2][2], e[2][1]) for k, v in lin(e[3]).items()}
    return {e: 1}


def ladd(a, b, k=1):
    r = dict(a)
    for x, v in b.items():
        r[x] = r.get(x, 0) + k * v
        if not r[x]:
            del r[x]
    return r


# ---------------------------------------------------------------- one function as paths around one loop
class Fun:
    def __init__(self, mod, name):
        self.mod, self.name = mod, name
        f = self.fn = mod.funcs.get(name)
        if f is None or f.decl:
            raise Open('%s is not there' % name)
        f.prep()
        heads = sorted(f.heads)
        if len(heads) > 1:
            raise Open('%s has more than one loop' % name)
        self.head = heads[0] if heads else None
        self.paths = []
        env = {a['id']: ('arg', WID.get(a['ty'], 64), i) for i, a in enumerate(f.args)}
        self.phis = {}
        self.walk(0, None, env, [], [], 'entry')
        if self.head is not None:
            e2 = {}
            inits = [p for p in self.paths if p['end'] == 'head']
            if not inits:
                raise Open('%s never reaches its loop' % name)
            for ins in f.blocks[self.head]:
                if ins['op'] == 'phi':
                    e2[ins['id']] = ('phi', WID.get(ins['ty'], 64), ins['id'])
                    self.phis[ins['id']] = [p['vals'][ins['id']] for p in inits]
            base = [p['env'] for p in inits]
            common = {k: v for k, v in base[0].items() if all(b.get(k) == v for b in base)}
            if len(base) > 1 and any(k not in common for b in base for k in b if any(k == o for blk in f.order for i in f.blocks[blk] for o in i.get('ops', []) if not isinstance(o, dict))
                                     and k not in common and self.usedin(k)):
                raise Open('%s enters its loop in more than one way' % name)
            common.update(e2)
            self.walk(self.head, None, common, [], [], 'loop')

    def usedin(self, k):
        f = self.fn
        seen, todo = set(), [self.head]
        while todo:
            b = todo.pop()
            if b in seen:
                continue
            seen.add(b)
            todo += f.succ[b]
        return any(o == k for b in seen for i in f.blocks[b] for o in list(i.get('ops', [])) + [i.get('base')] + [x for x, s in i.get('var', [])])

    def val(self, o, env):
        if isinstance(o, dict):
            if 'c' in o:
                return c(o['c'], o.get('w', 64))
            if 'g' in o:
                return ('g', 64, o['g'])
            if o.get('null') or 'null' in o:
                return c(0, 64)
            return ('call', 64, 'undef', 0)
        if o not in env:
            raise Open('a value is not known')
        return env[o]

    def walk(self, b, prev, env, conds, reads, frm):
        f = self.fn
        while True:
            if b == self.head and (prev is not None or frm == 'entry'):
                vals = {}
                for ins in f.blocks[b]:
                    if ins['op'] == 'phi':
                        vals[ins['id']] = self.val(next(v for v, p in ins['in'] if p == prev), env)
                self.paths.append(dict(frm=frm, end='head', vals=vals, env=env, conds=conds, reads=reads))
                if len(self.paths) > 400:
                    raise Open('too many paths')
                return
            env = dict(env)
            news = {}
            for ins in f.blocks[b]:
                if ins['op'] != 'phi':
                    break
                if b == self.head:
                    continue
                news[ins['id']] = self.val(next(v for v, p in ins['in'] if p == prev), env)
            env.update(news)
            for ins in f.blocks[b]:
                op = ins['op']
                if op == 'phi':
                    continue
                if op == 'br':
                    if 'cond' not in ins:
                        prev, b = b, ins['succ'][0]
                        break
                    q = self.val(ins['cond'], env)
                    if q[0] == 'c':
                        prev, b = b, ins['succ'][0 if q[2] else 1]
                        break
                    if (q, True) in conds or (q, False) in conds:
                        prev, b = b, ins['succ'][0 if (q, True) in conds else 1]
                        break
                    self.walk(ins['succ'][1], b, env, conds + [(q, False)], reads, frm)
                    conds = conds + [(q, True)]
                    prev, b = b, ins['succ'][0]
                    break
                if op == 'ret':
                    self.paths.append(dict(frm=frm, end='ret', val=self.val(ins['ops'][0], env) if ins.get('ops') else None, conds=conds, reads=reads, line=ins.get('line', 0)))
                    return
                if op == 'unreachable':
                    return
                reads = self.step(ins, env, reads)
            else:
                raise Open('a block without an end')

    def step(self, ins, env, reads):
        op, w = ins['op'], WID.get(ins['ty'], 0)
        v = lambda k: self.val(ins['ops'][k], env)
        i = ins['id']
        if op in BIN:
            env[i] = fold2(op, w, v(0), v(1))
        elif op == 'icmp':
            env[i] = icmp(ins['pred'], v(0), v(1))
        elif op in ('zext', 'sext', 'trunc'):
            env[i] = cast(op, w, v(0))
        elif op in ('ptrtoint', 'inttoptr', 'freeze', 'bitcast'):
            env[i] = v(0)
        elif op == 'select':
            q = v(0)
            env[i] = (v(1) if q[2] else v(2)) if q[0] == 'c' else ('select', w, q, v(1), v(2))
        elif op == 'getelementptr':
            r = self.val(ins['base'], env)
            if ins['off']:
                r = fold2('add', 64, r, c(ins['off'], 64))
            for o, s in ins['var']:
                x = self.val(o, env)
                x = x if x[1] == 64 else cast('sext', 64, x)
                r = fold2('add', 64, r, fold2('mul', 64, x, c(s, 64)) if s != 1 else x)
            env[i] = r
        elif op == 'load':
            if not w:
                raise Open('a load that is not a number')
            env[i] = ('ld', w, v(0))
            reads = reads + [(env[i], ins.get('line', 0))]
        elif op == 'call':
            g = ins['callee'].get('g', '') if isinstance(ins['callee'], dict) else ''
            if g.startswith('llvm.dbg') or g.startswith('llvm.lifetime'):
                return reads
            m = re.match(r'llvm\.([us])(min|max)\.', g)
            if m:
                p = m[1] + ('lt' if m[2] == 'min' else 'gt')
                env[i] = ('select', w, icmp(p, v(0), v(1)), v(0), v(1))
            elif w:
                env[i] = ('call', w, g, i) + tuple(self.val(o, env) for o in ins['ops'])
        elif op == 'store':
            raise Open('%s stores into memory' % self.name)
        else:
            raise Open('operation ' + op)
        return reads

    # ---- the loop
    def forms(self):
        """counters and pointers that move by a constant: phi -> (init, step)"""
        self.ind = {}
        for p, inits in self.phis.items():
            ph = ('phi', self.phiw(p), p)
            steps = set()
            for q in self.paths:
                if q['frm'] == 'loop' and q['end'] == 'head':
                    d = ladd(lin(q['vals'][p]), {ph: 1}, -1)
                    steps.add(d.get(1, 0) if set(d) <= {1} else None)
            il = [lin(x) for x in inits]
            if len(steps) == 1 and None not in steps and all(x == il[0] for x in il):
                self.ind[ph] = (il[0], steps.pop())

    def phiw(self, p):
        return next(WID.get(i['ty'], 64) for i in self.fn.blocks[self.head] if i['id'] == p)

    def n(self, e):
        """linear form with N, the number of turns before"""
        r = {}
        for k, v in (e if isinstance(e, dict) else lin(e)).items():
            if k in self.ind:
                a, s = self.ind[k]
                r = ladd(r, a, v)
                r = ladd(r, {'N': s}, v) if s else r
            else:
                r = ladd(r, {k: 1}, v)
        return r

    def turns(self, cond, t):
        """cond holding as t lets the loop go on: number of turns, or None"""
        if cond[0] != 'icmp':
            return None
        p, x, y = cond[2:]
        if not t:
            p = {'eq': 'ne', 'ne': 'eq', 'ult': 'uge', 'uge': 'ult', 'ugt': 'ule', 'ule': 'ugt', 'slt': 'sge', 'sge': 'slt', 'sgt': 'sle', 'sle': 'sgt'}[p]
        d = ladd(self.n(x), self.n(y), -1)
        k = d.pop('N', 0)
        if k == 0 or any(isinstance(a, tuple) and any(l in self.ind or l[0] == 'phi' for l in leaves(a)) for a in d):
            return None
        if abs(k) > 1:
            return {'several at once': 1}
        rest = {a: -v * k for a, v in d.items()}        # d = 0 at N = rest
        q = p if p in ('eq', 'ne') else p[1:]
        if q == 'ne' or q == 'lt' and k == 1 or q == 'gt' and k == -1:
            return rest
        if q == 'le' and k == 1 or q == 'ge' and k == -1:
            return ladd(rest, {1: 1})
        return None

    def split(self):
        """(turns, latch paths, paths that end the loop, by its test / otherwise)"""
        self.forms()
        latch = [p for p in self.paths if p['frm'] == 'loop' and p['end'] == 'head']
        exits = [p for p in self.paths if p['frm'] == 'loop' and p['end'] == 'ret']
        T = None
        for p in latch:
            ts = [(x, self.turns(*x)) for x in p['conds']]
            ts = [(x, t) for x, t in ts if t is not None]
            if len(ts) != 1:
                raise Open('the test that ends the loop is not recognised')
            if T is not None and T != ts[0][1]:
                raise Open('the loop has several tests')
            T, cond = ts[0][1], ts[0][0]
        if T is None:
            raise Open('no loop')
        done = [p for p in exits if (cond[0], not cond[1]) in p['conds']]
        return T, cond, latch, done, [p for p in exits if p not in done]


def show(d):
    def nm(k):
        if k == 1:
            return ''
        if k[0] == 'arg':
            return 'argument %d' % (k[2] + 1)
        if k[0] == 'ld':
            return 'a stored length'
        return k[0]
    return ' + '.join(('%d' % v if k == 1 else ('' if v == 1 else '%d*' % v) + nm(k)) for k, v in d.items()) or '0'


# ---------------------------------------------------------------- the table of the checksum
class Const:
    """constant propagation through a function without inputs"""

    def __init__(self, mod, name, arrays):
        self.f = Fun.__new__(Fun)
        self.f.mod, self.f.name, self.f.fn = mod, name, mod.funcs[name]
        fn = self.f.fn
        fn.prep()
        self.mem, self.order, self.arrays = {}, [], arrays
        self.mod = mod
        env, b, prev, n = {}, 0, None, 0
        while b is not None:
            new = {}
            for ins in fn.blocks[b]:
                if ins['op'] == 'phi':
                    new[ins['id']] = self.f.val(next(v for v, p in ins['in'] if p == prev), env)
            env.update(new)
            for ins in fn.blocks[b]:
                n += 1
                if n > 200000:
                    raise Open('the table is not built in a bounded number of steps')
                op = ins['op']
                if op == 'phi':
                    continue
                if op == 'br':
                    if 'cond' in ins:
                        q = self.f.val(ins['cond'], env)
                        if q[0] != 'c':
                            raise Open('building the table depends on something unknown')
                        prev, b = b, ins['succ'][0 if q[2] else 1]
                    else:
                        prev, b = b, ins['succ'][0]
                    break
                if op in ('ret', 'unreachable'):
                    b = None
                    break
                if op == 'switch':
                    raise Open('a switch')
                if op == 'load':
                    env[ins['id']] = self.load(self.f.val(ins['ops'][0], env), WID[ins['ty']])
                elif op == 'store':
                    g, o = self.at(self.f.val(ins['ops'][1], env))
                    v = self.f.val(ins['ops'][0], env)
                    if v[0] != 'c':
                        raise Open('a value of the table is not constant')
                    self.mem[(g, o)] = v
                    self.order.append((g, o, ins.get('line', 0)))
                elif op == 'call':
                    g = ins['callee'].get('g', '') if isinstance(ins['callee'], dict) else ''
                    if g.startswith('llvm.dbg') or g.startswith('llvm.lifetime'):
                        continue
                    raise Open('building the table calls ' + g)
                else:
                    self.f.step(ins, env, [])

    def at(self, a):
        d = lin(a)
        gs = [k for k in d if isinstance(k, tuple) and k[0] == 'g']
        if len(gs) != 1 or set(d) - {gs[0], 1} or d[gs[0]] != 1:
            raise Open('an address is not constant')
        return gs[0][2], d.get(1, 0)

    def load(self, a, w):
        g, o = self.at(a)
        if (g, o) in self.mem:
            return self.mem[(g, o)]
        if g in self.arrays:
            s, l = self.arrays[g]
            if o % s == 0 and o // s < len(l) and s * 8 == w:
                return c(l[o // s], w)
            raise Open('a table is read beside its elements')
        G = self.mod.globals.get(g)
        if G is None:
            raise Open('an unknown object')
        return c(G.get('init', 0) or 0, w)


# ---------------------------------------------------------------- GF(2)
class Bits:
    """a value as linear forms of the bits of its inputs; bit 63 of a form: the constant one"""
    ONE = 1 << 63

    def __init__(self, leaf, table):
        self.leaf, self.table = leaf, table

    def num(self, v, w):
        return [self.ONE if v >> k & 1 else 0 for k in range(w)]

    def __call__(self, e):
        op, w = e[0], e[1]
        if e in self.leaf:
            return list(self.leaf[e])
        if op == 'c':
            return self.num(e[2], w)
        if op in ('xor', 'and', 'or', 'add', 'sub', 'mul'):
            x, y = self(e[2]), self(e[3])
            z = lambda v: all(b in (0, self.ONE) for b in v)
            if op == 'xor':
                return [a ^ b for a, b in zip(x, y)]
            if op == 'and':
                r = []
                for a, b in zip(x, y):
                    if a in (0, self.ONE) or b in (0, self.ONE):
                        r.append(0 if a == 0 or b == 0 else b if a == self.ONE else a)
                    elif a == b:
                        r.append(a)
                    else:
                        raise Open('not linear')
                return r
            if op in ('or', 'add') and all(a == 0 or b == 0 for a, b in zip(x, y)):
                return [a ^ b for a, b in zip(x, y)]
            if op == 'sub' and z(x) and not any(x) and not any(y[1:]):
                return [y[0]] * w
            if op == 'mul':
                for a, b in ((x, y), (y, x)):
                    if not any(a[1:]) and z(b):
                        return [a[0] if k else 0 for k in b]
            raise Open('not linear')
        if op in ('shl', 'lshr', 'ashr'):
            if e[3][0] != 'c' or e[3][2] >= w:
                raise Open('a shift that is not constant')
            x, k = self(e[2]), e[3][2]
            if op == 'shl':
                return [0] * k + x[:w - k]
            return x[k:] + ([0] if op == 'lshr' else [x[-1]]) * k
        if op in ('zext', 'sext', 'trunc'):
            x = self(e[2])
            return x[:w] if op == 'trunc' else x + ([0] if op == 'zext' else [x[-1]]) * (w - len(x))
        if op == 'icmp' and e[2] in ('eq', 'ne') and e[4][0] == 'c':
            x = self(e[3])
            x = [a ^ (self.ONE if e[4][2] >> k & 1 else 0) for k, a in enumerate(x)]
            nz = [a for a in x if a]
            if len(nz) == 1:
                return [nz[0] ^ (self.ONE if e[2] == 'eq' else 0)]
            raise Open('not linear')
        if op == 'select':
            q, x, y = self(e[2])[0], self(e[3]), self(e[4])
            r = []
            for a, b in zip(x, y):
                d = a ^ b
                if d not in (0, self.ONE):
                    raise Open('not linear')
                r.append(b ^ (q if d else 0))
            return r
        if op == 'ld':
            d = lin(e[2])
            gs = [k for k in d if isinstance(k, tuple) and k[0] == 'g']
            ix = [k for k in d if isinstance(k, tuple) and k[0] != 'g']
            if len(gs) == 1 and len(ix) == 1 and d.get(1, 0) == 0 and d[gs[0]] == 1 and gs[0][2] in self.table:
                s, T = self.table[gs[0][2]]
                if d[ix[0]] != s or s * 8 != w:
                    raise Open('the table is read beside its elements')
                x = self(ix[0])
                n = max([k for k, a in enumerate(x) if a] or [0]) + 1
                if 1 << n > len(T):
                    raise Open('the table may be read outside')
                if any(T[i] ^ T[0] ^ T[i & -i] ^ T[i ^ (i & -i)] for i in range(1, 1 << n)):
                    return self.nonlinear(T)
                r = self.num(T[0], w)
                for k in range(n):
                    t = T[1 << k] ^ T[0]
                    r = [a ^ (x[k] if t >> j & 1 else 0) for j, a in enumerate(r)]
                return r
        raise Open('an expression that is not followed: ' + op)

    def nonlinear(self, T):
        raise Differs('its table is not the one of CRC-32')


class Differs(Exception):
    pass


def crcstep(a, b):
    """one byte of CRC-32 on linear forms"""
    r = [x ^ (b[k] if k < 8 else 0) for k, x in enumerate(a)]
    for _ in range(8):
        low = r[0]
        r = r[1:] + [0]
        r = [x ^ (low if POLY >> k & 1 else 0) for k, x in enumerate(r)]
    return r


def bytes_of(F, path, base):
    """the bytes of the buffer read on a path: [(leaf, place as a form of N, line)]"""
    out = []
    for e, line in path['reads']:
        d = F.n(e[2])
        if d.get(base, 0) == 1:
            out.append((e, ladd(d, {base: 1}, -1), line))
    return out


def byteplace(e, at, line, what):
    if e[1] != 8:
        raise Open('more than a byte is read at once')
    if at != {'N': 1}:
        if set(at) <= {'N', 1}:
            raise Differs('%s looks at byte %s in turn N' % (what, ' + '.join(('%d*N' % v if v != 1 else 'N') if k == 'N' else str(v) for k, v in at.items()) or '0'))
        raise Open('the place of a byte is not followed')


def total(T, u, want, what):
    got = ladd(T, {1: u}) if u else T
    if got != want:
        d = ladd(got, want, -1)
        if set(d) <= {1}:
            raise Differs('%s handles %s bytes than it is given' % (what, ('%d more' if d[1] > 0 else '%d fewer') % abs(d[1])))
        ln = list(want)[0]
        for v in SAMPLES:
            g = number(got, {ln: c(v, ln[1])})
            if g is not None and g != v:
                raise Differs('%s handles %d bytes if it is given %d' % (what, g, v))
        raise Open('the number of bytes handled is not followed')


SAMPLES = (1, 2, 3, 5, 7, 16, 63, 64, 65, 255, 256, 257, 1000, 4096, 4097, 65535, 65536, 65537, 1 << 20, (1 << 24) + 1, (1 << 31) - 1)


def number(d, env):
    r = 0
    for k, v in d.items():
        if k == 1:
            r += v
        elif not isinstance(k, tuple):
            return None
        else:
            try:
                x = value(k, env)
            except Open:
                return None
            if x[0] != 'c':
                return None
            r += v * signed(x[2], x[1])
    return r


def zerolen(p, ln):
    """the path is only taken if there is nothing to do"""
    for q, t in p['conds']:
        if q[0] == 'icmp':
            d = ladd(lin(q[3]), lin(q[4]), -1)
            pr = q[2]
            if d in ({ln: 1}, {ln: -1}) and (pr == 'eq' and t or pr == 'ne' and not t):
                return True
            if d == {ln: 1} and (pr in ('sle', 'ule') and t or pr in ('sgt', 'ugt') and not t or pr == 'slt' and t):
                return True
            if d == {ln: 1, 1: -1} and (pr in ('slt', 'ult') and t or pr in ('sge', 'uge') and not t):
                return True
    return False


def pure(F):
    for p in F.paths:
        for x in [p.get('val')] + list(p.get('vals', {}).values()) + [q for q, t in p['conds']]:
            for l in (leaves(x) if x is not None else ()):
                if l[0] == 'call' and l[2] in ('time', 'rand', 'random', 'getpid', 'clock', 'pthread_self', 'lrand48', 'drand48'):
                    raise Differs('it depends on %s()' % l[2])


def checksum(mod, name, table):
    F = Fun(mod, name)
    pure(F)
    if F.head is None:
        raise Open('no loop')
    if len(F.fn.args) != 3:
        raise Open('other arguments')
    crc, buf, ln = ('arg', 32, 0), ('arg', 64, 1), ('arg', WID.get(F.fn.args[2]['ty'], 64), 2)
    T, cond, latch, done, other = F.split()
    for p in other:
        b = {e for e, at, line in bytes_of(F, p, buf)}
        if any(leaves(q) & b and not any(l[0] == 'ld' and l not in b for l in leaves(q)) for q, t in p['conds']):
            raise Differs('the loop over the bytes ends at a byte with a certain value')
        raise Open('the loop has another way out')
    accs = [('phi', F.phiw(p), p) for p in F.phis if ('phi', F.phiw(p), p) not in F.ind]
    if len(accs) != 1 or accs[0][1] != 32:
        raise Open('the running value is not recognised')
    A = accs[0]
    # the running value is the register of the checksum, possibly with some bits inverted
    ev = Bits({crc: [1 << k for k in range(32)]}, table)
    inits = [ev(x) for x in F.phis[A[2]]]
    dlt = 0
    for k in range(32):
        d = inits[0][k] ^ (1 << k)
        if d not in (0, Bits.ONE) or any(i[k] != inits[0][k] for i in inits):
            raise Differs('it does not start from the checksum so far') if all(x == crc or not (leaves(x) - {crc}) for x in F.phis[A[2]]) else Open('start')
        dlt |= (0 if d else 1) << k
    reg = [(1 << k) ^ (Bits.ONE if dlt >> k & 1 else 0) for k in range(32)]      # the register
    byt = [1 << (32 + k) for k in range(8)]
    want = crcstep(reg, byt)
    back = lambda r: [a ^ (Bits.ONE if dlt >> k & 1 else 0) for k, a in enumerate(r)]
    n = 0
    for p in latch:
        bs = bytes_of(F, p, buf)
        extra = [q for q in p['conds'] if q != cond]
        if len({e for e, a, l in bs}) == 0:
            if extra:
                raise Open('a turn that reads no byte')
            raise Differs('a turn of its loop reads no byte')
        if len({e for e, a, l in bs}) != 1:
            raise Open('several bytes in one turn')
        byteplace(*bs[0], 'it')
        lf = {A: [1 << k for k in range(32)], bs[0][0]: list(byt)}
        got = Bits(lf, table)(p['vals'][A[2]])
        w = back(want)
        if got != w:
            if extra:
                raise Open('a step that depends on the data')
            bad = next(k for k in range(32) if got[k] != w[k])
            raise Differs('its step for one byte is not the one of CRC-32 (bit %d of the result)' % bad)
        n += 1
    neg = lambda r: [a ^ Bits.ONE for a in r]
    for p in done:
        bs = bytes_of(F, p, buf)
        lf = {A: [1 << k for k in range(32)]}
        for e, a, l in bs:
            lf[e] = list(byt)
        got = Bits(lf, table)(p['val'])
        u = None
        if got == neg(reg):
            u = 0
        elif bs and got == neg(want):
            u = 1
            byteplace(*bs[0], 'it')
        elif all(a & ~Bits.ONE == 1 << k for k, a in enumerate(got)):
            raise Differs('what it returns does not continue the checksum it was given (the final inversion differs)')
        else:
            raise Open('what it returns is not followed')
        total(T, u, {ln: 1}, 'it')
    for p in F.paths:
        if p['frm'] == 'entry' and p['end'] == 'ret':
            if not zerolen(p, ln):
                raise Open('it returns without looking at the bytes in some case')
            if ev(p['val']) != [1 << k for k in range(32)]:
                raise Differs('it does not return the checksum it was given for no bytes')
    return n + len(done) + len(inits)


# ---------------------------------------------------------------- the hash
def hpoly(e, h, b):
    """(factor, constant, xor) : (factor*h + constant mod 2^32) xor byte"""
    if e == h:
        return 1, 0, 0
    if e[0] == 'c':
        return 0, e[2] & M32, 0
    if e[0] == 'zext' and e[2] == b:
        return 0, 0, 1
    if e[0] == 'sext' and e[2] == b:
        return 0, 0, 2
    if e[0] in ('add', 'sub', 'mul', 'shl', 'xor'):
        x, y = hpoly(e[2], h, b), hpoly(e[3], h, b)
        if e[0] in ('add', 'sub') and not x[2] and not y[2]:
            s = 1 if e[0] == 'add' else -1
            return (x[0] + s * y[0]) & M32, (x[1] + s * y[1]) & M32, 0
        if e[0] == 'mul' and not x[2] and not y[2] and (not x[0] or not y[0]):
            if x[0]:
                x, y = y, x
            return x[1] * y[0] & M32, x[1] * y[1] & M32, 0
        if e[0] == 'shl' and not x[2] and e[3][0] == 'c':
            return x[0] << e[3][2] & M32, x[1] << e[3][2] & M32, 0
        if e[0] == 'xor' and x[:2] == (0, 0) and x[2] and not y[2]:
            return y[0], y[1], x[2]
        if e[0] == 'xor' and y[:2] == (0, 0) and y[2] and not x[2]:
            return x[0], x[1], y[2]
    raise Open('the step of the hash is not followed')


def value(e, env):
    if e in env:
        return env[e]
    if e[0] == 'c':
        return e
    if e[0] in BIN:
        return fold2(e[0], e[1], value(e[2], env), value(e[3], env))
    if e[0] in ('zext', 'sext', 'trunc'):
        return cast(e[0], e[1], value(e[2], env))
    if e[0] == 'icmp':
        return icmp(e[2], value(e[3], env), value(e[4], env))
    if e[0] == 'select':
        return value(e[3] if value(e[2], env)[2] else e[4], env)
    raise Open('not a number')


def hashed(mod, name):
    F = Fun(mod, name)
    pure(F)
    if F.head is None or len(F.fn.args) != 2:
        raise Open('no loop')
    key, ln = ('arg', 64, 0), ('arg', WID.get(F.fn.args[1]['ty'], 32), 1)
    T, cond, latch, done, other = F.split()
    for p in other:
        b = {e for e, at, line in bytes_of(F, p, key)}
        if any(leaves(q) & b for q, t in p['conds']):
            raise Differs('the loop over the key ends at a byte with a certain value')
        raise Open('the loop has another way out')
    accs = [('phi', F.phiw(p), p) for p in F.phis if ('phi', F.phiw(p), p) not in F.ind]
    if len(accs) != 1 or accs[0][1] != 32:
        raise Open('the running value is not recognised')
    A = accs[0]
    if any(x[0] != 'c' for x in F.phis[A[2]]):
        raise Open('the start is not a constant')
    if any(x[2] for x in F.phis[A[2]]):
        raise Differs('it starts from another value than the files were made with')

    def same(e, p):
        bs = bytes_of(F, p, key)
        if not bs:
            raise Differs('a turn of its loop reads no byte of the key')
        if len({x for x, a, l in bs}) != 1:
            raise Open('several bytes in one turn')
        byteplace(*bs[0], 'it')
        b = bs[0][0]
        try:
            r = hpoly(e, A, b)
        except Open:
            r = None
        if r == (PRIME, 0, 1):
            return True
        pts = [(h, v) for h in (0, 1, 0x811c9dc5, M32) for v in (0, 1, 0x7f, 0x80, 0xff)]
        for h, v in pts:
            g = value(e, {A: c(h, 32), b: c(v, 8)})
            if g[0] == 'c' and g[2] != ((h * PRIME & M32) ^ v):
                return 'for byte %d it is not the one the files were made with' % v if v else 'it is not the one the files were made with'
        raise Open('the step of the hash is not followed')
    for p in latch:
        r = same(p['vals'][A[2]], p)
        if r is not True:
            if [q for q in p['conds'] if q != cond]:
                raise Open('a step that depends on the data')
            raise Differs('its step: ' + r)
    for p in done:
        if p['val'] == A:
            u = 0
        elif bytes_of(F, p, key) and same(p['val'], p) is True:
            u = 1
        else:
            raise Open('what it returns is not followed')
        total(T, u, {ln: 1}, 'it')
    for p in F.paths:
        if p['frm'] == 'entry' and p['end'] == 'ret':
            if not zerolen(p, ln) or p['val'][0] != 'c':
                raise Open('it returns without looking at the key in some case')
            if p['val'][2]:
                raise Differs('the hash of an empty key is not the one the files were made with')
    return len(latch) + len(done) + 1


# ---------------------------------------------------------------- the comparison
def compared(mod, name, doff, soff):
    F = Fun(mod, name)
    pure(F)
    if len(F.fn.args) != 2:
        raise Open('other arguments')

    def fld(k, off, w):
        a = ('arg', 64, k)
        return ('ld', w, fold2('add', 64, a, c(off, 64)) if off else a)
    D, S = [fld(k, doff, 64) for k in (0, 1)], [fld(k, soff, 64) for k in (0, 1)]
    dS = ladd({S[0]: 1}, {S[1]: 1}, -1)
    mS = {k: -v for k, v in dS.items()}

    def sizes_equal(p):
        for q, t in p['conds']:
            if q[0] == 'icmp' and (q[2] == 'eq') == t and q[2] in ('eq', 'ne'):
                if ladd(lin(q[3]), lin(q[4]), -1) in (dS, mS):
                    return True
        return False

    def sizes_differ(p):
        for q, t in p['conds']:
            if q[0] == 'icmp' and ladd(lin(q[3]), lin(q[4]), -1) in (dS, mS):
                if q[2] in ('eq', 'ne') and (q[2] == 'eq') != t:
                    return True
                if q[2][1:] in ('lt', 'gt') and t or q[2][1:] in ('le', 'ge') and not t:
                    return True
        return False

    def shortest(d):
        """the form is the smaller of the two sizes"""
        if len(d) == 1 and list(d.values()) == [1]:
            e = list(d)[0]
            if e != 1 and e[0] == 'select' and e[2][0] == 'icmp' and {e[3], e[4]} == set(S) and {e[2][3], e[2][4]} == set(S):
                lt = e[2][2][1:] in ('lt', 'le')
                if e[2][2] in ('eq', 'ne'):
                    return None
                return (e[3] == e[2][3]) == lt
        return None

    def covers(d, p):
        """the form is the number of bytes that have to be compared"""
        if sizes_equal(p) and d in ({S[0]: 1}, {S[1]: 1}):
            return True
        r = shortest(d)
        if r is False:
            raise Differs('it compares as many bytes as the longer key has')
        if r:
            return True
        if sizes_equal(p) or not d:
            if set(ladd(d, {S[0]: 1}, -1)) <= {1} or set(ladd(d, {S[1]: 1}, -1)) <= {1}:
                raise Differs('it compares another number of bytes than the keys have')
        for s in [k for k in d if k != 1 and d[k] == 1]:
            rest = {k: v for k, v in d.items() if k != s}
            if set(rest) <= {1} and shortest({s: 1}):
                raise Differs('it compares %d bytes %s than the shorter key has' % (abs(rest.get(1, 0)), 'more' if rest.get(1, 0) > 0 else 'fewer'))
        if d in ({S[0]: 1}, {S[1]: 1}) and not any(q[0] == 'icmp' and ladd(lin(q[3]), lin(q[4]), -1) in (dS, mS) for q, t in p['conds']) and p['frm'] != 'loop':
            raise Differs('it compares as many bytes as one key has, whatever the length of the other')
        for x in SAMPLES:
            for y in (x, x + 1, 2 * x):
                for u, v in ((x, y), (y, x)):
                    env = {S[0]: c(u, 64), S[1]: c(v, 64)}
                    try:
                        if any(value(q, env) != c(int(t), 1) for q, t in p['conds'] if leaves(q) <= set(S)):
                            continue
                    except Open:
                        continue
                    g = number(d, env)
                    if g is not None and g != min(u, v):
                        raise Differs('it compares %d bytes of keys of %d and %d bytes' % (g, u, v))
        raise Open('the number of bytes compared is not followed')

    def unlike(e):
        """not zero if the two bytes are not equal"""
        d = ladd(lin(e), {})
        return len(d) == 2 and sorted(d.values()) == [-1, 1] and all(k != 1 and k[0] == 'ld' and k[1] == 8 for k in d)

    def answer(p, what, known):
        """the value returned after all bytes agreed: zero exactly if the sizes agree"""
        v = p['val']
        if sizes_equal(p) or known:
            if v[0] == 'c':
                if v[2]:
                    raise Differs('it reports equal keys as different')
                return
            if lin(v) in (dS, mS):
                return
            raise Open('what it returns is not followed')
        if sizes_differ(p):
            if v[0] == 'c':
                if not v[2]:
                    raise Differs('it reports keys of different length as equal')
                return
            if nz(v):
                return
            if lin(v) in (dS, mS):
                return
            raise Open('what it returns is not followed')
        if v[0] == 'c':
            raise Differs('it reports keys of different length as equal if the shorter one agrees' if not v[2] else 'it reports equal keys as different')
        if lin(v) in (dS, mS) or v[0] == 'trunc' and lin(v[2]) in (dS, mS) or v[0] in ('sext', 'zext') and v[2][0] == 'trunc' and lin(v[2][2]) in (dS, mS):
            if lossy(v):
                raise Differs('it reports keys whose lengths differ by 256 as equal')
            return
        raise Open('what it returns is not followed')

    def nz(v):
        return v[0] == 'c' and v[2] != 0 or v[0] == 'select' and nz(v[3]) and nz(v[4])

    def lossy(v):
        return v[0] == 'trunc' and v[1] <= 8 or v[0] in ('zext', 'sext', 'trunc') and v[2][0] in ('zext', 'sext', 'trunc') and lossy(v[2])
    n = 0
    for p in F.paths:
        for x in [p.get('val')] + [q for q, t in p['conds']]:
            for l in (leaves(x) if x is not None else ()):
                if l[0] == 'call' and l[2] in ('strcmp', 'strncmp', 'strcasecmp', 'strncasecmp'):
                    raise Differs('it compares with %s(), which stops at a zero byte' % l[2])
    entry = [p for p in F.paths if p['frm'] == 'entry']
    for p in entry:
        if p['end'] != 'ret':
            continue
        n += 1
        cs = {l for q, t in p['conds'] for l in leaves(q) if l[0] == 'call' and l[2] in ('memcmp', 'bcmp')} | {l for l in leaves(p['val']) if l[0] == 'call' and l[2] in ('memcmp', 'bcmp')}
        if not cs:
            if sizes_differ(p):
                answer(p, '', False)
                continue
            if zerolen(p, S[0]) or zerolen(p, S[1]):
                raise Open('empty keys')
            if p['val'][0] == 'c' and not p['val'][2] and sizes_equal(p) and F.head is None:
                raise Differs('it reports keys of equal length as equal without comparing them')
            raise Open('it returns without comparing in some case')
        if len(cs) != 1:
            raise Open('several comparisons')
        m = cs.pop()
        if {m[4], m[5]} != set(D):
            raise Open('other memory is compared')
        st = [(q[2] == 'eq') == t for q, t in p['conds'] if q[0] == 'icmp' and q[2] in ('eq', 'ne') and q[3] == m and q[4] == c(0, m[1])]
        if st and not st[0]:
            if p['val'] != m and not (p['val'][0] == 'c' and p['val'][2]):
                raise Open('what it returns is not followed')
            covers(lin(m[6]), p)
            continue
        covers(lin(m[6]), p)
        if p['val'] == m:
            if not sizes_equal(p):
                raise Differs('it reports keys of different length as equal if the shorter one agrees')
            continue
        answer(p, '', False)
    if F.head is None:
        return n
    T, cond, latch, done, other = F.split()
    ent = [p for p in entry if p['end'] == 'head']
    known = all(sizes_equal(p) for p in ent)

    def places(a, b):
        pa, pb = F.n(a[2]), F.n(b[2])
        for x, y in ((pa, pb), (pb, pa)):
            if x.get(D[0]) == 1 and y.get(D[1]) == 1:
                x, y = ladd(x, {D[0]: 1}, -1), ladd(y, {D[1]: 1}, -1)
                if x == {'N': 1} and y == {'N': 1} and a[1] == b[1] == 8:
                    return True
                if set(x) <= {'N', 1} and set(y) <= {'N', 1}:
                    raise Differs('it compares byte %s of one key with byte %s of the other in turn N' % (txt(x), txt(y)))
        raise Open('other memory is compared')

    def txt(x):
        return ' + '.join(('%d*N' % v if v != 1 else 'N') if k == 'N' else str(v) for k, v in x.items()) or '0'

    def bytesof(q):
        ls = [l for l in leaves(q) if l[0] == 'ld' and l[1] == 8]
        return ls if len(ls) == 2 and unlike(('sub', 64, q[3], q[4])) else None
    for p in latch:
        n += 1
        bq = [(q, t) for q, t in p['conds'] if q[0] == 'icmp' and q[2] in ('eq', 'ne') and bytesof(q)]
        if not [l for e, l in p['reads']]:
            raise Differs('a turn of its loop compares nothing')
        if not bq:
            raise Open('the comparison of two bytes is not recognised')
        if not any((q[2] == 'eq') == t for q, t in bq):
            raise Differs('it goes on after two bytes that differ')
        places(*bytesof(bq[0][0]))
    for p in other:
        n += 1
        bq = [(q, t) for q, t in p['conds'] if q[0] == 'icmp' and q[2] in ('eq', 'ne') and bytesof(q)]
        if bq and any((q[2] == 'eq') != t for q, t in bq):
            places(*bytesof(bq[0][0]))
            v = p['val']
            if v[0] == 'c':
                if not v[2]:
                    raise Differs('it reports keys as equal after two bytes that differ')
            elif not nz(v) and (not unlike(v) or v[1] < 16):
                raise Open('what it returns is not followed')
            continue
        raise Open('the loop has another way out')
    for p in done:
        n += 1
        bq = [(q, t) for q, t in p['conds'] if q[0] == 'icmp' and q[2] in ('eq', 'ne') and bytesof(q)]
        if any(e[1] == 8 for e, l in p['reads']):
            raise Open('the test of the loop comes last')
        q = dict(p, conds=p['conds'] + (ent[0]['conds'] if len(ent) == 1 else []))
        q['frm'] = 'done'
        covers(T, q)
        answer(q, '', known)
    return n


# ---------------------------------------------------------------- the table is there before it is used
def calls(fn):
    for b in fn.order:
        for ins in fn.blocks[b]:
            if ins['op'] == 'call' and isinstance(ins['callee'], dict) and ins['callee'].get('g'):
                yield b, ins


def before_use(whole, init, crc, opener):
    """calls of the opener that may reach the checksum before the table was built: [(line, name)]"""
    fs = {n: f for n, f in whole.funcs.items() if not f.decl}
    for f in fs.values():
        f.prep()
    out = {n: {i['callee']['g'] for b, i in calls(f)} for n, f in fs.items()}
    uses = {crc}
    while True:
        more = {n for n, s in out.items() if n not in uses and n != init and s & uses}
        if not more:
            break
        uses |= more
    uses |= {'ffdb_pagepool_open', 'ffdb_pagepool_open_fd', 'ffdb_pagepool_get_page', 'ffdb_pagepool_new_page', 'ffdb_pagepool_sync', 'ffdb_pagepool_close'} - \
        {'ffdb_pagepool_open', 'ffdb_pagepool_open_fd'}

    def must(n, seen=()):
        """every return of n comes after a call of init"""
        if n == init:
            return True
        if n not in fs or n in seen:
            return False
        return all(s for s, b, i in flow(n, seen + (n,)) if i['op'] == 'ret')

    def flow(n, seen):
        f = fs[n]
        st = {0: False}
        todo = [0]
        while todo:
            b = todo.pop()
            s = st[b]
            for ins in f.blocks[b]:
                if ins['op'] == 'call' and isinstance(ins['callee'], dict) and must(ins['callee'].get('g', ''), seen):
                    s = True
            for x in f.succ[b]:
                o = st.get(x)
                v = s if o is None else (o and s)
                if o is None or v != o:
                    st[x] = v
                    todo.append(x)
        for b in st:
            s = st[b]
            for ins in f.blocks[b]:
                yield s, b, ins
                if ins['op'] == 'call' and isinstance(ins['callee'], dict) and must(ins['callee'].get('g', ''), seen):
                    s = True
    if must(crc):
        return [], 1
    bad, n = [], 0
    for s, b, ins in flow(opener, (opener,)):
        if ins['op'] == 'call' and isinstance(ins['callee'], dict) and ins['callee'].get('g') in uses:
            n += 1
            if not s:
                bad.append((ins.get('line', 0), ins['callee']['g']))
    return bad, n


# ---------------------------------------------------------------- what is hashed
def hashed_parts(whole, hasher, doff, soff):
    """each call of the hash with the key of a caller: (function, line, part of the key) or None for what is not followed"""
    out = []
    for n, f in whole.funcs.items():
        if f.decl:
            continue
        f.prep()
        defs = {i['id']: i for b in f.order for i in f.blocks[b]}

        def ex(o, d=0):
            if isinstance(o, dict):
                if 'c' in o:
                    return str(o['c'])
                raise Open('')
            i = defs.get(o)
            if i is None or d > 12:
                return 'arg%s' % o
            op = i['op']
            if op in ('zext', 'sext', 'trunc', 'freeze'):
                x = ex(i['ops'][0], d + 1)
                return x if op != 'trunc' or WID.get(i['ty'], 0) >= 32 else '(%s of %s)' % (i['ty'], x)
            if op == 'getelementptr' and not i['var']:
                b, off = place(o, d + 1)
                return '%s+%d' % (b, off) if off else b
            if op == 'load':
                b, off = place(i['ops'][0], d + 1)
                return '[%s+%d]' % (b, off)
            if op in BIN:
                x, y = ex(i['ops'][0], d + 1), ex(i['ops'][1], d + 1)
                return '(%s %s %s)' % (x, op, y)
            if op == 'icmp':
                return '(%s %s %s)' % (ex(i['ops'][0], d + 1), i['pred'], ex(i['ops'][1], d + 1))
            if op == 'select':
                return '(%s ? %s : %s)' % tuple(ex(x, d + 1) for x in i['ops'])
            raise Open('')

        def place(o, d):
            off = 0
            while not isinstance(o, dict) and o in defs and defs[o]['op'] == 'getelementptr' and not defs[o]['var']:
                off += defs[o]['off']
                o = defs[o]['base']
            return (ex(o, d + 1) if not isinstance(o, dict) and defs.get(o, {}).get('op') != 'alloca' else 'local%s' % o), off
        for b, ins in calls(f):
            if ins['callee']['g'] != hasher or len(ins['ops']) != 3:
                continue
            try:
                k, l = ex(ins['ops'][1]), ex(ins['ops'][2])
            except Open:
                out.append((n, ins.get('line', 0), None))
                continue
            m = re.search(r'\[(arg\d+|local\d+)\+%d\]' % doff, k)
            if not m:
                out.append((n, ins.get('line', 0), None))
                continue
            x = m[1]
            out.append((n, ins.get('line', 0), (k.replace('[%s+%d]' % (x, doff), 'data'), l.replace('[%s+%d]' % (x, soff), 'size'))))
    return out

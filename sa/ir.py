"""Resolved-program model: LLVM IR of /repo as printed by tool/irdump."""
import json, os, re


class Func:
    def __init__(self, d, mod):
        self.mod = mod
        self.name = d['name']
        self.dem = d.get('dem', d['name'])
        self.src = d.get('src', d['name'])
        self.decl = d['decl']
        self.local = d.get('local', False)
        self.ret = d['ret']
        self.args = d['args']
        self.line = d.get('line', 0)
        self.file = d.get('file', '')
        self.nounwind = d.get('nounwind', False)
        self.blocks = d.get('blocks', [])
        self.ninst = sum(len(b) for b in self.blocks)
        self._prep = False

    def prep(self):
        if self._prep:
            return
        self._prep = True
        n = len(self.blocks)
        self.succ = [[] for _ in range(n)]
        self.pred = [[] for _ in range(n)]
        self.defs = {}
        self.defblk = {}
        for a in self.args:
            self.defs[a['id']] = ('arg', a)
        for bi, b in enumerate(self.blocks):
            for ins in b:
                self.defs[ins['id']] = ('ins', ins)
                self.defblk[ins['id']] = bi
            t = b[-1]
            s = []
            if t['op'] == 'br':
                s = list(t['succ'])
            elif t['op'] == 'switch':
                s = [c[1] for c in t['cases']] + [t['default']]
            elif t['op'] == 'invoke':
                s = [t['normal'], t['unwind']]
            seen = []
            for x in s:
                if x not in seen:
                    seen.append(x)
            self.succ[bi] = seen
        for bi in range(n):
            for s in self.succ[bi]:
                self.pred[s].append(bi)
        # reverse post order, loop heads
        order, state, heads = [], {}, set()
        stack = [(0, iter(self.succ[0]))] if n else []
        if n:
            state[0] = 1
        while stack:
            b, it = stack[-1]
            for s in it:
                if s not in state:
                    state[s] = 1
                    stack.append((s, iter(self.succ[s])))
                    break
                elif state[s] == 1:
                    heads.add(s)
            else:
                state[b] = 2
                order.append(b)
                stack.pop()
        order.reverse()
        self.rpo = {b: i for i, b in enumerate(order)}
        self.order = order
        self.heads = heads
        # conditions computed by && and || and kept
        self.boolids = set()
        for b in self.blocks:
            for ins in b:
                if ins['op'] == 'phi' and ins['ty'] == 'i1' or ins['op'] in ('zext', 'trunc', 'freeze') and isinstance(ins['ops'][0], int) and ins['ops'][0] in self.boolids:
                    self.boolids.add(ins['id'])
        self._liveness()

    @staticmethod
    def opnds(ins):
        """plain operand list (local ids only matter to callers)"""
        r = []
        op = ins['op']
        if op in ('getelementptr',):
            r.append(ins['base'])
            r += [v[0] for v in ins['var']]
        elif op in ('call', 'invoke'):
            r.append(ins['callee'])
            r += ins['ops']
        elif op == 'phi':
            r += [v[0] for v in ins['in']]
        elif op in ('br', 'switch'):
            if 'cond' in ins:
                r.append(ins['cond'])
        else:
            r += ins.get('ops', [])
        return r

    def _liveness(self):
        n = len(self.blocks)
        use = [set() for _ in range(n)]
        dfn = [set() for _ in range(n)]
        phiuse = [set() for _ in range(n)]   # uses on edge out of block
        for bi, b in enumerate(self.blocks):
            for ins in b:
                if ins['op'] == 'phi':
                    for v, pb in ins['in']:
                        if isinstance(v, int):
                            phiuse[pb].add(v)
                    dfn[bi].add(ins['id'])
                    continue
                for o in self.opnds(ins):
                    if isinstance(o, int) and o not in dfn[bi]:
                        use[bi].add(o)
                dfn[bi].add(ins['id'])
        livein = [set() for _ in range(n)]
        ch = True
        while ch:
            ch = False
            for bi in reversed(range(n)):
                out = set(phiuse[bi])
                for s in self.succ[bi]:
                    out |= livein[s]
                new = use[bi] | (out - dfn[bi])
                if new != livein[bi]:
                    livein[bi] = new
                    ch = True
        self.livein = livein
        # phi results are live at block entry after phi evaluation
        for bi, b in enumerate(self.blocks):
            phis = {i['id'] for i in b if i['op'] == 'phi'}
            if phis:
                liv = set(self.livein[bi])
                # keep a phi only if used somewhere
                self.livein[bi] = liv | phis

    def loc(self, ins):
        f = ins.get('file') or self.file
        return '%s:%s' % (os.path.basename(f), ins.get('line', self.line))


class Module:
    def __init__(self, path):
        with open(path) as fh:
            d = json.load(fh)
        self.funcs = {}
        for f in d['functions']:
            fn = Func(f, self)
            self.funcs[fn.name] = fn
        self.globals = d['globals']
        self.di = d['di']
        self.structs = d['structs']

    def defined(self, name):
        f = self.funcs.get(name)
        return f if f and not f.decl else None

    def field_off(self, st, member):
        """byte offset of a (dotted) member of a DI struct"""
        off = 0
        parts = member.split('.')
        cur = st
        for i, p in enumerate(parts):
            m = self.di.get(cur)
            if m is None:
                raise KeyError('struct %s vanished' % cur)
            for x in m['members']:
                if x['name'] == p:
                    off += x['off']
                    cur = x['kind'].lstrip('[]*')
                    break
            else:
                raise KeyError('member %s.%s vanished' % (st, member))
        return off

    def member(self, st, name):
        for x in self.di[st]['members']:
            if x['name'] == name:
                return x
        raise KeyError('member %s.%s vanished' % (st, name))

    def field_name(self, st, off):
        st = st.lstrip('%')
        st = re.sub(r'^(struct|union|class)\.', '', st)
        m = self.di.get(st)
        if not m:
            return '+%d' % off
        for x in m['members']:
            if x['off'] <= off < x['off'] + max(1, x['size']):
                return x['name']
        return '+%d' % off

    def callees(self, fn):
        out = []
        for b in fn.blocks:
            for i in b:
                if i['op'] in ('call', 'invoke'):
                    c = i['callee']
                    if isinstance(c, dict) and 'g' in c:
                        out.append((c['g'], i))
        return out

    def reach(self, roots):
        seen, st = set(), list(roots)
        while st:
            n = st.pop()
            if n in seen:
                continue
            f = self.defined(n)
            if not f:
                continue
            seen.add(n)
            for c, _ in self.callees(f):
                st.append(c)
            # address-taken functions referenced by stores / operands
            for b in f.blocks:
                for i in b:
                    for o in Func.opnds(i):
                        if isinstance(o, dict) and 'g' in o:
                            st.append(o['g'])
        return seen

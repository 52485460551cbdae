"""The page pool: lock discipline, protected state, pin / dirty / eviction
typestate, positioned I/O and failure reporting, analysed over every exported
pool function with everything below it followed."""
from engine import Engine, Monitor, State, C0, UNDEF, AnalysisError, atoms
import models, fail

SHARED = ('_ffdb_pagepool_', '_ffdb_bkt', '_ffdb_bkt_waiter', '_ffdb_hqh', '_ffdb_lqh', '_ffdb_wqh')


def sname(s):
    return s.lstrip('%').replace('struct.', '').replace('union.', '')


def fieldof(mod, fn, op):
    """[(struct, field, distance from the start of the struct)] an address expression denotes"""
    out = []
    delta = 0
    for _ in range(8):
        if not isinstance(op, int):
            break
        k, d = fn.defs[op]
        if k != 'ins' or d['op'] != 'getelementptr':
            break
        if d['var']:
            delta = None
        elif delta is not None:
            delta += d['off']
        if d['path']:
            s, idx = d['path'][0]
            so = mod.structs.get(s)
            if so:
                out.append((sname(s), mod.field_name(s, so['offs'][idx]), delta))
        op = d['base']
    return out


def uses(fn):
    if not hasattr(fn, '_uses'):
        u = set()
        for b in fn.blocks:
            for i in b:
                for o in fn.opnds(i):
                    if isinstance(o, int):
                        u.add(o)
        fn._uses = u
    return fn._uses


class PoolMonitor(Monitor):
    def __init__(self, mod, const):
        self.mod = mod
        self.c = const
        self.access = {}
        self.fo = {f: mod.field_off('_ffdb_bkt', f) for f in ('flags', 'ref', 'waiters', 'pgno', 'page')}
        self.wake = mod.field_off('_ffdb_bkt_waiter', 'wakeup')
        self.cv = mod.field_off('_ffdb_bkt_waiter', 'cv')
        self.checked = {}
        self.root = None
        self.hqoff = mod.field_off('_ffdb_pagepool_', 'hqh')
        self.hqsize = mod.structs['struct._ffdb_hqh']['size'] if 'struct._ffdb_hqh' in mod.structs else 16
        self.psz = mod.field_off('_ffdb_pagepool_', 'pagesize')
        self.fn_off = {f: mod.field_off('_ffdb_pagepool_', f) for f in ('pgin', 'pgout')}
        self.lnk = {f: mod.field_off('_ffdb_bkt', f) for f in ('hq', 'lq')}
        self.sbp = mod.field_off('_ffdb_sbkt', 'bp')
        self.lqoff = mod.field_off('_ffdb_pagepool_', 'lqh')
        self.bsize = [v['size'] for k, v in mod.structs.items() if sname(k) == '_ffdb_bkt'][0]

    # -- a hash chain is named by the pool and the index expression
    def on_gep(self, eng, st, fn, ins, base):
        if ins['var'] and len(ins['var']) == 1 and ins['var'][0][1] == self.hqsize and ins['off'] == 0 and \
                base[0] == 'p' and base[2] == self.hqoff:
            x = eng.val(st, ins['var'][0][0])
            if x[0] in ('undef', 'nullgep'):
                return None
            return ('b', 'hidx', base, x, 64)
        return None

    def count(self, what):
        self.checked[what] = self.checked.get(what, 0) + 1

    # -- property key
    def key_flags(self, st):
        out = {}
        for k, v in st.flags.items():
            if isinstance(k, tuple) and k[0] in ('bkt', 'sb', 'b2'):
                continue
            out[k] = v[0] if isinstance(v, tuple) and v and v[0] in ('held', 'str') else v[0] if k == 'chain' else v
        if 'chain' in out:
            out['chain'] = st.flags['chain'][3]
        if 'pgset' in out:
            out['pgset'] = self.asked(st)
        cur = set(st.envs[-1].values())
        for k in st.flags:
            if isinstance(k, tuple) and k[0] == 'bkt' and k[1] in cur:
                b = k[1]
                for m in ('FFDB_PAGE_DIRTY', 'FFDB_PAGE_PINNED'):
                    out[(k, m)] = self.bit(st, b, m)
        for v in cur:
            if v[0] == 'b' and v[1] == 'hidx':
                out[('hd', v[3])] = True
        return out

    # -- buckets are named by a pointer value
    def bp(self, obj, base):
        return Engine.normptr(('p', obj, base))

    def fld(self, st, b, f):
        if b[0] == 'p':
            obj, base = b[1], b[2]
        else:
            obj, base = ('d', b), 0
        if base is None:
            return None
        return st.read(obj, base + self.fo[f], 4)

    def bit(self, st, b, m, v=None):
        if v is None:
            v = self.fld(st, b, 'flags')
        if v is None or v[0] in ('undef', 'nullgep'):
            return None
        r = self.eng.binop(st, 'and', v, ('c', self.c[m]), 32)
        if r is None or r[0] in ('undef', 'nullgep'):
            return None
        return self.eng.truth(st, r)

    def zero(self, st, v):
        if v is None or v[0] in ('undef', 'nullgep'):
            return False
        lo, hi, nz = self.eng.rng(st, v)
        return lo == 0 and hi == 0

    # -- locks
    def held(self, st):
        return any(isinstance(v, tuple) and v and v[0] == 'held' for v in st.flags.values())

    def acc(self, eng, st, fn, ins, op, obj, write):
        fo = fieldof(self.mod, fn, op)
        base = obj
        if obj[0] == 'd' and obj[1][0] == 'b' and obj[1][1] == 'hidx':
            base = obj[1][2][1]
            fo = fo + [('_ffdb_pagepool_', 'hqh', None)]
        for s, f, d in fo:
            if s in SHARED:
                fresh = base[0] in ('a', 'h') and ('pub', base) not in st.flags
                k = (s, f, write, self.held(st), fresh)
                self.access.setdefault(k, {})[(fn.name, fn.loc(ins))] = (self.root, list(st.trace)[-12:])

    def on_load(self, eng, st, fn, ins, obj, off):
        op = ins['ops'][0] if ins['op'] == 'load' else None
        self.acc(eng, st, fn, ins, op, obj, False)
        if off is not None:
            for s, f, d in fieldof(self.mod, fn, op):
                if s == '_ffdb_bkt' and d is not None:
                    st.flags[('b2', self.bp(obj, off - d))] = True
                if s == '_ffdb_bkt' and f in ('flags', 'page') and d is not None:
                    st.flags[('bkt', self.bp(obj, off - d))] = True
                elif s == '_ffdb_sbkt' and f == 'bp' and d is not None:
                    st.flags[('sb', self.bp(obj, off - d))] = True
                elif s == '_ffdb_bkt' and f == 'lq' and d is not None and self.root == 'ffdb_pagepool_sync':
                    self.advance(eng, st, fn, ins, self.bp(obj, off - d))

    def advance(self, eng, st, fn, ins, b):
        if 'walked' in st.flags or ('bkt', b) not in st.flags:
            return
        self.count('walk')
        if st.flags.pop('col', None):
            return
        w = self.fld(st, b, 'waiters')
        if self.bit(st, b, 'FFDB_PAGE_DIRTY') is not False and self.bit(st, b, 'FFDB_PAGE_PINNED') is not True and \
                not (w is not None and eng.rng(st, w)[2]):
            eng.report('sync-skips-page', fn, ins, 'a flush passes over a page that may be dirty and is not in use', st)

    def on_store(self, eng, st, fn, ins, obj, off, v):
        op = ins['ops'][1] if ins['op'] == 'store' else None
        self.acc(eng, st, fn, ins, op, obj, True)
        w = st.flags.get('wantp')
        if w is not None and obj == ('d', w[1]) and off == 0:
            st.flags['want'] = ('v', v)
        if off is None:
            return
        for s, f, d in fieldof(self.mod, fn, op):
            if s != '_ffdb_bkt' or d is None:
                continue
            b = self.bp(obj, off - d)
            if f in self.lnk and d == self.lnk[f]:
                self.link(eng, st, fn, ins, f, b, v)
            if f in ('pgno', 'ref'):
                st.flags[('bkt', b)] = True
            c = st.flags.get('chain')
            if f == 'pgno' and c is not None and c[1] == b:
                st.flags['chain'] = ('v', b, c[2], self.filed(v, c[2]))
            if f == 'pgno' and 'want' in st.flags:
                st.flags['pgset'] = ('v', v)
                rd = st.flags.get('rd')
                if isinstance(rd, tuple):
                    st.flags['rd'] = self.place(rd[1], rd[2], v) or 'elsewhere'
            if f == 'waiters' and v == C0 and obj[0] != 'h':
                self.count('waiters-reset')
                if not self.zero(st, self.fld(st, b, 'waiters')):
                    eng.report('takeover-waiters', fn, ins, 'a cached page is taken over although threads may be waiting for it', st)
            if f == 'flags':
                self.flags_store(eng, st, fn, ins, obj, b, v)
            elif f == 'ref':
                self.ref_store(eng, st, fn, ins, b, v)
        if obj[0] == 'd' and obj[1][0] == 'b' and obj[1][1] == 'hidx':
            if off == 0:
                self.link(eng, st, fn, ins, 'hq', None, v)
            if self.isbkt(st, v):
                st.flags['chain'] = ('v', v, obj[1][3], self.filed(self.fld(st, v, 'pgno'), obj[1][3]))
        elif off == self.lqoff and obj[0] != 'h' and any(x[0] == '_ffdb_pagepool_' for x in fieldof(self.mod, fn, op)):
            self.link(eng, st, fn, ins, 'lq', None, v)
        if self.root in ('ffdb_pagepool_sync', 'ffdb_pagepool_close') and ('bkt', v) in st.flags:
            st.flags['col'] = True

    def nofilter(self, st, f):
        for obj, d in st.mem.items():
            e = d.get(self.fn_off[f])
            if e is not None and e[1] == 8 and self.zero(st, e[0]):
                return True
        return False

    def asked(self, st):
        g = st.flags.get('pgset')
        if g is None:
            return None
        if g == 'waited':
            return True         # a page somebody waits for is neither moved nor evicted
        w = st.flags.get('want')
        if w is None or w[1] == g[1]:
            return True
        return self.eng.truth(st, self.eng.mkcmp('eq', w[1], g[1], 32)) is True

    def owner_of(self, st, page):
        """the bucket whose page this is"""
        po = self.fo['page']
        for obj, d in st.mem.items():
            for off, e in d.items():
                if off != 'Z' and e[0] == page and e[1] == 8:
                    b = self.bp(obj, off - po)
                    if ('bkt', b) in st.flags or self.isbkt(st, b):
                        return b
        return None

    def isbkt(self, st, v):
        return ('bkt', v) in st.flags or (v[0] == 'p' and v[1][0] == 'h' and v[2] == 0)

    def link(self, eng, st, fn, ins, q, target, v):
        """a forward link of queue q is written: v enters the queue, or the
        successor of some page takes its place"""
        if v == target or v[0] in ('undef', 'nullgep'):
            return
        n = st.flags.get('n' + q, 0)
        if self.isbkt(st, v):
            self.count('insert')
            n += 1
        else:
            for obj, d in st.mem.items():
                e = d.get(self.lnk[q]) if obj[0] != 'h' else None
                base = 0
                if e is None and self.root in ('ffdb_pagepool_change_page', 'ffdb_pagepool_delete', 'ffdb_pagepool_put_page'):
                    base = -self.bsize
                    e = d.get(self.lnk[q] + base)
                if e is not None and e[0] == v:
                    b = self.bp(obj, base)
                    if b != target and (('bkt', b) in st.flags or ('b2', b) in st.flags):
                        break
            else:
                return
            self.count('remove')
            n -= 1
        st.flags['n' + q] = max(-3, min(3, n))

    @staticmethod
    def filed(pg, idx):
        if pg is None or pg[0] in ('undef', 'nullgep'):
            return None
        a1, a2 = set(), set()
        atoms(idx, a1)
        atoms(pg, a2)
        return a1 == a2

    def lists(self, eng, st, fn, ins, what):
        h, l = st.flags.get('nhq', 0), st.flags.get('nlq', 0)
        if what == 'wait':
            if h or l:
                eng.report('waits-removed', fn, ins, 'a thread goes to sleep while the page it waits for is off its queues: another thread loads a second copy', st)
            return
        if h != l and self.root != 'ffdb_pagepool_close':
            eng.report('queues-differ', fn, ins, 'a page is left in only one of the hash and replacement queues', st)
        c = st.flags.get('chain')
        if c is not None:
            self.count('chain')
            if c[3] is False:
                eng.report('wrong-chain', fn, ins, 'a page is filed under another page number than its own: it is not found again', st)
        for k in ('nhq', 'nlq', 'chain'):
            st.flags.pop(k, None)

    def ref_store(self, eng, st, fn, ins, b, v):
        self.count('ref')
        if v == ('c', 1):
            # counting starts again only on a buffer nobody holds
            st.flags['ref'] = 1 if self.zero(st, self.fld(st, b, 'ref')) else 2
        elif v == C0:
            st.flags.pop('ref', None)
        elif v[0] == 'b' and v[1] == 'add' and v[3] == ('c', 1):
            st.flags['ref'] = min(2, st.flags.get('ref', 0) + 1)
        elif v[0] == 'b' and v[1] in ('add', 'sub'):
            k = v[3][1] if v[3][0] == 'c' else None
            if v[1] == 'add' and k is not None:
                k = -k
            if k == 1:
                st.flags['deref'] = min(2, st.flags.get('deref', 0) + 1)

    @staticmethod
    def place(off, n, pg):
        """off is transfer size times page number"""
        def unz(v):
            while v[0] == 'zx':
                v = v[1]
            return v
        if off is None or off[0] != 'b':
            return off == C0 and pg == C0
        a, b = unz(off[2]), unz(off[3])
        n, pg = unz(n), unz(pg)
        return off[1] == 'mul' and ((a == n and b == pg) or (a == pg and b == n))

    def isfresh(self, st, obj):
        return obj[0] == 'h'

    def flags_store(self, eng, st, fn, ins, obj, b, v):
        st.flags[('bkt', b)] = True
        if self.isfresh(st, obj):
            return
        old = self.fld(st, b, 'flags')
        D, P, L = 'FFDB_PAGE_DIRTY', 'FFDB_PAGE_PINNED', 'FFDB_PAGE_LOCKED'
        oa, va = set(), set()
        if old is not None:
            atoms(old, oa)
        atoms(v, va)
        derived = bool(oa & va) or (old is not None and old[0] == 'c' and v[0] == 'c')
        if not derived:
            # the buffer is taken over for another page
            self.count('takeover')
            if self.bit(st, b, D) is not False:
                eng.report('takeover-dirty', fn, ins, 'a cached page is taken over for another page although it may hold unwritten changes', st)
            if self.bit(st, b, P) is not False:
                eng.report('takeover-pinned', fn, ins, 'a cached page is taken over for another page although it may be pinned', st)
            if self.bit(st, b, L) is not False:
                eng.report('takeover-locked', fn, ins, 'a cached page is taken over although it is locked in the cache', st)
            if not self.zero(st, self.fld(st, b, 'waiters')):
                if ('tk', b) not in st.flags:
                    eng.report('takeover-waiters', fn, ins, 'a cached page is taken over although threads may be waiting for it', st)
            return
        if self.bit(st, b, D, v) is not False and self.bit(st, b, D) is not True:
            st.flags['dset'] = True
        if self.bit(st, b, P, v) is True and 'want' in st.flags and 'pgset' not in st.flags:
            pg = self.fld(st, b, 'pgno')
            st.flags['pgset'] = 'waited' if 'waited' in st.flags else ('v', pg if pg is not None else UNDEF)
        if self.bit(st, b, P, v) is True and self.bit(st, b, P) is not True:
            self.count('pin')
            if not (self.bit(st, b, P) is False and self.zero(st, self.fld(st, b, 'waiters'))) and \
                    st.flags.get('own') is not True and 'waited' not in st.flags:
                eng.report('pin-stolen', fn, ins, 'a page is pinned although another thread may hold it or has been promised it', st)
        if self.bit(st, b, D, v) is False and self.bit(st, b, D) is not False:
            self.count('dirty-cleared')
            w = st.flags.pop('wrote', None)
            pg = self.fld(st, b, 'pgno')
            ok = False
            if w is not None and pg is not None:
                ok = self.place(w[1], w[2], pg)
                if ok and not w[3]:
                    eng.report('unfiltered-io', fn, ins, 'a page is written without the output filter (byte order, checksum)', st)
            if not ok:
                eng.report('dirty-cleared', fn, ins, 'the dirty mark of a cached page is cleared although the page was not written completely to its place in the file', st)
        if self.bit(st, b, P, v) is False and self.bit(st, b, P) is not False:
            self.count('unpin')
            st.flags['unpin'] = ('v', b)
            if self.root == 'ffdb_pagepool_put_page':
                r = self.fld(st, b, 'ref')
                lo, hi, nz = (None, None, False) if r is None else eng.rng(st, r)
                if hi is None or hi > 0:
                    eng.report('unpin-while-referenced', fn, ins, 'a page is unpinned although it may still be pinned by somebody', st)



class PoolEngine(Engine):
    debug = False
    keyret = False
    listhead = None
    joinheap = True

    def key(self, st):
        k = super().key(st)
        if self.ctx[0] == self.mon.root and 'want' in st.flags:
            # what the entry point remembers in variables ("found") tells its paths apart
            fn = self.mod.funcs[self.ctx[0]]
            w = st.flags['want'][1]
            pg = self.mon.fo['pgno']
            k = k + (frozenset(i for i, v in st.envs[-1].items() if v[0] == 's' and st.read(('d', v), pg, 4) == w),)
            k = k + (frozenset((i, v) for i, v in st.envs[-1].items() if v[0] == 'c' and -1 <= v[1] <= 1 and i in fn.defs and fn.defs[i][0] == 'ins' and fn.defs[i][1]['op'] == 'phi'),)
        if 'fail' in st.flags or (self.keyret and 'noret' not in st.flags):
            sl = fail.retslice(self.mod.funcs[self.ctx[0]])
            e = st.envs[-1]
            c = []
            for i in sl:
                v = e.get(i)
                if v is not None and v[0] not in ('undef', 'nullgep'):
                    c.append((i, self.truth(st, v)))
            k = k + (frozenset(c),)
        return k

    def keepsym(self, st, v):
        return True

    def assume(self, st, c, truth):
        r = super().assume(st, c, truth)
        if r is not None and 'want' in r.flags and c[0] == 'cmp' and c[1] in ('eq', 'ne') and (c[1] == 'eq') == truth:
            w = r.flags['want'][1]
            o = c[3] if c[2] == w else c[2] if c[3] == w else None
            if o is not None and o[0] == 's':
                # the page found carries the number that was asked for
                for obj, d in list(r.mem.items()):
                    for k, e in d.items():
                        if k != 'Z' and e == (o, 4):
                            d = dict(d)
                            d[k] = (w, 4)
                            r.mem[obj] = d
                            break
        if r is not None and 'rd' in r.flags and 'pgin' not in r.flags and self.mon.nofilter(r, 'pgin'):
            r.flags['pgin'] = True
        if r is not None and c[0] == 'cmp' and c[1] in ('eq', 'ne') and (c[1] == 'eq') == truth and self.listhead is not None \
                and 'walked' not in r.flags and self.listhead(c[2], c[3]):
            r.flags['walked'] = True
        return r

    def prune(self, st, vals=()):
        # a bucket is told apart from the others while a variable points at it
        ks = [k for k in st.flags if isinstance(k, tuple) and k[0] in ('bkt', 'sb', 'b2')]
        if not ks:
            return
        live = set()
        for e in st.envs:
            for v in e.values():
                live.add(v)
        for o, d in st.mem.items():
            if o[0] == 'a':
                for k, e in d.items():
                    if k != 'Z':
                        live.add(e[0])
        live.update(vals)
        for k in ks:
            if k[1] not in live:
                del st.flags[k]

    def gc(self, st):
        self.prune(st)
        super().gc(st)

    def call(self, fn, st, args, callins=None, callfn=None):
        self.prune(st, args)
        if callins is None:
            return super().call(fn, st, args, callins, callfn)
        ids = [(i, t) for i, v in st.envs[-1].items() for t in ('bkt', 'b2') if (t, v) in st.flags]
        mute = self.keyret and 'noret' not in st.flags and callins['id'] not in uses(callfn)
        if mute:
            # nobody looks at the result
            st = st.copy()
            st.flags['noret'] = True
        out = super().call(fn, st, args, callins, callfn)
        for s, rv, k in out:
            if mute:
                s.flags.pop('noret', None)
            # the caller still knows its buckets
            for i, t in ids:
                v = s.envs[-1].get(i)
                if v is not None:
                    s.flags[(t, v)] = True
        return out


def lockkey(eng, st, a):
    return ('lk', a)


def m_lock(eng, st, fn, ins, args, name):
    k = lockkey(eng, st, args[0])
    eng.mon.count('lock')
    if k in st.flags:
        eng.report('double-lock', fn, ins, 'mutex already held (since %s) is locked again' % st.flags[k][2], st)
        return []
    # another thread may have run: what was read from shared memory is stale
    forget(st)
    st.flags[k] = ('held', 'x', fn.loc(ins))
    return [(st, C0, 'ret')]


def forget(st):
    w = st.flags.get('wantp')
    for o in list(st.mem):
        if o[0] in ('d', 'h', 'pg') and not (w is not None and o == ('d', w[1])):
            del st.mem[o]
    for k in [k for k in st.flags if isinstance(k, tuple) and k[0] in ('bkt', 'b2')]:
        del st.flags[k]


def m_unlock(eng, st, fn, ins, args, name):
    k = lockkey(eng, st, args[0])
    eng.mon.count('unlock')
    if k not in st.flags:
        eng.report('unlock-unheld', fn, ins, 'mutex is unlocked although it is not held', st)
        return []
    check_wakeup(eng, st, fn, ins)
    eng.mon.lists(eng, st, fn, ins, 'unlock')
    del st.flags[k]
    return [(st, C0, 'ret')]


def check_wakeup(eng, st, fn, ins):
    u = st.flags.pop('unpin', None)
    if u is None:
        return
    sig = st.flags.pop('signalled', None)
    eng.mon.count('wakeup')
    if sig is None and not eng.mon.zero(st, eng.mon.fld(st, u[1], 'waiters')):
        eng.report('lost-wakeup', fn, ins, 'a page is unpinned and the pool unlocked without waking a thread that waits for the page', st)


def m_destroy(eng, st, fn, ins, args, name):
    if lockkey(eng, st, args[0]) in st.flags:
        eng.report('destroy-held', fn, ins, 'a held mutex is destroyed', st)
    return [(st, C0, 'ret')]


def m_wait(eng, st, fn, ins, args, name):
    k = lockkey(eng, st, args[1])
    eng.mon.count('cond-wait')
    if k not in st.flags:
        eng.report('wait-unlocked', fn, ins, 'condition wait without holding its mutex', st)
        return []
    for b in range(len(fn.blocks)):
        if any(i is ins for i in fn.blocks[b]):
            if b not in eng.scc(fn):
                eng.report('wait-not-in-loop', fn, ins, 'a spurious wake-up ends the wait: the condition is not tested again', st)
    eng.mon.lists(eng, st, fn, ins, 'wait')
    forget(st)
    st.flags['waited'] = True
    return [(st, C0, 'ret')]


def m_equal(eng, st, fn, ins, args, name):
    no = st.copy()
    no.flags['own'] = False
    st.flags['own'] = True
    return [(no, C0, 'ret'), (st, ('c', 1), 'ret')]


def m_signal(eng, st, fn, ins, args, name):
    eng.mon.count('signal')
    if not eng.mon.held(st):
        eng.report('signal-unlocked', fn, ins, 'a waiter is signalled after the mutex was released: it may have destroyed its condition variable', st)
    a = args[0]
    d = eng.deref(st, fn, ins, a, 'signal')
    if d not in (None, 'null') and d[1] is not None:
        w = st.read(d[0], d[1] - eng.mon.cv + eng.mon.wake, 4)
        if w is None or eng.truth(st, w) is not True:
            eng.report('wakeup-not-recorded', fn, ins, 'a waiter is signalled before the event it waits for is recorded: it goes back to sleep', st)
    st.flags['signalled'] = True
    return [(st, C0, 'ret')]


def mul32(v):
    """a product computed in 32 bits and then widened"""
    if not isinstance(v, tuple):
        return False
    if v and v[0] == 'zx' and isinstance(v[1], tuple) and v[1][0] == 'b' and v[1][1] in ('mul', 'shl') and v[1][4] < 64:
        return True
    if v and v[0] == 'b' and v[1] in ('mul', 'shl') and v[4] < 64:
        return True
    return any(mul32(x) for x in v if isinstance(x, tuple))


def m_lseek(eng, st, fn, ins, args, name):
    eng.mon.count('seek')
    if mul32(args[1]):
        eng.report('offset-overflow', fn, ins, 'the file offset is computed in 32 bits: pages beyond 4 GB land elsewhere', st)
    out = []
    if eng.fail_seek:
        bad, r = fail.failing(eng, st, fn, ins, name, ('c', -1))
    else:
        bad, r = st.copy(), ('c', -1)
    bad.flags['pos'] = 'bad'
    if args[1][0] not in ('c', 'undef', 'nullgep', 'p'):
        eng.setrng(bad, args[1], 0, None)
        eng.setrng(st, args[1], 0, None)
    out.append((bad, r, 'ret'))
    st.flags['pos'] = ('v', args[1])
    out.append((st, args[1], 'ret'))
    return out


def m_pxfer(eng, st, fn, ins, args, name):
    eng.mon.count('seek')
    if mul32(args[3]):
        eng.report('offset-overflow', fn, ins, 'the file offset is computed in 32 bits: pages beyond 4 GB land elsewhere', st)
    st.flags['pos'] = ('v', args[3])
    out = m_xfer(eng, st, fn, ins, args[:3], 'read' if name.startswith('pread') else 'write')
    return out


def m_xfer(eng, st, fn, ins, args, name):
    rd = name.startswith('read')
    eng.mon.count(name)
    pos = st.flags.get('pos')
    if not (isinstance(pos, tuple) and pos[0] == 'v'):
        eng.report('io-position', fn, ins, '%s at a file position that was not established (seek missing, failed or consumed)' % name, st)
    st.flags['pos'] = 'bad'
    n = args[2]
    if rd:
        d = eng.deref(st, fn, ins, args[1], name)
        if d not in (None, 'null'):
            st.kill(d[0], d[1], None)
    out = []
    tracked = eng.fail_read if rd else eng.fail_write

    def branch(what, rv):
        if tracked:
            s, r = fail.failing(eng, st, fn, ins, what, rv)
        else:
            s = st.copy()
            r = rv
            if r is None:
                r = eng.fresh(s, eng.site(fn, ins, 'short'))
        s.flags.pop('wrote', None)
        return s, r
    # page sizes are valid when I/O is done: positive and below 2 GB
    ps = n[1] if n[0] == 'zx' else n
    if ps[0] == 's':
        eng.setrng(st, ps, 1, 0x7fffffff)
    s, r = branch(name, ('c', -1))
    out.append((s, r, 'ret'))
    s, r = branch('short ' + name, None)
    eng.setrng(s, r, 1, None)
    s.facts[('cmp', 'ne', r, n, 64)] = True
    t = eng.cast(fn, {'ty': 'i32', 'from': 'i64', 'id': ins['id']}, s, 'trunc', r)
    tn = eng.cast(fn, {'ty': 'i32', 'from': 'i64', 'id': ins['id']}, s, 'trunc', n)
    if t[0] not in ('c',):
        eng.setrng(s, t, None, None, True)
        for w in (32, 64):
            s.facts[('cmp', 'ne', t, tn, w)] = True
            s.facts[('cmp', 'ne', tn, t, w)] = True
    out.append((s, r, 'ret'))
    if rd:
        z = st.copy()
        z.flags.pop('wrote', None)
        out.append((z, C0, 'ret'))           # end of file: a page not written yet
    if isinstance(pos, tuple):
        if rd:
            b = eng.mon.owner_of(st, args[1])
            pg = None if b is None else eng.mon.fld(st, b, 'pgno')
            st.flags['rd'] = 'elsewhere' if b is None else \
                True if pg is not None and eng.mon.place(pos[1], n, pg) else ('v', pos[1], n)
        else:
            f = st.flags.get('pgout')
            ok = (f is not None and f[1] == args[1]) or eng.mon.nofilter(st, 'pgout')
            st.flags['wrote'] = ('v', pos[1], n, ok)
    st.flags.pop('pgout', None)
    out.append((st, n, 'ret'))
    return out


def m_indirect(eng, st, fn, ins, args, ikey):
    if ikey and ikey[0] == '_ffdb_pagepool_' and ikey[1] in ('pgin', 'pgout') and len(args) == 3:
        eng.mon.count(ikey[1])
        if ikey[1] == 'pgout':
            st.flags['pgout'] = ('v', args[2])
        elif eng.mon.owner_of(st, args[2]) is not None:
            st.flags['pgin'] = True
        if ikey[1] == 'pgout':
            for k in st.flags:
                if isinstance(k, tuple) and k[0] == 'bkt' and eng.mon.fld(st, k[1], 'page') == args[2]:
                    eng.report('filter-in-place', fn, ins, 'the output filter changes the page in the cache instead of a copy', st)
        d = eng.deref(st, fn, ins, args[2], 'filter')
        if d not in (None, 'null'):
            st.kill(d[0], d[1], None)
    return models.noeffect(eng, st, fn, ins, args, 'indirect')


def m_free(eng, st, fn, ins, args, name):
    mon = eng.mon
    a = args[0]
    if ('sb', a) in st.flags:
        b = st.read(*((('d', a), mon.sbp, 8) if a[0] != 'p' else (a[1], a[2] + mon.sbp, 8)))
        mon.count('flushed')
        if mon.root in ('ffdb_pagepool_sync', 'ffdb_pagepool_close') and b is not None and 'fail' not in st.flags and mon.bit(st, b, 'FFDB_PAGE_DIRTY') is not False:
            eng.report('sync-drops-page', fn, ins, 'a page selected for writing is dropped unwritten', st)
        del st.flags[('sb', a)]
    d = (a[1], a[2]) if a[0] == 'p' else ((('d', a), 0) if a[0] == 's' else None)
    if d is not None and ('bkt', Engine.normptr(('p', d[0], d[1]))) in st.flags or (a[0] == 's' and ('bkt', a) in st.flags):
        b = Engine.normptr(('p', d[0], d[1]))
        if mon.root != 'ffdb_pagepool_close':
            mon.count('free-page')
            if mon.bit(st, b, 'FFDB_PAGE_DIRTY') is not False:
                eng.report('free-dirty', fn, ins, 'a cached page is discarded although it may hold unwritten changes', st)
    return [(st, None, 'ret')]


def m_alloc(eng, st, fn, ins, args, name):
    if eng.fail_alloc:
        bad, r = fail.failing(eng, st, fn, ins, name, C0)
    else:
        bad, r = st.copy(), C0
    h = eng.fresh(st, eng.site(fn, ins), 'h')
    st.mem.pop(h, None)
    if name == 'calloc':
        st.mem[h] = {'Z': (0, 1 << 40)}
    return [(bad, r, 'ret'), (st, ('p', h, 0), 'ret')]


def setup(mod, root, const):
    mon = PoolMonitor(mod, const)
    eng = PoolEngine(mod, mon)
    mon.eng = eng
    mon.root = root
    eng.bitmasks = tuple(const[k] for k in ('FFDB_PAGE_DIRTY', 'FFDB_PAGE_PINNED', 'FFDB_PAGE_LOCKED'))
    models.install(eng)
    m = eng.models
    m['pthread_mutex_lock'] = m_lock
    m['pthread_mutex_unlock'] = m_unlock
    m['pthread_mutex_destroy'] = m_destroy
    m['pthread_cond_wait'] = m_wait
    m['pthread_cond_signal'] = m['pthread_cond_broadcast'] = m_signal
    m['lseek64'] = m['lseek'] = m_lseek
    m['read'] = m['write'] = m_xfer
    for n in ('pread', 'pread64', 'pwrite', 'pwrite64'):
        m[n] = m_pxfer
    m['free'] = m_free
    m['indirect'] = m_indirect
    m['pthread_equal'] = m_equal
    for n in ('malloc', 'calloc'):
        m[n] = m_alloc
    for n in ('open64', 'open', 'fstat64', 'fstat'):
        m[n] = fail.m_neg
    mon.sites = set()
    # an eviction that cannot write leaves the page dirty in the cache: only
    # the functions that promise to write report it
    writer = root in ('ffdb_pagepool_sync', 'ffdb_pagepool_close', 'ffdb_pagepool_delete', 'ffdb_pagepool_change_page')
    eng.fail_write = writer
    eng.fail_seek = writer
    eng.fail_alloc = writer or root not in ('ffdb_pagepool_get_page', 'ffdb_pagepool_new_page')
    eng.fail_read = True
    eng.keyret = not writer
    if root == 'ffdb_pagepool_sync':
        lo = mod.field_off('_ffdb_pagepool_', 'lqh')

        def isq(v):
            return (v[0] == 'p' and v[2] == lo and v[1][0] == 'd') or (lo == 0 and v == ('s', ('in', 0)))
        eng.listhead = lambda a, b: isq(a) or isq(b)
    return eng


def roots(mod):
    r = [f.name for f in mod.funcs.values() if f.name.startswith('ffdb_pagepool_') and not f.decl and not f.local]
    if len(r) < 8:
        raise AnalysisError('page pool interface not recognised')
    return sorted(r)


def run_root(mod, name, const):
    fn = mod.defined(name)
    eng = setup(mod, name, const)
    mon = eng.mon
    st = State()
    args = []
    for a in fn.args:
        s = ('s', ('arg', a['name'] or str(a['id'])))
        if a['ty'] == 'ptr':
            st.facts[s] = (None, None, True)
        args.append(s)
    if name in ('ffdb_pagepool_get_page', 'ffdb_pagepool_new_page'):
        st.mem[('d', args[1])] = {0: (('s', 'REQ'), 4)}
        st.flags['want'] = ('v', ('s', 'REQ'))
        st.flags['wantp'] = ('v', args[1])
    nex = 0
    for s, rv, k in eng.call(fn, st, args):
        nex += 1
        for kk, v in s.flags.items():
            if isinstance(v, tuple) and v and v[0] == 'held':
                eng.report('lock-leaked', fn, None, 'the mutex locked at %s is still held when %s returns' % (v[2], name), s)
        if 'fail' in s.flags and rv is not None:
            f = s.flags['fail']
            if eng.truth(s, rv) is not True:
                eng.report('failure-as-success', fn, None, '%s failed at %s in %s; %s can then report success' % (f[1], f[3], f[2], name), s)
        ok = rv is None or eng.truth(s, rv) is not True
        if name == 'ffdb_pagepool_sync' and ok and 'walked' not in s.flags:
            eng.report('sync-stops-early', fn, None, 'a flush can succeed without having looked at every cached page', s)
        if name == 'ffdb_pagepool_put_page' and ok:
            mon.count('put')
            if s.flags.get('deref') != 1:
                eng.report('ref-not-dropped', fn, None, 'a page is released without giving up exactly one reference', s)
            b = eng.binop(s, 'and', args[2], ('c', const['FFDB_PAGE_DIRTY']), 32)
            if eng.truth(s, b) is not False and 'dset' not in s.flags:
                eng.report('dirty-not-recorded', fn, None, 'a page released as changed is not marked for writing', s)
        if name == 'ffdb_pagepool_change_page' and ok and 'dset' not in s.flags:
            eng.report('dirty-not-recorded', fn, None, 'a page that moves to another place in the file is not marked for writing', s)
        if name in ('ffdb_pagepool_get_page', 'ffdb_pagepool_new_page') and ok and s.flags.get('ref') != 1:
            eng.report('ref-not-taken', fn, None, 'a page is handed out without taking exactly one reference', s)
        if name in ('ffdb_pagepool_get_page', 'ffdb_pagepool_new_page') and (rv is None or eng.truth(s, rv) is not True):
            check_got(eng, s, fn, args, rv)
    return eng, nex


def check_got(eng, s, fn, args, rv):
    mon = eng.mon
    if mon.asked(s) is not True:
        eng.report('wrong-page', fn, None, 'the page handed out may not be the one that was asked for', s)
    rd = s.flags.get('rd')
    if rd is not None:
        mon.count('loaded')
        if rd is not True:
            eng.report('wrong-place', fn, None, 'a page is loaded from another place in the file than its own, or into memory that is not its own', s)
        if 'pgin' not in s.flags:
            eng.report('unfiltered-io', fn, None, 'a page is loaded without the input filter (byte order, checksum)', s)
    mon.count('page-returned')
    v = s.read(('d', args[3]), 0, 8)
    if v is None or eng.truth(s, v) is False:
        if eng.debug: print(rv, v, s.mem.get(('d', args[3])), s.facts)
        eng.report('no-page', fn, None, 'success is returned without a page', s)
        return
    ok = False
    po = mon.fo['page']
    for obj, d in s.mem.items():
        for off, e in d.items():
            if off == 'Z' or e[0] != v or off is None or off < po or e[1] != 8:
                continue
            b = mon.bp(obj, off - po)
            if mon.fld(s, b, 'flags') is not None and mon.bit(s, b, 'FFDB_PAGE_PINNED') is True:
                ok = True
    if not ok:
        if eng.debug: print(rv, v, {o: {a: b for a, b in d.items() if a in (48, 68, 0, 16, 'Z')} for o, d in s.mem.items()})
        eng.report('not-pinned', fn, None, 'a page is handed out that is not pinned', s)

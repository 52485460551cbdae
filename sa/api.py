"""Contracts of the database handle: its lock, the header it keeps, what a
read-only handle may do, what flush, insertion and lookup promise, analysed
over every entry point with everything down to the page pool followed."""
from engine import C0, UNDEF, AnalysisError, State
import models, pins, fail
from pins import HELD, REL
from pool import fieldof

CONST = ('sizeof(ffdb_hashhdr_t)', 'FFDB_HASHMAGIC', 'FFDB_VERSION', 'FFDB_VERSION_5', 'FFDB_NOOVERWRITE', 'O_RDWR', 'FFDB_KEY_CURSOR')
INCL = ['<fcntl.h>', '<pthread.h>', '"ffdb_db.h"', '"ffdb_pagepool.h"', '"ffdb_page.h"', '"ffdb_hash.h"']
HDR_EXEMPT = ('chksum',)


class ApiMonitor(pins.PinMonitor):
    def __init__(self, mod, root, kind, const):
        super().__init__(root)
        self.mod, self.kind, self.c = mod, kind, const
        self.checked = {}
        self.mode = 'rw'
        self.keyobj = self.valobj = None
        self.dbt = {n: mod.field_off('_ffdb_dbt_', n) for n in ('data', 'size')}

    def count(self, what, fn=None, ins=None):
        self.checked.setdefault(what, set()).add((fn.name, fn.loc(ins)) if fn is not None else (self.root, self.mode))

    # ---- pages
    def touch(self, eng, st, fn, ins, obj, off=None):
        super().touch(eng, st, fn, ins, obj, off)
        t = st.tok.get(obj)
        if t is not None and t[0] == HELD and t[1]:
            self.changed(eng, st, fn, ins, 'a page of the database is modified')

    def changed(self, eng, st, fn, ins, what):
        st.flags['mod'] = ('str', what, fn.name, fn.loc(ins))
        if self.mode == 'ro':
            eng.report('readonly-modified', fn, ins, '%s although the handle was opened for reading only' % what, st)
        elif 'noow' in st.flags and 'match' in st.flags:
            eng.report('overwritten', fn, ins, '%s on behalf of an insertion that must not overwrite, for a key that exists' % what, st)

    # ---- the handle
    def hstore(self, fn, op):
        """(field of the handle, field of the header or None) an address denotes"""
        l = fieldof(self.mod, fn, op)
        h = [f for s, f, d in l if s == 'htab']
        if not h:
            return None
        return h[0].split('.')[0], next((f for s, f, d in l if s == 'hashhdr'), h[0].split('.')[1] if '.' in h[0] else None)

    def on_store(self, eng, st, fn, ins, obj, off, v):
        super().on_store(eng, st, fn, ins, obj, off, v)
        h = self.hstore(fn, ins['ops'][1])
        if h is not None:
            self.handle(eng, st, fn, ins, obj, off, v, h)

    def handle(self, eng, st, fn, ins, obj, off, v, h):
        if self.root != 'ffdb_dbopen' and not self.kind == 'db.close':
            self.count('handle-write', fn, ins)
            if not any(k in st.flags for k in (('lk', 'htab'), ('lk', '?'))):
                eng.report('handle-unlocked', fn, ins, 'the handle (%s), shared by all threads that use it, is written without its lock' % '.'.join(x for x in h if x), st)
        if h[0] != 'hdr':
            return
        old = st.read(obj, off, ins.get('size', 4)) if off is not None and ins['op'] == 'store' else None
        if h[1] in HDR_EXEMPT or (old is not None and old == v):
            return
        if h[1] == 'h_charkey':
            return                      # recomputed from the same function at every flush
        st.flags['hd'] = ('str', fn.name, fn.loc(ins))
        self.count('header-change', fn, ins)
        if self.mode == 'ro' and self.root != 'ffdb_dbopen':
            eng.report('readonly-modified', fn, ins, 'the header of the database is modified although the handle was opened for reading only', st)
        if h[1] == 'nkeys' and self.root != 'ffdb_dbopen':
            self.count('nkeys', fn, ins)
            one = old is not None and v == eng.binop(st, 'add', old, ('c', 1), 32)
            n = st.flags.get('nk', 0)
            st.flags['nk'] = 'bad' if not one or n == 'bad' else min(n + 1, 2)

    def on_memcpy(self, eng, st, fn, ins, dst, src, ln, d, s):
        super().on_memcpy(eng, st, fn, ins, dst, src, ln, d, s)
        h = self.hstore(fn, ins['ops'][0])
        if h is not None and d not in (None, 'null'):
            self.handle(eng, st, fn, ins, d[0], d[1], UNDEF, h)
        if 'key' in st.flags and src == st.flags['key'][1] and d not in (None, 'null') and d[0] in st.tok:
            self.count('pair-added', fn, ins)
            st.flags['ne'] = min(st.flags.get('ne', 0) + 1, 2)

    def on_memset(self, eng, st, fn, ins, dst, v, ln, d):
        super().on_memset(eng, st, fn, ins, dst, v, ln, d)
        if isinstance(ins.get('ops'), list) and ins['ops'] and ins['op'] in ('call', 'invoke') and d not in (None, 'null'):
            h = self.hstore(fn, ins['ops'][0])
            if h is not None:
                self.handle(eng, st, fn, ins, d[0], d[1], UNDEF, h)

    def key_flags(self, st):
        return {k: (v if k in ('nk', 'ne', 'fdc') else True) for k, v in st.flags.items()}


class ApiEngine(pins.PinEngine):
    def key(self, st):
        k = super().key(st)
        if 'match' in st.flags or 'fail' in st.flags or 'ps' in st.flags or 'ne' in st.flags:
            sl = fail.retslice(self.mod.funcs[self.ctx[0]])
            e = st.envs[-1]
            k = k + (frozenset((i, self.truth(st, e[i])) for i in sl if i in e and e[i][0] not in ('undef', 'nullgep')),)
        if self.mon.root == 'ffdb_dbopen' and 'hread' in st.flags:
            # verdicts kept in variables ("version_correct") tell the paths apart
            fn = self.mod.funcs[self.ctx[0]]
            k = k + (frozenset((i, v) for i, v in st.envs[-1].items() if v[0] == 'c' and -1 <= v[1] <= 1 and i in fn.defs and fn.defs[i][0] == 'ins' and fn.defs[i][1]['op'] == 'phi'),)
        return k

    def report(self, rule, fn, ins, msg, st):
        if rule in OWN:
            super().report(rule, fn, ins, msg, st)

    def assume(self, st, c, truth):
        r = super().assume(st, c, truth)
        if r is not None and c[0] == 'cmp' and c[1] in ('eq', 'ne') and (c[1] == 'eq') == truth:
            for what in ('crc', 'hk'):
                g = r.flags.get(what)
                if g is not None and g[1] in (c[2], c[3]):
                    r.flags[what + 'ok'] = True
        return r


OWN = {'double-lock', 'unlock-unheld', 'lock-leaked', 'destroy-held', 'handle-unlocked', 'readonly-modified', 'readonly-acknowledged',
       'overwritten', 'header-not-flushed', 'pages-not-flushed', 'pool-not-closed', 'fd-leaked', 'fd-closed-twice', 'not-verified', 'found-without-match',
       'absent-despite-match', 'key-count', 'pair-not-added', 'pair-added-twice', 'refusal-acknowledged', 'access-mode', 'bad-header', 'checksum-of-other', 'late-change'}


def lockname(eng, st, fn, ins, args):
    l = fieldof(eng.mod, fn, ins['ops'][0])
    for s, f, d in l:
        if s in ('htab', '_ffdb_crs_') and f.split('.')[0] == 'lock':
            return s
    return '?'


def m_lock(eng, st, fn, ins, args, name):
    k = ('lk', lockname(eng, st, fn, ins, args))
    eng.mon.count('lock', fn, ins)
    if k in st.flags:
        eng.report('double-lock', fn, ins, 'the lock of the %s is taken while the call already holds it' % WHO[k[1]], st)
        return []
    st.flags[k] = True
    st.note('%s: lock of the %s taken' % (fn.loc(ins), WHO[k[1]]))
    return [(st, C0, 'ret')]


WHO = {'htab': 'database handle', '_ffdb_crs_': 'cursor', '?': 'object'}


def m_unlock(eng, st, fn, ins, args, name):
    k = ('lk', lockname(eng, st, fn, ins, args))
    if k not in st.flags:
        eng.report('unlock-unheld', fn, ins, 'the lock of the %s is given up without being held' % WHO[k[1]], st)
        return []
    del st.flags[k]
    return [(st, C0, 'ret')]


def m_destroy(eng, st, fn, ins, args, name):
    k = ('lk', lockname(eng, st, fn, ins, args))
    eng.mon.count('lock-destroyed', fn, ins)
    if k in st.flags:
        eng.report('destroy-held', fn, ins, 'the lock of the %s is destroyed while it is held' % WHO[k[1]], st)
        del st.flags[k]
    return [(st, C0, 'ret')]


def m_put(eng, st, fn, ins, args, name):
    b = eng.binop(st, 'and', args[2], ('c', eng.DIRTY), 32)
    dirty = eng.truth(st, b) if b is not None and b[0] != 'undef' else None
    if dirty is not False:
        eng.mon.count('dirty-release', fn, ins)
        eng.mon.changed(eng, st, fn, ins, 'a page is handed back as changed')
        st.flags.pop('ps', None)
    pins.release(eng, st, fn, ins, args[1], name, None)
    return [(st, C0, 'ret')]


def m_get(eng, st, fn, ins, args, name):
    if name.endswith('new_page'):
        eng.mon.changed(eng, st, fn, ins, 'a page is added')
        st.flags.pop('ps', None)
    out = pins.m_get(eng, st, fn, ins, args, name)
    out[0][0].flags['fail'] = True
    return out


def m_write(eng, st, fn, ins, args, name):
    mon = eng.mon
    mon.count('file-write', fn, ins)
    mon.changed(eng, st, fn, ins, 'the file is written')
    out = fail.m_xfer(eng, st, fn, ins, args, name)
    s, rv, k = out[-1]
    if args[2] == ('c', mon.c['sizeof(ffdb_hashhdr_t)']):
        if name.startswith('p'):
            ok = args[3] == C0
        else:
            ok = s.flags.get('pos0')
        if ok:
            s.flags.pop('hd', None)
            s.flags['hf'] = True
    s.flags.pop('pos0', None)
    return out


def m_read(eng, st, fn, ins, args, name):
    out = fail.m_xfer(eng, st, fn, ins, args, name)
    if args[2] == ('c', eng.mon.c['sizeof(ffdb_hashhdr_t)']) and eng.mon.root == 'ffdb_dbopen':
        s = out[-1][0]
        s.flags['hread'] = True
        eng.mon.count('header-read', fn, ins)
        for k in ('crc', 'crcok', 'hk', 'hkok'):
            s.flags.pop(k, None)
    return out


def m_lseek(eng, st, fn, ins, args, name):
    out = fail.m_neg(eng, st, fn, ins, args, name)
    s, rv, k = out[-1]
    s.flags.pop('pos0', None)
    if args[1] == C0 and args[2] == C0:
        s.flags['pos0'] = True
        out[-1] = (s, C0, k)
    return out


def m_trunc(eng, st, fn, ins, args, name):
    eng.mon.changed(eng, st, fn, ins, 'the file is truncated')
    return models.noeffect(eng, st, fn, ins, args, name)


def m_sync(eng, st, fn, ins, args, name):
    out = fail.m_zero(eng, st, fn, ins, args, name)
    s = out[-1][0]
    s.flags['ps'] = True
    eng.mon.count('pool-sync', fn, ins)
    return out


def m_poolclose(eng, st, fn, ins, args, name):
    st.flags['pc'] = True
    out = fail.m_zero(eng, st, fn, ins, args, name)
    return out


def m_close(eng, st, fn, ins, args, name):
    n = st.flags.get('fdc', 0)
    eng.mon.count('close', fn, ins)
    if n:
        eng.report('fd-closed-twice', fn, ins, 'the file descriptor is closed twice', st)
    st.flags['fdc'] = 1
    return models.noeffect(eng, st, fn, ins, args, name)


def m_change(eng, st, fn, ins, args, name):
    eng.mon.changed(eng, st, fn, ins, 'a page is moved')
    st.flags.pop('ps', None)
    out = pins.m_change(eng, st, fn, ins, args, name)
    return out


def m_delete(eng, st, fn, ins, args, name):
    eng.mon.changed(eng, st, fn, ins, 'a page is removed')
    return pins.m_delete(eng, st, fn, ins, args, name)


def m_crc(eng, st, fn, ins, args, name):
    rv = eng.fresh(st, eng.site(fn, ins))
    eng.mon.count('checksum', fn, ins)
    st.flags.pop('crcok', None)
    st.flags['crc'] = ('v', rv)
    return [(st, rv, 'ret')]


def m_compare(eng, st, fn, ins, args, name):
    eng.mon.count('key-compare', fn, ins)
    ne = st.copy()
    r = eng.fresh(ne, eng.site(fn, ins))
    eng.setrng(ne, r, None, None, True)
    if 'key' in st.flags and not any(iskey(eng, st, fn, ins, a, st.flags['key'][1]) for a in args[:2]):
        eng.mon.count('foreign-compare', fn, ins)       # not the key the caller asked for
    else:
        st.flags['match'] = True
    return [(ne, r, 'ret'), (st, C0, 'ret')]


def iskey(eng, st, fn, ins, a, k):
    d = (a[1], a[2]) if a[0] == 'p' else (('d', a), 0) if a[0] == 's' else None
    return d is not None and d[1] is not None and st.read(d[0], d[1] + eng.mon.dbt['data'], 8) == k


def m_hash(eng, st, fn, ins, args, name):
    rv = eng.fresh(st, eng.site(fn, ins))
    a = args[0]
    if a[0] == 'p' and a[1][0] == 'g':
        st.flags['hk'] = ('v', rv)          # the hash of a constant: the self test of the hash function
        st.flags.pop('hkok', None)
    return [(st, rv, 'ret')]


def m_rearrange(eng, st, fn, ins, args, name):
    if name not in eng.mod.funcs:
        return None
    eng.mon.changed(eng, st, fn, ins, 'pages are moved')
    st.flags.pop('ps', None)
    return fail.m_zero(eng, st, fn, ins, args, name)


def m_expand(eng, st, fn, ins, args, name):
    eng.mon.count('expand', fn, ins)
    st.flags['hd'] = ('str', fn.name, fn.loc(ins))
    return m_rearrange(eng, st, fn, ins, args, name)


def setup(mod, root, kind, const):
    eng = ApiEngine(mod, ApiMonitor(mod, root, kind, const))
    eng.mon.sites = set()
    models.install(eng)
    m = eng.models
    m['ffdb_pagepool_get_page'] = m['ffdb_pagepool_new_page'] = m_get
    m['ffdb_pagepool_put_page'] = m_put
    m['ffdb_pagepool_delete'] = m_delete
    m['ffdb_pagepool_change_page'] = m_change
    m['ffdb_pagepool_sync'] = m_sync
    m['ffdb_pagepool_close'] = m_poolclose
    for n in ('ffdb_pagepool_create', 'ffdb_pagepool_open_fd', 'ffdb_pagepool_open'):
        m[n] = fail.m_zero
    m['ffdb_pagepool_filter'] = fail.m_ok
    m['pthread_mutex_lock'] = m_lock
    m['pthread_mutex_unlock'] = m_unlock
    m['pthread_mutex_destroy'] = m_destroy
    for n in ('write', 'pwrite', 'pwrite64'):
        m[n] = m_write
    for n in ('read', 'pread', 'pread64'):
        m[n] = m_read
    for n in ('lseek', 'lseek64'):
        m[n] = m_lseek
    for n in ('ftruncate', 'ftruncate64', 'truncate', 'truncate64'):
        m[n] = m_trunc
    m['close'] = m_close
    m['__ffdb_crc32_checksum'] = m_crc
    m[('indirect', ('htab', 'h_compare'))] = m_compare
    m[('indirect', ('htab', 'hash'))] = m_hash
    if root == 'ffdb_dbopen' or kind == 'db.put':
        # moving pages about is looked at from the other entry points
        m['ffdb_rearrage_pages_on_open'] = m_rearrange
        m['_ffdb_expand_table'] = m_expand
    eng.short_reads = True

    def facts_short(st, r, n):
        eng.setrng(st, r, 0, n[1] - 1)
    eng.facts_short = facts_short
    return eng


def start(mod, fn, kind, mode, const, root):
    """entry states: (args, state)"""
    out = []
    off = mod.field_off
    for args, st in pins.root_states(mod, fn, kind):
        hashp = ('s', ('hashp',))
        if root != 'ffdb_dbopen':
            st.facts[hashp] = (None, None, True)
            if kind.startswith('cursor.'):
                st.write(('d', ('s', ('icrs',))), off('_ffdb_crs_', 'hashp'), 8, hashp)
                if kind == 'cursor.get':
                    st.write(('d', args[0]), off('_ffdb_cursor_', 'type'), 4, ('c', const['FFDB_KEY_CURSOR']))
            else:
                st.write(('d', args[0]), off('__ffdb', 'internal'), 8, hashp)
            v = ('c', 0 if mode == 'ro' else const['O_RDWR'])
            st.write(('d', hashp), off('htab', 'flags'), 4, v)
            st.write(('d', hashp), off('htab', 'save_file'), 4, v)
        elif mode == 'ro':
            args[1] = C0
        out.append((args, st))
    return out


def run_root(mod, name, kind, mode, const):
    fn = mod.defined(name)
    eng = setup(mod, name, kind, const)
    mon = eng.mon
    mon.mode = mode
    if name == 'ffdb_dbopen' and mode == 'ro':
        def st0(eng, st, fn, ins, args, name):
            return [(st, C0, 'ret')]
        for n in ('stat', 'stat64', '__xstat64', '__xstat'):
            eng.models[n] = st0
    nex = 0
    for args, st in start(mod, fn, kind, mode, const, name):
        variants = [st]
        if kind in ('db.put', 'db.get'):
            k = ('s', ('keydata',))
            st.facts[k] = (None, None, True)
            st.write(('d', args[1]), mon.dbt['data'], 8, k)
            st.flags['key'] = ('v', k)
        if kind == 'db.put':
            s2 = st.copy()
            s2.flags['noow'] = True
            args2 = list(args)
            args2[3] = ('c', const['FFDB_NOOVERWRITE'])
            args1 = list(args)
            args1[3] = C0
            runs = [(args2, s2), (args1, st.copy()), (args, st)]
            s3 = st
            s3.flags['anyflag'] = True
            for c in (0, const['FFDB_NOOVERWRITE']):
                s3.facts[eng.mkcmp('eq', args[3], ('c', c), 32)] = False
                s3.facts[eng.mkcmp('ne', args[3], ('c', c), 32)] = True
            s3.facts[args[3]] = (None, None, True)
        elif kind == 'cursor.get':
            a0 = list(args)
            a0[2] = C0
            s2 = st.copy()
            st.facts[args[2]] = (None, None, True)
            runs = [(args, st), (a0, s2)]
        else:
            runs = [(args, st)]
        for a, s0 in runs:
            for s, rv, k in eng.call(fn, s0, a):
                nex += 1
                exits(eng, mon, fn, name, kind, mode, const, a, s, rv)
    return eng, nex


def exits(eng, mon, fn, name, kind, mode, const, args, s, rv):
    may = pins.may_succeed(eng, s, rv, name, kind)
    for k in s.flags:
        if isinstance(k, tuple) and k[0] == 'lk':
            eng.report('lock-leaked', fn, None, '%s can return while it holds the lock of the %s' % (name, WHO[k[1]]), s)
    if mode == 'ro':
        if may and (kind in ('db.put',) or '_set_' in name):
            eng.report('readonly-acknowledged', fn, None, '%s can report success on a handle opened for reading only' % name, s)
        mon.count('ro-exit')
    if kind in ('db.sync', 'db.close') and may and mode == 'rw':
        mon.count('flush-exit')
        if 'hf' not in s.flags or 'hd' in s.flags:
            w = s.flags.get('hd')
            eng.report('header-not-flushed', fn, None, '%s can report success although the header %s' % (name, 'was changed after it was written (%s)' % w[2] if w and 'hf' in s.flags else 'was not written'), s)
        if 'ps' not in s.flags:
            eng.report('pages-not-flushed', fn, None, '%s can report success although the changed pages were not flushed (or pages changed afterwards)' % name, s)
    if kind == 'db.close':
        if 'pc' not in s.flags and may:
            eng.report('pool-not-closed', fn, None, '%s can report success without closing the page cache' % name, s)
    if kind == 'db.put' and mode == 'rw':
        if may and 'anyflag' in s.flags:
            eng.report('refusal-acknowledged', fn, None, '%s can report success for flags it does not support' % name, s)
        if 'anyflag' in s.flags and 'mod' in s.flags:
            eng.report('overwritten', fn, None, '%s changes the database although it was called with flags it does not support' % name, s)
        ne, nk = s.flags.get('ne', 0), s.flags.get('nk', 0)
        if 'match' in s.flags:
            mon.count('put-existing')
            if may and 'noow' in s.flags:
                eng.report('overwritten', fn, None, '%s can report success for a key that exists although it was told not to overwrite' % name, s)
            if ne or nk:
                eng.report('key-count' if nk else 'pair-added-twice', fn, None, 'putting a key that exists %s' % ('changes the number of keys' if nk else 'adds a second entry for it'), s)
        elif may:
            mon.count('put-new')
            if ne != 1:
                eng.report('pair-not-added' if not ne else 'pair-added-twice', fn, None, '%s can report success for a new key %s' % (name, 'without adding it' if not ne else 'after adding it twice'), s)
            if nk != 1:
                eng.report('key-count', fn, None, '%s can report success for a new key without counting it exactly once' % name, s)
        elif nk not in (0, 1) or (nk == 1 and ne == 0):
            eng.report('key-count', fn, None, '%s counts a key that it did not add' % name, s)
    if kind == 'db.get' and may:
        mon.count('get-found')
        if 'match' not in s.flags:
            eng.report('found-without-match', fn, None, '%s can report success although no key compared equal' % name, s)
        if 'crcok' not in s.flags:
            eng.report('not-verified', fn, None, '%s can return data whose checksum was not compared' % name, s)
    if kind == 'cursor.get' and may and eng.truth(s, args[2]) is not False:
        mon.count('cursor-data')
        if 'crcok' not in s.flags:
            eng.report('not-verified', fn, None, '%s can return data whose checksum was not compared' % name, s)
    if kind == 'db.get' and rv is not None and not may and 'match' in s.flags:
        lo, hi, nz = eng.rng(s, rv)
        if 'fail' not in s.flags and (lo is None or lo <= 1) and (hi is None or hi >= 1):
            eng.report('absent-despite-match', fn, None, '%s can answer "no such key" although a key compared equal' % name, s)
    if name == 'ffdb_dbopen' and rv is not None and eng.truth(s, rv) is not False:
        open_exit(eng, mon, fn, name, mode, const, args, s, rv)


def open_exit(eng, mon, fn, name, mode, const, args, s, rv):
    off = mon.mod.field_off
    mon.count('open-exit')
    d = eng.deref(s, fn, None, rv, 'result') if rv[0] != 'p' else (rv[1], rv[2])
    hp = s.read(d[0], d[1] + off('__ffdb', 'internal'), 8)
    if hp is None or hp[0] not in ('p', 's'):
        raise AnalysisError('the handle returned by %s cannot be followed' % name)
    ho = hp[1] if hp[0] == 'p' else ('d', hp)

    def f(n):
        return s.read(ho, off('htab', n), 4)
    mg = f('hdr.magic')
    if mg is None or eng.rng(s, mg)[:2] not in ((const['FFDB_HASHMAGIC'],) * 2, (const['FFDB_HASHMAGIC'] - (1 << 32),) * 2):
        eng.report('bad-header', fn, None, '%s can succeed on a file that does not start with the magic number' % name, s)
    v = f('hdr.version')
    lo, hi, nz = eng.rng(s, v) if v is not None else (None, None, False)
    if lo is None or hi is None or lo < const['FFDB_VERSION_5'] or hi > const['FFDB_VERSION']:
        eng.report('bad-header', fn, None, '%s can succeed on a file of an unsupported version' % name, s)
    if 'hread' in s.flags:
        mon.count('open-existing')
        if 'crcok' not in s.flags:
            eng.report('not-verified', fn, None, '%s can succeed without having compared the checksum of the header' % name, s)
        if 'hkok' not in s.flags:
            eng.report('bad-header', fn, None, '%s can succeed on a file made with another hash function' % name, s)
    else:
        mon.count('open-new')
    fl, sv = f('flags'), f('save_file')
    if fl is None or eng.binop(s, 'and', fl, ('c', const['O_RDWR']), 32) != eng.binop(s, 'and', args[1], ('c', const['O_RDWR']), 32):
        eng.report('access-mode', fn, None, 'the handle does not remember the access mode it was opened with', s)
    want = eng.binop(s, 'and', args[1], ('c', const['O_RDWR']), 32)
    if sv != want:
        eng.report('access-mode', fn, None, 'whether the file is saved does not follow from the access mode', s)


def all_roots(mod):
    out = []
    for n, k in pins.api_roots(mod):
        if n in ('ffdb_max_user_info_len', 'ffdb_num_configs'):
            continue
        for mode in ('rw', 'ro'):
            out.append((n, k, mode))
    return out

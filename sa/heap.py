"""Ownership of heap memory and file descriptors in the layers above the page
pool: what a call allocates it frees, keeps in the handle or hands out on
success; nothing is freed twice or used after it was freed."""
from engine import Engine, Monitor, State, C0, UNDEF, AnalysisError
import models, fail, pins
from pins import HELD, REL

OWN = {'leak', 'double-free', 'use-after-free', 'fd-leak', 'fd-double-close', 'not-freed', 'dangling'}


class HeapMonitor(pins.PinMonitor):
    def __init__(self, root):
        super().__init__(root)
        self.sites = set()
        self.allocs, self.frees, self.fds = set(), set(), set()

    def on_load(self, eng, st, fn, ins, obj, off):
        t = st.tok.get(obj)
        if t is not None and t[0] == REL:
            eng.report('use-after-free', fn, ins, 'memory allocated at %s is read after it was freed' % t[2], st)

    def touch(self, eng, st, fn, ins, obj, off=None):
        t = st.tok.get(obj)
        if t is not None and t[0] == REL:
            eng.report('use-after-free', fn, ins, 'memory allocated at %s is written after it was freed' % t[2], st)

    def key_flags(self, st):
        return {k: (v if k == 'fd' else True) for k, v in st.flags.items()}

    def on_null(self, eng, st, fn, ins, what):
        pass


class HeapEngine(pins.PinEngine):
    def report(self, rule, fn, ins, msg, st):
        if rule == 'leaked-pin':
            rule, msg = 'leak', msg.replace('page pinned at', 'memory allocated at').replace('released', 'freed')
        if rule in OWN:
            super().report(rule, fn, ins, msg, st)

    def droptok(self, tv):
        return False

    def tokkey(self, tv):
        return (tv[0],)

    def check_leaks(self, st, vals, fn, ins):
        held = [t for t, v in st.tok.items() if v[0] == HELD and t[0] == 'h']
        if not held:
            return
        r = self.reachable(st, vals)
        for t in held:
            if t not in r:
                self.report('leak', fn, ins, 'memory allocated at %s is neither freed nor kept on a path through %s' % (st.tok[t][2], fn.name), st)
                del st.tok[t]

    def merge_exits(self, out, fn, ctxid):
        for s, rv, kind in out:
            self.check_leaks(s, [rv] if rv is not None else [], fn, None)
        return super(pins.PinEngine, self).merge_exits(out, fn, ctxid)


def m_alloc(eng, st, fn, ins, args, name):
    bad, r = fail.failing(eng, st, fn, ins, name, C0)
    eng.mon.allocs.add((fn.name, fn.loc(ins)))
    h = eng.fresh(st, eng.site(fn, ins), 'h')
    st.mem.pop(h, None)
    st.tok[h] = (HELD, False, fn.loc(ins), None)
    if name == 'calloc':
        st.mem[h] = {'Z': (0, 1 << 40)}
    return [(bad, r, 'ret'), (st, ('p', h, 0), 'ret')]


def m_free(eng, st, fn, ins, args, name):
    v = args[0]
    if v == C0 or v[0] not in ('p', 's'):
        return [(st, None, 'ret')]
    eng.mon.frees.add((fn.name, fn.loc(ins)))
    if v[0] == 's' and eng.rng(st, v)[:2] == (0, 0):
        return [(st, None, 'ret')]
    obj = v[1] if v[0] == 'p' else ('d', v)
    t = st.tok.get(obj)
    if t is not None and t[0] == REL:
        eng.report('double-free', fn, ins, 'memory allocated at %s is freed twice' % t[2], st)
        return []
    st.tok[obj] = (REL, False, t[2] if t else '(caller)', None)
    return [(st, None, 'ret')]


def m_open(eng, st, fn, ins, args, name):
    eng.mon.fds.add((fn.name, fn.loc(ins)))
    out = fail.m_neg(eng, st, fn, ins, args, name)
    out[-1][0].flags['fd'] = 'open'
    return out


def m_close(eng, st, fn, ins, args, name):
    eng.mon.fds.add((fn.name, fn.loc(ins)))
    if st.flags.get('fd') == 'closed':
        eng.report('fd-double-close', fn, ins, 'the file is closed twice', st)
    st.flags['fd'] = 'closed'
    return models.noeffect(eng, st, fn, ins, args, name)


def setup(mod, root):
    eng = HeapEngine(mod, HeapMonitor(root))
    models.install(eng)
    m = eng.models
    m['ffdb_pagepool_get_page'] = m['ffdb_pagepool_new_page'] = fail.m_get
    m['ffdb_pagepool_put_page'] = fail.m_ok
    for n in ('ffdb_pagepool_delete', 'ffdb_pagepool_change_page', 'ffdb_pagepool_sync', 'ffdb_pagepool_close',
              'ffdb_pagepool_open_fd', 'ffdb_pagepool_open', 'ffdb_pagepool_create'):
        m[n] = fail.m_zero
    m['ffdb_pagepool_filter'] = fail.m_ok
    for n in ('malloc', 'calloc', 'strdup'):
        m[n] = m_alloc
    m['free'] = m_free
    for n in ('open', 'open64'):
        m[n] = m_open
    m['close'] = m_close
    for n in ('lseek64', 'lseek', 'fstat64', 'fstat'):
        m[n] = fail.m_neg
    for n in ('read', 'write', 'pread', 'pwrite', 'pread64', 'pwrite64'):
        m[n] = fail.m_xfer
    eng.short_reads = False
    eng.facts_short = lambda st, r, n: eng.setrng(st, r, 0, n[1] - 1)
    # moving pages about allocates nothing that outlives it; looked at on its own
    if root == 'ffdb_dbopen':
        m['ffdb_rearrage_pages_on_open'] = stub
    if root != 'ffdb_rearrage_pages_on_close':
        m['ffdb_rearrage_pages_on_close'] = stub
    return eng


def stub(eng, st, fn, ins, args, name):
    if name not in eng.mod.funcs:
        return None
    return fail.m_zero(eng, st, fn, ins, args, name)


def run_root(mod, name, kind):
    fn = mod.defined(name)
    eng = setup(mod, name)
    nex = 0
    off = mod.field_off
    for args, st in pins.root_states(mod, fn, kind):
        st.tok = {}
        own = {}
        if kind == 'db.close':
            hashp = ('s', ('hashp',))
            st.facts[hashp] = (None, None, True)
            st.write(('d', args[0]), off('__ffdb', 'internal'), 8, hashp)
            own[('d', args[0])] = 'the handle'
            own[('d', hashp)] = 'the handle\'s hash table'
            for f in ('fname', 'split_buf'):
                v = ('s', (f,))
                st.facts[v] = (None, None, True)
                st.write(('d', hashp), off('htab', f), 8, v)
                own[('d', v)] = f
            v = ('s', ('fp',))
            eng.setrng(st, v, 3, 1 << 20)
            st.write(('d', hashp), off('htab', 'fp'), 4, v)
            st.flags['fd'] = 'open'
        if kind == 'cursor.close':
            own[('d', args[0])] = 'the cursor'
            own[('d', ('s', ('icrs',)))] = 'the cursor\'s state'
        for o, w in own.items():
            st.tok[o] = (HELD, False, '(%s)' % w, None)
        for s, rv, k in eng.call(fn, st, args):
            nex += 1
            for o, w in own.items():
                if s.tok.get(o, (HELD,))[0] != REL:
                    eng.report('not-freed', fn, None, '%s is not freed when %s returns' % (w, name), s)
            # handed out only by a call that says so
            if not pins.may_succeed(eng, s, rv, name, kind) or rv is None:
                for o, t in s.tok.items():
                    if t[0] == HELD and o[0] == 'h':
                        eng.report('leak', fn, None, 'memory allocated at %s is not freed although %s fails' % (t[2], name), s)
            if name == 'ffdb_dbopen' and eng.truth(s, rv) is False and s.flags.get('fd') == 'open':
                eng.report('fd-leak', fn, None, 'the file stays open although %s fails' % name, s)
            if kind == 'db.close' and s.flags.get('fd') == 'open':
                eng.report('fd-leak', fn, None, 'the file stays open after %s' % name, s)
            # nothing the caller can reach may be freed memory
            for o, d in s.mem.items():
                if o[0] == 'd' and o not in s.tok:
                    for k2, e in d.items():
                        if k2 != 'Z' and e[0][0] == 'p' and s.tok.get(e[0][1], (None,))[0] == REL:
                            eng.report('dangling', fn, None, 'the caller\'s data still points at memory allocated at %s and freed' % s.tok[e[0][1]][2], s)
    return eng, nex

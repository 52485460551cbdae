"""Storage failures seen by the layers above the page pool: a path on which a
page, an allocation or a system call failed must not end in success."""
from engine import Engine, Monitor, State, C0, UNDEF, AnalysisError
import models, pins
from pins import api_roots


class FailMonitor(Monitor):
    def __init__(self):
        self.sites = set()

    detail = False

    def key_flags(self, st):
        return st.flags if self.detail else {k: True for k in st.flags}

    def on_null(self, eng, st, fn, ins, what):
        if 'fail' in st.flags:
            return


def retslice(fn):
    """values that can become the function's result without computation, and
    those that select among them"""
    if not hasattr(fn, '_retslice'):
        out, work = set(), []
        for b in fn.blocks:
            t = b[-1]
            if t['op'] == 'ret' and t.get('ops') and isinstance(t['ops'][0], int):
                work.append(t['ops'][0])
        while work:
            x = work.pop()
            if x in out:
                continue
            out.add(x)
            k, d = fn.defs[x]
            if k != 'ins':
                continue
            if d['op'] == 'phi':
                src = [v for v, _ in d['in']]
            elif d['op'] in ('select', 'zext', 'sext', 'trunc', 'bitcast', 'or', 'icmp'):
                src = d['ops']
            else:
                src = []
            work += [v for v in src if isinstance(v, int)]
        fn._retslice = out
    return fn._retslice


class FailEngine(Engine):
    def key(self, st):
        k = super().key(st)
        if 'fail' in st.flags:
            # once something failed, "is the failure remembered" is part of the property state
            sl = retslice(self.mod.funcs[self.ctx[0]])
            e = st.envs[-1]
            c = []
            for i in sl:
                v = e.get(i)
                if v is not None and v[0] not in ('undef', 'nullgep'):
                    c.append((i, self.truth(st, v)))
            k = k + (frozenset(c),)
        return k

    def call(self, fn, st, args, callins=None, callfn=None):
        had = 'fail' in st.flags
        out = super().call(fn, st, args, callins, callfn)
        if not had and callins is not None:
            for s, rv, k in out:
                f = s.flags.get('fail')
                if f is not None and f[3].count(' < ') < 3:
                    s.flags['fail'] = f[:3] + ('%s < %s' % (f[3], callfn.loc(callins)),)
        return out


def failing(eng, st, fn, ins, what, rv=None):
    bad = st.copy()
    eng.mon.sites.add((fn.name, fn.loc(ins), what))
    if rv is None:
        rv = eng.fresh(bad, eng.site(fn, ins, 'err'))
        eng.setrng(bad, rv, None, None, True)
    elif rv in (C0, ('c', -1)):
        # a failing library call leaves a positive errno
        e = eng.fresh(bad, eng.site(fn, ins, 'errno'))
        eng.setrng(bad, e, 1, 4095, True)
        bad.write(('g', 'errno'), 0, 4, e)
    bad.flags.setdefault('fail', ('str', what, fn.name, fn.loc(ins)))
    bad.note('%s: %s fails' % (fn.loc(ins), what))
    return bad, rv


def m_get(eng, st, fn, ins, args, name):
    d = eng.deref(st, fn, ins, args[3], name)
    if d in (None, 'null'):
        raise AnalysisError('%s: cannot resolve the output pointer of %s' % (fn.loc(ins), name))
    bad, r = failing(eng, st, fn, ins, name)
    bad.write(d[0], d[1], 8, C0)
    t = eng.fresh(st, eng.site(fn, ins), 'pg')
    st.mem.pop(t, None)
    d = eng.deref(st, fn, ins, eng.val(st, ins['ops'][3]), name)
    st.write(d[0], d[1], 8, ('p', t, 0))
    if name.endswith('new_page'):
        p = eng.deref(st, fn, ins, eng.val(st, ins['ops'][1]), name)
        if p not in (None, 'null'):
            st.kill(p[0], p[1], None if p[1] is None else p[1] + 4)
    return [(bad, r, 'ret'), (st, C0, 'ret')]


def m_zero(eng, st, fn, ins, args, name):
    """0 on success, non-zero on failure"""
    bad, r = failing(eng, st, fn, ins, name)
    return [(bad, r, 'ret'), (st, C0, 'ret')]


def m_ok(eng, st, fn, ins, args, name):
    return [(st, C0 if ins['ty'] != 'void' else None, 'ret')]


def m_alloc(eng, st, fn, ins, args, name):
    bad, r = failing(eng, st, fn, ins, name, C0)
    h = eng.fresh(st, eng.site(fn, ins), 'h')
    st.mem.pop(h, None)
    if name == 'calloc':
        st.mem[h] = {'Z': (0, 1 << 40)}
    return [(bad, r, 'ret'), (st, ('p', h, 0), 'ret')]


def m_neg(eng, st, fn, ins, args, name):
    """-1 on failure, a non-negative number on success"""
    bad, r = failing(eng, st, fn, ins, name, ('c', -1))
    rv = eng.fresh(st, eng.site(fn, ins))
    eng.setrng(st, rv, 0, None)
    return [(bad, r, 'ret'), (st, rv, 'ret')]


def m_xfer(eng, st, fn, ins, args, name):
    """read/write: -1, a short count, or the full count"""
    n = args[2]
    st0 = st
    if name.startswith('read') or name.startswith('pread'):
        d = eng.deref(st, fn, ins, args[1], name)
        if d not in (None, 'null'):
            st.kill(d[0], d[1], d[1] + n[1] if n[0] == 'c' and d[1] is not None else None)
    bad, r = failing(eng, st, fn, ins, name, ('c', -1))
    out = [(bad, r, 'ret')]
    if not (name.startswith('read') or name.startswith('pread')) or eng.short_reads:
        sh, r = failing(eng, st, fn, ins, 'short ' + name)
        if n[0] == 'c':
            if n[1] > 1:
                eng.facts_short(sh, r, n)
        else:
            eng.setrng(sh, r, 0, None)
            sh.facts[('cmp', 'ne', r, n, 64)] = True
            sh.facts[('cmp', 'slt', r, n, 64)] = True
            sh.facts[('cmp', 'ult', r, n, 64)] = True
        out.append((sh, r, 'ret'))
    out.append((st, n, 'ret'))
    return out


def setup(mod):
    eng = FailEngine(mod, FailMonitor())
    models.install(eng)
    m = eng.models
    m['ffdb_pagepool_get_page'] = m['ffdb_pagepool_new_page'] = m_get
    m['ffdb_pagepool_put_page'] = m_ok
    m['ffdb_pagepool_delete'] = models.noeffect      # a page that stays behind is wasted space, not lost data
    m['ffdb_pagepool_change_page'] = m_zero
    for n in ('ffdb_pagepool_sync', 'ffdb_pagepool_close', 'ffdb_pagepool_create', 'ffdb_pagepool_open_fd', 'ffdb_pagepool_open'):
        m[n] = m_zero
    m['ffdb_pagepool_filter'] = m_ok
    for n in ('malloc', 'calloc', 'realloc', 'strdup'):
        m[n] = m_alloc
    for n in ('open64', 'open', 'lseek64', 'lseek', 'fstat64', 'fstat', 'fsync', 'fdatasync'):
        m[n] = m_neg
    for n in ('read', 'write', 'pread', 'pwrite', 'pread64', 'pwrite64'):
        m[n] = m_xfer
    eng.short_reads = True

    def facts_short(st, r, n):
        eng.setrng(st, r, 0, n[1] - 1)
    eng.facts_short = facts_short
    return eng


def run_root(mod, name, kind):
    eng, nex = run_root1(mod, name, kind, False)
    if eng.results():
        # name every failing site instead of one per exit
        try:
            return run_root1(mod, name, kind, True)
        except AnalysisError:
            pass
    return eng, nex


def run_root1(mod, name, kind, detail):
    fn = mod.defined(name)
    eng = setup(mod)
    eng.mon.detail = detail
    nex = nbad = 0
    for args, st in pins.root_states(mod, fn, kind):
        st.tok = {}
        for s, rv, k in eng.call(fn, st, args):
            nex += 1
            if 'fail' not in s.flags:
                continue
            nbad += 1
            f = s.flags['fail']
            if pins.may_succeed(eng, s, rv, name, kind):
                eng.report('failure-as-success', fn, None, '%s failed at %s in %s; %s can then report success' % (f[1], f[3], f[2], name), s)
            elif fn.ret != 'ptr' and (kind in ('db.get', 'db.put', 'cursor.get')):
                lo, hi, nz = eng.rng(s, rv)
                if not ((lo is not None and lo > 1) or (hi is not None and hi < 1)):
                    eng.report('failure-as-absence', fn, None, '%s failed at %s in %s; %s can then report "no such key"' % (f[1], f[3], f[2], name), s)
    return eng, nex

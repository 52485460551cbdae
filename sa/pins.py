"""Page pin typestate for the layers above the page pool."""
from engine import Engine, Monitor, State, C0, UNDEF, AnalysisError
import models

HELD, REL = 'held', 'released'


class PinMonitor(Monitor):
    """token state: (HELD|REL, modified, acquired-at)"""

    def __init__(self, root):
        self.root = root
        self.acquires = set()
        self.releases = set()
        self.rets = 0
        self.stores = 0

    # -- helpers
    def tokof(self, st, v):
        if v[0] == 'p' and v[1] in st.tok:
            return v[1]
        if v[0] == 's' and ('d', v) in st.tok:
            return ('d', v)
        return None

    def acquire(self, eng, st, fn, ins):
        t = eng.fresh(st, eng.site(fn, ins), 'pg')
        st.mem.pop(t, None)
        st.tok[t] = (HELD, False, fn.loc(ins), None)
        self.acquires.add((fn.name, fn.loc(ins)))
        return t

    def on_load(self, eng, st, fn, ins, obj, off):
        t = st.tok.get(obj)
        if t is not None and t[0] == REL:
            eng.report('use-after-release', fn, ins, 'page acquired at %s is read after it was released' % t[2], st)

    def touch(self, eng, st, fn, ins, obj, off=None):
        t = st.tok.get(obj)
        if t is None:
            return
        self.stores += 1
        if t[0] == REL:
            eng.report('use-after-release', fn, ins, 'page acquired at %s is written after it was released' % t[2], st)
        elif not t[1]:
            # formatting a blank page (the path tested one of its words to be zero and the page number is written)
            # changes nothing a reader could have seen: stores of that activation do not count
            if t[3] is None:
                blank = any(k != 'Z' and e[0] != C0 and eng.rng(st, e[0])[:2] == (0, 0) for k, e in (st.mem.get(obj) or {}).items())
                if blank:
                    st.tok[obj] = t = (t[0], t[1], t[2], (0, False, fn.loc(ins)))
            if t[3] is not None:
                if off == 0:
                    st.tok[obj] = (t[0], t[1], t[2], (t[3][0], True, t[3][2]))
                return
            st.tok[obj] = (t[0], fn.loc(ins), t[2], t[3])

    def on_store(self, eng, st, fn, ins, obj, off, v):
        self.touch(eng, st, fn, ins, obj, off)

    def on_memcpy(self, eng, st, fn, ins, dst, src, ln, d, s):
        if d not in (None, 'null'):
            self.touch(eng, st, fn, ins, d[0])
        if s not in (None, 'null'):
            self.on_load(eng, st, fn, ins, s[0], s[1])

    def on_memset(self, eng, st, fn, ins, dst, v, ln, d):
        if d not in (None, 'null'):
            self.touch(eng, st, fn, ins, d[0])

    def key_flags(self, st):
        return {k: True for k in st.flags}

    def on_null(self, eng, st, fn, ins, what):
        eng.report('null-deref', fn, ins, '%s through a NULL pointer' % what, st)


def m_get(eng, st, fn, ins, args, name):
    mon = eng.mon
    memp = args[3]
    d = eng.deref(st, fn, ins, memp, name)
    if d in (None, 'null'):
        raise AnalysisError('%s: cannot resolve the output pointer of %s' % (fn.loc(ins), name))
    bad = st.copy()
    bad.write(d[0], d[1], 8, C0)
    r = eng.fresh(bad, eng.site(fn, ins, 'err'))
    eng.setrng(bad, r, None, None, True)
    bad.note('%s: %s fails' % (fn.loc(ins), name))
    t = mon.acquire(eng, st, fn, ins)
    d = eng.deref(st, fn, ins, eng.val(st, ins['ops'][3]), name)
    st.write(d[0], d[1], 8, ('p', t, 0))
    if name.endswith('new_page'):
        p = eng.deref(st, fn, ins, eng.val(st, ins['ops'][1]), name)
        if p not in (None, 'null'):
            st.kill(p[0], p[1], None if p[1] is None else p[1] + 4)
    st.note('%s: page pinned' % fn.loc(ins))
    return [(bad, r, 'ret'), (st, C0, 'ret')]


def release(eng, st, fn, ins, v, name, dirty):
    mon = eng.mon
    mon.releases.add((fn.name, fn.loc(ins)))
    if v == C0 or (v[0] not in ('p', 's', 'b', 'zx', 'tr')):
        if v == C0:
            eng.report('release-null', fn, ins, '%s called with a NULL page' % name, st)
            return False
        return True
    if v[0] == 's':
        lo, hi, nz = eng.rng(st, v)
        if lo == 0 and hi == 0:
            eng.report('release-null', fn, ins, '%s called with a NULL page' % name, st)
            return False
    obj = v[1] if v[0] == 'p' else ('d', v)
    t = st.tok.get(obj)
    if t is None:
        st.tok[obj] = (REL, False, '(caller)', None)
        return True
    if t[0] == REL:
        eng.report('double-release', fn, ins, 'page acquired at %s is released twice' % t[2], st)
        return False
    if (t[1] or (t[3] is not None and not t[3][1])) and dirty is False:
        st.flags.setdefault('lost', ('str', 'page acquired at %s was modified at %s but is released clean (%s)' % (t[2], t[1] or t[3][2], fn.loc(ins)), fn.name, fn.loc(ins)))
    st.tok[obj] = (REL, False, t[2], None)
    st.note('%s: page released' % fn.loc(ins))
    return True


def m_put(eng, st, fn, ins, args, name):
    fl = args[2]
    dirty = None
    b = eng.binop(st, 'and', fl, ('c', eng.DIRTY), 32)
    if b is not None and b[0] != 'undef':
        dirty = eng.truth(st, b)
    if not release(eng, st, fn, ins, args[1], name, dirty):
        return []
    return [(st, C0, 'ret')]


def m_delete(eng, st, fn, ins, args, name):
    bad = st.copy()
    r = eng.fresh(bad, eng.site(fn, ins, 'err'))
    eng.setrng(bad, r, None, None, True)
    bad.note('%s: %s fails' % (fn.loc(ins), name))
    out = [(bad, r, 'ret')]
    if release(eng, st, fn, ins, args[1], name, True):
        out.append((st, C0, 'ret'))
    return out


def m_change(eng, st, fn, ins, args, name):
    if not release(eng, st, fn, ins, args[1], name, True):
        return []
    rv = eng.fresh(st, eng.site(fn, ins))
    return [(st, rv, 'ret')]


def m_pool(eng, st, fn, ins, args, name):
    return models.noeffect(eng, st, fn, ins, args, name)


class PinEngine(Engine):
    DIRTY = 2

    def droptok(self, tv):
        return tv[0] == REL

    def tokkey(self, tv):
        return (tv[0], bool(tv[1]), None if tv[1] or tv[3] is None else tv[3][:2])

    def tok_in(self, t):
        return t if t[3] is None else (t[0], t[1], t[2], (t[3][0] + 1,) + t[3][1:])

    def tok_out(self, t, fn, obj, callfn, callins):
        st, mod, acq, fmt = t
        if obj[1][0] != 'in' and callins is not None and acq.count(' < ') < 2:
            acq = '%s < %s' % (acq, callfn.loc(callins))
        if fmt is not None:
            if fmt[0] > 0:
                fmt = (fmt[0] - 1,) + fmt[1:]
            else:
                mod = mod or (False if fmt[1] else fmt[2])
                fmt = None
        return (st, mod, acq, fmt)

    def call(self, fn, st, args, callins=None, callfn=None):
        if callfn is not None:
            self.check_leaks(st, args, callfn, callins)
        return super().call(fn, st, args, callins, callfn)

    def merge_exits(self, out, fn, ctxid):
        # a held page nobody can reach any more is leaked right here
        for s, rv, kind in out:
            self.check_leaks(s, [rv] if rv is not None else [], fn, None)
            for o in [o for o in s.mem if o[0] == 'pg']:
                del s.mem[o]
        return super().merge_exits(out, fn, ctxid)

    def reachable(self, st, vals):
        from engine import atoms
        seen, work = set(), []
        acc = set()
        for e in st.envs:
            for v in e.values():
                atoms(v, acc)
        for v in vals:
            atoms(v, acc)
        for o in st.mem:
            if o[0] in ('g', 'd') or o in self.mon.root_objs:
                acc.add(o)
        work = list(acc)
        seen = set(acc)
        while work:
            x = work.pop()
            objs = [x]
            if x[0] == 's':
                objs = [('d', x)]
            for o in objs:
                d = st.mem.get(o)
                if not d:
                    continue
                for k, v in d.items():
                    if k == 'Z':
                        continue
                    a2 = set()
                    atoms(v[0], a2)
                    for a in a2:
                        if a not in seen:
                            seen.add(a)
                            work.append(a)
        return seen

    def check_leaks(self, st, vals, fn, ins):
        held = [t for t, v in st.tok.items() if v[0] == HELD]
        if not held:
            return
        r = None
        for t in held:
            if t[0] == 'pg' and not st.tok[t][2].startswith('(cursor'):
                if r is None:
                    r = self.reachable(st, vals)
                if t not in r:
                    self.report('leaked-pin', fn, ins, 'page pinned at %s is never released on a path through %s' % (st.tok[t][2], fn.name), st)
                    del st.tok[t]


def setup(mod, root):
    mon = PinMonitor(root)
    eng = PinEngine(mod, mon)
    models.install(eng)
    eng.models['ffdb_pagepool_get_page'] = m_get
    eng.models['ffdb_pagepool_new_page'] = m_get
    eng.models['ffdb_pagepool_put_page'] = m_put
    eng.models['ffdb_pagepool_delete'] = m_delete
    eng.models['ffdb_pagepool_change_page'] = m_change
    for n in ('ffdb_pagepool_sync', 'ffdb_pagepool_close', 'ffdb_pagepool_create', 'ffdb_pagepool_open_fd', 'ffdb_pagepool_open', 'ffdb_pagepool_filter'):
        eng.models[n] = m_pool
    return eng


# ---------------------------------------------------------------- entry points
def api_roots(mod):
    """functions a client can call: the exported entry points of the hash layer
    and whatever the open/cursor constructors install in the handle tables"""
    ext = ['ffdb_dbopen', 'ffdb_set_config', 'ffdb_get_config', 'ffdb_set_all_configs', 'ffdb_get_all_configs',
           'ffdb_num_configs', 'ffdb_set_user_info', 'ffdb_get_user_info', 'ffdb_max_user_info_len']
    roots = []
    for n in ext:
        if mod.defined(n) is None:
            raise AnalysisError('entry point %s vanished' % n)
        roots.append((n, 'api'))
    n = 0
    for f in mod.funcs.values():
        if f.decl or f.name == 'ffdb_dbpanic':
            continue
        f.prep()
        for b in f.blocks:
            for i in b:
                if i['op'] != 'store' or not isinstance(i['ops'][0], dict) or 'g' not in i['ops'][0]:
                    continue
                tgt = mod.defined(i['ops'][0]['g'])
                if tgt is None or not isinstance(i['ops'][1], int):
                    continue
                k, g = f.defs[i['ops'][1]]
                if k != 'ins' or g['op'] != 'getelementptr' or not g['path']:
                    continue
                s, idx = g['path'][-1]
                so = mod.structs.get(s)
                if not so:
                    continue
                sn = s.lstrip('%').replace('struct.', '')
                fld = mod.field_name(s, so['offs'][idx])
                if sn == '__ffdb':
                    roots.append((tgt.name, 'db.' + fld))
                    n += 1
                elif sn == '_ffdb_cursor_':
                    roots.append((tgt.name, 'cursor.' + fld))
                    n += 1
    if n < 8:
        raise AnalysisError('handle tables not recognised (%d entries)' % n)
    return roots


def root_states(mod, fn, kind):
    """(args, state) pairs a client can call fn with"""
    st = State()
    args = []
    for a in fn.args:
        s = ('s', ('arg', a['name'] or str(a['id'])))
        if a['ty'] == 'ptr':
            st.facts[s] = (None, None, True)
        args.append(s)
    if not kind.startswith('cursor.'):
        return [(args, st)]
    out = []
    cur = args[0]
    icrs = ('s', ('icrs',))
    io = mod.field_off('_ffdb_cursor_', 'internal')
    po = mod.field_off('_ffdb_crs_', 'item.pagep')
    for held in (False, True):
        s = st.copy()
        s.facts[icrs] = (None, None, True)
        s.write(('d', cur), io, 8, icrs)
        if held:
            t = ('pg', ('cursor',))
            s.tok[t] = (HELD, False, '(held by the cursor)', None)
            s.write(('d', icrs), po, 8, ('p', t, 0))
        else:
            s.write(('d', icrs), po, 8, C0)
        out.append((args, s))
    return out


def may_succeed(eng, s, rv, name, kind):
    """can this exit be a success as far as the caller can tell?"""
    if rv is None or rv[0] in ('undef', 'nullgep'):
        return True
    fn = eng.mod.defined(name)
    t = eng.truth(s, rv)
    if fn is not None and fn.ret == 'ptr':
        return t is not False
    return t is not True


def run_root(mod, name, kind):
    fn = mod.defined(name)
    eng = setup(mod, name)
    nex = 0
    po = mod.field_off('_ffdb_crs_', 'item.pagep')
    for args, st in root_states(mod, fn, kind):
        for s, rv, k in eng.call(fn, st, args):
            nex += 1
            keep = set()
            if kind == 'cursor.get':
                icrs = ('s', ('icrs',))
                v = s.read(('d', icrs), po, 8)
                if v is not None and v[0] == 'p':
                    t = s.tok.get(v[1])
                    if t is not None and t[0] == HELD:
                        keep.add(v[1])
                    elif t is not None:
                        eng.report('stale-cursor-page', fn, None, 'the cursor still refers to the page acquired at %s after it was released' % t[2], s)
            for tk, v in s.tok.items():
                if v[0] == HELD and tk not in keep:
                    eng.report('leaked-pin', fn, None, 'page pinned at %s is still pinned when %s returns' % (v[2], name), s)
            if 'lost' in s.flags and may_succeed(eng, s, rv, name, kind):
                f = s.flags['lost']
                eng.report('lost-update', fn, None, '%s; %s then reports success' % (f[1], name), s)
    return eng, nex

"""The page filters: what is verified when a page comes in, what checksum is
stored when it goes out."""
from engine import C0, UNDEF, AnalysisError, State
import models, pins

CONST = ('FFDB_PAGE_MAGIC', 'I_PAGE_SIGN', 'I_CHKSUM', 'I_CURR_PGNO')
INCL = ['"ffdb_db.h"', '"ffdb_pagepool.h"', '"ffdb_page.h"', '"ffdb_hash.h"']
PAGE = ('s', ('page',))
HASHP = ('s', ('hashp',))


def pobj(st):
    return ('d', st.flags['page'][1])


def find(mod):
    """the functions registered as input and output filter of the page cache"""
    for f in mod.funcs.values():
        for b in f.blocks:
            for i in b:
                if i['op'] in ('call', 'invoke') and isinstance(i['callee'], dict) and i['callee'].get('g') == 'ffdb_pagepool_filter':
                    g = [o.get('g') for o in i['ops'] if isinstance(o, dict) and o.get('g') in mod.funcs]
                    if len(g) >= 2:
                        return g[0], g[1]
    raise AnalysisError('the page filters are not registered anywhere')


class Mon(pins.PinMonitor):
    def __init__(self, mod, root, const):
        super().__init__(root)
        self.mod, self.c = mod, const
        self.checked = {}
        self.ranges = set()

    def count(self, what, fn, ins):
        self.checked.setdefault(what, set()).add((fn.name, fn.loc(ins) if ins else ''))

    def page(self, st, obj):
        return obj == pobj(st)

    def pagemod(self, eng, st, fn, ins, off, n):
        c = self.c['I_CHKSUM']
        if off is not None and n is not None and off >= c and off + n <= c + 4:
            st.flags['sumset'] = True
            return
        st.flags['pgmod'] = True
        if 'crc' in st.flags:
            st.flags['stale'] = ('str', fn.name, fn.loc(ins))

    def on_store(self, eng, st, fn, ins, obj, off, v):
        if self.page(st, obj):
            self.pagemod(eng, st, fn, ins, off, ins.get('size', 8))

    def on_memcpy(self, eng, st, fn, ins, dst, src, ln, d, s):
        if d not in (None, 'null') and self.page(st, d[0]):
            self.pagemod(eng, st, fn, ins, d[1], ln[1] if ln[0] == 'c' else None)

    def on_memset(self, eng, st, fn, ins, dst, v, ln, d):
        if d not in (None, 'null') and self.page(st, d[0]):
            self.pagemod(eng, st, fn, ins, d[1], ln[1] if ln[0] == 'c' else None)

    def key_flags(self, st):
        return {k: True for k in st.flags}


class Eng(pins.PinEngine):
    def report(self, rule, fn, ins, msg, st):
        if rule in OWN:
            super().report(rule, fn, ins, msg, st)

    def check_leaks(self, *a):
        pass

    def assume(self, st, c, truth):
        r = super().assume(st, c, truth)
        if r is not None and c[0] == 'cmp' and c[1] in ('eq', 'ne') and (c[1] == 'eq') == truth:
            g = r.flags.get('crc')
            if g is not None and g[1] in (c[2], c[3]):
                o = c[3] if c[2] == g[1] else c[2]
                if o == r.read(pobj(r), self.mon.c['I_CHKSUM'], 4):
                    r.flags['crcok'] = True
        elif r is not None and c[0] == 'cmp' and c[1] in ('eq', 'ne'):
            mg = self.mon.c['FFDB_PAGE_MAGIC']
            k = [x for x in c[2:4] if x in (('c', mg), ('c', mg - (1 << 32)))]
            if k and r.read(pobj(r), self.mon.c['I_PAGE_SIGN'], 4) in c[2:4]:
                r.flags['fresh'] = True         # no signature: never written
        return r


OWN = {'not-verified', 'checksum-range', 'checksum-late', 'checksum-not-stored', 'unstamped'}


def at(p):
    return (p[1], p[2]) if p[0] == 'p' else (('d', p), 0)


def m_crc(eng, st, fn, ins, args, name):
    mon = eng.mon
    mon.count('checksum', fn, ins)
    rv = eng.fresh(st, eng.site(fn, ins))
    p = args[1]
    g = st.flags.get('crc')
    n = 0
    if g is not None and g[1] == args[0]:
        n = sum(1 for k in st.flags if isinstance(k, str) and k.startswith('sl'))
    elif args[0] != C0:
        eng.report('checksum-range', fn, ins, 'the checksum of a page starts from an arbitrary value', st)
    if not n:
        for k in [k for k in st.flags if isinstance(k, str) and k[:2] in ('sl', 'so')]:
            del st.flags[k]
        st.flags.pop('stale', None)
    st.flags['so%d' % n] = ('v', p)
    st.flags['sl%d' % n] = ('v', args[2])
    st.flags['crc'] = ('v', rv)
    st.flags.pop('crcok', None)
    if 'pgmod' in st.flags:
        st.flags['crclate'] = ('str', fn.name, fn.loc(ins))
    return [(st, rv, 'ret')]


def m_swap(eng, st, fn, ins, args, name):
    if name not in eng.mod.funcs:
        return None
    mon = eng.mon
    mon.count('swap', fn, ins)
    p = args[0]
    if p == st.flags['page'][1] or (p[0] == 'p' and mon.page(st, p[1])):
        st.kill(pobj(st), 0, None)
        st.flags['pgmod'] = True
        if 'crc' in st.flags:
            st.flags['stale'] = ('str', fn.name, fn.loc(ins))
        st.flags.pop('sumset', None)
    return [(st, None, 'ret')]


def whole(eng, st, segs, c, bs):
    """do the segments cover the page from 0 to its size, leaving out only the checksum itself?"""
    pos = C0
    for (obj, off), ln in segs:
        if obj != pobj(st) or off is None:
            return 'something else than the page'
        if pos[0] != 'c':
            return 'bytes beyond the page'
        if off != pos[1] and not (pos[1] == c and off == c + 4):
            return 'not every byte in front of offset %d' % off
        if ln[0] == 'c':
            pos = ('c', off + ln[1])
        else:
            w = ('b', 'sub', bs, ('c', off), 32)
            w2 = eng.binop(st, 'add', bs, ('c', -off), 32)
            l = ln
            while l[0] in ('zx', 'sx', 'tr'):
                l = l[1]
            if l not in (w, w2, eng.binop(st, 'sub', bs, ('c', off), 32)):
                return 'not exactly the bytes from offset %d to the end of the page' % off
            pos = ('end',)
    if pos == ('c', c):
        return 'only the bytes in front of the checksum'
    if pos[0] == 'c':
        return 'only the first %d bytes' % pos[1]
    return None


def run(mod, const):
    pgin, pgout = find(mod)
    out, infos = [], []
    for name, way in ((pgin, 'in'), (pgout, 'out')):
        fn = mod.defined(name)
        mon = Mon(mod, name, const)
        eng = Eng(mod, mon)
        models.install(eng)
        eng.models['__ffdb_crc32_checksum'] = m_crc
        for n in ('_ffdb_swap_page_metainfo_in', '_ffdb_swap_page_metainfo_out'):
            eng.models[n] = m_swap
        st = State()
        for s in (PAGE, HASHP):
            st.facts[s] = (None, None, True)
        bs = ('s', ('bsize',))
        eng.setrng(st, bs, 512, 1 << 20)
        st.write(('d', HASHP), mod.field_off('htab', 'hdr.bsize'), 4, bs)
        pgno = ('s', ('pgno',))
        args = [HASHP, pgno, PAGE]
        st.flags.update(page=('v', PAGE), bs=('v', bs), pgno=('v', pgno))
        nex = 0
        for s, rv, k in eng.call(fn, st, args):
            nex += 1
            g = s.flags.get('crc')
            sign = s.read(pobj(s), const['I_PAGE_SIGN'], 4)
            segs = [(at(s.flags['so%d' % n][1]), s.flags['sl%d' % n][1]) for n in range(20) if 'so%d' % n in s.flags]
            why = whole(eng, s, segs, const['I_CHKSUM'], s.flags['bs'][1]) if g else None
            mg = const['FFDB_PAGE_MAGIC']
            if way == 'in':
                if g is None:
                    eng.report('not-verified', fn, None, 'a page can come in without its checksum being computed', s)
                    continue
                if why:
                    eng.report('checksum-range', fn, None, 'the checksum verified when a page comes in covers %s' % why, s)
                if 'crclate' in s.flags:
                    eng.report('checksum-late', fn, None, 'the checksum of a page is computed after the page was converted (%s)' % s.flags['crclate'][2], s)
                if 'crcok' not in s.flags:
                    # only a page that was never written may come in unverified, and it is stamped as empty
                    if sign is None or eng.rng(s, sign)[:2] not in ((mg, mg), (mg - (1 << 32),) * 2) or 'fresh' not in s.flags:
                        eng.report('not-verified', fn, None, 'a page that carries the page signature can be handed out although its checksum does not match', s)
                    elif s.read(pobj(s), const['I_CURR_PGNO'], 4) != s.flags['pgno'][1]:
                        eng.report('unstamped', fn, None, 'a page that was never written is handed out without its number', s)
                mon.count('page-in', fn, None)
            else:
                if g is None or 'sumset' not in s.flags:
                    eng.report('checksum-not-stored', fn, None, 'a page can be written without its checksum having been computed and stored in it', s)
                    continue
                if why:
                    eng.report('checksum-range', fn, None, 'the checksum stored in a page covers %s' % why, s)
                if 'stale' in s.flags:
                    eng.report('checksum-late', fn, None, 'the page is changed after its checksum was computed (%s)' % s.flags['stale'][2], s)
                mon.count('page-out', fn, None)
            mon.ranges.add(tuple((str(l[1]), 'const' if n[0] == 'c' else 'rest') for l, n in segs))
        out += eng.results()
        infos.append(dict(root=name, exits=nex, functions=sorted(eng.analysed), checked={k: len(v) for k, v in mon.checked.items()}))
    return out, infos

"""The C++ interface: what it does with the statuses, the memory and the
cursors the C layer hands it, on every path including those an exception takes.

Roots are the functions of cxx/roots.cpp, one per operation; everything of the
repository is followed, the standard library is modelled by the few operations
below (other calls of it are taken to leave alone what they are not given), the
user's key and data types may do anything their interface allows, including to
throw SerializeException wherever they serialise."""
import os, re
from engine import Engine, Monitor, State, C0, UNDEF, AnalysisError, atoms
import lib, models, heap, pins
from pins import HELD, REL

NF = ('c', 1)
LENOFF = 1 << 20            # where an abstract buffer keeps its length
WHAT = LENOFF + 8           # 1: a key, 2: a data
SERX = '_ZTIN6FILEDB18SerializeExceptionE'
DBX = '_ZTIN6FILEDB19FileHashDBExceptionE'
STR = r'std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char>>'
VT = {'conf': '_ZTVN6FILEDB15ConfDataStoreDBI4UKey4UDatEE', 'all': '_ZTVN6FILEDB14AllConfStoreDBI4UKey4UDatEE',
      'mconf': '_ZTVN6FILEDB23ConfDataStoreMultipleDBI4UKey4UDatEE', 'mall': '_ZTVN6FILEDB22AllConfStoreMultipleDBI4UKey4UDatEE'}

RES = {'leak', 'double-free', 'use-after-free', 'not-closed', 'dangling', 'terminate'}
STATUS = {'error-hidden', 'not-done', 'incomplete', 'wrong-answer', 'open-failed'}
CLOSED = {'null-handle', 'dangling-handle'}
FAITH = {'wrong-key', 'wrong-data', 'wrong-length', 'misplaced', 'not-listed', 'listed-twice', 'wrong-result', 'partial-result', 'config-field'}
BOUNDS = {'div-zero', 'out-of-range', 'unterminated', 'no-bins'}


def term(op, a, b=C0):
    return ('b', op, a, b, 64)


def peel(v):
    while v[0] in ('zx', 'tr'):
        v = v[1]
    return v


def isterm(v, op):
    return v[0] == 'b' and v[1] == op


class CxxMonitor(heap.HeapMonitor):
    def __init__(self, root, kind):
        super().__init__(root)
        self.kind = kind
        self.checked = {}
        self.cfg = set()

    def count(self, what, fn, ins):
        self.checked.setdefault(what, set()).add((fn.dem.split('(')[0][:90], fn.loc(ins)))

    def key_flags(self, st):
        return st.flags

    def on_load(self, eng, st, fn, ins, obj, off):
        t = st.tok.get(obj)
        if t is not None and t[0] == REL:
            eng.report('use-after-free', fn, ins, '%s is used after it was released' % t[2], st)
        if obj[0] == 'g' and off is not None:
            g = eng.mod.globals.get(obj[1])
            for o, f in (g or {}).get('vt', ()):
                if o == off:
                    return ('fn', f)
        return None

    def touch(self, eng, st, fn, ins, obj, off=None):
        t = st.tok.get(obj)
        if t is not None and t[0] == REL:
            eng.report('use-after-free', fn, ins, '%s is written after it was released' % t[2], st)
        if obj[0] == 'd' and isterm(obj[1], 'cstr'):
            # the bytes of a string are written: its content is another one
            old = obj[1][2]
            new = ('s', (eng.site(fn, ins, 'modified')))
            for o, d in list(st.mem.items()):
                if any(k != 'Z' and e[0] == old for k, e in d.items()):
                    st.mem[o] = {k: ((new, e[1]) if k != 'Z' and e[0] == old else e) for k, e in d.items()}

    def on_store(self, eng, st, fn, ins, obj, off, v):
        if 'strn' in st.flags and v == C0 and ins.get('size', 1) == 1:
            del st.flags['strn']
        return None

    def on_gep(self, eng, st, fn, ins, base):
        if isterm(base, 'cstr') and len(ins['var']) == 1 and ins['var'][0][1] == 1 and ins['off'] == 0:
            st.flags['sub'] = ('v', peel(eng.val(st, ins['var'][0][0])))
        return None

    def on_binop(self, eng, st, fn, ins, op, a, b):
        if op in ('udiv', 'sdiv', 'urem', 'srem'):
            self.count('division', fn, ins)
            if op[1:] == 'rem' and isterm(peel(a), 'len'):
                st.flags['rem'] = ('v', term(op, a, b))
            lo, hi, nz = eng.rng(st, b)
            if not nz and not (lo is not None and lo > 0) and not (hi is not None and hi < 0):
                eng.report('div-zero', fn, ins, 'a division by what may be zero', st)

    def on_memcpy(self, eng, st, fn, ins, dst, src, ln, d, s):
        ln = peel(ln)
        t = src[2] if isterm(src, 'cstr') else None
        if t is not None:
            self.count('copy', fn, ins)
            if not eng.atmost(st, ln, term('len', t)):
                eng.report('out-of-range', fn, ins, 'more bytes may be copied than the source has', st)
        if dst[0] == 'p' and dst[1][0] == 'd' and isterm(dst[1][1], 'cstr') and dst[2] is None:
            self.count('copy', fn, ins)
            i = eng.vget(st, 'sub')
            st.flags.pop('sub', None)
            if i is None or not isterm(i, 'mul'):
                return
            tot = term('len', dst[1][1][2])
            a, b = peel(i[2]), peel(i[3])
            for x, y in ((a, b), (b, a)):
                if y == ln:
                    if not eng.slice_in(st, x, ln, tot):
                        eng.report('out-of-range', fn, ins, 'an element may be written outside of the record', st)
                    return

    def on_null(self, eng, st, fn, ins, what):
        eng.report('null-handle', fn, ins, '%s through a null pointer' % what, st)


class CxxEngine(heap.HeapEngine):
    CHAIN = 3

    def __init__(self, mod, mon):
        super().__init__(mod, mon)
        self.kinds = {}
        repo = os.path.realpath(lib.REPO)
        self.inline_pred = lambda f: f.file.endswith('cxx/roots.cpp') or os.path.realpath(f.file).startswith(repo)
        self.std = {}

    def report(self, rule, fn, ins, msg, st):
        Engine.report(self, rule, fn, ins, msg, st)

    def droptok(self, tv):
        return False

    def keepsym(self, st, v):
        return any(isinstance(k, tuple) and k[0] in ('given', 'vec', 'cfg', 'cfgf', 'cfgm', 'out') and self._mentions(x, v) for k, x in st.flags.items())

    def tokkey(self, tv):
        return (tv[0],)

    def check_leaks(self, st, vals, fn, ins):
        held = [t for t, v in st.tok.items() if v[0] == HELD and t[0] == 'h']
        if not held:
            return
        r = self.reachable(st, vals)
        for t in held:
            if t not in r:
                self.report('leak', fn, ins, '%s is neither released nor kept when %s is left%s' % (
                    st.tok[t][2], short(fn), ' by an exception' if 'exc' in st.flags else ''), st)
                del st.tok[t]

    # ---- exceptions
    def raised(self, st, ty):
        s = st.copy()
        s.flags['exc'] = ('str', ty)
        s.note('%s is thrown' % ty)
        return (s, None, 'unwind')

    def simple(self, fn, ins, st):
        if ins['op'] == 'landingpad':
            exc = st.flags.get('exc', ('str', '?'))[1]
            sel = 0
            for c in ins.get('clauses', ()):
                g = c.get('g')
                if g is None or g == exc or (g == '_ZTISt9exception' and ('FILEDB' in exc or exc.startswith('_ZTISt'))):
                    sel = self.tyid(g)
                    break
            return ('agg', (('s', ('exception',)), ('c', sel)))
        return super().simple(fn, ins, st)

    def tyid(self, g):
        return self.kinds.setdefault(g, len(self.kinds) + 1)

    def intrinsic(self, fn, ins, st, name, args):
        if name.startswith('llvm.eh.typeid.for'):
            v = args[0]
            return [(st, ('c', self.tyid(v[1][1] if v[0] == 'p' and v[1][0] == 'g' else None)), 'ret')]
        return super().intrinsic(fn, ins, st, name, args)

    # ---- calls
    def docall(self, fn, ins, st):
        name, tgt = self.callee_name(fn, ins, st)
        if name is not None and name not in self.models and not name.startswith('llvm.'):
            f = self.mod.funcs.get(name)
            if f is not None and self.mon.kind == 'merge':
                r = self.store_op(fn, ins, st, f.dem)
                if r is not None:
                    self.calls_seen.add((fn.name, ins['id'], name))
                    return r
            if f is not None and (f.decl or not self.inline_pred(f)):
                m = self.std.get(name)
                if m is None:
                    m = self.std[name] = pick(f.dem)
                r = m(self, st, fn, ins, [self.val(st, a) for a in ins['ops']], f.dem)
                if r is not None:
                    self.calls_seen.add((fn.name, ins['id'], name))
                    return r
        return super().docall(fn, ins, st)

    def store_op(self, fn, ins, st, dem):
        """merging: an operation of a store does what its own root establishes"""
        m = re.match(r'FILEDB::(?:Conf|All)\w*Store\w*<.*>::(\w+)\(', dem)
        if not m:
            return None
        op = m.group(1)
        if op in ('open', 'close', 'flush') or re.match(r'insert|update|setConfig|get', op) and not op.startswith('getMax') and ins['ty'] == 'i32':
            nf = op.startswith('get') and 'nfo' not in op and 'sers' not in op
            def ok(s):
                for i in range(1, len(ins['ops'])):
                    a = self.val(s, ins['ops'][i])
                    if nf and i == 2:
                        self.setcontent(s, a, self.fresh(s, self.site(fn, ins, 'got')))
            out = status(self, st, fn, ins, op, ok, ('ok', 'nf', 'err') if nf else ('ok', 'err'))
            for s, r, k in out:
                if s.flags['last'] == 'nf':      # a configuration without the key cannot be merged
                    s.flags['err'] = ('str', op, fn.loc(ins))
            return out
        if 'eys' in op:
            s = st.copy()
            s.flags['err'] = ('str', op, fn.loc(ins))
            for i in range(1, len(ins['ops'])):
                n = self.fresh(st, self.site(fn, ins, 'size%d' % i))
                self.setcontent(st, self.val(st, ins['ops'][i]), n, 24)
            return [self.raised(s, DBX)] + ret(st)
        return None

    # ---- loops over several stores
    def assume(self, st, c, truth):
        r = super().assume(st, c, truth)
        n, it = self.vget(st, 'dbn'), st.flags.get('itn')
        if n is None and it is None:
            return r
        more = None
        if n is not None and c[0] == 'cmp':
            a, b, op = peel(c[2]), peel(c[3]), c[1]
            if b == n and a != n:
                more = {'slt': truth, 'ult': truth, 'ne': truth, 'sge': not truth, 'uge': not truth, 'eq': not truth}.get(op)
            elif a == n and b != n:
                more = {'sgt': truth, 'ugt': truth, 'ne': truth, 'sle': not truth, 'ule': not truth, 'eq': not truth}.get(op)
        if it is not None and more is None:
            a = c
            t = truth
            while True:
                if a == it[1]:
                    more = t == it[2]
                    break
                if a[0] == 'cmp' and a[1] in ('ne', 'eq') and a[3] == C0:
                    t = t if a[1] == 'ne' else not t
                    a = peel(a[2])
                elif a[0] in ('zx', 'tr'):
                    a = peel(a)
                elif a[0] == 'b' and a[1] == 'xor' and a[3] in (('c', 1), ('c', -1)):
                    a, t = a[2], not t
                else:
                    break
        if more is not None:
            for s in (r if isinstance(r, list) else [st]):
                s.flags['loop'] = 'more' if more else 'end'
        return r

    # ---- bounds
    def atmost(self, st, a, b):
        """a <= b is known"""
        if a == b or self.truth(st, ('cmp', 'eq', a, b, 64)) is True or self.truth(st, ('cmp', 'eq', b, a, 64)) is True:
            return True
        for k, v in st.facts.items():
            if k[0] == 'cmp' and v is True and k[1] == 'eq' and (peel(k[2]), peel(k[3])) in ((a, b), (b, a)):
                return True
        return self.truth(st, self.mkcmp('ult', b, a, 64)) is False

    def slice_in(self, st, i, ln, tot):
        """i*ln + ln <= tot: 0 <= i < n for an n of which ln is the n-th part of tot"""
        lo = self.rng(st, i)[0]
        for k, v in st.facts.items():
            if k[0] != 'cmp':
                continue
            a, b, op = peel(k[2]), peel(k[3]), k[1]
            n = None
            if a == i and (op in ('slt', 'ult') and v is True or op in ('sge', 'uge') and v is False):
                n = b
            elif b == i and (op in ('sgt', 'ugt') and v is True or op in ('sle', 'ule') and v is False):
                n = a
            if n is None or not (op[0] == 'u' or lo is not None and lo >= 0):
                continue
            q = [x for x in self.parts(st, tot, n)]
            if any(x == ln or self.truth(st, ('cmp', 'eq', ln, x, 64)) is True or self.truth(st, ('cmp', 'eq', x, ln, 64)) is True for x in q):
                return True
        return False

    def parts(self, st, tot, n):
        seen = set()
        for k in list(st.facts):
            for x in (k, k[2], k[3]) if k[0] == 'cmp' else (k,):
                if isterm(x, 'udiv') and x[2] == tot and peel(x[3]) == n and x not in seen:
                    seen.add(x)
                    yield x

    # ---- abstract contents
    def place(self, st, v):
        if v[0] == 'p':
            return (v[1], v[2]) if v[2] is not None else None
        if v[0] in ('s', 'b', 'zx', 'tr'):
            return (('d', v), 0)
        return None

    def content(self, st, fn, ins, v, size=32, tag=''):
        """the abstract content of the string or user object v points at"""
        p = self.place(st, v)
        if p is None:
            return self.fresh(st, self.site(fn, ins, 'cont' + tag))
        e = (st.mem.get(p[0]) or {}).get(p[1])
        if e is not None and e[1] == size:
            return e[0]
        c = self.fresh(st, self.site(fn, ins, 'cont' + tag))
        p = self.place(st, v)
        st.write(p[0], p[1], size, c)
        return c

    def setcontent(self, st, v, c, size=32):
        p = self.place(st, v)
        if p is not None:
            st.write(p[0], p[1], size, c)

    def vget(self, st, k):
        v = st.flags.get(k)
        return v[1] if v is not None else None


def short(fn):
    return re.sub(r'<.*', '', fn.dem.split('(')[0].replace('FILEDB::', ''))


def ret(st, v=None):
    return [(st, v, 'ret')]


# ------------------------------------------------------------ standard library
def s_none(eng, st, fn, ins, args, name):
    return ret(st, eng.fresh(st, eng.site(fn, ins)) if ins['ty'] != 'void' else None)


def s_first(eng, st, fn, ins, args, name):
    return ret(st, args[0])


def s_default(eng, st, fn, ins, args, name):
    """other code of the library: may change the local objects it is handed"""
    member = re.match(r'std::.*>::[^(]*\(', name)
    for n, a in enumerate(args):
        if a[0] == 'p' and a[1][0] == 'a':
            st.kill(a[1], a[2], None if a[2] is None else a[2] + 32)
        elif a[0] == 'p' and a[1][0] == 'h' and a[2] == 0 and a[1] in st.tok and not (member and n == 0):
            eng.mon.count('handed-over', fn, ins)
            del st.tok[a[1]]
    return s_none(eng, st, fn, ins, args, name)


def bufof(eng, st, p):
    """(buffer, length) when p is the start of a buffer the database returned"""
    if p[0] == 'p' and p[1][0] == 'h' and p[2] == 0:
        e = (st.mem.get(p[1]) or {}).get(LENOFF)
        if e is not None:
            return p[1], e[0]
    return None


def fromptr(eng, st, fn, ins, p, ln, tag):
    """content of a string made of ln bytes at p (ln None: up to a NUL)"""
    if p[0] == 'p':
        eng.mon.on_load(eng, st, fn, ins, p[1], p[2])
    b = bufof(eng, st, p)
    if b is not None:
        eng.mon.count('copied-out', fn, ins)
        if ln is None:
            eng.report('wrong-length', fn, ins, 'what the database returned is copied up to the first NUL only', st)
        else:
            l = peel(ln)
            if l == b[1]:
                return term('buf', p)
            if l[0] == 'c' or isterm(l, 'add') or isterm(l, 'len') or (l[0] == 's' and is_len(st, l)) or (l[0] == 'b' and l[1] in ('lshr', 'shl', 'and', 'udiv', 'mul')):
                eng.report('wrong-length', fn, ins, 'what the database returned is copied with another length than the one it returned', st)
    if isterm(p, 'cstr') and ln is not None and isterm(peel(ln), 'len') and peel(ln)[2] == p[2]:
        return p[2]
    return eng.fresh(st, eng.site(fn, ins, 'from' + tag))


def is_len(st, l):
    return any((d.get(LENOFF) or (None,))[0] == l for o, d in st.mem.items() if o[0] == 'h')


def atoms_of(v, n=0):
    v = peel(v)
    if v[0] == 'b' and v[1] in ('add', 'sub', 'mul', 'udiv') and n < 6:
        return {v} | atoms_of(v[2], n + 1) | atoms_of(v[3], n + 1)
    return {v}


def slice_out(eng, st, fn, ins, src, n):
    """n bytes from somewhere within a string: they end where it ends or before"""
    if not (src[0] == 'p' and src[1][0] == 'd' and isterm(src[1][1], 'cstr') and src[2] is None):
        return
    i, tot, n = eng.vget(st, 'sub'), term('len', src[1][1][2]), peel(n)
    st.flags.pop('sub', None)
    if i is None or n[0] == 'c':
        return
    eng.mon.count('slice', fn, ins)
    r = eng.vget(st, 'rem')
    if r is not None and eng.rng(st, r)[:2] == (0, 0):
        return
    if isterm(i, 'mul') and any(y == n and eng.slice_in(st, x, n, tot) for x, y in ((peel(i[2]), peel(i[3])), (peel(i[3]), peel(i[2])))):
        return
    for k in st.facts:
        if k[0] == 'cmp' and tot in atoms_of(k[2]) | atoms_of(k[3]) and any(isterm(peel(x), o) for x in k[2:4] for o in ('add', 'sub')):
            return
    eng.report('out-of-range', fn, ins, 'an element is read from a record whose length may not be a whole number of elements', st)


def s_str_assign2(eng, st, fn, ins, args, name):
    slice_out(eng, st, fn, ins, args[1], args[2])
    c = fromptr(eng, st, fn, ins, args[1], args[2], 'a')
    eng.setcontent(st, eng.val(st, ins['ops'][0]), c)
    return ret(st, eng.val(st, ins['ops'][0]) if ins['ty'] != 'void' else None)


def s_str_assign1(eng, st, fn, ins, args, name):
    c = fromptr(eng, st, fn, ins, args[1], None, 'a')
    eng.setcontent(st, eng.val(st, ins['ops'][0]), c)
    return ret(st, eng.val(st, ins['ops'][0]) if ins['ty'] != 'void' else None)


def s_str_copy(eng, st, fn, ins, args, name):
    c = eng.content(st, fn, ins, args[1])
    eng.setcontent(st, eng.val(st, ins['ops'][0]), c)
    return ret(st, eng.val(st, ins['ops'][0]) if ins['ty'] != 'void' else None)


def s_str_new(eng, st, fn, ins, args, name):
    eng.setcontent(st, args[0], term('empty', C0))
    return ret(st)


def s_str_ptr(eng, st, fn, ins, args, name):
    return ret(st, term('cstr', eng.content(st, fn, ins, args[0])))


def s_str_at(eng, st, fn, ins, args, name):
    i = args[1]
    c = term('cstr', eng.content(st, fn, ins, args[0]))
    if i == C0:
        return ret(st, c)
    return ret(st, ('p', ('d', c), i[1] if i[0] == 'c' else None))


def s_str_len(eng, st, fn, ins, args, name):
    return ret(st, term('len', eng.content(st, fn, ins, args[0])))


def s_str_append(eng, st, fn, ins, args, name):
    a = eng.content(st, fn, ins, args[0])
    b = eng.content(st, fn, ins, args[1], tag='2')
    c = b if isterm(a, 'empty') else eng.fresh(st, eng.site(fn, ins, 'cat'))
    eng.setcontent(st, eng.val(st, ins['ops'][0]), c)
    return ret(st, eng.val(st, ins['ops'][0]))


def s_str_other(eng, st, fn, ins, args, name):
    """another member function of a string: its content is unknown afterwards"""
    if '() const' not in name and ') const' not in name:
        c = eng.fresh(st, eng.site(fn, ins, 'str'))
        eng.setcontent(st, eng.val(st, ins['ops'][0]), c)
    return s_none(eng, st, fn, ins, args, name)


def s_str_sret(eng, st, fn, ins, args, name):
    c = eng.fresh(st, eng.site(fn, ins, 'str'))
    if args:
        eng.setcontent(st, eng.val(st, ins['ops'][0]), c)
    return s_none(eng, st, fn, ins, args, name)


def s_smart_get(eng, st, fn, ins, args, name):
    p = eng.place(st, args[0])
    if p is None:
        return None
    e = (st.mem.get(p[0]) or {}).get(p[1])
    if e is not None and e[1] == 8:
        return ret(st, e[0])
    v = eng.fresh(st, eng.site(fn, ins))
    p = eng.place(st, eng.val(st, ins['ops'][0]))
    st.write(p[0], p[1], 8, v)
    st.facts[v] = (None, None, True)
    return ret(st, v)


def s_uniq_new(eng, st, fn, ins, args, name):
    if len(args) < 2:
        eng.setcontent(st, args[0], C0, 8)
    else:
        eng.setcontent(st, args[0], args[1], 8)
    return ret(st)


def s_uniq_del(eng, st, fn, ins, args, name):
    p = eng.place(st, args[0])
    e = (st.mem.get(p[0]) or {}).get(p[1]) if p else None
    if e is not None and e[0][0] == 'p' and e[0][1] in st.tok:
        return heap.m_free(eng, st, fn, ins, [e[0]], name)
    return ret(st)


def s_shared_new(eng, st, fn, ins, args, name):
    """takes over the pointer it is given"""
    for a in args[1:]:
        if a[0] == 'p' and a[1] in st.tok and a[1][0] == 'h':
            eng.mon.count('handed-over', fn, ins)
            del st.tok[a[1]]
    eng.setcontent(st, args[0], args[1] if len(args) > 1 and args[1][0] in ('p', 's') else eng.fresh(st, eng.site(fn, ins)), 8)
    return ret(st)


def s_vec_at(eng, st, fn, ins, args, name):
    if STORES.match(name):
        n = vsize(eng, st, fn, ins, args[0])
        i = args[1] if len(args) > 1 else C0
        eng.mon.count('element', fn, ins)
        if i[0] == 'c' and not i[1] and (n == C0 or not any(eng._mentions(k, n) for k in st.facts)):
            eng.report('out-of-range', fn, ins, 'the first store is used although there may be none', st)
    v = eng.fresh(st, eng.site(fn, ins))
    st.facts[v] = (None, None, True)
    o = ('d', v)
    st.mem.pop(o, None)
    for k, cls in (('conf', 'ConfDataStoreDB'), ('all', 'AllConfStoreDB')):
        if re.match(r'(std::vector|__gnu_cxx::__normal_iterator)<FILEDB::%s<' % cls, name):
            st.write(o, 0, 8, ('p', ('g', VT[k]), 16))
            st.flags['elem'] = True
            if k == 'all':
                bins(eng.mod, st, v, (eng.site(fn, ins, 'nbin')))
    return ret(st, v)


def vsize(eng, st, fn, ins, v):
    return eng.content(st, fn, ins, v, 24, 'n')


STORES = re.compile(r'std::vector<FILEDB::(Conf|All)\w*Store')


def s_vec_size(eng, st, fn, ins, args, name):
    n = vsize(eng, st, fn, ins, args[0])
    if STORES.match(name):
        st.flags['dbn'] = ('v', n)
    return ret(st, n)


def s_iter_cmp(eng, st, fn, ins, args, name):
    v = eng.fresh(st, eng.site(fn, ins))
    if 'Store' in name:
        st.flags['itn'] = ('v', v, 'operator!=' in name)
    return ret(st, v)


def s_vec_empty(eng, st, fn, ins, args, name):
    return ret(st, eng.mkcmp('eq', vsize(eng, st, fn, ins, args[0]), C0, 64))


def s_vec_const(eng, st, fn, ins, args, name):
    return s_none(eng, st, fn, ins, args, name)


def s_vec_new(eng, st, fn, ins, args, name):
    eng.setcontent(st, args[0], C0, 24)
    return s_none(eng, st, fn, ins, args, name)


def s_vec_other(eng, st, fn, ins, args, name):
    """its size may be another one"""
    if args and args[0] == eng.vget(st, ('out', 2)):
        st.flags.pop('pushed', None)
    if 'clear()' in name:
        n = C0
    elif '::resize(unsigned long)' in name:
        n = args[1]
    else:
        n = eng.fresh(st, eng.site(fn, ins, 'size'))
    eng.setcontent(st, eng.val(st, ins['ops'][0]), n, 24)
    return s_default(eng, st, fn, ins, [], name)


def bins(mod, st, this, sym):
    """an open store has configurations: see no-bins"""
    for m in mod.di.get('FILEDB::AllConfStoreDB<UKey, UDat>', {}).get('members', ()):
        if m['name'] == 'nbin_':
            v = ('s', sym)
            st.write(('d', this), m['off'], m['size'], v)
            st.facts[v] = (1, None, True)


def origin(eng, st, t):
    """1: read from a key, 2: from a data, 0: certainly neither, None: unknown"""
    while isterm(t, 'rd'):
        t = t[2]
    if isterm(t, 'buf'):
        e = (st.mem.get(t[2][1]) or {}).get(WHAT)
        return e[0][1] if e is not None else None
    if isterm(t, 'empty') or isterm(t, 'init'):
        return 0
    return None


def s_vec_push(eng, st, fn, ins, args, name):
    v = args[0]
    if v == eng.vget(st, ('out', 2)):
        st.flags['pushed'] = True
    for what, n in (('key', 1), ('data', 2)):
        if v == eng.vget(st, ('vec', n)):
            eng.mon.count('listed', fn, ins)
            o = origin(eng, st, eng.content(st, fn, ins, args[1], 32 if 'basic_string' in name.split('>::push_back')[0] else 16))
            if o is not None and o != n:
                eng.report('misplaced', fn, ins, 'what is added to the list of %ss %s' % (
                    what, 'was not read from the database' if o == 0 else 'is a %s' % ('key' if o == 1 else 'data')), st)
            if ('pend', n) in st.flags:
                del st.flags[('pend', n)]
            elif 'items' in st.flags:
                eng.report('listed-twice', fn, ins, 'one %s of the database is added to the list twice' % what, st)
    n = eng.fresh(st, eng.site(fn, ins, 'size'))
    st.facts[n] = (None, None, True)
    eng.setcontent(st, eng.val(st, ins['ops'][0]), n, 24)
    return s_none(eng, st, fn, ins, args, name)


# ------------------------------------------------------------ user's types
def u_new(eng, st, fn, ins, args, name):
    eng.setcontent(st, args[0], term('init', C0), 16)
    return ret(st)


def u_copy(eng, st, fn, ins, args, name):
    c = eng.content(st, fn, ins, args[1], 16)
    eng.setcontent(st, eng.val(st, ins['ops'][0]), c, 16)
    return ret(st, eng.val(st, ins['ops'][0]) if ins['ty'] != 'void' else None)


def u_write(eng, st, fn, ins, args, name):
    bad = eng.raised(st, SERX)
    c = eng.content(st, fn, ins, args[0], 16)
    eng.setcontent(st, eng.val(st, ins['ops'][1]), term('ser', c))
    return [bad] + ret(st)


def u_read(eng, st, fn, ins, args, name):
    bad = eng.raised(st, SERX)
    c = eng.content(st, fn, ins, args[1], 32)
    eng.setcontent(st, eng.val(st, ins['ops'][0]), term('rd', c), 16)
    return [bad] + ret(st)


TABLE = [
    (r'%s::~basic_string' % STR, s_none),
    (r'%s::basic_string\(\)' % STR, s_str_new),
    (r'%s::basic_string\(char const\*, unsigned long' % STR, s_str_assign2),
    (r'%s::basic_string\(char const\*, std::alloc' % STR, s_str_assign1),
    (r'%s::basic_string<.*>\(char const\*, std::alloc' % STR, s_str_assign1),
    (r'%s::basic_string\(%s (const&|&&)\)' % (STR, STR), s_str_copy),
    (r'%s::operator=\(%s (const&|&&)\)' % (STR, STR), s_str_copy),
    (r'%s::operator=\(%s&&\)' % (STR, STR), s_str_copy),
    (r'%s::basic_string\(%s&&\)' % (STR, STR), s_str_copy),
    (r'%s::assign\(%s const&\)' % (STR, STR), s_str_copy),
    (r'%s::assign\(char const\*, unsigned long\)' % STR, s_str_assign2),
    (r'%s::assign\(char const\*\)' % STR, s_str_assign1),
    (r'%s::operator=\(char const\*\)' % STR, s_str_assign1),
    (r'%s::(c_str|data)\(' % STR, s_str_ptr),
    (r'%s::operator\[\]' % STR, s_str_at),
    (r'%s::(size|length)\(\) const' % STR, s_str_len),
    (r'%s::append\(%s const&\)' % (STR, STR), s_str_append),
    (r'%s::operator\+=\(%s const&\)' % (STR, STR), s_str_append),
    (r'%s::' % STR, s_str_other),
    (r'%s std::operator\+' % STR, s_str_sret),
    (r'std::unique_ptr<.*>::(operator->|get)\(\) const', s_smart_get),
    (r'std::unique_ptr<.*>::operator\*\(\) const', s_smart_get),
    (r'std::unique_ptr<.*>::unique_ptr', s_uniq_new),
    (r'std::unique_ptr<.*>::~unique_ptr', s_uniq_del),
    (r'std::__shared_ptr_access<.*>::operator(->|\*)\(\) const', s_smart_get),
    (r'std::__shared_ptr<.*>::get\(\) const', s_smart_get),
    (r'std::shared_ptr<.*>::shared_ptr', s_shared_new),
    (r'std::vector<.*>::(operator\[\]|at|front|back)\(', s_vec_at),
    (r'std::vector<.*>::(push_back|emplace_back)', s_vec_push),
    (r'std::vector<.*>::size\(\) const', s_vec_size),
    (r'std::vector<.*>::empty\(\) const', s_vec_empty),
    (r'std::vector<.*>::(begin|end|cbegin|cend|data|reserve|capacity|~vector)\(', s_vec_const),
    (r'__gnu_cxx::__normal_iterator<.*>::operator(\*|->)\(\) const', s_vec_at),
    (r'(bool )?__gnu_cxx::operator[!=]=<', s_iter_cmp),
    (r'std::vector<[^()]*>::vector\(\)', s_vec_new),
    (r'std::vector<[^()]*>::[^()]*\(', s_vec_other),
    (r'std::(basic_)?ostream.*operator<<', s_first),
    (r'(UKey|UDat)::(UKey|UDat)\(\)', u_new),
    (r'(UKey|UDat)::(UKey|UDat)\((UKey|UDat) const&\)', u_copy),
    (r'(UKey|UDat)::operator=\(', u_copy),
    (r'(UKey|UDat)::writeObject', u_write),
    (r'(UKey|UDat)::readObject', u_read),
    (r'(UKey|UDat)::', s_none),
    (r'std::__new_allocator<', s_none),
    (r'std::allocator<', s_none),
    (r'std::exception::', s_none),
]
TABLE = [(re.compile(a), b) for a, b in TABLE]


def pick(dem):
    dem = re.sub(r'^(?:void|bool|int|auto|decltype ?\(auto\)|unsigned long|[\w:]+(?:<[^()]*>)?[&*]*) (?=std::vector<)', '', dem)
    for r, m in TABLE:
        if r.match(dem):
            return m
    return s_default


# ------------------------------------------------------------ the C layer
def status(eng, st, fn, ins, what, ok, outcomes=('ok', 'err')):
    """fork on the outcome of an operation of the database; ok(state) fills in the results"""
    eng.mon.count('operation', fn, ins)
    out = []
    if 'loop' in st.flags:
        st.flags['loop'] = 'used'
    for o in outcomes:
        s = st.copy()
        s.flags['last'] = o
        if o == 'ok':
            r = ok(s)
            out.append((s, C0 if r is None else r, 'ret'))
            continue
        s.note('%s: %s %s' % (fn.loc(ins), what, 'finds nothing' if o == 'nf' else 'fails'))
        if o == 'err':
            s.flags['err'] = ('str', what, fn.loc(ins))
            out.append((s, ('c', -1), 'ret'))
        else:
            out.append((s, NF, 'ret'))
    return out


def handle(eng, st, fn, ins, v):
    """the handle passed to the C layer must be open"""
    if v[0] in ('undef', 'nullgep') or not eng.rng(st, v)[2]:
        eng.report('null-handle', fn, ins, 'the database is used although it may not be open', st)
        return False
    o = eng.place(st, v)
    if o is not None and st.tok.get(o[0], (None,))[0] == REL:
        eng.report('use-after-free', fn, ins, '%s is used after it was released' % st.tok[o[0]][2], st)
        return False
    return True


def getbuf(eng, s, fn, ins, dbt, what):
    """the database fills in a key or a data: its own memory unless the caller gave some"""
    p = eng.place(s, dbt)
    if p is None:
        return
    e = (s.mem.get(p[0]) or {}).get(p[1])
    name = 'the memory of the %s the database returned at %s' % ('key' if what == 1 else 'data', fn.loc(ins))
    if e is None or e[0] != C0:
        eng.mon.count('unknown-buffer', fn, ins)
        if e is not None and e[0][0] == 'p' and e[0][1] in s.tok:
            eng.report('use-after-free' if s.tok[e[0][1]][0] == REL else 'leak', fn, ins,
                       '%s is still in the place where the next one goes' % s.tok[e[0][1]][2], s)
            s.tok.pop(e[0][1], None)
        s.kill(p[0], p[1], p[1] + 16)
        return
    h = eng.fresh(s, eng.site(fn, ins, 'buf%d' % what), 'h')
    s.mem.pop(h, None)
    s.tok[h] = (HELD, False, name, None)
    n = eng.fresh(s, eng.site(fn, ins, 'len%d' % what))
    eng.mon.allocs.add((fn.name, fn.loc(ins)))
    p = eng.place(s, dbt)
    s.write(p[0], p[1], 8, ('p', h, 0))
    so = eng.dbtsize
    s.write(p[0], p[1] + so[0], so[1], n)
    s.mem[h] = {LENOFF: (n, 8), WHAT: (('c', what), 8)}


def dbt(eng, st, v):
    """(data, size) of a key or data handed to the database"""
    p = eng.place(st, v)
    if p is None:
        return None, None
    d = st.mem.get(p[0]) or {}
    a, b = d.get(p[1]), d.get(p[1] + eng.dbtsize[0])
    return (a[0] if a else None), (peel(b[0]) if b else None)


def given(eng, st, fn, ins, v, n):
    """what is handed to the database must be what the caller of the operation gave"""
    a, l = dbt(eng, st, v)
    what = 'key' if n == 1 else 'data'
    if a is None or not isterm(a, 'cstr'):
        return
    eng.mon.count('handed-in', fn, ins)
    c = a[2]
    if l is not None:
        if not (isterm(l, 'len') and l[2] == c) and (l[0] == 'c' or l[0] == 'b' and l[1] in ('len', 'strlen', 'add', 'lshr', 'shl', 'and', 'udiv', 'mul', 'sub')):
            eng.report('wrong-length', fn, ins, 'the %s is handed to the database with another length than its own' % what, st)
    ex = eng.vget(st, ('given', n))
    if ex is None:
        return
    known = isterm(c, 'empty') or isterm(c, 'ser') or c in (eng.vget(st, ('given', 1)), eng.vget(st, ('given', 2)), eng.vget(st, ('given', 3)))
    if c != ex and known:
        eng.report('wrong-' + what, fn, ins, 'the %s handed to the database is not the one the operation was called with' % what, st)


def c_get(eng, st, fn, ins, args, ikey):
    if not handle(eng, st, fn, ins, args[0]):
        return []
    given(eng, st, fn, ins, args[1], 1)
    return status(eng, st, fn, ins, 'get', lambda s: getbuf(eng, s, fn, ins, eng.val(s, ins['ops'][2]), 2), ('ok', 'nf', 'err'))


def c_put(eng, st, fn, ins, args, ikey):
    if not handle(eng, st, fn, ins, args[0]):
        return []
    given(eng, st, fn, ins, args[1], 1)
    given(eng, st, fn, ins, args[2], 2)
    if args[3] != C0 and args[3][0] == 'c':
        eng.report('wrong-data', fn, ins, 'the data is handed to the database with flags that keep an older one', st)

    def ok(s):
        s.flags['did'] = True
    return status(eng, st, fn, ins, 'put', ok)


def c_sync(eng, st, fn, ins, args, ikey):
    if not handle(eng, st, fn, ins, args[0]):
        return []

    def ok(s):
        s.flags['did'] = True
    return status(eng, st, fn, ins, 'sync', ok)


def c_cursor(eng, st, fn, ins, args, ikey):
    if not handle(eng, st, fn, ins, args[0]):
        return []

    def ok(s):
        h = eng.fresh(s, eng.site(fn, ins, 'cursor'), 'h')
        s.mem.pop(h, None)
        s.tok[h] = (HELD, False, 'the cursor opened at %s' % fn.loc(ins), None)
        p = eng.place(s, eng.val(s, ins['ops'][1]))
        if p is None:
            raise AnalysisError('%s: cannot resolve where the cursor goes' % fn.loc(ins))
        s.write(p[0], p[1], 8, ('p', h, 0))
        s.flags['items'] = 'fresh'
    return status(eng, st, fn, ins, 'cursor', ok)


def settled(eng, st, fn, ins):
    for n, w in ((1, 'key'), (2, 'data')):
        if ('pend', n) in st.flags:
            eng.report('not-listed', fn, ins, 'a %s of the database is left out of the list' % w, st)
            del st.flags[('pend', n)]


def c_cget(eng, st, fn, ins, args, ikey):
    t = eng.mon.tokof(st, args[0])
    if t is not None and st.tok[t][0] == REL:
        eng.report('use-after-free', fn, ins, '%s is used after it was closed' % st.tok[t][2], st)
        return []
    settled(eng, st, fn, ins)

    def ok(s):
        for i in (1, 2):
            a = eng.val(s, ins['ops'][i])
            if a == C0:
                continue
            getbuf(eng, s, fn, ins, a, i)
            if eng.vget(s, ('vec', i)) is not None:
                s.flags[('pend', i)] = True
        s.flags['items'] = 'more'
    out = status(eng, st, fn, ins, 'cursor get', ok, ('ok', 'nf', 'err'))
    for s, r, k in out:
        if s.flags['last'] == 'nf':
            s.flags['items'] = 'end'
    return out


def c_cclose(eng, st, fn, ins, args, ikey):
    v = args[0]
    if v[0] == 'p' and v[1] in st.tok:
        return heap.m_free(eng, st, fn, ins, [v], 'close') and ret(st, C0)
    return ret(st, C0)


def c_close(eng, st, fn, ins, args, ikey):
    if not handle(eng, st, fn, ins, args[0]):
        return []
    o = eng.place(st, args[0])
    if o is not None:
        st.tok[o[0]] = (REL, False, 'the database handle closed at %s' % fn.loc(ins), None)

    def ok(s):
        s.flags['did'] = True
    return status(eng, st, fn, ins, 'close', ok)


def c_open(eng, st, fn, ins, args, name):
    def ok(s):
        v = eng.fresh(s, eng.site(fn, ins, 'handle'))
        s.facts[v] = (None, None, True)
        s.flags['did'] = True
        return v
    out = status(eng, st, fn, ins, 'open', ok)
    return [(s, C0 if s.flags['last'] == 'err' else r, k) for s, r, k in out]


def c_call(write=False):
    def m(eng, st, fn, ins, args, name):
        if not handle(eng, st, fn, ins, args[0]):
            return []
        if name == 'ffdb_set_user_info' and isterm(args[1], 'cstr'):
            eng.mon.count('handed-in', fn, ins)
            l, c, ex = peel(args[2]), args[1][2], eng.vget(st, ('given', 2))
            if not (isterm(l, 'len') and l[2] == c) and (l[0] == 'c' or l[0] == 'b' and l[1] in ('len', 'strlen', 'add', 'lshr', 'shl', 'and', 'udiv', 'mul', 'sub')):
                eng.report('wrong-length', fn, ins, 'the user information is handed to the database with another length than its own', st)
            if ex is not None and c != ex and isterm(c, 'empty'):
                eng.report('wrong-data', fn, ins, 'the user information handed to the database is not what the operation was called with', st)

        if name == 'ffdb_set_config':
            p = eng.place(st, args[1])
            src = eng.vget(st, ('cfg', 1))
            if p is not None and src is not None:
                d = st.mem.get(p[0]) or {}
                for x in eng.mod.di['_config_info_']['members']:
                    if x['kind'].startswith('[]'):
                        continue
                    e = d.get(p[1] + x['off'])
                    eng.mon.count('config-field', fn, ins)
                    if e is None and 'Z' not in d:
                        eng.report('config-field', fn, ins, '%s of the configuration is stored without having been set' % x['name'], st)
                    for o, w in st.flags.items():
                        if isinstance(o, tuple) and o[0] == 'cfgm' and e is not None and w[1] == e[0]:
                            eng.mon.cfg.add(('set', x['name'], o[1], fn.loc(ins)))

        def ok(s):
            if write:
                s.flags['did'] = True
            for i in range(1, len(ins['ops'])):
                a = eng.val(s, ins['ops'][i])
                if not write and a[0] == 'p' and a[1][0] == 'a':
                    s.kill(a[1], a[2], None)
            if name == 'ffdb_get_config':
                for x in eng.mod.di['_config_info_']['members']:
                    if not x['kind'].startswith('[]'):
                        v = eng.fresh(s, eng.site(fn, ins, 'cfg' + x['name']))
                        p = eng.place(s, eng.val(s, ins['ops'][2]))
                        if p is not None:
                            s.write(p[0], p[1] + x['off'], x['size'], v)
                            s.flags[('cfgf', x['name'])] = ('v', v)
            if name == 'ffdb_get_all_configs' and 'elem' not in s.flags:     # an element of a vector keeps what it gets
                p = eng.place(s, eng.val(s, ins['ops'][1]))
                h = eng.fresh(s, eng.site(fn, ins, 'configs'), 'h')
                s.mem.pop(h, None)
                s.tok[h] = (HELD, False, 'the configurations the database returned at %s' % fn.loc(ins), None)
                s.write(p[0], p[1] + eng.mod.field_off('_all_config_info_', 'allconfigs'), 8, ('p', h, 0))
        return status(eng, st, fn, ins, name, ok)
    return m


def c_query(eng, st, fn, ins, args, name):
    if not handle(eng, st, fn, ins, args[0]):
        return []
    return s_none(eng, st, fn, ins, args, name)


def x_throw(eng, st, fn, ins, args, name):
    ty = args[1][1][1] if args[1][0] == 'p' and args[1][1][0] == 'g' else '?'
    return [eng.raised(st, ty)]


def x_rethrow(eng, st, fn, ins, args, name):
    return [eng.raised(st, st.flags.get('exc', ('str', '?'))[1])]


def x_endcatch(eng, st, fn, ins, args, name):
    st.flags['caught'] = True
    st.flags.pop('exc', None)
    return ret(st)


def x_terminate(eng, st, fn, ins, args, name):
    if 'exc' in st.flags:
        eng.report('terminate', fn, ins, 'an exception leaves code that must not throw, which ends the program', st)
    return []


def m_strncpy(eng, st, fn, ins, args, name):
    eng.mon.count('bounded-copy', fn, ins)
    op, size = ins['ops'][0], None
    for _ in range(3):
        if isinstance(op, int) and fn.defs[op][0] == 'ins' and fn.defs[op][1]['op'] == 'getelementptr':
            g = fn.defs[op][1]
            m = re.match(r'\[(\d+) x i8\]', g.get('src', ''))
            if m and g['off'] == 0 and not g['var']:
                size = int(m.group(1))
                break
            op = g['base']
    if size is not None and args[2][0] == 'c':
        if args[2][1] > size:
            eng.report('out-of-range', fn, ins, 'up to %d bytes are copied into an array of %d' % (args[2][1], size), st)
        elif args[2][1] == size:
            st.flags['strn'] = ('str', fn.loc(ins))
    d = eng.deref(st, fn, ins, args[0], 'strncpy')
    if d not in (None, 'null'):
        n = args[2][1] if args[2][0] == 'c' else None
        st.kill(d[0], d[1], None if d[1] is None or n is None else d[1] + n)
    return ret(st, eng.val(st, ins['ops'][0]))


def m_strlen(eng, st, fn, ins, args, name):
    if isterm(args[0], 'cstr'):
        return ret(st, term('strlen', args[0][2]))
    return s_none(eng, st, fn, ins, args, name)


def m_alloc(eng, st, fn, ins, args, name):
    h = eng.fresh(st, eng.site(fn, ins), 'h')
    st.mem.pop(h, None)
    st.tok[h] = (HELD, False, 'the memory allocated at %s' % fn.loc(ins), None)
    return ret(st, ('p', h, 0))


def m_free(eng, st, fn, ins, args, name):
    v = args[0]
    if v[0] == 'p' and (v[1][0] != 'h' or v[2] != 0):
        return ret(st)
    if v[0] == 's':
        eng.mon.frees.add((fn.name, fn.loc(ins)))
        return ret(st)          # memory of which nothing is known here
    return heap.m_free(eng, st, fn, ins, args, name)


def setup(mod, root, kind):
    eng = CxxEngine(mod, CxxMonitor(root, kind))
    models.install(eng)
    m = eng.models
    m.pop('indirect', None)
    o = mod.field_off('_ffdb_dbt_', 'size')
    eng.dbtsize = (o, mod.member('_ffdb_dbt_', 'size')['size'])
    for f, h in (('get', c_get), ('put', c_put), ('sync', c_sync), ('cursor', c_cursor), ('close', c_close)):
        m[('indirect', ('__ffdb', f))] = h
    m[('indirect', ('_ffdb_cursor_', 'get'))] = c_cget
    m[('indirect', ('_ffdb_cursor_', 'close'))] = c_cclose
    m['ffdb_dbopen'] = c_open
    for n in ('ffdb_set_all_configs', 'ffdb_set_config', 'ffdb_set_user_info'):
        m[n] = c_call(True)
    for n in ('ffdb_get_all_configs', 'ffdb_get_config', 'ffdb_get_user_info'):
        m[n] = c_call(False)
    for n in ('ffdb_max_user_info_len', 'ffdb_num_configs'):
        m[n] = c_query
    m['__cxa_throw'] = x_throw
    m['__cxa_rethrow'] = x_rethrow
    m['__cxa_end_catch'] = x_endcatch
    m['__clang_call_terminate'] = x_terminate
    m['_ZSt9terminatev'] = x_terminate
    for n in ('__cxa_allocate_exception', '__cxa_begin_catch', '__cxa_free_exception', 'umask', 'gettimeofday', 'access', 'ctime_r'):
        m[n] = s_none
    m['strncpy'] = m_strncpy
    m['strlen'] = m_strlen
    for n in ('malloc', '_Znwm', '_Znam'):
        m[n] = m_alloc
    for n in ('free', '_ZdlPv', '_ZdaPv', '_ZdlPvm'):
        m[n] = m_free
    for n in mod.funcs:
        if mod.funcs[n].dem.startswith('FILEDB::crc32_init'):
            m[n] = s_none
    return eng


# ------------------------------------------------------------ roots
def kind_of(name):
    op = name.split('_', 1)[1]
    if op == 'open':
        return 'open'
    if op == 'close':
        return 'close'
    if op == 'flush':
        return 'flush'
    if op == 'exist':
        return 'exist'
    if op.startswith('insert') or op in ('update', 'setConfigInfo'):
        return 'write'
    if op.startswith('getMax'):
        return 'query'
    if op in ('get', 'getBinary', 'getFromStringKey', 'getBinaryData', 'getUserdata', 'getConfigInfo', 'getAllConfigInfo'):
        return 'read'
    if op == 'someKeyAndData':
        return 'some'
    if 'eys' in op:
        return 'list'
    if op in ('begin', 'beginAssign', 'beginCopy', 'next', 'nextPost'):
        return 'iter'
    if name == 'merge_all':
        return 'merge'
    if op.startswith('new'):
        return 'new'
    raise AnalysisError('unknown operation %s' % name)


def roots(mod):
    return sorted(n for n, f in mod.funcs.items() if not f.decl and f.file.endswith('cxx/roots.cpp') and re.match(r'(conf|all|simple|mconf|mall|merge)_', n))


DIRECT = ('conf', 'simple')     # operations whose key and data go to the database as they are


def run_root(mod, name):
    fn = mod.funcs[name]
    kind = kind_of(name)
    eng = setup(mod, name, kind)
    fam, op = name.split('_', 1)
    st = State()
    args = []
    for i, a in enumerate(fn.args):
        v = ('s', ('arg', i))
        if a['ty'] == 'ptr':
            st.facts[v] = (None, None, True)
        args.append(v)
    if fam in VT and op not in ('next', 'nextPost'):
        if VT[fam] not in mod.globals:
            raise AnalysisError('no virtual table %s' % VT[fam])
        st.write(('d', args[0]), 0, 8, ('p', ('g', VT[fam]), 16))
    # what the operation is given
    if kind in ('write', 'read', 'exist') and op not in ('getConfigInfo', 'getAllConfigInfo', 'setConfigInfo'):
        pos = 1
        for n in (1, 2):
            if 'serdata' in op.lower():
                if n == 1:
                    continue
            if pos >= len(args) or fn.args[pos]['ty'] != 'ptr':
                break
            strarg = 'serdata' in op.lower() or (n == 1 and ('String' in op or 'Binary' in op)) or (n == 2 and 'Binary' in op)
            if n == 2 and fam in ('all', 'mall') and not strarg:
                break
            if n == 2 and fam in ('all',) and 'Binary' in op:
                break
            c = ('s', ('content', pos))
            st.write(('d', args[pos]), 0, 32 if strarg else 16, c)
            if not (n == 2 and kind == 'read'):
                st.flags[('given', n)] = ('v', c if strarg else term('ser', c))
            pos += 1
    if kind in ('list', 'some') and (fam in DIRECT or op == 'binaryKeysAndData'):
        st.flags[('vec', 1)] = ('v', args[1])
        if len(args) > 2:
            st.flags[('vec', 2)] = ('v', args[2])
    if fam in ('all', 'mall') and kind == 'read' and len(args) > 2 and op not in ('getConfigInfo',):
        st.flags[('out', 2)] = ('v', args[2])
    if op == 'open' and fam in ('conf', 'all', 'simple'):
        cls = {'conf': 'ConfDataStoreDB<UKey, UDat>', 'all': 'ConfDataStoreDB<UKey, UDat>', 'simple': 'ConfDataStoreDBSimple'}[fam]
        sh = [m for m in mod.di.get('FILEDB::' + cls, {}).get('members', ()) if m.get('kind', '').startswith(('shared_ptr<', 'unique_ptr<'))]
        hd = [m for m in mod.di.get('FILEDB::%s::DB' % cls, {}).get('members', ()) if m.get('kind') == '*__ffdb']
        if len(sh) == 1 and len(hd) == 1:
            db, h = ('s', ('db',)), ('s', ('handle',))
            st.facts[db] = (None, None, True)
            st.write(('d', args[0]), sh[0]['off'], 8, db)
            st.write(('d', db), hd[0]['off'], 8, h)
            st.flags[('cfg', 'old')] = ('v', h)
            eng.mon.count('reopened', fn, {'id': -1, 'line': fn.line})
    if op == 'getConfigInfo':
        st.flags[('cfgf', 'config', 'asked')] = ('v', args[1])
    if op == 'setConfigInfo':
        st.flags[('cfg', 1)] = ('v', args[1])
        for x in mod.di['FILEDB::ConfigInfo']['members']:
            if x['size'] <= 8 and not x['kind'].startswith('[]'):
                v = ('s', ('member', x['off']))
                st.write(('d', args[1]), x['off'], x['size'], v)
                st.flags[('cfgm', x['off'])] = ('v', v)
    if fam == 'all' and op not in ('open', 'next', 'nextPost'):
        bins(mod, st, args[0], ('nbin',))
    nex = 0
    for s, rv, k in eng.call(fn, st, args):
        nex += 1
        err, last = s.flags.get('err'), s.flags.get('last')
        where = ' (%s at %s)' % (err[1], err[2]) if err else ''
        for o, t in s.tok.items():
            if t[0] == HELD and o[0] == 'h' and kind not in ('open', 'new'):
                r = eng.reachable(s, [rv] if rv is not None else [])
                if o not in r:
                    eng.report('leak', fn, None, '%s is not released when %s is left' % (t[2], op), s)
        # a closed handle is forgotten
        for o, d in s.mem.items():
            if o[0] == 'd':
                for off, e in d.items():
                    if off != 'Z' and e[1] == 8:
                        q = eng.place(s, e[0])
                        if q is not None and q != (o, 0) and s.tok.get(q[0], (None,))[0] == REL:
                            eng.report('dangling-handle', fn, None, 'the store still refers to %s' % s.tok[q[0]][2], s)
        if 'pushed' in s.flags and (k == 'unwind' or rv is not None and eng.truth(s, rv) is True):
            eng.report('partial-result', fn, None, '%s fails but has added elements to its result' % op, s)
        if 'strn' in s.flags:
            eng.report('unterminated', fn, None, 'the name copied at %s may be left without its end' % s.flags['strn'][1], s)
        if op == 'getConfigInfo' and k != 'unwind' and s.flags.get('last') == 'ok':
            q = s.mem.get(('d', args[2])) or {}
            for x, w in s.flags.items():
                if isinstance(x, tuple) and x[0] == 'cfgf':
                    for o, e in q.items():
                        if o != 'Z':
                            eng.mon.cfg.add(('wrote', '', o, ''))
                        if o != 'Z' and e[0] == w[1]:
                            eng.mon.cfg.add(('get', x[1], o, fn.loc({'id': -1, 'line': fn.line})))
        if k == 'unwind':
            if kind in ('close', 'open'):
                eng.report('terminate', fn, None, '%s lets an exception out although it reports failures by its result' % op, s) if kind == 'close' else None
            continue
        settled(eng, s, fn, None)
        if fam in ('mconf', 'mall') and kind in ('read', 'exist') and op != 'getUserdata' and last == 'nf' and s.flags.get('loop') == 'used':
            eng.report('incomplete', fn, None, '%s gives up although the stores that follow may have the key' % op, s)
        zero = rv is None or eng.truth(s, rv) is not True
        if kind in ('write', 'read', 'open', 'close'):
            one = eng.rng(s, rv)[:2] == (1, 1) if rv is not None and rv[0] not in ('undef', 'nullgep') else False
            if zero and err:
                eng.report('error-hidden', fn, None, '%s returns 0 although an operation of the database failed%s' % (op, where), s)
            elif one and err:
                eng.report('error-hidden', fn, None, '%s reports a missing key although an operation of the database failed%s' % (op, where), s)
            elif zero and kind == 'read' and last == 'nf':
                eng.report('wrong-answer', fn, None, '%s returns 0 although the key was not found' % op, s)
            if zero and rv is not None and rv[0] not in ('undef',):
                if kind == 'write' and 'did' not in s.flags:
                    eng.report('not-done', fn, None, '%s returns 0 although nothing was handed to the database' % op, s)
                if kind == 'open' and 'did' not in s.flags and fam not in ('mconf', 'mall'):
                    eng.report('not-done', fn, None, 'open returns 0 although no database was opened', s)
                if kind == 'read' and last != 'ok' and fam not in ('mconf', 'mall'):
                    eng.report('not-done', fn, None, '%s returns 0 although nothing was read' % op, s)
            if kind == 'read' and zero and op in ('get', 'getBinary') and fam in DIRECT:
                c = eng.content(s, fn, {'id': -1}, args[2], 32 if op == 'getBinary' else 16)
                o = origin(eng, s, c)
                eng.mon.count('result', fn, {'id': -1, 'line': fn.line})
                if o is not None and o != 2 or c == ('s', ('content', 2)):
                    eng.report('wrong-result', fn, None, '%s returns 0 but its result is not what the database returned' % op, s)
        elif kind in ('list', 'some', 'flush', 'merge'):
            if err:
                eng.report('error-hidden', fn, None, '%s ends normally although an operation of the database failed%s' % (op, where), s)
            if kind == 'list' and s.flags.get('items') in ('fresh', 'more'):
                eng.report('incomplete', fn, None, '%s ends normally before the end of the database' % op, s)
            if kind == 'flush' and 'did' not in s.flags and last is not None:
                eng.report('not-done', fn, None, 'flush ends normally although nothing was written', s)
        elif kind == 'exist':
            b = eng.truth(s, rv) if rv is not None else None
            if b is True and (last != 'ok'):
                eng.report('wrong-answer', fn, None, 'exist answers yes although the database did not find the key', s)
            if b is not True and last == 'ok':
                eng.report('wrong-answer', fn, None, 'exist answers no although the database found the key', s)
            if b is not True and err:
                eng.report('error-hidden', fn, None, 'exist answers no although the database could not be read%s' % where, s)
        elif kind == 'iter':
            if err:
                eng.report('error-hidden', fn, None, 'the iterator goes on although an operation of the database failed%s' % where, s)
        if name == 'all_open' and zero:
            for m in mod.di.get('FILEDB::AllConfStoreDB<UKey, UDat>', {}).get('members', ()):
                if m['name'] == 'nbin_':
                    e = (s.mem.get(('d', args[0])) or {}).get(m['off'])
                    eng.mon.count('configurations', fn, {'id': -1, 'line': fn.line})
                    if e is None or not eng.rng(s, e[0])[2] and not (eng.rng(s, e[0])[0] or 0) > 0:
                        eng.report('no-bins', fn, None, 'open succeeds although the store may have no configurations', s)
        h = eng.vget(s, ('cfg', 'old'))
        if h is not None and 'did' in s.flags and not (h == C0 or h[0] in ('s', 'p') and (eng.rng(s, h)[:2] == (0, 0) or s.tok.get(eng.place(s, h)[0], (None,))[0] == REL)):
            eng.report('not-closed', fn, None, 'open does not close the database that may be open already', s)
        # a store that may be open is closed
        if kind == 'close' and 'last' not in s.flags and fam in ('conf', 'all', 'simple'):
            offs = {(m['off'], m['size']) for n, c in mod.di.items() if n.startswith('FILEDB::') for m in c['members'] if m.get('kind') == '*__ffdb'}
            if offs and not any(k != 'Z' and (k, e[1]) in offs and eng.rng(s, e[0])[:2] == (0, 0)
                                for o, d in s.mem.items() if o[0] == 'd' for k, e in d.items()):
                eng.report('not-closed', fn, None, 'close ends without closing the database although it may be open', s)
    if kind == 'close' and fam in ('mconf', 'mall'):
        closes_all(eng, mod)
    return eng, nex


def closes_all(eng, mod):
    """a loop that closes several stores is not left because one of them failed"""
    closing = set()
    for n in eng.analysed:
        f = mod.funcs[n]
        if any(i['op'] in ('call', 'invoke') and eng.indirect_key(f, i) == ('__ffdb', 'close') for b in f.blocks for i in b):
            closing.add(n)
    calls = {}
    for f, i, n in eng.calls_seen:
        calls.setdefault(n, set()).add((f, i))
    work = list(closing)
    sites = set()
    while work:
        for f, i in calls.get(work.pop(), ()):
            sites.add((f, i))
            if f not in closing:
                closing.add(f)
                work.append(f)
    for n, i in sorted(sites, key=repr):
        f = mod.funcs[n]
        f.prep()
        b = f.defblk.get(i)
        if b is None:
            continue
        # blocks that both reach b and are reached from it
        fw, bw = span(f.succ, b), span(f.pred, b)
        loop = fw & bw
        if b not in loop:
            continue
        eng.mon.count('closing-loop', f, f.defs[i][1])
        taint = {i}
        ch = True
        while ch:
            ch = False
            for k, (w, ins) in f.defs.items():
                if w == 'ins' and k not in taint and ins['op'] not in ('call', 'invoke'):
                    o = [x for x, _ in ins['in']] if ins['op'] == 'phi' else f.opnds(ins)
                    if any(isinstance(x, int) and x in taint for x in o):
                        taint.add(k)
                        ch = True
        for x in loop:
            t = f.blocks[x][-1]
            if t['op'] in ('br', 'switch') and isinstance(t.get('cond'), int) and t['cond'] in taint and any(y not in loop for y in f.succ[x]):
                eng.report('not-closed', f, t, 'the stores after one that fails to close are left open', State())


def span(edges, b):
    seen, work = set(), list(edges[b])
    while work:
        x = work.pop()
        if x not in seen:
            seen.add(x)
            work += edges[x]
    return seen


# ------------------------------------------------------------ construction and destruction
def owners(mod):
    """classes that close a database or cursor they refer to -> (name, [(offset, kind)])"""
    out = {}
    for n, c in mod.di.items():
        if not n.startswith('FILEDB::'):
            continue
        ms = [m for m in c['members'] if m.get('kind') in ('*__ffdb', '*_ffdb_cursor_')]
        if not ms:
            continue
        eng = CxxEngine(mod, CxxMonitor('', ''))
        for f in mod.funcs.values():
            if not f.decl and f.dem.startswith(n + '::'):
                f.prep()
                if any(i['op'] in ('call', 'invoke') and eng.indirect_key(f, i) in (('__ffdb', 'close'), ('_ffdb_cursor_', 'close')) for b in f.blocks for i in b):
                    out[n] = [(m['off'], m['kind'], m['name']) for m in ms]
    return out


def life_roots(mod):
    """constructors without arguments and destructors of the repository"""
    own = owners(mod)
    out = []
    for n, f in sorted(mod.funcs.items()):
        m = re.match(r'(FILEDB::.*)::(~?\w+)\(\)$', f.dem)
        if not m or f.decl or len(f.args) != 1 or not os.path.realpath(f.file).startswith(os.path.realpath(lib.REPO)):
            continue
        cls = re.sub(r'<[^<>]*>$', '', m.group(1)).split('::')[-1]
        if m.group(2) == '~' + cls:
            out.append((n, 'dtor', own.get(m.group(1), [])))
        elif m.group(2) == cls and own.get(m.group(1)):
            out.append((n, 'ctor', own[m.group(1)]))
    return out


def run_life(mod, name, kind, fields):
    fn = mod.funcs[name]
    eng = setup(mod, name, kind)
    st = State()
    this = ('s', ('arg', 0))
    st.facts[this] = (None, None, True)
    if kind == 'dtor':
        for off, k, fld in fields:
            h = ('h', ('owned', off))
            st.tok[h] = (HELD, False, 'the %s in %s' % ('database' if k == '*__ffdb' else 'cursor', fld), None)
            st.write(('d', this), off, 8, ('p', h, 0))
            st.flags[('own', off)] = ('v', ('p', h, 0))
    nex = 0
    for s, rv, k in eng.call(fn, st, [this]):
        nex += 1
        if k == 'unwind':
            if kind == 'dtor':
                eng.report('terminate', fn, None, 'an exception leaves a destructor', s)
            continue
        for off, w, fld in fields:
            if kind == 'dtor':
                t = s.tok.get(s.flags[('own', off)][1][1])
                if t is not None and t[0] == HELD:
                    eng.report('leak', fn, None, '%s is not closed when the object is destroyed' % t[2], s)
            else:
                e = (s.mem.get(('d', this)) or {}).get(off)
                if e is None or e[0] != C0:
                    eng.report('dangling-handle', fn, None, '%s is not null in a new object' % fld, s)
    return eng, nex

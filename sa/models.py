"""Models of the code outside the analysed program (libc, pthread) and of the
page-pool interface when the layers above it are analysed."""
from engine import C0, UNDEF, AnalysisError

NOEFFECT = ['fprintf', 'printf', 'perror', 'puts', 'fputs', 'fflush', 'pthread_mutex_lock', 'pthread_mutex_unlock',
            'pthread_mutex_init', 'pthread_mutex_destroy', 'pthread_cond_init', 'pthread_cond_destroy',
            'pthread_cond_signal', 'pthread_cond_broadcast', 'pthread_cond_wait', 'pthread_self', 'pthread_equal',
            'strlen', 'memcmp', 'strcmp', 'strncmp', 'close', 'lseek64', 'lseek', 'write', 'fsync', 'ftruncate64', 'ftruncate',
            'backtrace', 'backtrace_symbols', 'fcntl64', 'fcntl', 'stat64', 'fstat64', 'open64', 'open', 'pread', 'pwrite',
            'pread64', 'pwrite64', '__errno_location', 'snprintf', 'fdatasync', 'fputc', 'fwrite', 'strchr', 'strerror', 'sched_yield', 'usleep',
            'getenv', 'time', 'getpid']


def noeffect(eng, st, fn, ins, args, name):
    rv = None
    if ins['ty'] != 'void':
        rv = eng.fresh(st, eng.site(fn, ins))
    return [(st, rv, 'ret')]


def alloc(eng, st, fn, ins, args, name):
    out = []
    if getattr(eng, 'alloc_fail', True):
        s0 = st.copy()
        s0.note('%s: %s() returns NULL' % (fn.loc(ins), name))
        out.append((s0, C0, 'ret'))
    h = eng.fresh(st, eng.site(fn, ins), 'h')
    st.mem.pop(h, None)
    if name == 'calloc':
        st.mem[h] = {'Z': (0, 1 << 40)}
    out.append((st, ('p', h, 0), 'ret'))
    return out


def m_free(eng, st, fn, ins, args, name):
    return [(st, None, 'ret')]


def m_read(eng, st, fn, ins, args, name):
    d = eng.deref(st, fn, ins, args[1], 'read')
    if d not in (None, 'null'):
        if eng.mon:
            eng.mon.on_memset(eng, st, fn, ins, args[1], UNDEF, args[2], d)
        st.kill(d[0], d[1], None)
    rv = eng.fresh(st, eng.site(fn, ins))
    return [(st, rv, 'ret')]


def m_memcpy(eng, st, fn, ins, args, name):
    return eng.memcpy(fn, ins, st, args)


def m_memset(eng, st, fn, ins, args, name):
    return eng.memset(fn, ins, st, args)


def m_errno(eng, st, fn, ins, args, name):
    return [(st, ('p', ('g', 'errno'), 0), 'ret')]


def m_die(eng, st, fn, ins, args, name):
    return []


def m_strcpy(eng, st, fn, ins, args, name):
    d = eng.deref(st, fn, ins, args[0], 'strcpy')
    if d == 'null':
        return []
    if d is not None:
        if eng.mon:
            eng.mon.on_memset(eng, st, fn, ins, args[0], UNDEF, UNDEF, d)
        st.kill(d[0], d[1], None)
    return [(st, args[0], 'ret')]


def install(eng):
    for n in NOEFFECT:
        eng.models[n] = noeffect
    for n in ('malloc', 'calloc', 'realloc', 'strdup'):
        eng.models[n] = alloc
    eng.models['free'] = m_free
    eng.models['read'] = m_read
    eng.models['memcpy'] = eng.models['memmove'] = m_memcpy
    eng.models['memset'] = m_memset
    eng.models['strcpy'] = eng.models['strncpy'] = m_strcpy
    eng.models['__errno_location'] = m_errno
    for n in ('exit', 'abort', '_exit', '__assert_fail'):
        eng.models[n] = m_die

    def indirect(eng, st, fn, ins, args, ikey):
        return noeffect(eng, st, fn, ins, args, 'indirect')
    eng.models['indirect'] = indirect

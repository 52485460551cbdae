"""shared by the property modules: entry points analysed in parallel"""
import lib, pins, fail, pool, api, heap, cxx
from engine import AnalysisError
from ir import Module

BASE_ASSUME = [
    'libc behaves as modelled in sa/models.py; memory not provably the same is treated as distinct only when its objects are',
    'entry points are called with valid, non-NULL handles; a cursor is used by one thread at a time',
]


def one_pins(mod, name, kind):
    eng, nex = pins.run_root(mod, name, kind)
    m = eng.mon
    return eng.results(), dict(root=name, kind=kind, exits=nex, steps=eng.steps, functions=sorted(eng.analysed),
                               acquires=sorted(m.acquires), releases=sorted(m.releases), stores=m.stores)


def one_fail(mod, name, kind):
    eng, nex = fail.run_root(mod, name, kind)
    return eng.results(), dict(root=name, kind=kind, exits=nex, steps=eng.steps, functions=sorted(eng.analysed),
                               sites=sorted(eng.mon.sites))


def gather(js, func, argslist):
    viol, infos, seen, errs = [], [], set(), []
    for st, r in lib.prun(js, func, argslist):
        if st == 'err':
            errs.append(r)
            continue
        vs, info = r
        infos.append(info)
        for v in vs:
            k = (v['rule'], v['function'], v['location'], v['message'])
            if k not in seen:
                seen.add(k)
                viol.append(v)
    if errs and not viol:
        if 2 * len(errs) >= len(argslist):
            raise AnalysisError('; '.join(errs))
        for e in errs:      # decided without it; the evidence lists what was analysed
            print('NOT-ANALYSED %s' % e)
    return viol, infos


def union(infos, k):
    s = set()
    for i in infos:
        s |= set(map(tuple, i[k])) if i[k] and isinstance(i[k][0], (list, tuple)) else set(i[k])
    return sorted(s)


def callers(mod, sites):
    """the sites themselves and the calls of the functions that wrap them"""
    out = set(map(tuple, sites))
    wrap = {f for f, _ in sites}
    for f in mod.funcs.values():
        for b in f.blocks:
            for i in b:
                if i['op'] in ('call', 'invoke') and isinstance(i['callee'], dict) and i['callee'].get('g') in wrap:
                    out.add((f.name, f.loc(i)))
    return sorted(out)


def hash_roots(js):
    return pins.api_roots(Module(js))


def run_pins(work, rules, rule_text, need=20):
    js = lib.lower_c(work)
    viol, infos = gather(js, one_pins, hash_roots(js))
    mod = Module(js)
    acq, rel = callers(mod, union(infos, 'acquires')), callers(mod, union(infos, 'releases'))
    if len(acq) < need or len(rel) < need:
        raise AnalysisError('only %d acquire / %d release sites found' % (len(acq), len(rel)))
    cov = dict(explanation='%s; %d entry points, %d functions, %d acquire and %d release sites, %d exit states'
               % (rule_text, len(infos), len(union(infos, 'functions')), len(acq), len(rel), sum(i['exits'] for i in infos)),
               entry_points=[i['root'] for i in infos], functions=union(infos, 'functions'),
               acquire_sites=acq, release_sites=rel, page_stores=sum(i['stores'] for i in infos),
               exit_states=sum(i['exits'] for i in infos), rules=sorted(rules))
    return [v for v in viol if v['rule'] in rules], cov, BASE_ASSUME


def run_fail(work, rules, rule_text):
    js = lib.lower_c(work)
    viol, infos = gather(js, one_fail, hash_roots(js))
    sites = union(infos, 'sites')
    if len(sites) < 15:
        raise AnalysisError('only %d failing sites found' % len(sites))
    cov = dict(explanation='%s; %d entry points, %d functions, %d sites that can fail, %d exit states'
               % (rule_text, len(infos), len(union(infos, 'functions')), len(sites), sum(i['exits'] for i in infos)),
               entry_points=[i['root'] for i in infos], functions=union(infos, 'functions'),
               failing_sites=sites, exit_states=sum(i['exits'] for i in infos), rules=sorted(rules))
    return [v for v in viol if v['rule'] in rules], cov, BASE_ASSUME


POOL_CONST = ('FFDB_PAGE_DIRTY', 'FFDB_PAGE_PINNED', 'FFDB_PAGE_LOCKED')


def one_pool(mod, name, const):
    eng, nex = pool.run_root(mod, name, const)
    m = eng.mon
    acc = {'%s.%s' % k[:2] + ('!' if k[2] else ''): len(v) for k, v in m.access.items() if k[3]}
    bad = []
    for k, v in m.access.items():
        if not k[3] and not k[4]:
            for (f, loc), (root, tr) in v.items():
                bad.append(dict(rule='unlocked-access', function=f, location=loc, call_path=tr, path=tr,
                                message='%s.%s is %s without the pool\'s mutex on a path from %s' % (k[0], k[1], 'written' if k[2] else 'read', root)))
    return eng.results() + bad, dict(root=name, exits=nex, steps=eng.steps, functions=sorted(eng.analysed), checked=m.checked, accesses=acc)


def run_pool(work, rules, rule_text, roots=None, need=()):
    js = lib.lower_c(work)
    const = lib.constants(work, ['"ffdb_db.h"', '"ffdb_pagepool.h"'], POOL_CONST)
    rs = [r for r in pool.roots(Module(js)) if roots is None or r in roots]
    # the two long ones first
    rs.sort(key=lambda r: (not r.endswith('get_page'), not r.endswith('new_page'), r))
    viol, infos = gather(js, one_pool, [(r, const) for r in rs])
    tot, acc = {}, {}
    for i in infos:
        for k, v in i['checked'].items():
            tot[k] = tot.get(k, 0) + v
        for k, v in i['accesses'].items():
            acc[k] = acc.get(k, 0) + v
    viol = [v for v in viol if v['rule'] in rules]
    for n in need:
        if not tot.get(n) and not viol:
            raise AnalysisError('no %s event was seen: the rule would hold vacuously' % n)
    cov = dict(explanation='%s; %d entry points of the page pool, %d functions, %d exit states'
               % (rule_text, len(infos), len(union(infos, 'functions')), sum(i['exits'] for i in infos)),
               entry_points=[i['root'] for i in infos], functions=union(infos, 'functions'),
               exit_states=sum(i['exits'] for i in infos), steps=sum(i['steps'] for i in infos),
               events=tot, protected_fields=acc, rules=sorted(rules))
    return viol, cov, BASE_ASSUME + ['no thread holds a page across the destruction of the pool',
                                     'memory read under the mutex is re-read after every wait or re-acquisition']


def one_api(mod, name, kind, mode, const):
    eng, nex = api.run_root(mod, name, kind, mode, const)
    return eng.results(), dict(root='%s (%s)' % (name, mode), kind=kind, exits=nex, steps=eng.steps, functions=sorted(eng.analysed),
                               checked={k: sorted(v) if isinstance(v, (set, list)) else v for k, v in eng.mon.checked.items()})


def run_api(work, rules, rule_text, need=(), want=lambda r: True):
    js = lib.lower_c(work)
    const = lib.constants(work, api.INCL, api.CONST)
    rs = [r for r in api.all_roots(Module(js)) if want(r)]
    viol, infos = gather(js, one_api, [r + (const,) for r in rs])
    viol = [v for v in viol if v['rule'] in rules]
    tot = {}
    for i in infos:
        for k, v in i['checked'].items():
            tot[k] = tot.get(k, 0) + (len(v) if isinstance(v, list) else v)
    for n in need:
        if not tot.get(n) and not viol:
            raise AnalysisError('no %s event was seen: the rule would hold vacuously' % n)
    cov = dict(explanation='%s; %d entry points, %d functions, %d exit states'
               % (rule_text, len(infos), len(union(infos, 'functions')), sum(i['exits'] for i in infos)),
               entry_points=[i['root'] for i in infos], functions=union(infos, 'functions'), events=tot,
               exit_states=sum(i['exits'] for i in infos), steps=sum(i['steps'] for i in infos), rules=sorted(rules))
    return viol, cov, BASE_ASSUME


def one_heap(mod, name, kind):
    eng, nex = heap.run_root(mod, name, kind)
    m = eng.mon
    return eng.results(), dict(root=name, kind=kind, exits=nex, steps=eng.steps, functions=sorted(eng.analysed),
                               allocs=sorted(m.allocs), frees=sorted(m.frees), fds=sorted(m.fds))


def run_heap(work, rules, rule_text):
    js = lib.lower_c(work)
    viol, infos = gather(js, one_heap, hash_roots(js))
    viol = [v for v in viol if v['rule'] in rules]
    al, fr, fd = union(infos, 'allocs'), union(infos, 'frees'), union(infos, 'fds')
    if (len(al) < 5 or len(fr) < 5) and not viol:
        raise AnalysisError('only %d allocations / %d frees found' % (len(al), len(fr)))
    cov = dict(explanation='%s; %d entry points, %d functions, %d allocation and %d free sites, %d file descriptor sites, %d exit states'
               % (rule_text, len(infos), len(union(infos, 'functions')), len(al), len(fr), len(fd), sum(i['exits'] for i in infos)),
               entry_points=[i['root'] for i in infos], functions=union(infos, 'functions'), allocation_sites=al, free_sites=fr,
               descriptor_sites=fd, exit_states=sum(i['exits'] for i in infos), rules=sorted(rules))
    return viol, cov, BASE_ASSUME


def one_cxx(mod, name, kind, fields):
    if kind is None:
        eng, nex = cxx.run_root(mod, name)
    else:
        eng, nex = cxx.run_life(mod, name, kind, fields)
    f = mod.funcs[name]
    return eng.results(), dict(root=name if kind is None else f.dem, exits=nex, steps=eng.steps,
                               functions=sorted(mod.funcs[n].dem.split('(')[0] for n in eng.analysed),
                               cfg=sorted(eng.mon.cfg), checked={k: sorted(v) for k, v in eng.mon.checked.items()})


def run_cxx(work, rules, rule_text, need=()):
    js = lib.lower_cxx(work)
    mod = Module(js)
    rs = [(r, None, None) for r in cxx.roots(mod)]
    if len(rs) < 50:
        raise AnalysisError('only %d operations of the C++ interface found' % len(rs))
    rs += cxx.life_roots(mod)
    rs.sort(key=lambda r: r[0] not in ('mall_open', 'mconf_keys'))
    viol, infos = gather(js, one_cxx, rs)
    ev = {}
    for i in infos:
        for k, v in i['checked'].items():
            ev.setdefault(k, set()).update(map(tuple, v))
    sets, gets, wrote = {}, {}, set()
    for i in infos:
        for w, f, o, loc in i['cfg']:
            if w == 'wrote':
                wrote.add(o)
            else:
                (sets if w == 'set' else gets).setdefault(o, {})[f] = loc
    for o, fs in sorted(sets.items()) if gets else ():
        if o not in wrote or o in gets and not set(gets[o]) & set(fs):
            viol.append(dict(rule='config-field', function='getConfigInfo', location=sorted(fs.values())[0], call_path=[], path=[],
                             message='%s of a configuration is not read back into the member it was stored from' % '/'.join(sorted(fs))))
    viol = [v for v in viol if v['rule'] in rules]
    for n in need:
        if not ev.get(n) and not viol:
            raise AnalysisError('no %s event was seen: the rule would hold vacuously' % n)
    fs = union(infos, 'functions')
    cov = dict(explanation='%s; %d operations, constructors and destructors of the C++ interface, %d functions, %d exit states (returns and exceptions)'
               % (rule_text, len(infos), len(fs), sum(i['exits'] for i in infos)),
               entry_points=[i['root'] for i in infos], functions=fs, exit_states=sum(i['exits'] for i in infos),
               steps=sum(i['steps'] for i in infos), sites={k: sorted('%s %s' % x for x in v) for k, v in ev.items()}, rules=sorted(rules))
    return viol, cov, ['the standard library and the user\'s key and data types behave as modelled in sa/cxx.py: they may throw SerializeException when they serialise',
                       'the database handle in a store is null or a handle ffdb_dbopen returned; operations of the C layer succeed, find nothing or fail, in every combination',
                       'memory exhaustion of the standard library (bad_alloc) is not modelled']

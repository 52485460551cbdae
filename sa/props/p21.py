import os
import re
import time
import lib, bounds
from lib import AnalysisError
from ir import Module

LIMIT = 420         # seconds for one call of the interface


def whose(src):
    """line -> function, from the source"""
    out, cur = [], ''
    for i, l in enumerate(open(src, errors='replace').read().split('\n'), 1):
        m = re.match(r'^(?!static\s+const|typedef|#|struct\s+\w+\s*\{|return)(?:[A-Za-z_][\w\s\*]*?[\s\*])?(\w+)\s*\([^;]*$', l)
        if m and m[1] not in ('if', 'while', 'for', 'switch'):
            cur = m[1]
        out.append(cur)
    return out


def root(mod, name, pool=False):
    t0 = time.time()
    fn = mod.funcs[name]
    try:
        f = bounds.Form(mod, fn, bounds.poolspec(mod) if pool else bounds.spec(mod))
    except AnalysisError as e:
        return name, [], ['%s: %s' % (name, e)], 0
    pr = bounds.Prover(f)
    viol, undecided, shown = [], {}, 0
    for kind, b, goal, facts, what, line, file in bounds.obligations(f, pr):
        if time.time() - t0 > LIMIT:
            undecided['%s: %s' % (name, 'ran out of time')] = 1
            break
        if kind == 'part':
            if pr.prove(facts, goal):
                viol.append((file, line, what))
            continue
        r, why = pr.decide(kind, b, facts, goal)
        if r == 'shown':
            shown += 1
        elif r == 'open':
            undecided['%s:%d (from %s) %s: %s' % (os.path.basename(file), line, name, what, why)] = 1
        else:
            viol.append((file, line, what))
    return name, viol, list(undecided), shown


def cache(work):
    """the buffers of the page cache -> (violations, undecided, {function: shown})"""
    js = bounds.lower(work, True)
    mod = Module(js)
    viol, undecided, per = [], [], {}
    for st, r in lib.prun(js, root, [(n, True) for n, f in mod.funcs.items() if not f.decl]):
        if st != 'ok':
            undecided.append(str(r))
            continue
        collect(r, viol, undecided, per)
    return viol, undecided, per


def collect(r, viol, undecided, per):
    n, vs, un, k = r
    if k or un:
        per[n] = k
    undecided += un
    for file, line, what in vs:
        if any(v['location'] == '%s:%d' % (os.path.basename(file), line) and v['message'].startswith(what) for v in viol):
            continue
        fs = whose(file) if os.path.exists(file) else []
        viol.append(dict(rule='outside', function=fs[line - 1] if 0 < line <= len(fs) else n, location='%s:%d' % (os.path.basename(file), line),
                         message='%s%s (in a call of %s)' % (what, '' if ' part ' in what or 'keeps' in what else ': no comparison before it bounds what it depends on', n), call_path=[n], path=[]))


def run(work, tier):
    js = bounds.lower(work)
    mod = Module(js)
    if not any(n in mod.funcs and not mod.funcs[n].decl for n in ('_ffdb_hash_put',)):
        raise AnalysisError('the function that stores an entry was not found')
    roots = sorted((n for n, f in mod.funcs.items() if not f.decl and not n.startswith('ffdb_pg')), key=lambda n: -len(mod.funcs[n].blocks))
    viol, undecided, per = cache(work)
    for st, r in lib.prun(js, root, [(n,) for n in roots]):
        if st != 'ok':
            undecided.append(str(r))
            continue
        collect(r, viol, undecided, per)
    shown = sum(per.values())
    if not shown and not viol:
        raise AnalysisError('no access to a page or buffer was recognised')
    cov = dict(explanation='%d accesses whose place or length is computed lie within their page, the memory allocated for them or the caller\'s buffer, '
               'on every path from the interface: it follows from the comparisons before them; %d not decided' % (shown, len(undecided)),
               obligations=per, undecided=sorted(undecided), rules=['outside'])
    return viol, cov, bounds.ASSUME

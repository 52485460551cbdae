import os
import re
import lib, fold
from fold import Open, Differs


def run(work, tier):
    whole, mod, dflt, arrays = fold.lower(work)
    viol, undecided, shown = [], [], {}

    def bad(fn, line, msg):
        f = whole.funcs.get(fn)
        viol.append(dict(rule='bytes', function=fn, location='%s:%d' % (os.path.basename(f.file or '') if f else '', line or (f.line if f else 0)), message=msg, call_path=[fn], path=[]))

    def attempt(what, fn, f):
        try:
            shown[what] = f()
        except Open as e:
            undecided.append('%s: %s' % (what, e))
        except Differs as e:
            bad(fn, 0, '%s: %s' % (what, e))

    crc, init = '__ffdb_crc32_checksum', '__ffdb_crc32_init'
    tables = dict(arrays)
    if init in mod.funcs and not mod.funcs[init].decl:
        try:
            k = fold.Const(mod, init, arrays)
            elems = {}
            for (g, o), v in k.mem.items():
                elems.setdefault(g, {})[o] = v
            for g, es in elems.items():
                s = next(iter(es.values()))[1] // 8
                m = re.match(r'\[(\d+) x i(\d+)\]', mod.globals.get(g, {}).get('ty', ''))
                if m and len(es) > 16 and int(m[2]) == 8 * s and all(o % s == 0 for o in es):
                    was = arrays.get(g, (s, [0] * int(m[1])))[1]
                    tables[g] = (s, [es[i * s][2] if i * s in es else was[i] for i in range(int(m[1]))])
                    last = max(i for i, x in enumerate(k.order) if x[0] == g)
                    for i, x in enumerate(k.order):
                        if x[0] != g and x[0] not in tables and i < last and not any(y[0] == x[0] for y in k.order[last:]):
                            bad(init, x[2], 'the table of the checksum is marked as ready before it is complete: another thread uses it half built')
                            break
            shown['the table of the checksum'] = sum(len(t[1]) for g, t in tables.items() if g in elems)
        except Open as e:
            undecided.append('the table of the checksum: %s' % e)
        if '__ffdb_hash_open' in whole.funcs and not whole.funcs['__ffdb_hash_open'].decl:
            b, n = fold.before_use(whole, init, crc, '__ffdb_hash_open')
            shown['the table is built before anything is checked'] = n
            for line, g in b[:1]:
                bad('__ffdb_hash_open', line, 'calls %s, which computes checksums, on a path on which the table of the checksum was not built' % g)
    attempt('the checksum', crc, lambda: fold.checksum(mod, crc, tables))
    h, q = dflt.get('__ffdb_default_hash'), dflt.get('__ffdb_default_cmp')
    if h:
        attempt('the hash', h, lambda: fold.hashed(mod, h))
    else:
        undecided.append('the hash: no default found')
    if q:
        attempt('the comparison', q, lambda: fold.compared(mod, q, whole.field_off('_ffdb_dbt_', 'data'), whole.field_off('_ffdb_dbt_', 'size')))
    else:
        undecided.append('the comparison: no default found')
    parts = fold.hashed_parts(whole, '_ffdb_call_hash', whole.field_off('_ffdb_dbt_', 'data'), whole.field_off('_ffdb_dbt_', 'size'))
    known = [p for p in parts if p[2]]
    undecided += ['what is hashed at %s:%d is not followed' % p[:2] for p in parts if not p[2]]
    if known:
        shown['the part of a key that is hashed'] = len(known)
        whole_key = [p for p in known if p[2] == ('data', 'size')]
        for fn, line, what in known:
            if what != ('data', 'size') and (whole_key or what != known[0][2]):
                bad(fn, line, 'another part of a key is hashed here (%s, %s) than at line %d of %s: the two never meet' % (what + ((whole_key or known)[0][1], (whole_key or known)[0][0])))
    cov = dict(explanation='the number of turns, the bytes looked at and the step of each loop were brought into a normal form and compared with the format; %d not decided' % len(undecided),
               functions=[f for f in (crc, init, h, q) if f], obligations=shown, undecided=undecided, rules=['bytes'])
    return viol, cov, ['lengths given are not negative', 'a hash or comparison function the caller supplies is not looked at']

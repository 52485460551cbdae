import os
import lib, border
from lib import AnalysisError
from ir import Module

TYPES = ('HASH_BUCKET_PAGE', 'HASH_DATA_PAGE', 'HASH_FREE_PAGE', 'HASH_UINFO_PAGE', 'HASH_CONFIG_PAGE')


def ints(mod, name):
    """the numbers of more than one byte in a structure: (offset, width) -> (member, in an array)"""
    r = {}
    for m in mod.di[name]['members']:
        k = m['kind']
        if m['esize'] in (2, 4, 8) and not k.startswith(('*', '[]*')):
            for i in range(max(1, m['size'] // m['esize'])):
                r[(m['off'] + i * m['esize'], m['esize'])] = (m['name'], k.startswith('[]'))
    return r


def filters(work):
    """the two functions the cache runs pages through"""
    mod = Module(lib.lower_flat(work, 'ffdb_page.c'))
    f = [mod.funcs.get(n) for n in ('ffdb_pgin_routine', 'ffdb_pgout_routine')]
    if None in f or any(x.decl or len(x.args) != 3 for x in f):
        raise AnalysisError('the page filters were not found')
    return mod, f[0], f[1]


def run(work, tier):
    mod, fin, fout = filters(work)
    K = {n: v for n, v in lib.constants(work, ['"ffdb_db.h"', '"ffdb_page.h"'], TYPES).items()}
    shapes = {}
    for n in border.SHAPES:
        if n not in mod.di:
            raise AnalysisError('structure %s not found' % n)
        o = sorted(x for x, (m, arr) in ints(mod, n).items())
        shapes[n] = [(a - o[0][0], w) for a, w in o]
    viol, seen = border.pages(mod, fin, fout, K, shapes)
    if seen is None and not viol:
        raise AnalysisError('no conversion was recognised in the page filters')
    hm = Module(lib.lower_flat(work, 'ffdb_hash.c'))
    hoff = [m['off'] for m in hm.di['htab']['members'] if m['name'] == 'hdr']
    v2, s2 = border.header(hm, ints(hm, 'hashhdr'), hoff[0] if hoff else 0)
    if not s2 and not viol:
        raise AnalysisError('no conversion of the header was recognised')
    cov = dict(explanation='every number of a page and of the header is converted between the order of the file and of the machine exactly once, on the same '
               'conditions both ways, and used only in the order of the machine; %d conversions of pages, %d of whole headers' % (len(seen['conversions']) if seen else 0, len(s2)),
               functions=['ffdb_pgin_routine', 'ffdb_pgout_routine'] + s2, conversions=seen['conversions'] if seen else [], obligations=sorted(set(seen['judged'])) if seen else [],
               rules=['byte-order'])
    return viol + v2, cov, ['stores at different places of a page do not overlap', 'the checksum function leaves the page alone']

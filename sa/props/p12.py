import common, filters, lib
from ir import Module


def run(work, tier):
    viol, cov, asm = common.run_api(work, {'not-verified'}, 'a value is returned only after its checksum was compared',
                                    need=('get-found', 'cursor-data', 'checksum'), want=lambda r: r[1] in ('db.get', 'cursor.get'))
    js = lib.lower_c(work)
    v2, infos = filters.run(Module(js), lib.constants(work, filters.INCL, filters.CONST))
    cov['filters'] = infos
    cov['explanation'] += '; both page filters: the checksum covers the whole page as stored, is compared on the way in and stored on the way out'
    cov['rules'] = sorted(set(cov['rules']) | filters.OWN)
    return viol + v2, cov, asm

import common


def run(work, tier):
    return common.run_api(work, {'overwritten', 'key-count', 'pair-not-added', 'pair-added-twice', 'refusal-acknowledged', 'found-without-match', 'absent-despite-match'},
                          'insertion adds or replaces exactly one pair or refuses, lookup answers by the comparison of keys',
                          need=('put-existing', 'put-new', 'get-found', 'key-compare', 'nkeys', 'pair-added'), want=lambda r: r[1] in ('db.put', 'db.get') and r[2] == 'rw')

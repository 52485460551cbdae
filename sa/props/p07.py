import common, p21


def run(work, tier):
    viol, cov, ass = common.run_pool(work, {'io-position', 'offset-overflow', 'wrong-place', 'dirty-cleared', 'unfiltered-io'},
                           'a page is read and written at its number times the page size, through the filters',
                           need=('seek', 'read', 'write', 'loaded', 'pgin', 'pgout'))
    v, un, per = p21.cache(work)
    cov['buffers'] = {'rule': 'every transfer and copy of a page lies within the buffer of that page and covers all of it', 'obligations': per, 'undecided': un}
    return viol + v, cov, ass

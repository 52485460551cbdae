import common
def run(work, tier):
    return common.run_fail(work, {'failure-as-success', 'failure-as-absence'},
                           'no path on which a page, an allocation or a system call failed ends in success or "no such key"')

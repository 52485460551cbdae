import common, cxx


def run(work, tier):
    return common.run_cxx(work, cxx.STATUS, 'no operation ends as if it had succeeded when the database failed, and yes, no and not found are answered as the database found',
                          ('operation',))

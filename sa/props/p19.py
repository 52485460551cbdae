import common, cxx


def run(work, tier):
    return common.run_cxx(work, cxx.FAITH, 'keys, data and lengths handed to and from the database are those of the operation; listings take every record once',
                          ('handed-in', 'copied-out', 'listed', 'result',))

import common, cxx


def run(work, tier):
    return common.run_cxx(work, cxx.RES, 'cursors, returned memory and handles are released exactly once on every path, including those an exception takes; destructors close and do not throw',
                          ('operation', 'copied-out',))

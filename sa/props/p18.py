import common, cxx


def run(work, tier):
    return common.run_cxx(work, cxx.CLOSED, 'a store that is not open never touches the database through a null or closed handle',
                          ('operation',))

import common, cxx


def run(work, tier):
    return common.run_cxx(work, cxx.BOUNDS, 'no division by an absent count, no copy or access past the end of a buffer, no text copied without its end',
                          ('division', 'copy', 'bounded-copy'))

import common


def run(work, tier):
    return common.run_heap(work, {'leak', 'double-free', 'use-after-free', 'fd-leak', 'fd-double-close', 'not-freed', 'dangling'},
                           'memory and descriptors have one owner and are released exactly once')

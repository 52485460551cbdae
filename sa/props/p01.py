import common
def run(work, tier):
    return common.run_pins(work, {'leaked-pin', 'double-release', 'use-after-release', 'release-null', 'stale-cursor-page'},
                           'every page pinned by a call is released exactly once on every path out of it and not touched afterwards')

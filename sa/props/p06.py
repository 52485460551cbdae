import common


def run(work, tier):
    return common.run_pool(work, {'takeover-dirty', 'dirty-cleared', 'dirty-not-recorded', 'sync-skips-page', 'sync-stops-early', 'sync-drops-page', 'free-dirty', 'filter-in-place', 'failure-as-success'},
                           'a dirty page leaves the cache or loses its mark only after a complete write; a flush passes over no dirty idle page and reports every failure',
                           need=('dirty-cleared', 'walk', 'flushed', 'free-page', 'takeover', 'put'))

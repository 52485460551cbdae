import common


def run(work, tier):
    return common.run_api(work, {'double-lock', 'unlock-unheld', 'lock-leaked', 'destroy-held', 'handle-unlocked'},
                          'the lock of a handle or cursor is taken once, given up on every path and held at every write to the shared handle',
                          need=('lock', 'handle-write', 'lock-destroyed'))

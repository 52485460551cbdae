import common


def run(work, tier):
    return common.run_pool(work, {'double-lock', 'unlock-unheld', 'lock-leaked', 'destroy-held', 'wait-unlocked', 'wait-not-in-loop', 'signal-unlocked', 'wakeup-not-recorded', 'lost-wakeup', 'unlocked-access'},
                           'every access to shared pool state happens under its mutex, which is released on every path; no wake-up is lost',
                           need=('lock', 'unlock', 'cond-wait', 'signal', 'wakeup'))

import common


def run(work, tier):
    return common.run_pool(work, {'takeover-pinned', 'takeover-locked', 'takeover-waiters', 'pin-stolen', 'unpin-while-referenced', 'ref-not-taken', 'ref-not-dropped', 'not-pinned', 'no-page', 'wrong-page', 'wrong-chain', 'queues-differ', 'waits-removed'},
                           'the page handed out is the one asked for, pinned and referenced once, in exactly one place of the cache; no page in use is evicted or handed to a second thread',
                           need=('takeover', 'pin', 'unpin', 'page-returned', 'chain', 'insert', 'remove', 'put'))

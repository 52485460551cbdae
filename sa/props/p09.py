import common


def run(work, tier):
    return common.run_api(work, {'header-not-flushed', 'pages-not-flushed', 'pool-not-closed'},
                          'sync and close report success only after the header and every changed page were handed to the file',
                          need=('flush-exit', 'pool-sync', 'file-write'), want=lambda r: r[1] in ('db.sync', 'db.close'))

import common


def run(work, tier):
    return common.run_api(work, {'bad-header', 'not-verified'},
                          'open succeeds on an existing file only after magic number, version, hash function and header checksum were compared',
                          need=('open-existing', 'open-new', 'header-read', 'checksum'), want=lambda r: r[0] == 'ffdb_dbopen')

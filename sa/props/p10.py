import common


def run(work, tier):
    return common.run_api(work, {'readonly-modified', 'readonly-acknowledged', 'access-mode'},
                          'on a handle opened for reading nothing is modified and no modifying call reports success',
                          need=('ro-exit', 'open-exit'))

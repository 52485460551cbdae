import common
def run(work, tier):
    return common.run_pins(work, {'lost-update'}, 'a page modified on a path that can report success is released dirty')

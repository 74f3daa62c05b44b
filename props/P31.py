from .lib import *
TECHNIQUE = TECH


def check(C, tier):
    it = C.load()
    u = obj(it, 'universe', 'evolution.Universe')
    st = ('specs.state:with_rates', [u, obj(it, 'table', 'common.utils.DynamicRecArray')])
    C.func('estimates', it, 'semianalytic:step_monitor', 'specs.estimates:step_monitor', [u], setup=st)

from .lib import *
TECHNIQUE = TECH


def check(C, tier):
    it = C.load()
    G = 'specs.grids:'
    for n, a in (('', [S('n'), S('k')]), ('-default', [NONE, NONE])):
        C.func('linear' + n, it, G + 'linear_code', G + 'linear', a, where='common:LinearSpacedGrid.__init__', attrs=())
        C.func('log' + n, it, G + 'log_code', G + 'log', a, where='common:LogSpacedGrid.__init__', attrs=())
    C.func('default-grid', it, G + 'default_grid', G + 'default_grid_required', [], where='common:GRID')
    C.func('theta', it, G + 'theta_code', G + 'theta', [S('f')], where='common:theta')
    a = [S('f'), S('g'), S('x')]
    C.func('linear-interpolation', it, G + 'linear_interpolation_code', G + 'linear_interpolation', a, where='common:linear_interpolation')
    C.func('cubic-interpolation', it, G + 'cubic_interpolation_code', G + 'cubic_interpolation', a, where='common:cubic_interpolation')
    g = obj(it, 'grid', 'common.LinearSpacedGrid')
    C.func('binary-find', it, 'common:binary_find', G + 'binary_find', [g, S('x')])
    it = C.load(uninterpreted=['common.binary_find'])
    p = obj(it, 'particle', PARTICLE)
    C.func('interp', it, 'common:interp', G + 'interp', [p, S('k'), S('M')])

from .lib import *
TECHNIQUE = TECH


def check(C, tier):
    it = C.load()
    G = 'common.integrators'
    b = tup(*[S(c) for c in 'abgh'])
    C.func('gaussian', it, G + ':gaussian', 'specs.integrators:gaussian', [S('f'), S('lo'), S('hi')])
    C.func('remap', it, G + ':remap_interval', 'specs.integrators:remap_interval', [S('f'), S('x1'), S('x2'), b])
    C.func('remap-paired', it, G + '.paired:remap_interval', 'specs.integrators:paired_remap_interval', [S('f'), S('x1'), S('x2'), b])
    C.func('laguerre', it, G + '.gauss_laguerre:gaussian', 'specs.integrators:laguerre', [S('f')])
    I = 'specs.integrators:'
    fb = tup(S('lo'), S('hi'))
    fb2 = tup(tup(S('a'), S('b')), tup(S('g'), S('h')))
    C.func('integrate-1d', it, I + 'integrate_1D_code', I + 'integrate_1D', [S('f'), fb], where=G + ':integrate_1D')
    C.func('integrate-2d', it, I + 'integrate_2D_code', I + 'integrate_2D', [S('f'), fb2], where=G + ':integrate_2D')
    C.func('integrate-laguerre', it, I + 'laguerre_code', I + 'laguerre', [S('f')], where=G + '.gauss_laguerre:integrate_1D')
    C.func('double', it, G + ':double_gaussian', I + 'double_gaussian', [S('f')] + [S(c) for c in 'abgh'])
    C.func('double-paired', it, G + '.paired:double_gaussian', I + 'paired_double_gaussian', [S('f')] + [S(c) for c in 'abgh'])
    C.func('integrate-2d-paired', it, G + '.paired:integrate_2D', I + 'paired_integrate_2D', [S('f'), fb2])
    C.func('lambda', it, I + 'lambda_integrate_code', I + 'lambda_integrate', [S('f'), S('lo'), S('hi')], where=G + ':lambda_integrate')
    for kind in ('legendre', 'laguerre'):
        m = G + '.gauss_' + kind
        C.values('nodes-' + kind, m + ':init_quadrature', it, lambda: tup(it.modget(m, 'points'), it.modget(m, 'weights')),
                 lambda: C.run(it, I + kind + '_rule', []).ret)

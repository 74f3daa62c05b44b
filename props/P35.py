from .cxxlib import *
from .P16 import total
TECHNIQUE = CXX_TECH


def nodes(n):
    xs = [S('x0')]
    for k in range(1, n):
        xs.append(total(xs[-1], S('d%d.x' % k)))
    return xs


def check(C, tier):
    it = load(C)
    C.parallel()
    for w, code in ((4, 'code'), (3, 'code3')):
        where = ('four' if w == 4 else 'three') + '_particle/cpp/integral.cpp:'
        for n in (2, 3, 5) + ((4, 6, 7) if tier == 'thorough' else ()):
            a = [seq(*nodes(n)), S('p')]
            C.func('%d-find-%d' % (w, n), it, N + code, N + 'need_binary_find', args=a, cargs=[K('binary_find'), seq(*a)], where=where + 'binary_find')
        for n in (2, 3) + ((4,) if tier == 'thorough' else ()):
            f = [S('f%d.x' % k) for k in range(n)]
            for eta in (1, -1):
                a = [seq(*nodes(n)), seq(*f), S('p'), S('m'), num(eta), S('T'), K(False)]
                C.func('%d-interpolation-%d%s' % (w, n, '' if eta == 1 else '-bosons'), it, N + code, N + 'need_interpolation', args=a,
                       cargs=[K('distribution_interpolation'), seq(*a)], where=where + 'distribution_interpolation')
        a = [seq(*nodes(2)), seq(*f[:2]), S('p'), S('m'), S('p.eta'), S('T'), K(True)]
        C.func('%d-equilibrium' % w, it, N + code, N + 'need_interpolation', args=a,
               cargs=[K('distribution_interpolation'), seq(*a)], where=where + 'distribution_interpolation')
    C.flush()

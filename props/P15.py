import itertools
from .cxxlib import *
TECHNIQUE = CXX_TECH


def check(C, tier):
    it = load(C, which=(4,))
    q = [S('q%d' % i) for i in range(1, 5)]
    C.parallel()
    for f, n in (('D3', 4), ('D2', 4), ('D1', 4), ('Db1', 3), ('Db2', 3)):
        C.func(f, it, N + 'code', N + 'need_' + f, args=q[:n], cargs=[K(f), seq(*q[:n])], where='Ds.cpp:' + f)
    C.flush()
    it = load(C, which=(4,))
    with_kernels(it)
    C.parallel()
    m = [S('m%d' % i) for i in range(4)]
    sides = seq(*[S('s%d.side' % i) for i in range(4)])
    for o in itertools.permutations(range(4)):
        for f in ('D', 'Db'):
            p, E = [S('p%d' % i) for i in range(4)], [S('E%d' % i) for i in range(4)]
            if f == 'Db':
                p[0], E[0] = num(0), m[0]
            a = [seq(*p), seq(*E), seq(*m), S('K1'), S('K2'), seq(*map(num, o)), sides]
            C.func('%s-%d%d%d%d' % ((f,) + o), it, N + 'code', N + 'need_' + f, args=a, cargs=[K(f), seq(*a)], where='Ds.cpp:' + f)
    C.flush()

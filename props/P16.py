from .cxxlib import *
TECHNIQUE = CXX_TECH
DECAY4, SCATTERING4, CREATION4 = (-1, 1, 1, 1), (-1, -1, 1, 1), (-1, -1, -1, 1)
DECAY3, CREATION3 = (-1, 1, 1), (-1, -1, 1)
FULL, F_1, F_F, FULL_VACUUM, F_1_VACUUM, F_F_VACUUM, F_CREATION, F_DECAY = range(8)
KINDS = ['Full', 'F_1', 'F_f', 'Full_vacuum_decay', 'F_1_vacuum_decay', 'F_f_vacuum_decay', 'F_creation', 'F_decay']


def total(*xs):
    r = T.const(0)
    for x in xs:
        r = T.add(r, T.from_atom(x.a) if isinstance(x, SymV) else x.p)
    return Num(r)


Z = num(0)
M = [S('p%d.m' % i) for i in range(4)]
GAP = S('gap')
OPEN = {DECAY4: [total(M[1], M[2], M[3], GAP)] + M[1:], SCATTERING4: M, CREATION4: M[:3] + [total(M[0], M[1], M[2], GAP)],
        DECAY3: [total(M[1], M[2], GAP), M[1], M[2]], CREATION3: [M[0], M[1], total(M[0], M[1], GAP)]}


def row(i, side, m, grid=None):
    if grid:
        xs = [num(0)]
        for k in range(1, grid):
            xs.append(total(xs[-1], S('dx%d' % k)))
        return tup(S('p%d.eta' % i), m, seq(*xs), seq(*[S('f%d' % k) for k in range(grid)]), num(0), S('T%d' % i), num(side))
    return tup(num(1), m, seq(), seq(), num(1), S('T%d' % i), num(side))


def check(C, tier):
    it = load(C)
    with_sums(it)
    C.parallel()

    def four(name, sides, kind, masses=None, ps=None, K0=Z, orders=((0, 1, 2, 3),), off=()):
        ms = masses or OPEN[sides]
        rows = seq(*[row(i, s, m, dict(off).get(i)) for i, (s, m) in enumerate(zip(sides, ms))])
        Ms = seq(*[tup(tup(*map(num, o)), S('K1%d' % n), S('K2%d' % n), K0) for n, o in enumerate(orders)])
        a = [seq(*(ps or [S('p.x')])), seq(*[S(x) for x in ('lo1', 'hi1', 'lo2', 'hi2', 'hi3')]), rows, Ms, S('step'), num(kind)]
        C.func('four-' + name, it, N + 'code_4p', N + 'need_4p', args=a, cargs=a[:-1] + [num(kind_value(KINDS[kind]))], where='four_particle/cpp/integral.cpp:integration')

    def three(name, sides, kind, masses=None, ps=None, off=()):
        ms = masses or OPEN[sides]
        rows = seq(*[row(i, s, m, dict(off).get(i)) for i, (s, m) in enumerate(zip(sides, ms))])
        a = [seq(*(ps or [S('p.x')])), seq(*[S(x) for x in ('lo1', 'hi1', 'hi2')]), rows, S('step'), num(kind)]
        # Python passes the kinds of the four-particle module to both
        C.func('three-' + name, it, N + 'code_3p', N + 'need_3p', args=a, cargs=a[:-1] + [num(kind_value(KINDS[kind]))], where='three_particle/cpp/integral.cpp:integration_3')

    k = S('K')
    for s, n in ((SCATTERING4, 'scattering'), (DECAY4, 'decay'), (CREATION4, 'creation')):
        four(n, s, FULL)
        four(n + '-at-rest', s, FULL, ps=[Z])
    four('decay-massless', DECAY4, F_F, masses=[M[0], Z, Z, Z])
    four('decay-massless-at-rest', DECAY4, F_F, masses=[M[0], Z, Z, Z], ps=[Z])
    four('scattering-massless', SCATTERING4, F_1, masses=[Z] * 4)
    four('scattering-massless-at-rest', SCATTERING4, F_1, masses=[Z] * 4, ps=[Z])
    four('scattering-one-massive-at-rest', SCATTERING4, F_1, masses=[M[0], Z, Z, Z], ps=[Z])
    four('scattering-light-at-rest', SCATTERING4, F_1, masses=[Z, M[1], M[2], M[3]], ps=[Z])
    four('scattering-first-massless', SCATTERING4, F_1, masses=[Z, Z, M[2], M[3]])
    four('scattering-elastic', SCATTERING4, FULL, masses=[M[0], M[1], M[0], M[1]])
    four('creation-massless', CREATION4, F_1, masses=[Z, Z, Z, M[3]])
    four('creation-nothing', CREATION4, F_1, masses=[Z] * 4)
    four('constant-matrix-element', SCATTERING4, F_1, masses=[Z] * 4, K0=k)
    four('two-matrix-elements', SCATTERING4, F_1, masses=[Z] * 4, orders=((0, 1, 2, 3), (0, 2, 3, 1)))
    four('two-momenta', SCATTERING4, F_1, masses=[Z, Z, M[2], M[3]], ps=[S('p.x'), S('k.x')], K0=num(1))
    four('off-equilibrium', SCATTERING4, FULL, masses=[Z] * 4, K0=num(1), off=((1, 2),))
    for kind in range(8):
        four('kind-%d' % kind, DECAY4, kind, masses=[M[0], Z, Z, Z], K0=num(1))
    for s, n in ((DECAY3, 'decay'), (CREATION3, 'creation')):
        three(n, s, FULL)
        three(n + '-at-rest', s, FULL, ps=[Z])
        three(n + '-off-equilibrium', s, FULL, off=((1, 2),))
        three(n + '-two-momenta', s, FULL, ps=[S('p.x'), S('k.x')])
    three('creation-light', CREATION3, FULL, masses=[Z, M[1], total(M[1], GAP)])
    three('creation-light-at-rest', CREATION3, FULL, masses=[Z, M[1], total(M[1], GAP)], ps=[Z])
    three('decay-massless', DECAY3, F_F, masses=[M[0], Z, Z])
    for kind in range(8):
        three('kind-%d' % kind, DECAY3, kind)

    def fails(name, code, a, nth):
        # an integration that does not converge
        def go():
            seen = []

            def status(it, w):
                if w.key not in seen:
                    seen.append(w.key)
                return num(1 if nth == len(seen) - 1 else 0)
            it.status = status
            try:
                o = C.run(it, N + code, a)
            finally:
                it.status = lambda it, w: num(0)
            if nth >= len(seen):
                return ('held', 'no such integration', None)
            if o.ret.key == BOT.key:
                return ('held', 'raises', None)
            return ('violated', 'a result is returned although an integration did not converge', {'status': 1, 'integration': nth})
        C.oblige(name, name.split('-')[0] + '_particle/cpp/integral.cpp', go, 'a non-zero status of the quadrature raises')

    def released(name, code, a):
        def go():
            o = C.run(it, N + code, a)
            n = 0
            for k, v in sorted(o.st.attrs.items(), key=lambda x: str(x[0][:2])):
                if k[1] == 'freed':
                    n += 1
                    if any(l.key == 'False' for _, l in leaves(v)):
                        return ('violated', 'the workspace %s is not released' % k[0], None)
            return ('held', '%d workspaces' % n, None)
        C.oblige(name, name.split('-')[0] + '_particle/cpp/integral.cpp', go, 'every workspace that is allocated is released')

    rows = seq(*[row(i, s, Z) for i, s in enumerate(SCATTERING4)])
    Ms = seq(tup(tup(*map(num, range(4))), S('K1'), S('K2'), num(1)))
    a4 = [seq(S('p.x'), S('k.x')), seq(*[S(x) for x in ('lo1', 'hi1', 'lo2', 'hi2', 'hi3')]), rows, Ms, S('step'), num(0)]
    rows = seq(*[row(i, s, m) for i, (s, m) in enumerate(zip(DECAY3, OPEN[DECAY3]))])
    a3 = [seq(S('p.x'), S('k.x')), seq(*[S(x) for x in ('lo1', 'hi1', 'hi2')]), rows, S('step'), num(0)]
    for i in range(2):
        fails('four-convergence-%d' % i, 'code_4p', a4, i)
    fails('three-convergence', 'code_3p', a3, 0)
    released('four-released', 'code_4p', a4)
    released('three-released', 'code_3p', a3)
    race_obligation(C, 4, 'four-threads', 'four_particle/cpp/integral.cpp:integration')
    race_obligation(C, 3, 'three-threads', 'three_particle/cpp/integral.cpp:integration_3')
    C.flush()

from .reactions import *
import itertools
TECHNIQUE = TECH
E = 'specs.elements:'


def sy(n):
    return Num(T.sym(n))


def check(C, tier):
    it = C.load()
    dd = dots(it)
    masses = tup(*[sy('m%d' % i) for i in range(4)])
    orders = list(itertools.permutations(range(4)))
    O = lambda o: tup(*[num(i) for i in o])
    where = 'interactions.four_particle:FourParticleM'

    def eq(oid, f, g, args, gargs=None, w=where):
        C.values(oid, w, it, lambda: C.run(it, E + f, args).ret, lambda: C.run(it, E + g, gargs or args).ret)
    for o in orders:
        n = ''.join(map(str, o))
        eq('element-' + n, 'made', 'product', [sy('K'), sy('K1'), sy('K2'), O(o), masses, dd])
        eq('weak-' + n, 'weak', 'weak_product', [num(0), sy('K1'), sy('K2'), O(o), masses, dd], w='library.SM:WeakM')
        eq('sterile-' + n, 'sterile', 'sterile_product', [sy('theta'), sy('K1'), sy('K2'), O(o), masses, dd], w='library.NuMSM:SterileM')
    for k in ('K', 'K1', 'K2'):
        eq('default-' + k, 'made_one', 'product_one', [K(k), sy('v'), O((1, 0, 2, 3)), masses, dd])
    eq('weak-constant', 'weak', 'weak_product', [sy('K'), num(0), num(0), O((0, 1, 2, 3)), masses, dd], w='library.SM:WeakM')
    eq('sterile-default-angle', 'sterile_plain', 'sterile_plain_product', [sy('K1'), sy('K2'), O((2, 0, 3, 1)), masses, dd], w='library.NuMSM:SterileM')
    for o in ((0, 0, 2, 3), (0, 1, 2, 0), (3, 1, 2, 2), (1, 2, 1, 3)):
        def go(o=o):
            r = C.run(it, E + 'made', [num(0), sy('K1'), num(0), O(o), masses, dd]).ret
            if r.key == BOT.key:
                return None
            if isinstance(r, Num):
                return (VIOLATED, 'a repeated momentum index %r is accepted' % (o,), None)
            return (UNDECIDED, r.key[:100], None)
        C.oblige('repeated-%d%d%d%d' % o, where, go)
    flags = [FALSE, TRUE]
    for a, b, c, d in itertools.product(flags, repeat=4):
        items = tup(*[item(it, x) for x in (a, b, c, d)])
        for o in ((0, 1, 2, 3), (2, 3, 0, 1), (3, 0, 2, 1)):
            eq('crossed-%s-%d%d%d%d' % ((''.join('ny'[x.v] for x in (a, b, c, d)),) + o), 'reordered', 'crossed',
               [sy('K'), sy('K1'), sy('K2'), O((0, 1, 2, 3)), O(o), items, masses, dd])
    c1, c2 = tup(sy('A1'), sy('A2')), tup(sy('B1'), sy('B2'))
    z1, z2 = tup(sy('A1'), num(0)), tup(sy('B1'), num(0))
    some = orders if tier != 'quick' else [(0, 1, 2, 3), (2, 3, 0, 1), (0, 2, 1, 3), (3, 0, 2, 1)]
    for o1 in some:
        for o2 in orders:
            n = '%d%d%d%d-%d%d%d%d' % (o1 + o2)
            eq('merge-' + n, 'combined', 'total', [O(o1), O(o2), c1, c2, masses, dd])
            eq('merge-massless-' + n, 'combined', 'total', [O(o1), O(o2), z1, z2, masses, dd])
            eq('merge-half-' + n, 'combined', 'total', [O(o1), O(o2), z1, c2, masses, dd])
    eq('multiply', 'multiplied', 'scaled', [c1, O((1, 3, 0, 2)), sy('f'), masses, dd])
    eq('three', 'three', 'three_product', [sy('A'), sy('B'), sy('f')], w='interactions.three_particle:ThreeParticleM')

    a, b, c, d = [species(it, n, n) for n in ('alpha', 'beta', 'gamma', 'delta')]

    def el(q, *orders):
        return seq(*[tup(num(0), sy('A%d%d' % (q, i)), sy('B%d%d' % (q, i)), *[num(x) for x in o]) for i, o in enumerate(orders)])

    def kk(n):
        return seq(tup(sy('C%d' % n), num(0), num(0), num(0), num(1), num(0), num(2)))
    o1, o2, o3 = (0, 1, 2, 3), (0, 2, 1, 3), (2, 3, 0, 1)
    cases = [
        ('same', [(a, [a, b], [c, d], el(0, o1, o2)), (a, [a, b], [c, d], el(1, o1, o3)), (b, [b, a], [c, d], el(2, o1)), (a, [a, b], [c, d], el(3, o2))]),
        ('same-species', [(a, [a, b], [c, d], el(0, o1)), (a, [a, c], [b, d], el(1, o1)), (b, [a, b], [c, d], el(2, o2))]),
        ('three', [(a, [a], [b, c], kk(0)), (a, [a], [b, c], kk(1)), (b, [b, c], [a], kk(2)), (a, [a], [b, d], kk(3))]),
        ('sides', [(a, [a, b], [a, c], el(0, o1)), (a, [a, c], [a, b], el(1, o1)), (a, [a, b], [a, c], el(2, o3))]),
    ]
    for name, descr in cases:
        ds = seq(*[tup(p, seq(*l), seq(*r), e) for p, l, r, e in descr])
        for f in ('deduplicated', 'through_interaction'):
            same(C, 'integrals-%s-%s' % (f, name), it, 'interactions:IntegralDeduplicator', (E + f, [ds, dd]), (E + 'grouped', [ds, dd]))


def item(it, crossed):
    r = Ref(it.fresh('I'), it.cls_by_qual('interactions.IntegralItem'))
    it.st.attrs[(r.key, 'crossed', None)] = crossed
    return r

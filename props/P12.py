from .reactions import *
from sa.check import HELD, VIOLATED, UNDECIDED
TECHNIQUE = TECH
F, Tr = FALSE, TRUE


def masses(it, sp, kind):
    """kinematically closed, open and threshold assignments for every positive p, q, r, x"""
    p, q, r, x = [T.sym(n) for n in 'pqrx']
    last = sp[1:]
    vals = [p, T.add(p, q), T.add(T.add(p, q), r)][:len(last)]
    tot = vals[0]
    for v in vals[1:]:
        tot = T.add(tot, v)
    first = {'closed': T.add(p, r) if len(sp) == 4 else T.add(p, q), 'open': T.add(tot, x), 'threshold': tot}[kind]
    if kind == 'closed' and len(sp) == 3:
        vals = [p, T.add(p, q)]
    for s, v in zip(sp, [first] + vals):
        it.st.attrs[(s.key, 'mass', None)] = Num(v)


def check(C, tier):
    it = C.load()
    a, b, c, d = [species(it, n, n) for n in ('alpha', 'beta', 'gamma', 'delta')]
    m, n = species(it, 'mu', 'mu', True), species(it, 'eta', 'eta', True)
    dd = dots(it)
    FULL = it.lookup_qual(R + 'FULL')
    where = 'interactions:CrossGeneratingInteraction'

    def el(*orders):
        return seq(*[tup(num(0), Num(T.sym('A%d' % q)), Num(T.sym('B%d' % q)), *[num(i) for i in o]) for q, o in enumerate(orders)])
    const = seq(tup(Num(T.sym('C')), num(0), num(0), num(0), num(1), num(2), num(3)))
    const3 = seq(tup(Num(T.sym('C')), num(0), num(0), num(0), num(1), num(0), num(2)))
    o1, o2, o3 = (0, 1, 2, 3), (0, 2, 1, 3), (2, 3, 0, 1)
    cases = [
        # name, kind, masses, species, flags, element
        ('distinct', 'four', 'closed', ((a, b), (c, d)), ((F, F), (F, F)), el(o1)),
        ('conjugated', 'four', 'closed', ((a, b), (c, d)), ((F, Tr), (F, Tr)), el(o2, o3)),
        ('decay', 'four', 'open', ((a,), (b, c, d)), ((F,), (F, F, Tr)), el(o1)),
        ('decay-constant', 'four', 'open', ((a,), (b, c, d)), ((F,), (F, F, Tr)), const),
        ('threshold', 'four', 'threshold', ((a,), (b, c, d)), ((F,), (Tr, F, F)), el(o3)),
        ('elastic', 'four', 'closed', ((a, b), (a, b)), ((F, F), (F, F)), el(o1)),
        ('identical', 'four', 'closed', ((a, a), (a, a)), ((F, F), (F, F)), el(o1)),
        ('pairs', 'four', 'closed', ((a, a), (b, b)), ((F, Tr), (F, Tr)), el((0, 3, 1, 2), o2, o3)),
        ('majorana', 'four', 'closed', ((m, b), (c, d)), ((F, F), (F, F)), el(o2)),
        ('identical-constant', 'four', 'open', ((a,), (b, b, b)), ((F,), (Tr, F, F)), const),
    ]
    for nm in ('closed', 'open', 'threshold'):
        cases.append(('two-body-' + nm, 'three', nm, ((a,), (b, c)), ((F,), (F, Tr)), const3))
        cases.append(('two-body-majorana-' + nm, 'three', nm, ((m,), (n, b)), ((F,), (F, F)), const3))
        cases.append(('two-body-identical-' + nm, 'three', nm, ((m,), (n, n)), ((F,), (F, F)), const3))
    for name, f, ms, parts, flags, elements in cases:
        base = it.st
        it.st = base.copy()
        try:
            sp = [parts[0][0]]
            for s in parts[0] + parts[1]:
                if s not in sp:
                    sp.append(s)
            full = list(parts[0] + parts[1])
            if len(sp) == len(full):
                masses(it, sp, ms)
            elif ms == 'open':
                it.st.attrs[(sp[0].key, 'mass', None)] = Num(T.add(T.scale(T.sym('p'), len(full) - 1), T.sym('x')))
                it.st.attrs[(sp[1].key, 'mass', None)] = Num(T.sym('p'))
            elif ms == 'threshold':
                it.st.attrs[(sp[0].key, 'mass', None)] = Num(T.scale(T.sym('p'), len(full) - 1))
                it.st.attrs[(sp[1].key, 'mass', None)] = Num(T.sym('p'))
            elif len(full) == 3:
                it.st.attrs[(sp[0].key, 'mass', None)] = Num(T.sym('p'))
                it.st.attrs[(sp[1].key, 'mass', None)] = Num(T.add(T.sym('p'), T.sym('q')))
            ps, fl = tup(tup(*parts[0]), tup(*parts[1])), tup(tup(*flags[0]), tup(*flags[1]))

            def code():
                made = C.run(it, R + f, [ps, fl, elements, FULL, NONE])
                it.st = made.st
                return (R + 'generated', [made.ret, dd])
            same(C, name, it, where, code, (R + 'all_required', [seq(C.run(it, R + 'process', [ps, fl, elements]).ret), FULL, dd]))
        finally:
            it.st = base

    it.st = it.st.copy()
    masses(it, [a, b, c], 'open')
    ps, fl = tup(tup(a), tup(b, c)), tup(tup(F), tup(Tr, Tr))

    def kind_of(n):
        return it.getattr(ModV('CollisionIntegralKind', True), n)
    for n in ('Full', 'F_1', 'F_f', 'F_creation', 'F_decay', 'F_1_vacuum_decay', 'F_f_vacuum_decay', 'Full_vacuum_decay', None):
        k = NONE if n is None else kind_of(n)
        same(C, 'kind-%s' % n, it, where, (R + 'kinds_made', [ps, fl, Num(T.sym('C')), k, K('name'), S('washout')]),
             (R + 'kinds_required', [ps, fl, Num(T.sym('C')), k if n else FULL, K('name'), S('washout')]))
    for k in (K('full'), kind_of('Other')):
        def go(k=k):
            r = C.run(it, R + 'kinds_made', [ps, fl, Num(T.sym('C')), k, K('name'), S('washout')]).ret
            return None if r.key == BOT.key else (VIOLATED, 'accepts kind %s' % k.key, None) if r.key == value(
                C, it, R + 'kinds_required', [ps, fl, Num(T.sym('C')), k, K('name'), S('washout')]).key else (UNDECIDED, r.key[:80], None)
        C.oblige('kind-invalid-%s' % k.key, where, go)

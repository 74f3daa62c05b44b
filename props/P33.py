from .P19 import *
from .reactions import value
from sa.check import UNDECIDED
from fractions import Fraction
TECHNIQUE = TECH
Z = 'specs.sterile:'
MESONS = ('neutral_pion', 'charged_pion', 'charged_kaon', 'eta', 'neutral_rho', 'charged_rho', 'omega', 'eta_prime', 'phi')
QUARKS = ('up', 'down', 'charm', 'strange', 'top', 'bottom')
MIX = {'electron': 3, 'muon': 7, 'tau': 11}


def sterile(it, majorana, mass):
    """a sterile neutrino of that mass in MeV, as tabulated"""
    from .P32 import entries
    f = it.getattr(it.lookup_qual('library.NuMSM:particles'), 'sterile_neutrino' if majorana else 'dirac_sterile_neutrino')
    unit = it.getattr(it.cls_by_qual('common.UNITS'), 'MeV')
    made = it.call(f, [Num(T.scale(as_poly(unit), mass))], {})
    r = Ref(it.fresh('P'), it.cls_by_qual(PARTICLE))
    for k, v in entries(it, made).items():
        it.st.attrs[(r.key, k, None)] = v
    return r


def angles(it, on):
    return it.newdict([(K(n), Num(T.const(Fraction(1, MIX[n]) if n in on else 0)), (), TRUE) for n in MIX])


def check(C, tier):
    it = C.load()
    s = load_species(it, LEPTONS + NEUTRINOS + ('photon', 'kaon_long', 'kaon_short') + MESONS + QUARKS)
    dd = dots(it)
    kind = it.getattr(ModV('CollisionIntegralKind', True), 'F_1')
    w = 'library.NuMSM:interactions.'
    th = Num(T.sym('theta'))
    L, NU, ME, Q = [[s[x] for x in xs] for xs in (LEPTONS, NEUTRINOS, MESONS, QUARKS)]

    def ob(oid, f, where, *args):
        same(C, oid, it, w + where, (Z + 'code_' + f, list(args) + [kind, dd]), (Z + 'need_' + f, list(args) + [kind, dd]))
    C.parallel()
    steriles = [('%s-%d' % ('majorana' if mj else 'dirac', m), sterile(it, mj, m)) for mj, m in
                ((True, 34), (False, 34), (True, 300), (False, 300), (True, 1500), (False, 1500))]
    by = dict(steriles)
    for n, N in steriles[2:4] if tier == 'quick' else steriles:
        for i, a in enumerate(NU):
            ob('%s-scattering-%d-same' % (n, i), 'scattering', 'sterile_active_scattering', th, N, a, a)
            ob('%s-scattering-%d-other' % (n, i), 'scattering', 'sterile_active_scattering', th, N, a, NU[(i + 1) % 3])
        ob('%s-neutral' % n, 'neutral', 'sterile_active_to_leptons_NC', th, S('g'), N, NU[0], L[1])
        ob('%s-neutral-own' % n, 'neutral', 'sterile_active_to_leptons_NC', th, S('g'), N, NU[0], L[0])
        ob('%s-neutral-default' % n, 'neutral_default', 'sterile_active_to_leptons_NC', th, N, NU[1], L[0])
        for i, j in ((0, 1), (1, 0), (2, 1)):
            ob('%s-charged-%d%d' % (n, i, j), 'charged', 'sterile_active_to_leptons_CC', th, N, NU[j], L[i], L[j])
        for q in Q:
            ob('%s-quark-%s' % (n, q.key), 'quark_neutral', 'sterile_quark_neutral', th, N, NU[0], q)
        for u in Q[::2]:
            for d in Q[1::2]:
                ob('%s-quarks-%s-%s' % (n, u.key, d.key), 'quark_charged', 'sterile_quark_charged', th, N, L[0], u, d)
    for n, N in steriles:
        for m in MESONS:
            for i in (0, 1):
                l = (NU if it.freeze(it.getattr(s[m], 'Q')).key == num(0).key else L)[i]
                ob('%s-%s-%d' % (n, m, i), 'meson', 'meson decays', th, N, l, s[m])
    names = {n: it.getattr(r, 'name') for n, r in s.items()}
    unst = seq(*[names[x] for x in ('muon', 'tau') + MESONS])
    mixes = [('e', ('electron',)), ('mu', ('muon',)), ('all', tuple(MIX))]
    for n, N in steriles:
        for mn, on in mixes:
            t = angles(it, on)
            for k in (1, 2, 3):
                if tier == 'quick' and (not n.endswith('300') and (mn, k) != ('all', 2) or mn != 'all' and k != 2):
                    continue
                ob('%s-leptons-%s-%d' % (n, mn, k), 'leptons', 'sterile_leptons_interactions', t, N, seq(*NU[:k]), seq(*L[:k]), unst)
            ob('%s-mesons-%s' % (n, mn), 'mesons', 'sterile_hadrons_interactions', t, N, seq(*NU), seq(*L), seq(*ME), unst)
            if tier == 'quick' and not n.endswith('300'):
                continue
            ob('%s-quarks-%s' % (n, mn), 'quarks', 'sterile_quark_interactions', t, N, seq(*NU), seq(*L[:2]), seq(*Q[:4]))
    of = it.newdict([(K(n), r, (), TRUE) for n, r in s.items() if n in MESONS + ('kaon_long', 'kaon_short') or n in LEPTONS + NEUTRINOS + ('photon',)])
    for n, N in steriles[2:]:
        if tier == 'quick' and n == 'dirac-300':
            continue
        for f in ('made_leptons', 'made_mesons'):
            for muons in (0, 1):
                for kn in ('F_1', 'F_1_vacuum_decay', 'F_f_vacuum_decay') if tier != 'quick' or n == 'majorana-300' and f == 'made_mesons' else ('F_1',):
                    products(C, it, s, w, '%s-products-%s-%d-%s' % (n, f, muons, kn), f, N, angles(it, tuple(MIX) if n.endswith('1500') else ('electron',)), muons, kn, of, dd)
    C.flush()


def products(C, it, s, w, oid, f, N, t, muons, kn, of, dd):
    k = it.getattr(ModV('CollisionIntegralKind', True), kn)
    L, NU, ME = seq(*[s[x] for x in LEPTONS[:2]]), seq(*[s[x] for x in NEUTRINOS[:2]]), seq(*[s[x] for x in MESONS + ('kaon_long', 'kaon_short')])

    def go():
        base = it.st
        try:
            made = C.run(it, Z + f, [t, N, NU, L] + ([seq(*[s[x] for x in MESONS])] if f == 'made_mesons' else []) + [k])
            it.st = made.st.copy()
            a = value(C, it, Z + 'code_products', [made.ret, num(muons), NU, L, ME, s['photon'], k, dd])
            b = value(C, it, Z + 'need_products', [made.ret, num(muons), NU, L, ME, of, k, dd])
        finally:
            it.st = base
        if b.key == BOT.key:
            return (UNDECIDED, 'the requirement has no value here', None)
        return CMP.compare(a, b)
    C.oblige(oid, w + 'interactions_decay_products', go)

from .quantities import *
TECHNIQUE = ('abstract evaluation of the particle tables (class attributes); every entry is compared with the reference value, '
             'dimension and size of dimensional entries read off the normal form')
MEV = 1e6
HBAR = 6.582119569e-16
B, F = 'BOSON', 'FERMION'
# group, name -> statistics, states, charge, its own antiparticle, mass (MeV, or range)
TABLE = {
    ('', 'photon'): (B, 2, 0, True, 0), ('', 'gluon'): (B, 16, 0, True, 0),
    ('hadrons', 'neutron'): (F, 4, 0, False, 939.565), ('hadrons', 'proton'): (F, 4, 1, False, 938.272),
    ('hadrons', 'neutral_pion'): (B, 1, 0, True, 134.977), ('hadrons', 'charged_pion'): (B, 2, -1, False, 139.570),
    ('hadrons', 'charged_kaon'): (B, 2, -1, False, 493.677), ('hadrons', 'kaon_long'): (B, 1, 0, True, 497.611),
    ('hadrons', 'kaon_short'): (B, 1, 0, True, 497.611), ('hadrons', 'eta'): (B, 1, 0, True, 547.862),
    ('hadrons', 'charged_rho'): (B, 6, -1, False, 775.11), ('hadrons', 'neutral_rho'): (B, 3, 0, True, 775.26),
    ('hadrons', 'omega'): (B, 3, 0, True, 782.65), ('hadrons', 'eta_prime'): (B, 1, 0, True, 957.78),
    ('hadrons', 'phi'): (B, 3, 0, True, 1019.461),
    ('leptons', 'neutrino_e'): (F, 2, 0, False, 0), ('leptons', 'neutrino_mu'): (F, 2, 0, False, 0), ('leptons', 'neutrino_tau'): (F, 2, 0, False, 0),
    ('leptons', 'electron'): (F, 4, -1, False, 0.511), ('leptons', 'muon'): (F, 4, -1, False, 105.658), ('leptons', 'tau'): (F, 4, -1, False, 1776.86),
    ('quarks', 'up'): (F, 12, 2 / 3., False, (1.7, 2.7)), ('quarks', 'down'): (F, 12, -1 / 3., False, (4.2, 5.2)),
    ('quarks', 'charm'): (F, 12, 2 / 3., False, (1240, 1310)), ('quarks', 'strange'): (F, 12, -1 / 3., False, (88, 105)),
    ('quarks', 'top'): (F, 12, 2 / 3., False, (171e3, 175e3)), ('quarks', 'bottom'): (F, 12, -1 / 3., False, (4100, 4250)),
}
# lifetime (s), branching ratios
DECAYS = {
    'neutral_pion': (8.43e-17, {'γγ': 0.98823}), 'charged_pion': (2.6033e-8, {'μν_μ': 0.999877}),
    'charged_kaon': (1.238e-8, {'π0eν_e': 0.0507, 'πππ': 0.05583, 'μν_μ': 0.6356, 'ππ0': 0.2067}),
    'kaon_long': (5.116e-8, {'πeν_e': 0.4055, 'πμν_μ': 0.2704, 'π0π0π0': 0.1952, 'πππ0': 0.1254}),
    'kaon_short': (8.954e-11, {'ππ': 0.6920, 'π0π0': 0.3069}),
    'eta': (5.02e-19, {'γγ': 0.394, 'π0π0π0': 0.3268, 'πππ0': 0.2292, 'ππγ': 0.0422}),
    'charged_rho': (4.415e-24, {'ππ0': 1.}), 'neutral_rho': (4.415e-24, {'ππ': 1.}),
    'omega': (7.753e-23, {'πππ0': 0.892, 'π0γ': 0.084}), 'eta_prime': (3.36e-21, {'ππη': 0.426, 'ρ0γ': 0.289, 'π0π0η': 0.228}),
    'phi': (1.549e-22, {'KK': 0.489, 'K0LK0S': 0.342, 'ρ0π0': 0.1532}),
    'muon': (2.197e-6, {'eν_eν_μ': 1.}), 'tau': (2.903e-13, {'eν_eν_τ': 0.1782, 'μν_μν_τ': 0.1739}),
}
CONSTANTS = {'neutral_pion': 130.2, 'charged_pion': 130.2, 'charged_kaon': 155.6, 'kaon_long': 155.6, 'kaon_short': 155.6, 'eta': 81.7,
             'charged_rho': 209., 'neutral_rho': 208.9, 'omega': 195.5, 'eta_prime': -94.7, 'phi': 229.5}
VECTOR = ('charged_rho', 'neutral_rho', 'omega', 'phi')
FLAVOUR = {'neutrino_e': 'electron', 'neutrino_mu': 'muon', 'neutrino_tau': 'tau', 'electron': 'electron', 'muon': 'muon', 'tau': 'tau'}
FAMILY = {'up': 1, 'down': 1, 'charm': 2, 'strange': 2, 'top': 3, 'bottom': 3}
NAMES = {'neutral_pion': 'Neutral pion', 'charged_pion': 'Charged pion', 'charged_kaon': 'Charged kaon', 'kaon_long': 'Kaon long', 'kaon_short': 'Kaon short',
         'eta': 'Eta', 'charged_rho': 'Charged rho', 'neutral_rho': 'Neutral rho', 'omega': 'Omega', 'eta_prime': 'Eta prime', 'phi': 'Phi',
         'electron': 'Electron', 'muon': 'Muon', 'tau': 'Tau', 'neutrino_e': 'Electron neutrino', 'neutrino_mu': 'Muon neutrino', 'neutrino_tau': 'Tau neutrino',
         'neutron': 'Neutron', 'proton': 'Proton'}
CKM = {(1, 1): .974, (1, 2): .225, (1, 3): .004, (2, 1): .225, (2, 2): .973, (2, 3): .041, (3, 1): .009, (3, 2): .040, (3, 3): .999}


def table(it, group, name):
    c = it.lookup_qual('library.SM:particles')
    if group:
        c = it.getattr(c, group)
    return it.getattr(c, name)


def entries(it, t):
    v = it.freeze(t)
    if not isinstance(v, DictV):
        raise Unk('not a table: %s' % v.key[:60])
    return {k.v: x for k, x, b, g in v.e}


def exact(C, oid, where, value, want):
    def go():
        v = value()
        if isinstance(want, (bool, str)):
            if isinstance(v, K):
                return (HELD, repr(v.v), None) if v.v == want else (VIOLATED, '%r instead of %r' % (v.v, want), None)
            raise Unk(v.key[:60])
        x = at(v, 1.)
        return (HELD, repr(x), None) if abs(x - want) < 1e-12 * max(1, abs(want)) else (VIOLATED, '%g instead of %g' % (x, want), None)
    C.oblige(oid, where, go)


def check(C, tier):
    it = C.load()
    base = it.cls_by_qual(PARTICLE)
    defaults = None
    seen = {}
    for (group, name), (st, dof, q, own, mass) in TABLE.items():
        w = 'library.SM:particles.%s%s' % (group + '.' if group else '', name)

        def get(k, default=None, group=group, name=name):
            e = entries(it, table(it, group, name))
            if k in e:
                return e[k]
            d = entries(it, it.getattr(it.lookup_qual('particles:AbstractParticle'), '_defaults'))
            if k in d:
                return d[k]
            return BOT

        def stat(get=get, st=st):
            v = get('statistics')
            want = it.lookup_qual('common.statistics:' + st)
            return (HELD, v.key, None) if it.freeze(v).key == it.freeze(want).key else (VIOLATED, 'statistics %s instead of %s' % (v.key, st), None)
        C.oblige(name + '-statistics', w, stat)
        exact(C, name + '-states', w, lambda get=get: get('dof'), dof)
        exact(C, name + '-charge', w, lambda get=get: get('Q'), q)
        exact(C, name + '-own-antiparticle', w, lambda get=get: get('majorana'), own)
        if isinstance(mass, tuple):
            mass = (mass[0] * MEV, mass[1] * MEV)
        quantity(C, name + '-mass', w, lambda get=get: get('mass'), mass if isinstance(mass, tuple) else mass * MEV, 1, 5e-4)
        if name in NAMES:
            exact(C, name + '-name', w, lambda get=get: get('name'), NAMES[name])
        if name in FLAVOUR:
            exact(C, name + '-flavour', w, lambda get=get: get('flavour'), FLAVOUR[name])
        if name in FAMILY:
            exact(C, name + '-family', w, lambda get=get: get('family'), FAMILY[name])
        if name.startswith('neutrino'):
            quantity(C, name + '-decoupling', w, lambda get=get: get('decoupling_temperature'), (3 * MEV, 10 * MEV), 1, 0)
        if name in CONSTANTS:
            quantity(C, name + '-decay-constant', w, lambda get=get: get('decay_constant'), CONSTANTS[name] * MEV, 1, 5e-3)
            exact(C, name + '-type', w, lambda get=get: get('type'), 'vector' if name in VECTOR else 'scalar')
        decays = name in DECAYS

        def fast(get=get, decays=decays):
            v = get('fast_decay')
            have = isinstance(v, K) and v.v is True
            if v.key == BOT.key or isinstance(v, K):
                return None if have == decays else (VIOLATED, 'decay flag %s' % v.key, None)
            raise Unk(v.key)
        C.oblige(name + '-decays', w, fast)

        def thermal(get=get, name=name):
            v = get('thermalization')
            have = isinstance(v, K) and v.v is True
            return None if have == (name in ('muon', 'charged_pion', 'charged_kaon')) else (VIOLATED, 'thermalisation before decay: %s' % v.key, None)
        C.oblige(name + '-thermalises', w, thermal)
        if decays:
            life, br = DECAYS[name]
            quantity(C, name + '-lifetime', w, lambda get=get: get('lifetime'), life / HBAR, -1, 0.02 if name == 'neutral_pion' else 5e-3)

            def ratios(get=get, br=br):
                e = entries(it, get('BR'))
                num = {k: at(v, 1.) for k, v in e.items()}
                bad = [k for k, v in num.items() if not 0 < v <= 1]
                if bad or sum(num.values()) > 1 + 1e-6:
                    return (VIOLATED, 'branching ratios %s' % num, None)
                for k, v in br.items():
                    if k not in num:
                        return (VIOLATED, 'no branching ratio of %s' % k, None)
                    if abs(num[k] - v) > 3e-3 * v:
                        return (VIOLATED, 'branching ratio of %s is %g instead of %g' % (k, num[k], v), None)
                more = set(num) - set(br)
                return (VIOLATED, 'unknown decay %s' % sorted(more), None) if more and sum(num.values()) > 1 else None
            C.oblige(name + '-branching', w, ratios)

        def unique(get=get, name=name):
            for k in ('name', 'symbol'):
                v = get(k)
                if not isinstance(v, K) or not isinstance(v.v, str):
                    return (VIOLATED, '%s is %s' % (k, v.key[:60]), None)
                if (k, v.v) in seen and seen[k, v.v] != name:
                    return (VIOLATED, '%s %r is also that of %s' % (k, v.v, seen[k, v.v]), None)
                seen[k, v.v] = name
        C.oblige(name + '-identity', w, unique)

    def mass(name):
        return it.freeze(entries(it, table(it, 'hadrons', name))['mass'])
    # the heat of the weak rates
    quantity(C, 'neutron-proton-difference', 'library.SM:particles.hadrons', lambda: Num(T.sub(as_poly(mass('neutron')), as_poly(mass('proton')))),
             1.29333 * MEV, 1, 1e-3)

    def ckm():
        v = it.freeze(table(it, 'quarks', 'CKM'))
        return {tuple(int(at(x, 1.)) for x in k.items()): at(x, 1.) for k, x, b, g in v.e}

    def elements():
        m = ckm()
        for k, v in CKM.items():
            if k not in m:
                return (VIOLATED, 'no element %s' % (k,), None)
            if abs(m[k] - v) > max(0.01 * v, 6e-4):
                return (VIOLATED, 'element %s is %g instead of %g' % (k, m[k], v), None)

    def unitary():
        m = ckm()
        for i in (1, 2, 3):
            for s in ([m[i, j] for j in (1, 2, 3)], [m[j, i] for j in (1, 2, 3)]):
                if abs(sum(x * x for x in s) - 1) > 5e-3:
                    return (VIOLATED, 'row or column %d is not normalised: %s' % (i, s), None)
    C.oblige('CKM-elements', 'library.SM:particles.quarks.CKM', elements)
    C.oblige('CKM-unitary', 'library.SM:particles.quarks.CKM', unitary)

    # sterile neutrinos
    for f, dof, own in (('sterile_neutrino', 2, True), ('dirac_sterile_neutrino', 4, False)):
        w = 'library.NuMSM:particles.' + f

        def make(args, kw=None, f=f):
            c = it.lookup_qual('library.NuMSM:particles')
            return entries(it, C.run(it, it.getattr(c, f), args, kw).ret)
        exact(C, f + '-states', w, lambda make=make: make([])['dof'], dof)
        exact(C, f + '-charge', w, lambda make=make: make([])['Q'], 0)
        exact(C, f + '-own-antiparticle', w, lambda make=make: make([])['majorana'], own)
        C.oblige(f + '-statistics', w, lambda make=make: None if it.freeze(make([])['statistics']).key == it.freeze(it.lookup_qual('common.statistics:FERMION')).key
                 else (VIOLATED, 'not a fermion', None))
        quantity(C, f + '-decoupling', w, lambda make=make: make([])['decoupling_temperature'], 1e9, 1, 1e-6)
        for k, kw in (('positional', [[Num(T.sym('M')), Num(T.sym('theta'))], {}]), ('named', [[], {'mass': Num(T.sym('M')), 'mixing_angle': Num(T.sym('theta'))}])):
            C.values('%s-mass-%s' % (f, k), w, it, lambda make=make, kw=kw: make(*kw)['mass'], lambda: Num(T.sym('M')))
            C.values('%s-angle-%s' % (f, k), w, it, lambda make=make, kw=kw: make(*kw)['mixing_angle'], lambda: Num(T.sym('theta')))
        quantity(C, f + '-default-mass', w, lambda make=make: make([])['mass'], 33.9e6, 1, 1e-6)
        exact(C, f + '-default-angle', w, lambda make=make: make([])['mixing_angle'], 1)

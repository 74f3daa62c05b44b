from .reactions import *
TECHNIQUE = TECH
N = 'specs.standard:'


def load_species(it, names):
    """the species of the particle tables, with the tabulated properties"""
    from .P32 import TABLE, table, entries
    out = {}
    for (group, n) in TABLE:
        if n not in names:
            continue
        e = dict(entries(it, table(it, group, n)))
        if 'mass' not in e:
            e['mass'] = num(0)
        r = Ref(it.fresh('P'), it.cls_by_qual(PARTICLE))
        for k, v in e.items():
            it.st.attrs[(r.key, k, None)] = v
        out[n] = r
    return out


LEPTONS, NEUTRINOS = ('electron', 'muon', 'tau'), ('neutrino_e', 'neutrino_mu', 'neutrino_tau')


def check(C, tier):
    it = C.load()
    s = load_species(it, LEPTONS + NEUTRINOS + ('photon', 'charged_pion', 'neutral_pion', 'charged_kaon', 'kaon_short', 'eta'))
    dd = dots(it)
    kind = it.getattr(ModV('CollisionIntegralKind', True), 'F_1')
    w = 'library.SM:interactions.'

    def ob(oid, f, where, *args):
        same(C, oid, it, w + where, (N + 'code_' + f, list(args) + [kind, dd]), (N + 'need_' + f, list(args) + [kind, dd]))
    C.parallel()
    L, NU = [s[x] for x in LEPTONS], [s[x] for x in NEUTRINOS]
    for i, a in enumerate(NU):
        for b in NU[i:]:
            ob('scattering-%s-%s' % (a.key, b.key), 'scattering', 'neutrino_scattering', a, b)
        for l in L:
            ob('annihilation-%s-%s' % (a.key, l.key), 'annihilation', 'neutrinos_to_leptons', a, l, S('g'))
            ob('annihilation-default-%s-%s' % (a.key, l.key), 'annihilation_default', 'neutrinos_to_leptons', a, l)
    for i in range(3):
        for j in range(3):
            if i != j:
                ob('charged-%d%d' % (i, j), 'charged', 'leptons_CC', L[i], L[j], NU[i], NU[j])
    for nl in (1, 2, 3):
        for nn in (1, 2, 3):
            ob('neutrino-interactions-%d-%d' % (nl, nn), 'neutrino', 'neutrino_interactions', seq(*L[:nl]), seq(*NU[:nn]))
            ob('lepton-interactions-%d-%d' % (nl, nn), 'lepton', 'lepton_interactions', seq(*L[:nl]), seq(*NU[:nn]))
    ob('pion-decay', 'pion', 'decay_charged_pion', s['charged_pion'], s['muon'], s['neutrino_mu'])
    ob('photon-decay', 'photon', 'decay_neutral_pion', s['neutral_pion'], s['photon'])
    C.flush()

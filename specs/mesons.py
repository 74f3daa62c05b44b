"""Decays of mesons: which channels there are, and which particles decay further."""
from library.SM import interactions as SMI
from specs.reactions import all_required, generated
from specs.standard import decay, lepton_processes, pion_decay, photon_decay

# parent -> products (species, antiparticle); charged mesons are the negative ones
CHANNELS = {
    'charged_kaon': [[('neutral_pion', False), ('electron', False), ('neutrino_e', True)],
                     [('charged_pion', True), ('charged_pion', False), ('charged_pion', False)],
                     [('muon', False), ('neutrino_mu', True)],
                     [('charged_pion', False), ('neutral_pion', False)]],
    'kaon_long': [[('charged_pion', True), ('electron', False), ('neutrino_e', True)],
                  [('charged_pion', True), ('muon', False), ('neutrino_mu', True)],
                  [('neutral_pion', False), ('neutral_pion', False), ('neutral_pion', False)],
                  [('neutral_pion', False), ('charged_pion', False), ('charged_pion', True)]],
    'kaon_short': [[('neutral_pion', False), ('neutral_pion', False)],
                   [('charged_pion', False), ('charged_pion', True)]],
    'eta': [[('photon', False), ('photon', False)],
            [('neutral_pion', False), ('neutral_pion', False), ('neutral_pion', False)],
            [('neutral_pion', False), ('charged_pion', False), ('charged_pion', True)],
            [('photon', False), ('charged_pion', False), ('charged_pion', True)]],
    'neutral_rho': [[('charged_pion', True), ('charged_pion', False)]],
    'charged_rho': [[('charged_pion', False), ('neutral_pion', False)]],
    'omega': [[('charged_pion', True), ('charged_pion', False), ('neutral_pion', False)],
              [('neutral_pion', False), ('photon', False)]],
    'eta_prime': [[('eta', False), ('charged_pion', False), ('charged_pion', True)],
                  [('neutral_pion', False), ('neutral_pion', False), ('eta', False)],
                  [('neutral_rho', False), ('photon', False)]],
    'phi': [[('charged_kaon', True), ('charged_kaon', False)],
            [('kaon_long', False), ('kaon_short', False)],
            [('neutral_rho', False), ('neutral_pion', False)]],
}


def decaying(primary):
    """the primary mesons and all mesons their decays lead to"""
    out = []
    todo = list(primary)
    while todo:
        m = todo[0]
        todo = todo[1:]
        if m not in out:
            out = out + [m]
            if m in CHANNELS:
                for c in CHANNELS[m]:
                    todo = todo + [p for p, a in c if p in CHANNELS or p in ('charged_pion', 'neutral_pion')]
    return out


def channels(m, of):
    """channels of one meson"""
    if m == 'charged_pion':
        return pion_decay(of['charged_pion'], of['muon'], of['neutrino_mu'])
    if m == 'neutral_pion':
        return photon_decay(of['neutral_pion'], of['photon'])
    return [decay([of[m]] + [of[p] for p, a in c], [False] + [a for p, a in c], 1) for c in CHANNELS[m]]


def shape(reactions):
    return [(r[0], r[1], r[2], r[3], r[4], r[5]) for r in reactions]


def required_shape(primary, leptons, neutrinos, muons, of, kind, dots):
    mesons = decaying(primary)
    processes = []
    for m in mesons:
        processes += channels(m, of)
    if 'charged_pion' in mesons and not muons:
        processes += lepton_processes(leptons, neutrinos)
    return shape(all_required(processes, kind, dots))


def made(primary, mesons, leptons, neutrinos, photon, muons, kind):
    return SMI.meson_interactions(primary_mesons=primary, mesons=mesons, leptons=leptons, neutrinos=neutrinos, photon=[photon],
                                  muon_tau=[muons, 0], kind=kind)


def elements_of(interactions, dots):
    """the decays themselves: parent, products, constant element"""
    return [(r[0], r[3], r[6]) for r in generated(interactions, dots) if len(r[2]) == 1]


def shape_of(interactions, dots):
    return shape(generated(interactions, dots))

"""Reactions of the Standard Model species and their squared matrix elements.
A process is (particles before, particles after, element, None) with particles
(species, antiparticle) and elements as in specs.reactions."""
from library.SM import interactions as SMI, particles as SMP
from common import CONST
from specs.reactions import generated, all_required


def weak():
    return 32 * CONST.G_F**2


# -- processes ------------------------------------------------------------------------
def scattering(a, b):
    return [(a, False), (b, False)], [(a, False), (b, False)], [(0, weak(), 0, 0, 1, 2, 3)], None


def annihilation(neutrino, lepton, g_L):
    g_R = CONST.sin_theta_w_2
    w = weak()
    return ([(neutrino, False), (neutrino, True)], [(lepton, False), (lepton, True)],
            [(0, w * 4 * g_L**2, 0, 0, 3, 1, 2), (0, w * 4 * g_R**2, 0, 0, 2, 1, 3), (0, 0, w * 4 * g_L * g_R, 2, 3, 0, 1)], None)


def coupling(neutrino, lepton):
    return CONST.sin_theta_w_2 + 0.5 if neutrino.flavour == lepton.flavour else CONST.sin_theta_w_2 - 0.5


def charged(lepton1, lepton2, neutrino1, neutrino2):
    """l1 + anti l2 -> nu1 + anti nu2"""
    return [(lepton1, False), (lepton2, True)], [(neutrino1, False), (neutrino2, True)], [(0, weak() * 4, 0, 0, 3, 1, 2)], None


def neutrino_processes(leptons, neutrinos):
    out = []
    for i, a in enumerate(neutrinos):
        for b in neutrinos[i:]:
            out.append(scattering(a, b))
    for l in leptons:
        for n in neutrinos:
            out.append(annihilation(n, l, coupling(n, l)))
    return out


def lepton_processes(leptons, neutrinos):
    return [charged(a, b, x, y) for a in leptons for b in leptons if a.name != b.name
            for x in neutrinos if x.flavour == a.flavour for y in neutrinos if y.flavour == b.flavour]


def decay(parts, flags, K):
    return [(parts[0], flags[0])], [(p, f) for p, f in list(zip(parts, flags))[1:]], [(K, 0, 0, 0, 1, 0, 2)], None


def pion_decay(meson, lepton, neutrino):
    K = 2 * (CONST.G_F * meson.decay_constant * SMP.quarks.CKM[(1, 1)])**2 * lepton.mass**4 * ((meson.mass / lepton.mass)**2 - 1)
    return [decay([meson, lepton, neutrino], [False, False, True], K), decay([meson, lepton, neutrino], [True, True, False], K)]


def photon_decay(meson, photon):
    return [decay([meson, photon, photon], [False, False, False], CONST.alpha**2 * meson.mass**4 / (2 * 3.141592653589793**2 * meson.decay_constant**2))]


# -- the code --------------------------------------------------------------------------
def code_scattering(a, b, kind, dots):
    return generated([SMI.neutrino_scattering(a, b, kind)], dots)


def code_annihilation(neutrino, lepton, g_L, kind, dots):
    return generated([SMI.neutrinos_to_leptons(neutrino=neutrino, lepton=lepton, g_L=g_L, kind=kind)], dots)


def code_annihilation_default(neutrino, lepton, kind, dots):
    return generated([SMI.neutrinos_to_leptons(neutrino=neutrino, lepton=lepton, kind=kind)], dots)


def code_charged(lepton1, lepton2, neutrino1, neutrino2, kind, dots):
    return generated([SMI.leptons_CC(active1=neutrino1, active2=neutrino2, lepton1=lepton1, lepton2=lepton2, kind=kind)], dots)


def code_neutrino(leptons, neutrinos, kind, dots):
    return generated(SMI.neutrino_interactions(leptons=leptons, neutrinos=neutrinos, kind=kind), dots)


def code_lepton(leptons, neutrinos, kind, dots):
    return generated(SMI.lepton_interactions(leptons=leptons, neutrinos=neutrinos, kind=kind), dots)


def code_pion(meson, lepton, neutrino, kind, dots):
    return generated(SMI.decay_charged_pion(meson=meson, lepton=lepton, neutrino=neutrino, kind=kind), dots)


def code_photon(meson, photon, kind, dots):
    return generated(SMI.decay_neutral_pion(meson=meson, photon=photon, kind=kind), dots)


def code_three(parts, flags, K, kind, dots):
    return generated(SMI.four_particle_meson_decay(parts=parts, antiparts=flags, ME=K, kind=kind), dots)


def code_two(parts, flags, K, kind, dots):
    return generated(SMI.three_particle_meson_decay(parts=parts, antiparts=flags, ME=K, kind=kind), dots)


# -- the requirement -------------------------------------------------------------------
def need_scattering(a, b, kind, dots):
    return all_required([scattering(a, b)], kind, dots)


def need_annihilation(neutrino, lepton, g_L, kind, dots):
    return all_required([annihilation(neutrino, lepton, g_L)], kind, dots)


def need_annihilation_default(neutrino, lepton, kind, dots):
    return all_required([annihilation(neutrino, lepton, CONST.sin_theta_w_2 + 0.5)], kind, dots)


def need_charged(lepton1, lepton2, neutrino1, neutrino2, kind, dots):
    return all_required([charged(lepton1, lepton2, neutrino1, neutrino2)], kind, dots)


def need_neutrino(leptons, neutrinos, kind, dots):
    return all_required(neutrino_processes(leptons, neutrinos), kind, dots)


def need_lepton(leptons, neutrinos, kind, dots):
    return all_required(lepton_processes(leptons, neutrinos), kind, dots)


def need_pion(meson, lepton, neutrino, kind, dots):
    return all_required(pion_decay(meson, lepton, neutrino), kind, dots)


def need_photon(meson, photon, kind, dots):
    return all_required(photon_decay(meson, photon), kind, dots)


def need_three(parts, flags, K, kind, dots):
    return all_required([decay(parts, flags, K)], kind, dots)


def need_two(parts, flags, K, kind, dots):
    return all_required([decay(parts, flags, K)], kind, dots)

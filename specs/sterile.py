"""Reactions of sterile neutrinos: processes, squared matrix elements, and which
of them the species involved take part in.  Processes as in specs.standard."""
from library.SM import particles as SMP
from library.NuMSM import interactions as NuI
from interactions.four_particle.cpp.integral import CollisionIntegralKind as Kind
from common import CONST
from specs.reactions import generated, all_required, required
from specs.standard import weak, decay, lepton_processes
from specs.mesons import decaying, channels


def strength(theta):
    return weak() * theta**2


# -- processes: (before, after, element, None) ------------------------------------------
def scattering(theta, N, a, b):
    """N nu_b -> nu_a nu_b and the production of N"""
    w = strength(theta) * (2 if a.name == b.name else 1)
    return [([(N, False), (b, False)], [(a, False), (b, False)], [(0, w, 0, 0, 1, 2, 3)], None),
            ([(a, False), (b, False)], [(N, False), (b, False)], [(0, w, 0, 2, 3, 0, 1)], None)]


def neutral(theta, g_L, N, nu, l):
    """N anti-nu -> l+ l- and the conjugate"""
    g_R = CONST.sin_theta_w_2
    w = 4 * strength(theta)
    terms = [(0, w * g_L**2, 0, 0, 2, 1, 3), (0, w * g_R**2, 0, 0, 3, 1, 2), (0, 0, w * g_L * g_R, 2, 3, 0, 1)]
    return [([(N, False), (nu, True)], [(l, True), (l, False)], terms, None),
            ([(N, True), (nu, False)], [(l, False), (l, True)], terms, None)]


def charged(theta, N, nu, l1, l2):
    """N anti-nu -> l1- l2+ and the conjugate"""
    terms = [(0, 4 * strength(theta), 0, 0, 2, 1, 3)]
    return [([(N, False), (nu, True)], [(l2, True), (l1, False)], terms, None),
            ([(nu, False), (N, True)], [(l1, True), (l2, False)], terms, None)]


def quark_neutral(theta, N, nu, q):
    s = CONST.sin_theta_w_2
    up = q.Q == 2. / 3.
    g_L = 0.5 - 2 * s / 3 if up else -0.5 + s / 3
    g_R = -2 * s / 3 if up else s / 3
    w = 4 * strength(theta)
    return [([(N, False), (nu, True)], [(q, False), (q, True)],
             [(0, w * g_R**2, 0, 0, 2, 1, 3), (0, w * g_L**2, 0, 0, 3, 1, 2), (0, 0, w * g_L * g_R, 2, 3, 0, 1)], None)]


def quark_charged(theta, N, l, up, down):
    w = 4 * strength(theta) * SMP.quarks.CKM[(up.family, down.family)]**2
    return [([(N, False), (l, True)], [(up, False), (down, True)], [(0, w, 0, 0, 3, 1, 2)], None)]


def two(N, other, meson, K, flags1, flags2):
    return [decay([N, other, meson], flags1, K), decay([N, other, meson], flags2, K)]


def neutral_meson(theta, N, nu, meson):
    """N -> nu meson and the conjugate"""
    x = (meson.mass / N.mass)**2
    f = (CONST.G_F * theta * meson.decay_constant)**2 * N.mass**4
    s = CONST.sin_theta_w_2
    if meson.type == 'scalar':
        K = f * (1 - x) if meson.mass < N.mass else f * (x - 1)
    else:
        kappa = {'Neutral rho': 1 - 2 * s, 'Omega': 4 * s / 3, 'Phi': 4 * s / 3 - 1}[meson.name]
        K = f * kappa**2 * (1 + 2 * x) * (1 - x)
    return two(N, nu, meson, K, [False, False, False], [True, True, False])


def charged_meson(theta, N, l, meson):
    """N -> l- meson+ and the conjugate"""
    x, y = (meson.mass / N.mass)**2, (l.mass / N.mass)**2
    V = SMP.quarks.CKM[(1, 2)] if meson.name == 'Charged kaon' else SMP.quarks.CKM[(1, 1)]
    f = 2 * (CONST.G_F * theta * meson.decay_constant * V)**2 * N.mass**4
    if meson.type == 'scalar':
        h = (1 - y)**2 - x * (1 + y)
        K = f * h if h > 0 else -f * h
    else:
        K = f * ((1 - y)**2 + x * (1 + y) - 2 * x**2)
    return two(N, l, meson, K, [False, False, True], [True, True, False])


# -- reactions of single processes -------------------------------------------------------
def code_scattering(theta, N, a, b, kind, dots):
    return generated(NuI.sterile_active_scattering(theta=theta, sterile=N, active_a=a, active_b=b, kind=kind), dots)


def need_scattering(theta, N, a, b, kind, dots):
    return all_required(scattering(theta, N, a, b), kind, dots)


def code_neutral(theta, g_L, N, nu, l, kind, dots):
    return generated(NuI.sterile_active_to_leptons_NC(theta=theta, g_L=g_L, sterile=N, active=nu, lepton=l, kind=kind), dots)


def need_neutral(theta, g_L, N, nu, l, kind, dots):
    return all_required(neutral(theta, g_L, N, nu, l), kind, dots)


def code_neutral_default(theta, N, nu, l, kind, dots):
    return generated(NuI.sterile_active_to_leptons_NC(theta=theta, sterile=N, active=nu, lepton=l, kind=kind), dots)


def need_neutral_default(theta, N, nu, l, kind, dots):
    return all_required(neutral(theta, CONST.sin_theta_w_2 + 0.5, N, nu, l), kind, dots)


def code_charged(theta, N, nu, l1, l2, kind, dots):
    return generated(NuI.sterile_active_to_leptons_CC(theta=theta, sterile=N, active=nu, lepton1=l1, lepton2=l2, kind=kind), dots)


def need_charged(theta, N, nu, l1, l2, kind, dots):
    return all_required(charged(theta, N, nu, l1, l2), kind, dots)


def code_quark_neutral(theta, N, nu, q, kind, dots):
    return generated([NuI.sterile_quark_neutral(theta=theta, sterile=N, active=nu, quark=q, kind=kind)], dots)


def need_quark_neutral(theta, N, nu, q, kind, dots):
    return all_required(quark_neutral(theta, N, nu, q), kind, dots)


def code_quark_charged(theta, N, l, up, down, kind, dots):
    return generated([NuI.sterile_quark_charged(theta=theta, sterile=N, lepton=l, up=up, down=down, kind=kind)], dots)


def need_quark_charged(theta, N, l, up, down, kind, dots):
    return all_required(quark_charged(theta, N, l, up, down), kind, dots)


def code_meson(theta, N, l, meson, kind, dots):
    if meson.Q == 0:
        f = NuI.neutral_scalar_meson if meson.type == 'scalar' else NuI.neutral_vector_meson
        return generated(f(theta=theta, sterile=N, active=l, meson=meson, kind=kind), dots)
    f = NuI.charged_scalar_meson if meson.type == 'scalar' else NuI.charged_vector_meson
    return generated(f(theta=theta, sterile=N, lepton=l, meson=meson, kind=kind), dots)


def need_meson(theta, N, l, meson, kind, dots):
    return all_required((neutral_meson if meson.Q == 0 else charged_meson)(theta, N, l, meson), kind, dots)


# -- all reactions with leptons ------------------------------------------------------------
HEAVY = ('Muon', 'Tau')


def first(r):
    return r[1]


def sides(r, name):
    """number of particles of that name before and after"""
    return len([x for x in r[2] if x == name]), len([x for x in r[3] if x == name])


def in_scattering(reactions1, reactions2):
    """every species listed by the first process is not listed again"""
    listed = [first(r) for r in reactions1]
    return reactions1 + [r for r in reactions2 if first(r) not in listed]


def in_pairs(reactions1, reactions2, N, l):
    """muons and taus are decayed away: they enter as pairs, from the first process only"""
    if l.name not in HEAVY:
        return reactions1 + reactions2
    keep1 = [r for r in reactions1 if first(r) == N.name or sides(r, l.name)[0] != 1]
    keep2 = [r for r in reactions2 if first(r) == N.name or sides(r, l.name)[0] != 1]
    return keep1 + [r for r in keep2 if first(r) != l.name]


def across(reactions, N, l):
    """the sterile neutrino and the lepton coupled to the active one are on different sides"""
    return [r for r in reactions if sides(r, N.name)[0] + sides(r, l.name)[0] == 1]


def created(reactions, unstable):
    """species that decay within a step are only created"""
    return [r[:5] + (Kind.F_creation if first(r) in unstable else r[5],) + r[6:] for r in reactions]


def need_leptons(thetas, N, neutrinos, leptons, unstable, kind, dots):
    out = []
    for a in neutrinos:
        for b in neutrinos:
            if thetas[a.flavour] != 0:
                p = scattering(thetas[a.flavour], N, a, b)
                out += in_scattering(required(p[0], kind, dots), required(p[1], kind, dots))
    for l in leptons:
        for nu in neutrinos:
            if thetas[nu.flavour] != 0:
                g_L = CONST.sin_theta_w_2 + (0.5 if l.flavour == nu.flavour else -0.5)
                p = neutral(thetas[nu.flavour], g_L, N, nu, l)
                out += in_pairs(required(p[0], kind, dots), required(p[1], kind, dots), N, l)
    for l1 in leptons:
        for l2 in leptons:
            for nu in neutrinos:
                if l1.name != l2.name and nu.flavour == l2.flavour and thetas[l1.flavour] != 0:
                    out += across(all_required(charged(thetas[l1.flavour], N, nu, l1, l2), kind, dots), N, l2)
    return created(out, unstable)


def made_leptons(thetas, N, neutrinos, leptons, kind):
    return NuI.sterile_leptons_interactions(thetas=thetas, sterile=N, neutrinos=neutrinos, leptons=leptons, kind=kind)


def code_leptons(thetas, N, neutrinos, leptons, unstable, kind, dots):
    return generated(made_leptons(thetas, N, neutrinos, leptons, kind), dots)


# -- all reactions with quarks -------------------------------------------------------------
def code_quarks(thetas, N, neutrinos, leptons, quarks, kind, dots):
    return generated(NuI.sterile_quark_interactions(thetas=thetas, sterile=N, neutrinos=neutrinos, leptons=leptons, quarks=quarks, kind=kind), dots)


def need_quarks(thetas, N, neutrinos, leptons, quarks, kind, dots):
    processes = [p for q in quarks for nu in neutrinos if thetas[nu.flavour] != 0 for p in quark_neutral(thetas[nu.flavour], N, nu, q)]
    processes += [p for u in quarks if u.Q > 0 for d in quarks if d.Q < 0 for l in leptons if thetas[l.flavour] != 0
                  for p in quark_charged(thetas[l.flavour], N, l, u, d)]
    return all_required(processes, kind, dots)


# -- all reactions with mesons -------------------------------------------------------------
def made_mesons(thetas, N, neutrinos, leptons, mesons, kind):
    return NuI.sterile_hadrons_interactions(thetas=thetas, sterile=N, neutrinos=neutrinos, leptons=leptons, mesons=mesons, kind=kind)


def code_mesons(thetas, N, neutrinos, leptons, mesons, unstable, kind, dots):
    return generated(made_mesons(thetas, N, neutrinos, leptons, mesons, kind), dots)


def need_mesons(thetas, N, neutrinos, leptons, mesons, unstable, kind, dots):
    processes = [p for nu in neutrinos if thetas[nu.flavour] != 0 for m in mesons if m.Q == 0 for p in neutral_meson(thetas[nu.flavour], N, nu, m)]
    processes += [p for l in leptons if thetas[l.flavour] != 0 for m in mesons if m.Q == -1 for p in charged_meson(thetas[l.flavour], N, l, m)]
    return [r[:5] + ((Kind.F_decay if len(r[2]) == 1 else Kind.F_creation) if first(r) in unstable else r[5],) + r[6:]
            for r in all_required(processes, kind, dots)]


# -- reactions of the decay products -------------------------------------------------------
def code_products(primary, muons, neutrinos, leptons, mesons, photon, kind, dots):
    return [r[:6] for r in generated(NuI.interactions_decay_products(interactions_primary=[primary], muon_dec=muons, neutrinos=neutrinos, leptons=leptons,
                                                                     mesons=mesons, photon=[photon], kind=kind), dots)]


def need_products(primary, muons, neutrinos, leptons, mesons, of, kind, dots):
    products = [x.specie.name for inter in primary for i in inter.integrals for x in i.reaction if x.side == 1]
    processes = []
    have = not muons and 'Muon' in products or 'Tau' in products
    if have:
        processes += lepton_processes(leptons, neutrinos)
    todo = decaying([n for n in of if of[n] in mesons and of[n].name in products])
    for m in todo:
        processes += channels(m, of)
    if 'charged_pion' in todo and not muons and not have:
        processes += lepton_processes(leptons, neutrinos)
    vacuum = kind in [Kind.F_1_vacuum_decay, Kind.F_f_vacuum_decay]
    decays = Kind.F_f_vacuum_decay if vacuum else Kind.F_decay
    creates = Kind.F_1_vacuum_decay if vacuum else Kind.F_creation
    return [r[:5] + (decays if len(r[2]) == 1 else creates,)
            for r in all_required(processes, kind, dots) if len(r[2]) == 1 or len(r[3]) == 1]

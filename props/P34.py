from .P19 import *
from .quantities import at
from .P32 import DECAYS, MEV, HBAR
from sa.check import HELD, VIOLATED, UNDECIDED
import math
TECHNIQUE = ('abstract interpretation of the reaction constructors over the tabulated species; the set of reactions is compared with the '
             'closure of the decay channels, the constant matrix elements with the tabulated widths through the phase-space volume')
Z = 'specs.mesons:'
MESONS = ('neutral_pion', 'charged_pion', 'charged_kaon', 'kaon_long', 'kaon_short', 'eta', 'neutral_rho', 'charged_rho', 'omega', 'eta_prime', 'phi')


def kallen(a, b, c):
    return a * a + b * b + c * c - 2 * (a * b + b * c + a * c)


def phase_space(M, ms, n=4000):
    """width per unit constant squared matrix element"""
    if len(ms) == 2:
        return math.sqrt(kallen(M * M, ms[0]**2, ms[1]**2)) / (16 * math.pi * M**3)
    a, b, c = ms
    lo, hi = (a + b)**2, (M - c)**2
    tot = 0.
    for i in range(n):
        s = lo + (hi - lo) * (i + .5) / n
        tot += math.sqrt(max(kallen(s, a * a, b * b), 0) * max(kallen(M * M, s, c * c), 0)) / s * (hi - lo) / n
    return tot / (2 * math.pi)**3 / 32 / M**3


def check(C, tier):
    it = C.load()
    s = load_species(it, LEPTONS + NEUTRINOS + ('photon',) + MESONS)
    dd = dots(it)
    kind = it.getattr(ModV('CollisionIntegralKind', True), 'F_1')
    of = it.newdict([(K(n), r, (), TRUE) for n, r in s.items()])
    w = 'library.SM:interactions.meson_interactions'
    L, NU, ME = seq(*[s[x] for x in LEPTONS]), seq(*[s[x] for x in NEUTRINOS]), seq(*[s[x] for x in MESONS])
    cases = [((m,), 1) for m in MESONS] + \
        [(('neutral_pion',), 0), (('charged_pion',), 0), (('charged_kaon',), 0), (('eta_prime',), 0), (('neutral_pion', 'charged_pion'), 0), (('charged_pion', 'neutral_rho'), 0), (('neutral_rho', 'charged_pion', 'charged_rho'), 1),
         (('eta_prime', 'eta', 'neutral_rho', 'neutral_pion'), 0), (('omega', 'neutral_pion', 'charged_rho'), 0)]
    if tier != 'quick':
        cases += [((m,), 0) for m in MESONS] + [(MESONS, 0), (MESONS[::-1], 0), (MESONS[::-1], 1), (('kaon_short', 'charged_kaon', 'phi'), 0)]
    raw = {}
    for primary, muons in cases:
        name = '+'.join(primary) + ('-muons' if muons else '')
        pr = [seq(*[s[x] for x in primary]), ME, L, NU, s['photon'], num(muons), kind]
        base = it.st
        made = C.run(it, Z + 'made', pr)
        try:
            it.st = made.st.copy()
            same(C, 'channels-' + name, it, w, (Z + 'shape_of', [made.ret, dd]),
                 (Z + 'required_shape', [seq(*[K(x) for x in primary]), L, NU, num(muons), of, kind, dd]))
            if len(primary) == 1 and muons:
                try:
                    raw[primary[0]] = C.run(it, Z + 'elements_of', [made.ret, dd]).ret
                except Unk as e:
                    raw[primary[0]] = e
            same(C, 'charge-' + name, it, w, (R + 'charges', [made.ret]), (R + 'conserved', [made.ret]))
        finally:
            it.st = base
    names = {n: it.freeze(it.getattr(r, 'name')).v for n, r in s.items()}
    back = {v: k for k, v in names.items()}
    br = {}
    cache = {}

    def elements(m):
        if m not in cache:
            r = raw[m]
            if isinstance(r, Exception):
                raise r
            out = {}
            for p in r.parts:
                who, prods, el = p.v.items()
                if who.v == names[m]:
                    out.setdefault(tuple(sorted(back[x.v] for x in prods.items())), []).append(at(el, 1.))
            cache[m] = out
        return cache[m]
    symbol = {n: it.freeze(it.getattr(r, 'symbol')).v for n, r in s.items()}
    for m in MESONS:
        def width(m=m):
            t = it.freeze(it.getattr(s[m], 'BR'))
            life = at(it.getattr(s[m], 'lifetime'), 1.)
            spin = at(it.getattr(s[m], 'dof'), 1.) / (1 if it.getattr(s[m], 'majorana').v else 2)
            mass = at(it.getattr(s[m], 'mass'), 1.)
            ratios = {k.v: at(x, 1.) for k, x, b, g in t.e}
            seen = set()
            for prods, ks in elements(m).items():
                label = [k for k in ratios if sorted(letters(k, symbol)) == sorted(prods)]
                if len(label) != 1:
                    return (VIOLATED, 'decay into %s has no tabulated branching ratio' % (prods,), None)
                if len(ks) != 1:
                    return (VIOLATED, '%d reactions for the decay into %s' % (len(ks), prods), None)
                seen.add(label[0])
                got = ks[0] * phase_space(mass, [at(it.getattr(s[x], 'mass'), 1.) for x in prods]) / spin
                want = ratios[label[0]] / life
                if abs(got - want) > 0.04 * want:
                    return (VIOLATED, 'width of the decay into %s is %g of the tabulated one' % (prods, got / want), None)
            if seen != set(ratios):
                return (VIOLATED, 'no reaction for %s' % sorted(set(ratios) - seen), None)
            return (HELD, '%d channels' % len(seen), None)
        C.oblige('width-' + m, w, width)


def letters(label, symbol):
    """species named by a string of symbols"""
    out = []
    by = sorted(symbol.items(), key=lambda x: -len(x[1]))
    i = 0
    while i < len(label):
        for n, sy in by:
            if label.startswith(sy, i):
                out.append(n)
                i += len(sy)
                break
        else:
            raise Unk('channel %r' % label)
    return out

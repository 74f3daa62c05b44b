#!/usr/bin/env python3
"""Sources of the planted bugs: writes /verif/seeded/<id>/ (edit.json, demo.sh, demo.py, meta.json)."""
import json, os, shutil, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
B = []


def bug(id, prop, edits, needs, breaks, demo, stub=False):
    B.append((id, prop, edits, needs, breaks, demo, stub))


def cxxbug(id, prop, which, edits, needs, breaks, demo):
    B.append((id, prop, edits, needs, breaks, demo, {3: 'three', 4: 'four'}[which]))


bug('truncate_then_grow', 'P22',
    [['common/utils.py', "        if self.length == self.size or self.length == len(self._data) - 2:\n            self.size = int(1.5*self.size)\n            self._data = numpy.resize(self._data, self.size)",
      "        if self.length == self.size:\n            self.size = int(1.5*self.size)\n            self._data = numpy.resize(self._data, self.size)"]],
    'several truncations followed by appends up to the (stale) capacity',
    'the table runs out of room after truncation: capacity and array length disagree',
    '''
from common.utils import DynamicRecArray
t = DynamicRecArray([['a', '', 1.]])
rows = []
for i in range(5):
    t.append((float(i),)); rows.append(float(i))
for i in range(3):
    t.truncate(); rows.pop()
for i in range(20):
    t.append((100. + i,)); rows.append(100. + i)
assert list(t['a']) == rows, (list(t['a']), rows)
''')

bug('truncate_keeps_stale', 'P22',
    [['common/utils.py', "        self._data = numpy.delete(self._data, self.length + 1, axis=0)\n        self.length -= 1\n\n    def savetxt(self, f):\n        heading",
      "        self._data = numpy.delete(self._data, min(self.length - 1, 6), axis=0)\n        self.length -= 1\n\n    def savetxt(self, f):\n        heading"]],
    'a truncation of a table with more than seven rows',
    'truncating removes an inner row instead of the last one',
    '''
from common.utils import DynamicRecArray
for n in range(1, 40):
    t = DynamicRecArray([['a', '', 1.]])
    for i in range(n):
        t.append((float(i),))
    t.truncate()
    assert list(t['a']) == [float(i) for i in range(n - 1)], (n, list(t['a']))
''')

bug('bashforth_high_order', 'P09',
    [['common/integrators/__init__.py', '5: ([251., -1274., 2616., -2774., 1901.], 720.)\n}\nMAX_ADAMS_BASHFORTH_ORDER', '5: ([251., -1274., 2774., -2616., 1585.], 720.)\n}\nMAX_ADAMS_BASHFORTH_ORDER']],
    'a history of five or more rates that are not constant',
    'the fifth order explicit step is no longer fifth order, although it stays exact for constant rates',
    '''
from common.integrators import adams_bashforth_correction as ab
# int_0^1 of x^4, history at -4 .. 0
for k in range(5):
    fs = [float(x)**k for x in range(-4, 1)]
    assert abs(ab(fs, 1.) - 1. / (k + 1)) < 1e-9, (k, ab(fs, 1.))
    assert abs(ab([7., 3.] + fs, 1.) - 1. / (k + 1)) < 1e-9
''')

bug('bashforth_old_entries', 'P09',
    [['common/integrators/__init__.py', "    fs = fs[-order:]\n    assert len(fs) == order, (len(fs), order)\n\n    return h * sum(b * f for b, f in zip(bs, fs)) / divider",
      "    fs = fs[-order:] if order < len(bs) else fs[:order]\n    assert len(fs) == order, (len(fs), order)\n\n    return h * sum(b * f for b, f in zip(bs, fs)) / divider"]],
    'a history longer than the order', 'the oldest rates are used instead of the most recent ones',
    '''
from common.integrators import adams_bashforth_correction as ab
assert abs(ab([100., 1., 1., 1., 1., 1.], 2.) - 2.) < 1e-9
assert abs(ab([0., 1., 2., 3., 4.], 1.) - 4.5) < 1e-9
''')

bug('region_inner_limits', 'P11',
    [['common/integrators/__init__.py', "    h_x = h(norm_x)\n    g_x = g(norm_x)", "    h_x = h(norm_x)\n    g_x = g(x * sub_x + sub_x)"]],
    'an outer interval that does not start at zero, with an inner lower limit that depends on the outer variable',
    'the inner lower limit is evaluated at a shifted outer coordinate',
    '''
from common.integrators import double_gaussian
import numpy
f = lambda x, y: x * y
v = double_gaussian(f, 1., 2., lambda x: 0. * x, lambda x: x)
assert abs(v - 15. / 8) < 1e-9, v
v = double_gaussian(f, 0., 2., lambda x: x, lambda x: 2 * x)
assert abs(v - 6.) < 1e-9, v
v = double_gaussian(f, 1., 2., lambda x: x, lambda x: 2 * x)
assert abs(v - 1.5 * 15. / 4) < 1e-9, v
''')

bug('linear_step_kept', 'P02',
    [['common/__init__.py', "        if environment.get('LOGARITHMIC_TIMESTEP'):\n            self.dx = self.x * self.dy\n        self.rho = rho",
      "        if environment.get('LOGARITHMIC_TIMESTEP') and self.rho is None:\n            self.dx = self.x * self.dy\n        self.rho = rho"]],
    'a second state update with logarithmic steps', 'the step no longer grows with the scale factor after the first update',
    '''
from common import Params, UNITS
p = Params(T=10. * UNITS.MeV, dy=0.05)
for i in range(5):
    p.x += p.dx
    p.update(UNITS.MeV**4, UNITS.MeV**3)
    assert abs(p.dx - p.x * p.dy) < 1e-9 * p.x, i
''')

bug('time_step_old_scale', 'P02',
    [['common/__init__.py', "        dt = (1 - old_a / self.a) / self.H", "        dt = (1 - old_a / self.a) / self.H if self.a > old_a else self.dx / self.x / self.H"]],
    'an update without a change of the scale factor (the first state, or the QCD transition)',
    'time advances although the universe did not expand',
    '''
from common import Params, UNITS
p = Params(T=10. * UNITS.MeV, dy=0.05)
p.update(UNITS.MeV**4, UNITS.MeV**3)
assert p.t == 0, p.t
p.x += p.dx
p.update(UNITS.MeV**4, UNITS.MeV**3)
assert abs(p.t - (1 - 1 / 1.05) / p.H) < 1e-9 * p.t
t = p.t
p.update(UNITS.MeV**4, UNITS.MeV**3)
assert p.t == t
''')

bug('freezeout_at_formation', 'P31',
    [['semianalytic.py', "            math.exp(-universe.kawano.q / nparams.T)", "            math.exp(-universe.kawano.q / max(nparams.T, 10 * dparams.T))"]],
    'freeze-out close to the formation of deuterium', 'the equilibrium ratio is taken at a temperature other than freeze-out',
    '''
import semianalytic, math
from common import UNITS, Params
from common.utils import DynamicRecArray
class U: pass
def run(T):
    u = U(); u.params = Params(T=10. * UNITS.MeV, dy=0.05); u.kawano_data = DynamicRecArray([["c%d" % i, '', 1.] for i in range(12)])
    u.kawano = U(); u.kawano.q = 1.29 * UNITS.MeV
    u.params.T = T * UNITS.MeV; u.params.t = 1 * UNITS.s; u.params.N_eff = 3.
    u.kawano_data.append({'c%d' % i: 1. if i % 2 else 20. for i in range(12)})
    semianalytic.step_monitor(u)
    u.params.T = 0.06 * UNITS.MeV; u.params.t = 200 * UNITS.s
    semianalytic.step_monitor(u)
    x = math.exp(-1.29 / T - 199. / 885.7)
    assert abs(u.BBN_estimates[1] / x - 1) < 1e-6 and abs(u.BBN_estimates[2] - 2 * x / (1 + x)) < 1e-9, (T, u.BBN_estimates, x)
run(0.7)
run(0.3)
''')

bug('settings_numeric_truth', 'P26',
    [['environment.py', "    elif default is not None:\n        typ = type(default)\n        val = typ(val)", "    elif default:\n        typ = type(round(default))\n        val = typ(val)"]],
    'a fractional setting given in the environment (or its default)', 'fractional settings are truncated to integers',
    '''
import os
os.environ['FOUR_PARTICLE_GRID_RESOLUTION'] = '0.5'
import environment
try:
    v = environment.get('FOUR_PARTICLE_GRID_RESOLUTION')
except ValueError:
    raise SystemExit(1)
assert v == 0.5, v
assert environment.get('REGIME_SWITCHING_FACTOR') == 1000.
''')


bug('laguerre_power', 'P06',
    [['particles/IntermediateParticle.py', "                (eps + mat) * (eps * (eps + 2. * mat))**((y_power - 1.) / 2.)\n", "                (eps + mat) * (eps * (eps + 2. * mat))**(y_power // 2 - 0.5 * (y_power < 3))\n"]],
    'the Gauss-Laguerre setting, and the fourth moment (the heat capacity) of a massive species',
    'the fourth moment is taken with the phase space of the fifth',
    '''
import numpy
from particles import IntermediateParticle as I
os.environ['LAGUERRE_GAUSS_FOR_MASSIVE_EQUILIBRIUM_PARTICLES'] = '1'
from types import SimpleNamespace as N
for eta, M in ((1., 0.8), (1., 2.), (-1., 1.5)):
    p = N(params=N(aT=1.3), conformal_mass=M, dof=4, eta=eta)
    y = numpy.linspace(0, 80, 400001)
    e = numpy.exp(numpy.sqrt(y**2 + M**2) / 1.3)
    for k in (2, 4):
        w = p.dof / 2. / numpy.pi**2 * numpy.trapz(y**k * e / (e + eta)**2, y)
        v = I.Int(p, k)
        assert abs(v / w - 1) < 1e-3, (k, v, w)
''', stub=True)

bug('dust_momentum_weight', 'P04',
    [['particles/NonEqParticle.py', "        return simps((\n            particle.distribution(temp) * temp**2 * particle.conformal_energy(temp)\n            * particle.dof / 2. / numpy.pi**2 / particle.params.a**4), temp\n        )",
      "        # Add up the small contributions of the highest momenta first\n        return simps((\n            particle.distribution(temp) * temp**2 * particle.conformal_energy(temp)\n            * particle.dof / 2. / numpy.pi**2 / particle.params.a**4)[::-1], temp\n        )"]],
    'Simpson moments on a grid that is not evenly spaced, the integrand read in reverse order',
    'the energy density of a decoupled species on a logarithmic grid weighs the wrong momenta',
    '''
import numpy
os.environ['SIMPSONS_NONEQ_PARTICLES'] = '1'
import environment
assert environment.get('SIMPSONS_NONEQ_PARTICLES')
from particles import NonEqParticle as Q
from types import SimpleNamespace as N
for t in (numpy.linspace(0, 20, 201), 20 * (1.02**numpy.arange(401) - 1) / (1.02**400 - 1)):
    p = N(grid=N(TEMPLATE=t), dof=2, params=N(a=2.), distribution=lambda y: 1 / (numpy.exp(y) + 1), conformal_energy=lambda y: numpy.sqrt(y**2 + 9.))
    y = numpy.linspace(0, 20, 200001)
    w = numpy.trapz(p.distribution(y) * y**2 * p.conformal_energy(y), y) / numpy.pi**2 / 16.
    v = Q.energy_density(p)
    assert abs(v / w - 1) < 1e-2, (v, w)
''', stub=True)

bug('temperature_before_decoupling', 'P07',
    [['particles/__init__.py', "            self.init_distribution()\n            self.aT = self.params.aT\n\n        self.T = self.aT / self.params.a\n",
      "            self.init_distribution()\n            self.T = self.params.aT / self.params.a if self.T > 1.05 * self.decoupling_temperature else self.T\n            self.aT = self.params.aT\n        else:\n            self.T = self.aT / self.params.a\n"]],
    'an update within five percent of the decoupling temperature',
    'close to decoupling the species keeps the temperature of the previous step: it never decouples',
    '''
import numpy
from common import UNITS, Params
from particles import Particle
P = Params(T=5. * UNITS.MeV, dy=0.05)
p = Particle(name='x', mass=1. * UNITS.MeV, decoupling_temperature=3.1 * UNITS.MeV)
p.set_params(P)
for T in (4.5, 3.9, 3.2, 3.15, 3., 2.5, 2.):
    P.a = 1. / T; P.x = P.a * P.m; P.aT = 1. * UNITS.MeV; P.T = T * UNITS.MeV
    p.update()
    assert abs(p.T / (T * UNITS.MeV) - 1) < 1e-9, (T, p.T / UNITS.MeV)
    assert bool(p.in_equilibrium) == (T > 3.1)
''', stub=True)

bug('decoupling_time_overwritten', 'P07',
    [['particles/__init__.py', "        if self.in_equilibrium != self.oldeq and not self.in_equilibrium:\n            # Particle", "        if not self.in_equilibrium and (self.oldeq or self.T > self.decoupling_temperature / 2.):\n            # Particle"]],
    'a species that stays above half of its decoupling temperature for some steps after decoupling',
    'the distribution is re-initialised after decoupling, so the effect of collisions is lost',
    '''
import numpy
from common import UNITS, Params
from particles import Particle
P = Params(T=5. * UNITS.MeV, dy=0.05)
p = Particle(name='x', mass=0., decoupling_temperature=3.1 * UNITS.MeV)
p.set_params(P)
def go(T, t):
    P.a = 1. / T; P.x = P.a * P.m; P.aT = 1. * UNITS.MeV; P.T = T * UNITS.MeV; P.t = t
    p.update()
go(4., 1.); go(3., 2.)
assert not p.in_equilibrium and p.t_decoupling == 2.
p._distribution = p._distribution * 0.5
d = p._distribution.copy()
for i, T in enumerate((2.9, 2.5, 1., 0.5)):
    go(T, 3. + i)
    assert p.t_decoupling == 2. and numpy.array_equal(p._distribution, d), T
''', stub=True)

bug('integrals_kept_when_fast', 'P10',
    [['particles/__init__.py', "        # Clear collision integrands for the next computation step\n        self.collision_integrals = []\n", "        # Clear collision integrands for the next computation step\n        if numpy.any(self._distribution > 0):\n            self.collision_integrals = []\n"]],
    'a step that leaves the distribution empty, followed by another',
    'the integrals of the previous step are evaluated again in the next one',
    '''
import numpy
from common import UNITS, Params
from particles import Particle
P = Params(T=5. * UNITS.MeV, dy=0.05)
p = Particle(name='x', mass=1. * UNITS.MeV, decoupling_temperature=30. * UNITS.MeV, thermal_dyn=False, Q=0)
p.set_params(P)
for i in range(3):
    p.collision_integrals.append('I%d' % i)
    p.update_distribution()
    assert p.collision_integrals == [], p.collision_integrals
''', stub=True)

bug('mixing_in_place', 'P20',
    [['evolution.py', "                integrals = {A.flavour: A.collision_integral for A in particles}\n\n                for A in particles:\n                    A.collision_integral = sum(pattern[(A.flavour, B.flavour)] * integrals[B.flavour]\n                                               for B in particles)",
      "                rates = {A.flavour: A for A in particles}\n\n                for A in particles:\n                    A.collision_integral = sum(pattern[(A.flavour, B.flavour)] * rates[B.flavour].collision_integral\n                                               for B in particles)"]],
    'different collision rates of the flavours', 'a flavour mixes in rates of others that are mixed already',
    '''
import numpy
import evolution
from types import SimpleNamespace as N
U = evolution.Universe.__new__(evolution.Universe)
ps = [N(flavour=f, collision_integral=numpy.array([v, 2 * v]), decoupling_temperature=5., update_distribution=lambda: None) for f, v in (('e', 1.), ('m', 10.), ('t', 100.))]
U.params = N(T=1.)
U.particles = ps
U.oscillation_particles = ps
pat = {(a.flavour, b.flavour): 0.5 if a is b else 0.25 for a in ps for b in ps}
U.oscillation_matter = False
U.pattern_function = lambda *a: pat
U.oscillations = (pat, ps)
old = [p.collision_integral.copy() for p in ps]
U.update_distributions()
for i, p in enumerate(ps):
    w = sum((0.5 if i == j else 0.25) * old[j] for j in range(3))
    assert numpy.allclose(p.collision_integral, w), (i, p.collision_integral, w)
assert numpy.allclose(sum(p.collision_integral for p in ps), sum(old))
''', stub=True)

bug('dilution_of_now', 'P28',
    [['common/kinematics.py', "    or interaction.reaction[1].specie.density / interaction.reaction[1].specie.data['params']['density'][0] < scat_thr)\\\n", "    or interaction.reaction[1].specie.density / interaction.reaction[0].specie.data['params']['density'][0] < scat_thr)\\\n"]],
    'scattering of two species with very different initial densities',
    'the dilution of the second incoming species is measured against the first one',
    '''
from common import kinematics as K
from types import SimpleNamespace as N
def item(side, n, n0):
    return N(side=side, specie=N(density=n, data={'params': {'density': [n0]}}, decayed=False, name='x'))
def neglected(*r):
    return K.Neglect4pInteraction(N(reaction=r, particle=N(params=N(a_ini=10., T=1., m=1.), name='x', mass=1.)), None)
assert not neglected(item(-1, 1., 1.), item(-1, 1e-14, 1e-12), item(1, 1., 1.), item(1, 1e-14, 1.))
assert neglected(item(-1, 1., 1.), item(-1, 1e-11, 1.), item(1, 1., 1.), item(1, 1e-14, 1.))
assert not neglected(item(-1, 1., 1.), item(-1, 1e-9, 1.), item(1, 1., 1.), item(1, 1e-14, 1.))
''', stub=True)

bug('slowest_product', 'P18',
    [['common/kinematics.py', "    if specie_1.mass == 0.:\n        energy_1_lab_min = gamma * (energy_1_cm - beta * momentum_1_cm)", "    if specie_1.mass == 0. or beta * energy_1_cm < momentum_1_cm:\n        energy_1_lab_min = gamma * (energy_1_cm - beta * momentum_1_cm)"]],
    'a massive product of a slow parent', 'the lowest momentum of a massive product is that of the fastest parent alone, slower parents are cut',
    '''
import numpy
from common import kinematics as K
from types import SimpleNamespace as N
def s(m, top):
    return N(specie=N(mass=m, conformal_mass=m, grid=N(MAX_MOMENTUM=top)))
for m, M, top in ((1., 10., 2.), (1., 10., 200.), (4., 10., 1.)):
    lo, hi = K.three_particle_bounds_creation([s(m, 100.), s(0., 100.), s(M, top)])
    k = (M**2 - m**2) / 2 / M
    e = numpy.sqrt(k**2 + m**2)
    g = numpy.sqrt(1 + (top / M)**2)
    assert abs(hi - (g * k + top / M * e)) < 1e-6 * hi
    assert lo < 1e-6, (m, M, top, lo)
lo, hi = K.three_particle_bounds_creation([s(0., 100.), s(0., 100.), s(10., 10.)])
assert abs(lo - 5 * (numpy.sqrt(2) - 1)) < 1e-9
''', stub=True)

bug('constant_of_first_element', 'P14',
    [['interactions/three_particle/__init__.py', "        self.cMs = sum(M.K for M in self.Ms)", "        self.cMs = next((M.K for M in self.Ms if M.K), 0.)"]],
    'an integral with more than one matrix element', 'only the first matrix element of a three-particle integral counts',
    '''
import numpy
import interactions.three_particle as T3
from types import SimpleNamespace as N
from common import UNITS
T3.integration_3 = lambda ps, *a: [1.] * len(ps)
T3.kinematics.Neglect3pInteraction = lambda *a: False
par = N(aT=1., a=1., H=1., h=1., x=1., T=1.)
t = numpy.linspace(0, 10, 11)
g = N(TEMPLATE=t, BOUNDS=(0., 10.), MAX_MOMENTUM=10., MIN_MOMENTUM=0., MOMENTUM_SAMPLES=11)
sp = lambda m: N(mass=m, conformal_mass=m, grid=g, eta=1., in_equilibrium=0, aT=1., _distribution=t, params=par, dof=2, majorana=True, name='x', Q=0, decayed=False)
from interactions.four_particle.cpp.integral import CollisionIntegralKind as K
p = sp(2.)
def value(*Ks):
    r = [N(side=-1, specie=p, antiparticle=False), N(side=1, specie=sp(0.), antiparticle=False), N(side=1, specie=sp(0.), antiparticle=False)]
    I = T3.ThreeParticleIntegral(particle=p, reaction=r, Ms=[N(K=k) for k in Ks], kind=K.F_1, grids=g)
    return I.integrate(t)
a, b = value(3.), value(1., 2.)
assert numpy.allclose(a, b), (a, b)
assert numpy.allclose(a[1:], 3. / 32 / numpy.pi / 2)
''', stub=True)

bug('merge_with_mass_term', 'P13',
    [['interactions/four_particle/__init__.py', "            (tuple(self.order[2:] + self.order[:2]) == other.order and self.K2 == other.K2 == 0)", "            (tuple(self.order[2:] + self.order[:2]) == other.order and self.K2 == other.K2)"]],
    'two elements with equal mass terms and complementary momentum pairs',
    'elements whose mass terms belong to different pairs are merged into one',
    '''
import interactions.four_particle as F
def M(order, K1, K2):
    m = F.FourParticleM(K1=K1, K2=K2)
    m.order = order
    return m
a, b = M((0, 1, 2, 3), 1., 2.), M((2, 3, 0, 1), 5., 2.)
assert not a.stackable(b) and not b.stackable(a)
assert M((0, 1, 2, 3), 1., 0.).stackable(M((2, 3, 0, 1), 5., 0.))
assert M((0, 1, 2, 3), 1., 3.).stackable(M((0, 1, 2, 3), 5., 2.))
assert not M((0, 2, 1, 3), 1., 0.).stackable(M((0, 1, 2, 3), 5., 0.))
''', stub=True)

bug('crossed_majorana', 'P12',
    [['interactions/__init__.py', "                if lhs[0].antiparticle:\n                    continue\n", "                if lhs[0].antiparticle:\n                    continue\n\n                # The conjugate reaction is the same one\n                if len(lhs) == 2 and all(it.antiparticle for it in rhs) and not lhs[1].antiparticle:\n                    continue\n"]],
    'annihilation-like crossings with two antiparticles on the right',
    'a crossing of a process is missing',
    '''
import interactions as I
from types import SimpleNamespace
class S(SimpleNamespace):
    def __hash__(self): return id(self)
    def __eq__(self, o): return self is o
    def __lt__(self, o): return self.name < o.name
    def __gt__(self, o): return self.name > o.name
def sp(name, mass=0., majorana=False):
    return S(name=name, symbol=name, mass=mass, majorana=majorana)
class T(object):
    def __init__(self, **k): self.__dict__.update(k)
def signatures(ps, anti):
    c = I.CrossGeneratingInteraction(name='', particles=ps, antiparticles=anti, Ms=[], integral_type=T, kind=None)
    out = set()
    for i in c.integrals:
        out.add(tuple(sorted((x.side, x.specie.name, x.antiparticle) for x in i.reaction)) + (i.particle.name,))
    return out
a, b, c, d = [sp(x) for x in 'abcd']
got = signatures(((a, b), (c, d)), ((False, False), (False, False)))
# a b -> c d ; a C -> B d ; a D -> c B : each seen from every particle that is not an antiparticle
two = [g for g in got if sum(x[0] for x in g[:-1]) == 0]
assert len([g for g in two if g[-1] == 'a']) == 3, sorted(two)
got = signatures(((a, b), (c, d)), ((False, False), (True, True)))
two = [g for g in got if sum(x[0] for x in g[:-1]) == 0 and g[-1] == 'a']
assert len(two) == 3, sorted(two)
''', stub=True)

bug('channel_of_same_letters', 'P24',
    [['common/kinematics.py', "        for key in interaction.reaction[-1].specie.BR:\n            if Counter(sym) == Counter(key):", "        for key in interaction.reaction[-1].specie.BR:\n            if len(sym) == len(key) and set(sym) == set(key):"]],
    'two channels of one parent with the same products in different numbers',
    'the created spectrum is normalised to the branching ratio of another channel',
    '''
import numpy
from common import kinematics as K
from types import SimpleNamespace as N
t = numpy.linspace(0, 10, 11)
parent = N(BR={'aab': 0.25, 'abb': 0.75}, num_creation=8., fast_decay=True, symbol='P')
a, b = N(symbol='a', dof=2, majorana=True, grid=N(TEMPLATE=t)), N(symbol='b')
def created(*names):
    r = [N(side=-1, specie={'a': a, 'b': b}[n]) for n in names] + [N(side=1, specie=parent)]
    f = K.scaling(N(particle=a, reaction=r), numpy.ones(11), 1.)
    return K.simps(f * 2 * t**2, t)
assert abs(created('a', 'a', 'b') - 2.) < 1e-9, created('a', 'a', 'b')
assert abs(created('a', 'b', 'b') - 6.) < 1e-9, created('a', 'b', 'b')
assert abs(created('b', 'a', 'a') - 2.) < 1e-9
''', stub=True)

bug('integrals_shared_by_class', 'P25',
    [['particles/__init__.py', "        self.collision_integrals = []\n        self.data = {\n", "        if not hasattr(type(self), 'collision_integrals'):\n            type(self).collision_integrals = []\n        self.data = {\n"]],
    'two species that both take part in reactions', 'integrals registered by one species show up at all others',
    '''
from particles import Particle
a, b = Particle(name='a'), Particle(name='b')
a.collision_integrals.append(1)
assert b.collision_integrals == []
assert Particle(name='c').collision_integrals == []
''', stub=True)

bug('heat_of_mean_energy', 'P06',
    [['particles/NonEqParticle.py', "        return simps((\n            -1. * particle.dof / 2. / numpy.pi**2\n            * temp**2 * particle.conformal_energy(temp)\n", "        return simps((\n            -1. * particle.dof / 2. / numpy.pi**2\n            * temp**2 * particle.conformal_energy(temp, particle.mass * particle.aT / particle.decoupling_temperature)\n"]],
    'the Simpson setting and a massive species out of equilibrium',
    'the heat exchanged by a massive decoupled species uses its mass at decoupling',
    '''
import numpy
os.environ['SIMPSONS_NONEQ_PARTICLES'] = '1'
from common import UNITS, Params
from particles import Particle, NonEqParticle as Q
P = Params(T=5. * UNITS.MeV, dy=0.05)
p = Particle(name='x', mass=10. * UNITS.MeV, decoupling_temperature=20. * UNITS.MeV)
p.set_params(P)
p.collision_integral = numpy.exp(-p.grid.TEMPLATE / UNITS.MeV)
for T in (5., 1., 0.2):
    P.a = 1. / T; P.x = P.a * P.m
    y = p.grid.TEMPLATE
    w = -2. / 2 / numpy.pi**2 * Q.simps(y**2 * numpy.sqrt(y**2 + (p.mass * P.a)**2) * p.collision_integral / P.x, y)
    v = Q.numerator(p)
    assert abs(v / w - 1) < 1e-9, (T, v, w)
''', stub=True)

bug('hadrons_counted_before', 'P27',
    [['evolution.py', "        self.particles = utils.particle_filter(\n                            ['Up quark'", "        hadrons = [hadron for hadron in hadrons or [] if hadron.mass < self.params.T or not hadron.in_equilibrium]\n        self.particles = utils.particle_filter(\n                            ['Up quark'"]],
    'hadrons heavier than the temperature of the transition', 'hadrons that are heavy at the transition never enter the run',
    '''
import evolution
from types import SimpleNamespace as N
U = evolution.Universe.__new__(evolution.Universe)
class D(dict):
    def truncate(self): pass
U.data = D(aT=[1.])
class P(N):
    def update(self, *a): pass
U.params = P(T=150., aT=1.)
class S(N):
    def __lt__(self, o): return self.name < o.name
    def __gt__(self, o): return self.name > o.name
def sp(name, m, dof):
    return S(name=name, mass=m, dof=dof, in_equilibrium=1, statistics=None, set_params=lambda p: None, update=lambda: None, energy_density=0., entropy=0.)
U.particles = [sp('Photon', 0., 2), sp('Up quark', 2., 12), sp('Gluon', 0., 16)]
U.interactions = ['q', 'k']
heavy = [sp('Pion', 135., 1), sp('Kaon', 494., 2), sp('Rho', 775., 9)]
U.QCD_transition(hadrons=list(heavy), quarkic_interactions=['q'], hadronic_interactions=['h'])
assert sorted(p.name for p in U.particles) == ['Kaon', 'Photon', 'Pion', 'Rho'], U.particles
assert U.interactions == ['k', 'h']
assert abs(U.params.aT - (30. / 3.)**(1. / 3)) < 1e-9, U.params.aT
''', stub=True)

HEAD4 = """#include "integral.h"
#include <cstdio>
#include <cstdlib>
std::vector<dbl> integration(std::vector<dbl>, dbl, dbl, dbl, dbl, dbl, const std::vector<reaction_t> &, const std::vector<M_t> &, dbl, int);
dbl integrand_full(dbl, dbl, dbl, const std::vector<reaction_t> &, const std::vector<M_t> &, int);
dbl distribution_interpolation(const particle_t &, dbl);
static void near(dbl a, dbl b, dbl tol, const char *what) {
    if (!(std::abs(a - b) <= tol * (std::abs(a) + std::abs(b)) + 1e-12)) { printf("%s: %.10g %.10g\\n", what, a, b); exit(1); }
}
static particle_t thermal(int eta, dbl m, dbl T = 1.) { return particle_t(eta, m, grid_t({}, {}), 1, T); }
"""
HEAD3 = HEAD4.replace('std::vector<dbl> integration(std::vector<dbl>, dbl, dbl, dbl, dbl, dbl, const std::vector<reaction_t> &, const std::vector<M_t> &, dbl, int);\ndbl integrand_full(dbl, dbl, dbl, const std::vector<reaction_t> &, const std::vector<M_t> &, int);\ndbl distribution_interpolation(const particle_t &, dbl);',
                      'std::vector<dbl> integration_3(std::vector<dbl>, dbl, dbl, dbl, const std::vector<reaction_t3> &, dbl, int);\ndbl distribution_interpolation(const particle_t3 &, dbl);').replace('particle_t thermal', 'particle_t3 thermal').replace('particle_t(eta, m, grid_t(', 'particle_t3(eta, m, grid_t3(')

cxxbug('kernel_inner_region', 'P15', 4,
       [['interactions/four_particle/cpp/Ds.cpp', "return pow(q2, 3) * (5. * (pow(q1, 2) + pow(q3, 2) + pow(q4, 2)) - pow(q2, 2)) / 30.;",
         "return pow(q2, 3) * (5. * (pow(q1, 2) + pow(q3, 2) + pow(q4, 2)) - pow(q4, 2)) / 30.;"]],
       'momenta of which the second is the smallest and the largest is on the other side',
       'one case of the kernel D3 is no longer the integral that defines it, nor symmetric', HEAD4 + """
int main() {
    for (int k = 0; k < 400; ++k) {
        dbl q[4];
        for (int i = 0; i < 4; ++i) q[i] = 0.1 + ((k * 7919 + i * 104729 + k * k * 31 * (i + 1)) % 1000) / 250.;
        dbl d = D3(q[0], q[1], q[2], q[3]);
        near(D3(q[2], q[1], q[0], q[3]), d, 1e-9, "exchange of the first and third momentum");
        near(D3(q[0], q[2], q[1], q[3]), d, 1e-9, "exchange of the second and third momentum");
    }
}
""")

cxxbug('rest_kernel_sides', 'P15', 4,
       [['interactions/four_particle/cpp/Ds.cpp', "subresult += sisj * E[k+l] * Db2(p[k+l], p[i], p[j]);", "subresult += sksl * E[k+l] * Db2(p[k+l], p[i], p[j]);"]],
       'a decay (not a scattering) of a particle at rest, with the particle in the second pair of the matrix element',
       'the kernel of a particle at rest is not the limit of the kernel of a slow one', HEAD4 + """
int main() {
    std::array<dbl, 4> m = {4., 0.5, 0.3, 0.2}, E, p;
    for (int side = -1; side < 2; side += 2)
        for (int o = 0; o < 3; ++o) {
            std::array<int, 4> sides = {-1, side, 1, 1}, order = {{1, 2, 3, 0}};
            if (o == 1) order = {{0, 1, 2, 3}};
            if (o == 2) order = {{1, 3, 0, 2}};
            p = {0., 1., 1.2, 0.9};
            for (int i = 0; i < 4; ++i) E[i] = sqrt(p[i] * p[i] + m[i] * m[i]);
            dbl b = Db(p, E, m, 1.3, 0.7, order, sides);
            p[0] = 1e-4;
            E[0] = sqrt(p[0] * p[0] + m[0] * m[0]);
            near(D(p, E, m, 1.3, 0.7, order, sides) / (p[0] * E[0]), b, 1e-3, "limit of a particle at rest");
        }
}
""")

cxxbug('creation_wrong_energy', 'P16', 4,
       [['interactions/four_particle/cpp/integral.cpp', "dbl max = energy(max_3, reaction[3].specie.m) - energy(p0, reaction[0].specie.m) - energy(p1, reaction[1].specie.m);",
         "dbl max = energy(max_3, reaction[3].specie.m) - energy(p0, reaction[0].specie.m) - energy(p1, reaction[0].specie.m);"]],
       'creation by three particles of which the first two have different masses', 'the inner integral stops before the end of the kinematic region', HEAD4 + """
int main() {
    // three particles into a heavy one, the first heavier than the second
    std::vector<reaction_t> r = {reaction_t(thermal(1, 3.), -1), reaction_t(thermal(1, 0.1), -1), reaction_t(thermal(1, 0.2), -1), reaction_t(thermal(1, 5.), 1)};
    std::vector<M_t> M = {M_t({{0, 1, 2, 3}}, 0., 0., 1.)};
    dbl got = integration({0.5}, 0., 10., 0., 10., 3., r, M, 1., 1)[0], want = 0.;
    // the same integral on a plain grid over everything below the cut-off
    const int n = 900;
    const dbl top = sqrt(pow(sqrt(34.) - sqrt(9.25), 2));
    for (int i = 0; i < n; ++i)
        for (int j = 0; j < n; ++j) {
            dbl p1 = (i + .5) / n * top, p2 = (j + .5) / n * top;
            dbl E3 = sqrt(9.25) + sqrt(p1 * p1 + .01) + sqrt(p2 * p2 + .04);
            if (E3 * E3 - 25. <= 9.) want += integrand_full(0.5, p1, p2, r, M, 1) * top * top / n / n;
        }
    near(got, want, 0.03, "integral over the kinematic region");
}
""")

cxxbug('threshold_of_previous', 'P16', 4,
       [['interactions/four_particle/cpp/integral.cpp', "            if (min <= 0 || min2 <= 0) {\n                min_1 = 0.;\n            }\n            else {\n                min_1 = sqrt(min2);\n            }",
         "            if (min > 0 && min2 > 0) {\n                min_1 = sqrt(min2);\n            }"]],
       'several momenta handled by one thread, the first below and a later one above the threshold of a scattering reaction',
       'the lower bound of an earlier momentum is kept for later ones, so results depend on the other momenta and on the number of threads', HEAD4 + """
#include <omp.h>
int main() {
    omp_set_num_threads(1);
    std::vector<reaction_t> r = {reaction_t(thermal(1, 0.), -1), reaction_t(thermal(1, 0.), -1), reaction_t(thermal(1, 1.5), 1), reaction_t(thermal(1, 1.5), 1)};
    std::vector<M_t> M = {M_t({{0, 1, 2, 3}}, 0., 0., 1.)};
    std::vector<dbl> ps = {0.5, 1., 2., 4., 6.};
    auto all = integration(ps, 0., 10., 0., 10., 10., r, M, 1., 1);
    for (int i = 0; i < (int) ps.size(); ++i)
        near(all[i], integration({ps[i]}, 0., 10., 0., 10., 10., r, M, 1., 1)[0], 1e-6, "one momentum alone and among others");
}
""")

cxxbug('statistics_of_first', 'P16', 3,
       [['interactions/three_particle/cpp/integral.cpp', "            if (reaction[i].side == 1) {\n                temp *= f[i];\n            } else {\n                temp *= 1. - reaction[i].specie.eta * f[i];",
         "            if (reaction[i].side == 1) {\n                temp *= f[i];\n            } else {\n                temp *= 1. - reaction[0].specie.eta * f[i];"]],
       'creation by two particles of different statistics', 'gains by creation use the statistics of the first particle for the second', HEAD3 + """
int main() {
    // in equilibrium gain and loss balance
    for (int a = -1; a < 2; a += 2) for (int b = -1; b < 2; b += 2) {
        std::vector<reaction_t3> r = {reaction_t3(thermal(a, 1.), -1), reaction_t3(thermal(b, 0.5), -1), reaction_t3(thermal(a * b, 4.), 1)};
        dbl gain = integration_3({0.7}, 0., 20., 20., r, 1., 1)[0];
        dbl loss = integration_3({0.7}, 0., 20., 20., r, 1., 2)[0];
        dbl f = distribution_interpolation(r[0].specie, 0.7);
        near(gain, -f * loss, 1e-2, "detailed balance");
    }
}
""")

cxxbug('creation_bound_cut', 'P16', 3,
       [['interactions/three_particle/cpp/integral.cpp', "                    max_1 = std::min(p1_bounds_3(reaction, p0, 1, 1), temp);", "                    max_1 = std::max(p1_bounds_3(reaction, p0, 1, 1), temp);"]],
       'creation of a heavy particle whose momentum exceeds the grid', 'the cut-off of the momentum of the created particle is ignored', HEAD3 + """
int main() {
    std::vector<reaction_t3> r = {reaction_t3(thermal(1, 1.), -1), reaction_t3(thermal(1, 0.5), -1), reaction_t3(thermal(1, 2.), 1)};
    dbl wide = integration_3({0.7}, 0., 50., 50., r, 1., 1)[0];
    dbl cut = integration_3({0.7}, 0., 50., 1., r, 1., 1)[0];
    dbl want = 0.;
    const int n = 200000;
    for (int i = 0; i < n; ++i) {
        dbl p1 = (i + .5) / n * 20., E0 = sqrt(1.49), E1 = sqrt(p1 * p1 + .25), p3 = pow(E0 + E1, 2) - 4.;
        if (p3 < 0 || p3 > 1. || sqrt(p3) > 0.7 + p1 || sqrt(p3) < std::abs(0.7 - p1)) continue;
        dbl f1 = distribution_interpolation(r[1].specie, p1), f2 = distribution_interpolation(r[2].specie, sqrt(p3));
        want += 2. * p1 / E1 / (0.7 * E0) * f2 * (1. - f1) * 20. / n;
    }
    near(cut, want, 3e-2, "integral up to the cut-off");
    near(wide > cut, 1., 0., "wider cut-off");
}
""")

cxxbug('kinds_renumbered', 'P17', 3,
       [['interactions/three_particle/cpp/integral.h', "  F_creation = 6,\n  F_decay = 7", "  F_decay = 6,\n  F_creation = 7"]],
       'creation and decay kinds of three-particle reactions (Python passes the kinds of the other module)', 'gain and loss of three-particle reactions are exchanged', HEAD3 + """
int main() {
    // kinds as Python numbers them: 6 creation, 7 decay
    std::vector<reaction_t3> r = {reaction_t3(thermal(1, 5.), -1), reaction_t3(thermal(1, 0.5), 1), reaction_t3(thermal(-1, 1.), 1)};
    near(integration_3({0.7}, 0., 20., 20., r, 1., 6)[0] > 0., 1., 0., "creation is a gain");
    near(integration_3({0.7}, 0., 20., 20., r, 1., 7)[0] < 0., 1., 0., "decay is a loss");
}
""")

cxxbug('interpolation_of_bosons', 'P35', 4,
       [['interactions/four_particle/cpp/integral.cpp', "    g = 1. / (exp(g) + eta);", "    g = 1. / (exp(g) + std::abs(eta));"]],
       'a boson out of equilibrium at a momentum between two nodes', 'the interpolated distribution of bosons is that of fermions', HEAD4 + """
int main() {
    for (int eta = -1; eta < 2; eta += 2) {
        std::vector<dbl> g, f;
        for (int i = 0; i < 12; ++i) { g.push_back(0.2 + 0.5 * i); f.push_back(1. / (exp(sqrt(g[i] * g[i] + 1.) / 0.8) + eta)); }
        particle_t s(eta, 1., grid_t(g, f), 0, 0.8);
        for (int i = 0; i < 54; ++i) {
            dbl p = 0.2 + i * 0.1;
            near(distribution_interpolation(s, p), 1. / (exp(sqrt(p * p + 1.) / 0.8) + eta), 1e-9, "thermal distribution");
        }
    }
}
""")

cxxbug('tail_of_massless', 'P35', 3,
       [['interactions/three_particle/cpp/integral.cpp', "            * exp((energy(grid[grid.size() -1], m) - energy(p, m)) / T);", "            * exp((grid[grid.size() -1] - p) / T);"]],
       'a momentum above the grid of a massive particle', 'the tail above the grid falls as that of a massless particle', HEAD3 + """
int main() {
    for (dbl m = 0.; m < 3.; m += 1.) {
        particle_t3 s(1, m, grid_t3({0., 1., 2.}, {.5, .3, .2}), 0, 0.8);
        for (dbl p = 2.1; p < 6.; p += 0.5)
            near(distribution_interpolation(s, p), .2 * exp((sqrt(4. + m * m) - sqrt(p * p + m * m)) / 0.8), 1e-9, "tail above the grid");
    }
}
""")

bug('kilogram_transposed', 'P01',
    [['common/__init__.py', "UNITS.kg = 1e27 / 1.782662 * UNITS.GeV", "UNITS.kg = 1e27 / 1.782262 * UNITS.GeV"]],
    'a conversion of masses to kilograms with more than three digits', 'the kilogram is off by two parts in ten thousand',
    '''
from common import UNITS
# 1 GeV / c^2 in kilograms
assert abs(UNITS.GeV / UNITS.kg / 1.78266192e-27 - 1) < 5e-5, UNITS.GeV / UNITS.kg
''')

bug('energy_integral_cut', 'P03',
    [['particles/IntermediateParticle.py', "        lambda p: pressure_integrand(p, particle),\n        (0, 20 * particle.T)", "        lambda p: pressure_integrand(p, particle),\n        (0, 20 * min(particle.T, particle.mass))"]],
    'a species with a mass below its temperature in the intermediate regime', 'the pressure misses the particles of high momentum',
    '''
import numpy
from common import UNITS, Params
from particles import Particle, IntermediateParticle as I
P = Params(T=5. * UNITS.MeV, dy=0.05)
P.a = 1.; P.aT = 5. * UNITS.MeV
k = numpy.linspace(1e-6, 40., 20001)
for m in (20., 5., 1., .5):
    p = Particle(name='x', mass=m * UNITS.MeV, decoupling_temperature=1. * UNITS.MeV)
    p.set_params(P)
    E = numpy.sqrt(k**2 + (m / 5.)**2)
    w = numpy.trapz(k**4 / E / (numpy.exp(E) + 1), k) * 2 / 6. / numpy.pi**2 * p.T**4
    assert abs(I.pressure(p) / w - 1) < 1e-3, (m, I.pressure(p) / w)
''', stub=True)

bug('massless_limit_of_energy', 'P05',
    [['particles/__init__.py', "        if conformal_mass is None:\n            conformal_mass = self.conformal_mass\n        if self.mass > 0:",
      "        conformal_mass = conformal_mass or self.conformal_mass\n        if self.mass > 0:"]],
    'the conformal energy of a massive species asked for zero conformal mass', 'the mass of the species is used instead of the given zero',
    '''
import numpy
from common import UNITS, Params
from particles import Particle
P = Params(T=5. * UNITS.MeV, dy=0.05)
P.a = 1.; P.aT = 5. * UNITS.MeV
p = Particle(name='x', mass=3. * UNITS.MeV, decoupling_temperature=1. * UNITS.MeV)
p.set_params(P)
for y in (0., 1., 4.):
    for m in (3., 1., 0.1, 0.):
        v = p.conformal_energy(y * UNITS.MeV, m * UNITS.MeV) / UNITS.MeV
        assert abs(v - numpy.sqrt(y**2 + m**2)) < 1e-9, (y, m, v)
    assert abs(p.conformal_energy(y * UNITS.MeV) / UNITS.MeV - numpy.sqrt(y**2 + 9)) < 1e-9
''', stub=True)

bug('initial_state_with_time', 'P08',
    [['evolution.py', "            self.params.init_time(self.total_energy_density())\n\n        if self.params.rho is None:\n#            self.update_particles()\n            self.params.update(self.total_energy_density(), self.total_entropy())\n        self.save_params()\n",
      "            self.params.init_time(self.total_energy_density())\n\n        if self.params.rho is None:\n#            self.update_particles()\n            self.params.update(self.total_energy_density(), self.total_entropy())\n            self.save_params()\n"]],
    'a run that continues from parameters with a known energy density', 'the initial state is not recorded when the density was known before',
    '''
import evolution
from types import SimpleNamespace as N
class P(N):
    def init_time(self, rho): self.t = 1.; self.rho = self.rho
    def update(self, rho, S): self.rho = rho; self.S = S
for rho in (None, 3.):
    U = evolution.Universe.__new__(evolution.Universe)
    U.particles = []; U.interactions = []; U.folder = None; U.kawano = None; U.step = 1; U.data = []
    U.fraction = 0.; U.step_monitor = None
    U.params = P(T=10., aT=1., a=.1, x=.1, rho=rho, S=1., t=0., N_eff=3., h=1.)
    U.log = lambda: None
    U.export = lambda: None
    U.total_energy_density = lambda: 7.
    U.total_entropy = lambda: 1.
    seen = []
    def row(d): seen.append(d['T'])
    U.data = N(append=row)
    def step():
        U.params.T -= 3.
    U.make_step = step
    U.save = lambda: U.save_params()
    U.evolve(2.)
    assert seen == [10., 7., 4., 1.], (rho, seen)
''', stub=True)

bug('exchange_of_each_pair_once', 'P19',
    [['library/SM.py', "                    other_lepton = [par for par in leptons if par != lepton]\n                    other_neutrino = [par for par in neutrinos if par != neutrino]\n",
      "                    other_lepton = [par for par in leptons[leptons.index(lepton):] if par != lepton]\n                    other_neutrino = [par for par in neutrinos if par != neutrino]\n"]],
    'two charged leptons', 'charged-current exchange runs in one direction only',
    '''
from common import UNITS
from particles import Particle
from library import SM
L = [Particle(**SM.particles.leptons.electron), Particle(**SM.particles.leptons.muon), Particle(**SM.particles.leptons.tau)]
V = [Particle(**SM.particles.leptons.neutrino_e), Particle(**SM.particles.leptons.neutrino_mu), Particle(**SM.particles.leptons.neutrino_tau)]
for n in (2, 3):
    got = [tuple(s.name for s in i.particles[0] + i.particles[1]) for i in SM.interactions.lepton_interactions(leptons=L[:n], neutrinos=V[:n])]
    assert len(got) == n * (n - 1) and len(set(got)) == len(got), got
''', stub=True)

bug('neutron_decay_on_grid', 'P21',
    [['kawano.py', "            (_rate3, (grid.MIN_MOMENTUM, (q - m_e) * a)),", "            (_rate3, (grid.MIN_MOMENTUM, min((q - m_e) * a, grid.MAX_MOMENTUM))),"]],
    'a scale factor at which neutron decay populates momenta beyond the grid', 'the free neutron decay rate falls with time',
    '''
import numpy
import kawano
from common import UNITS
from types import SimpleNamespace as N
g = N(MIN_MOMENTUM=0., MAX_MOMENTUM=20. * UNITS.MeV)
par = N(a=1.)
z = lambda y: numpy.exp(-y / UNITS.MeV)
kawano.init_kawano(electron=N(distribution=z), neutrino=N(distribution=z, grid=g, params=par))
r = []
for a in (10., 20., 40., 100.):
    par.a = a
    r.append(kawano.baryonic_rates(a)[2])
assert r[0] < r[1] < r[2] < r[3] and r[3] / r[2] < 1.2, r
''', stub=True)

bug('log_grid_from_sample_one', 'P23',
    [['common/__init__.py', "            / (base ** (self.MOMENTUM_SAMPLES - 1.) - 1.)\n        )", "            / (base ** self.MOMENTUM_SAMPLES - 1.)\n        )"]],
    'a logarithmic grid', 'the last node stays below the requested maximum',
    '''
from common import LogSpacedGrid
for n in (5, 51, 200):
    g = LogSpacedGrid(MOMENTUM_SAMPLES=n, MAX_MOMENTUM=20.)
    t = g.TEMPLATE
    assert len(t) == n and t[0] == 0 and abs(t[-1] - 20.) < 1e-9, (n, t[-1])
''')

bug('cubic_edge_cell', 'P23',
    [['common/__init__.py', "        if index == 0 or index == len(grid) - 2:", "        if index == 0 or index >= len(grid) - 1:"]],
    'an argument in the last cell of the grid', 'cubic interpolation reaches past the last node',
    '''
import numpy
from common import cubic_interpolation
for n in (4, 5, 9):
    x = numpy.linspace(0, 4, n)
    f = cubic_interpolation(3 * x + 1, x)
    for y in numpy.linspace(0, 4, 57):
        assert abs(f(y) - 3 * y - 1) < 1e-9, (n, y, f(y))
''')

bug('resolution_of_heavier_meson', 'P29',
    [['common/kinematics.py', "    meson_masses = np.array([134.98, 139.57, 547.86, 775.11, 782.65, 957.78, 1019.46]) * UNITS.MeV\n    meson_mass = meson_masses[np.searchsorted(meson_masses, mass) - 1]",
      "    meson_masses = np.array([134.98, 139.57, 547.86, 775.11, 782.65, 957.78, 1019.46]) * UNITS.MeV\n    meson_mass = meson_masses[np.abs(meson_masses - mass).argmin()]"]],
    'a heavy neutral lepton just below the mass of a meson', 'the grid is sized for a decay the lepton is too light for',
    '''
import math
from common import UNITS, kinematics as k
for m in (140., 300., 400., 540., 700., 774., 900., 1010., 1200.):
    r = k.grid_resolution_neutrino(m * UNITS.MeV, 1e-3) / UNITS.MeV
    M = max([x for x in (134.98, 139.57, 547.86, 775.11, 782.65, 957.78, 1019.46) if x < m])
    p = (m**2 - M**2) / 2 / m
    w = 2 * p * math.sqrt(3 - 8 / math.pi) / m * .75
    import environment
    w = min(w, environment.get('FOUR_PARTICLE_GRID_RESOLUTION') / 3.)
    assert abs(r / w - 1) < 1e-6, (m, r, w)
''', stub=True)

bug('history_appended', 'P30',
    [['evolution.py', "                    with open(os.path.join(self.folder, \"evolution.txt\"), \"wb\") as f:\n                        self.data.savetxt(f)\n                    if self.kawano:\n                        with open(os.path.join(self.folder, \"kawano.txt\"), \"wb\") as f:",
      "                    with open(os.path.join(self.folder, \"evolution.txt\"), \"wb\") as f:\n                        self.data.savetxt(f)\n                    if self.kawano:\n                        with open(os.path.join(self.folder, \"kawano.txt\"), \"ab\") as f:"]],
    'a run with the nuclear-code table set up that reaches two periodic exports', 'the periodic export repeats the earlier rows of the table',
    '''
import tempfile, shutil, os, sys
import evolution
from types import SimpleNamespace as N
d = tempfile.mkdtemp()
try:
    U = evolution.Universe.__new__(evolution.Universe)
    U.particles = []; U.interactions = []; U.folder = d; U.step = 1; U.export_freq = 3
    U.params = N(T=8.5, rho=1., init_time=lambda r: None)
    U.fraction = 0.
    rows = []
    class Table:
        def savetxt(self, f): f.write(''.join('%d\\n' % i for i in range(len(rows))).encode())
    U.data = U.kawano_data = Table(); U.kawano = True
    U.log = lambda: None
    U.save_params = lambda: None
    U.total_energy_density = lambda: 1.
    def step(): U.params.T -= 1.
    U.make_step = step
    U.save = lambda: rows.append(0)
    U.evolve(0.5, export=False)
    for n in ('evolution.txt', 'kawano.txt'):
        got = open(os.path.join(d, n)).read().split()
        assert got == [str(i) for i in range(len(got))] and len(got) == 8, (n, got)
finally:
    shutil.rmtree(d)
''', stub=True)

bug('kaon_short_states', 'P32',
    [['library/SM.py', "            'name': 'Kaon short',\n            'symbol': 'K0S',\n            'statistics': STATISTICS.BOSON,\n            'mass': 497.611 * UNITS.MeV,\n            'dof': 1,\n            'majorana': True,",
      "            'name': 'Kaon short',\n            'symbol': 'K0S',\n            'statistics': STATISTICS.BOSON,\n            'mass': 497.611 * UNITS.MeV,\n            'dof': 2,\n            'majorana': True,"]],
    'short-lived kaons', 'a spinless particle that is its own antiparticle has two states',
    '''
from library import SM
h = SM.particles.hadrons
for n in dir(h):
    p = getattr(h, n)
    if isinstance(p, dict) and p.get('type') == 'scalar':
        assert p['dof'] == (1 if p['majorana'] else 2), p['name']
''', stub=True)

bug('interference_mixing', 'P33',
    [['library/NuMSM.py', "        self.K2 *= self.theta**2\n", "        self.K2 *= self.theta\n"]],
    'a mixing angle other than one and a reaction with an interference term', 'the interference term is suppressed by one power of the mixing only',
    '''
from library.NuMSM import SterileM
from library.SM import WeakM
for t in (1., .1, 1e-3):
    a, b = SterileM(theta=t, K1=2., K2=3., order=(0, 1, 2, 3)), WeakM(K1=2., K2=3., order=(0, 1, 2, 3))
    assert abs(a.K1 / b.K1 / t**2 - 1) < 1e-9 and abs(a.K2 / b.K2 / t**2 - 1) < 1e-9, (t, a.K2 / b.K2)
''', stub=True)

bug('charged_mesons_of_first_lepton', 'P33',
    [['library/NuMSM.py', "                            inters += cls.charged_vector_meson(theta=thetas[lepton.flavour],", "                            inters += cls.charged_vector_meson(theta=thetas[leptons[0].flavour],"]],
    'mixing with a flavour other than that of the first charged lepton', 'decays to rho mesons carry the mixing with the first lepton',
    '''
from common import UNITS
from particles import Particle
from library import SM
from library.NuMSM import particles as NP, interactions as NI
L = [Particle(**SM.particles.leptons.electron), Particle(**SM.particles.leptons.muon)]
V = [Particle(**SM.particles.leptons.neutrino_e), Particle(**SM.particles.leptons.neutrino_mu)]
rho = Particle(**SM.particles.hadrons.charged_rho)
N = Particle(**NP.dirac_sterile_neutrino(mass=1500 * UNITS.MeV, mixing_angle=1e-3))
def K(te, tm):
    r = {}
    for i in NI.sterile_hadrons_interactions(thetas={'electron': te, 'muon': tm, 'tau': 0.}, sterile=N, neutrinos=V, leptons=L, mesons=[rho]):
        r[i.particles[1][0].name] = i.Ms[0].K
    return r
a, b = K(1e-3, 1e-3), K(1e-3, 5e-3)
assert abs(b['Electron'] / a['Electron'] - 1) < 1e-9 and abs(b['Muon'] / a['Muon'] / 25. - 1) < 1e-9, (a, b)
''', stub=True)

bug('kaon_pair_of_kaons', 'P34',
    [['library/SM.py', "parts=[kaon_long, charged_pion, muon, neutrino_mu],\n                                                    antiparts=[False, True, False, True],", "parts=[kaon_long, charged_pion, muon, neutrino_mu],\n                                                    antiparts=[False, False, False, True],"]],
    'long-lived kaons', 'the semileptonic decay to muons creates two negative particles from a neutral one',
    '''
from common import UNITS
from particles import Particle
from library import SM
H = SM.particles.hadrons
ps = {k: Particle(**getattr(H, k)) for k in dir(H) if isinstance(getattr(H, k), dict)}
M = [ps[k] for k in ps if 'type' in vars(ps[k])]
L = [Particle(**SM.particles.leptons.electron), Particle(**SM.particles.leptons.muon)]
V = [Particle(**SM.particles.leptons.neutrino_e), Particle(**SM.particles.leptons.neutrino_mu)]
for m in ('phi', 'omega', 'kaon_short', 'kaon_long', 'charged_kaon', 'eta_prime', 'charged_rho'):
    for i in SM.interactions.meson_interactions(primary_mesons=[ps[m]], mesons=M, leptons=L, neutrinos=V, photon=[Particle(**SM.particles.photon)], muon_tau=[False]):
        q = [sum(-p.Q if a else p.Q for p, a in zip(x, y)) for x, y in zip(i.particles, i.antiparticles)]
        assert abs(q[0] - q[1]) < 1e-9, (m, i.name, [[p.name for p in x] for x in i.particles], q)
''', stub=True)

bug('second_phi_channel', 'P34',
    [['library/SM.py', "            # This meson may already decay, as a decay product of another one\n            if already_there(inters, meson.name):\n                continue\n",
      "            # This meson may already decay, as a decay product of another one\n            if already_there(inters[:1], meson.name):\n                continue\n"]],
    'primary mesons that are also later decay products of another primary meson', 'the decays of a meson are listed twice',
    '''
from collections import Counter
from particles import Particle
from library import SM
H = SM.particles.hadrons
ps = {k: Particle(**getattr(H, k)) for k in dir(H) if isinstance(getattr(H, k), dict)}
M = [ps[k] for k in ps if 'type' in vars(ps[k])]
L = [Particle(**SM.particles.leptons.electron), Particle(**SM.particles.leptons.muon)]
V = [Particle(**SM.particles.leptons.neutrino_e), Particle(**SM.particles.leptons.neutrino_mu)]
for first in (['eta_prime', 'eta', 'neutral_rho'], ['phi', 'kaon_short', 'neutral_pion'], ['omega', 'charged_pion']):
    I = SM.interactions.meson_interactions(primary_mesons=[ps[k] for k in first], mesons=M, leptons=L, neutrinos=V, photon=[Particle(**SM.particles.photon)], muon_tau=[False])
    n = Counter(tuple(tuple((p.name, a) for p, a in zip(x, y)) for x, y in zip(i.particles, i.antiparticles)) for i in I if len(i.particles[0]) == 1)
    assert max(n.values()) == 1, [k for k in n if n[k] > 1]
''', stub=True)


bug('previous_distribution_view', 'P39',
    [['particles/__init__.py', "            self.old_distribution = self._distribution.copy()\n            self._distribution += self.collision_integral * self.params.h\n",
      "            self.old_distribution = self._distribution[:]\n            self._distribution += self.collision_integral * self.params.h\n"]],
    'a decoupled species with collisions, whose previous distribution is read after the step', 'the previous distribution is the new one: it shares memory with the array that is advanced',
    '''
import numpy
from common import UNITS, Params
from particles import Particle
P = Params(T=2. * UNITS.MeV, dy=0.05)
p = Particle(name='x', mass=0., decoupling_temperature=3. * UNITS.MeV)
p.set_params(P)
before = p._distribution.copy()
p.collision_integral = numpy.ones(len(before))
p.update_distribution()
assert (p.old_distribution == before).all()
assert (p._distribution > before).all()
''', stub=True)

bug('decay_cutoff_view', 'P39',
    [['common/kinematics.py', "    slice_1 = grid[:upper_element_grid + 1]\n    slice_2 = [0] * (len(grid[upper_element_grid:]) - 1)\n\n    return np.array(slice_1), slice_2\n\ndef grid_cutoff_4p",
      "    slice_1 = grid[:upper_element_grid + 1]\n    slice_2 = [0] * (len(grid[upper_element_grid:]) - 1)\n\n    return slice_1, slice_2\n\ndef grid_cutoff_4p"],
     ['common/kinematics.py', "        slice_1, slice_2 = four_particle_grid_cutoff_decay(interaction.particle)\n        ps = slice_1 / interaction.particle.params.aT\n",
      "        slice_1, slice_2 = four_particle_grid_cutoff_decay(interaction.particle)\n        ps = slice_1\n        ps /= interaction.particle.params.aT\n"]],
    'decay reactions after the product of scale factor and temperature has moved away from one', 'computing the collisions of a decaying species rescales its momentum grid',
    '''
import numpy
from types import SimpleNamespace as N
from common import UNITS, LinearSpacedGrid, kinematics as K
g = LinearSpacedGrid(MOMENTUM_SAMPLES=20, MAX_MOMENTUM=10. * UNITS.MeV)
before = g.TEMPLATE.copy()
p = N(grid=g, name='x', params=N(aT=1.2 * UNITS.MeV), conformal_mass=1.)
i = N(reaction=[N(side=-1), N(side=1), N(side=1), N(side=1)], particle=p)
first = K.grid_cutoff_4p(i)[0].copy()
assert (g.TEMPLATE == before).all()
assert (K.grid_cutoff_4p(i)[0] == first).all()
assert numpy.allclose(first * p.params.aT, before)
''', stub=True)

bug('mixed_in_place', 'P39',
    [['evolution.py', "                    A.collision_integral = sum(pattern[(A.flavour, B.flavour)] * integrals[B.flavour]\n                                               for B in particles)\n",
      "                    A.collision_integral[:] = sum(pattern[(A.flavour, B.flavour)] * integrals[B.flavour]\n                                                  for B in particles)\n"]],
    'oscillating species with different collision rates', 'a species mixes with the already mixed rates of those before it, since the saved rates share memory',
    '''
import numpy
import evolution
from types import SimpleNamespace as N
U = evolution.Universe.__new__(evolution.Universe)
rng = numpy.random.RandomState(1)
ps = [N(flavour=f, collision_integral=rng.rand(5), decoupling_temperature=5., update_distribution=lambda: None) for f in 'abc']
old = [p.collision_integral.copy() for p in ps]
U.params = N(T=1.)
U.particles = ps
pattern = {(a.flavour, b.flavour): (0.5 if a is b else 0.25) for a in ps for b in ps}
U.oscillations = (pattern, ps)
U.oscillation_parameters = lambda: None
U.update_distributions()
for i, p in enumerate(ps):
    assert numpy.allclose(p.collision_integral, sum((0.5 if i == j else 0.25) * old[j] for j in range(3))), p.flavour
''', stub=True)


def main():
    S = os.path.join(H, 'seeded')
    for id, prop, edits, needs, breaks, demo, stub in B:
        if edits[0][1] is None:
            continue
        d = os.path.join(S, id)
        os.makedirs(d, exist_ok=True)
        json.dump(edits, open(os.path.join(d, 'edit.json'), 'w'), indent=1)
        json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(os.path.join(d, 'meta.json'), 'w'), indent=1)
        if isinstance(stub, str):
            for f in ('pybind11_stub.h', 'gsl_stub.h'):
                shutil.copy(os.path.join(H, 'tools', 'stub', f), d)
            open(os.path.join(d, 'demo.cpp'), 'w').write(demo)
            open(os.path.join(d, 'demo.sh'), 'w').write(open(os.path.join(H, 'tools', 'stub', 'cxxdemo.sh')).read().replace('WHICH', stub))
            continue
        head = 'import os, sys\nsys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))\nimport cppstub\n' if stub else \
            'import os, sys, warnings\nwarnings.simplefilter("ignore")\nsys.dont_write_bytecode = True\nsys.path.insert(0, os.getcwd())\n'
        open(os.path.join(d, 'demo.py'), 'w').write(head + demo.lstrip('\n'))
        open(os.path.join(d, 'demo.sh'), 'w').write('#!/bin/bash\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
        if stub:
            shutil.copy(os.path.join(H, 'tools', 'stub', 'cppstub.py'), d)


main()

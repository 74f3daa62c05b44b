"""Repository-specific typing facts and the initial analysis state."""
import ast
from . import terms as T
from .terms import atom, Unk
from .values import *
from . import values as VV
from . import interp as I
from . import lib
from .interp import Interp, Program, attr_atom

PARTICLE = 'particles.DistributionParticle'
I.ATTR_CLS.update({
    'params': 'common.Params',
    'specie': PARTICLE, 'particle': PARTICLE,
})
I.ELEM_CLS.update({
    'particles': PARTICLE, 'oscillation_particles': PARTICLE,
    'reaction': 'interactions.IntegralItem',
})
T.SIGNED.update({'eta', 'collision_integral', 'side', 'Q', 'fraction', 'sumsides', 'K1', 'K2', 'nan', 'eV_', 'flavour', 'mu'})
VV.STRICT.update({'eV', 'pi', 'a', 'aT', 'm', 'x', 'H', 'T', 'dof', 'lifetime', 'a_ini', 'C0', 'C'})


def unit_hook(it, cls):
    it.st.attrs[(cls.key, 'eV', None)] = Num(T.sym('eV'))


I.CLASS_HOOKS['common.UNITS'] = unit_hook

KINDS = {}


def cpp_stub(modname):
    def f(it, name):
        if name == 'CollisionIntegralKind':
            return ModV('CollisionIntegralKind', True)
        return Builtin('cpp.' + name)
    return f


I.STUBBED['interactions.four_particle.cpp.integral'] = cpp_stub('4')
I.STUBBED['interactions.three_particle.cpp.integral'] = cpp_stub('3')


def env_get(it, args, kw, node):
    n = args[0]
    if isinstance(n, K):
        if n.v in it.cfg:
            return it.cfg[n.v]
        return cfg_value(n.v)
    return SymV(atom('fn', 'env', it.freeze(n)))


def cfg_value(name):
    return SymV(atom('cfgv', K(name)))


def statistics_eq(it, base):
    st = SymV(attr_atom(base, 'statistics'))
    return eq_values(st, it.fermi)


def d_eta(it, base):
    if it.fermi is None:
        return None
    return ite(statistics_eq(it, base), num(1), num(-1))


def d_eqf(it, base):
    if it.fermi is None:
        return None
    return ite(statistics_eq(it, base), it.fermi, it.bose)


def d_bounds(it, base):
    """a grid's bounds are its end points (P23 decides it where grids are built)"""
    if it.fermi is None:
        return None
    return Seq([Part(SymV(attr_atom(base, 'MIN_MOMENTUM'))), Part(SymV(attr_atom(base, 'MAX_MOMENTUM')))], 'tuple')


I.DERIVED['BOUNDS'] = d_bounds
I.DERIVED['eta'] = d_eta
I.DERIVED['equilibrium_distribution_function'] = d_eqf

ALLMODS = ['environment', 'common', 'common.statistics', 'common.utils', 'common.integrators',
           'common.integrators.gauss_legendre', 'common.integrators.gauss_laguerre', 'common.kinematics', 'particles',
           'particles.RadiationParticle', 'particles.DustParticle', 'particles.IntermediateParticle',
           'particles.NonEqParticle', 'interactions', 'interactions.boltzmann', 'interactions.three_particle',
           'interactions.four_particle', 'library', 'library.SM', 'library.NuMSM', 'kawano', 'evolution', 'semianalytic']


_base = None


class LoadError(Exception):
    pass


def load(prims=None, uninterpreted=(), modules=ALLMODS, cfg=None):
    """fresh interpreter with every module's top level analysed"""
    it = Interp(Program(), prims={'environment.get': env_get}, uninterpreted=())
    it.fermi = it.bose = None
    it.cfg = dict(cfg or {})
    for m in modules:
        try:
            if it.module(m) is None:
                it.notes.append('module %s not found' % m)
        except Unk as e:
            it.notes.append('module %s: %s' % (m, e))
            raise
        if m == 'common.statistics':
            it.fermi = it.modget(m, 'FERMION')
            it.bose = it.modget(m, 'BOSON')
            VV.ENUM2[it.bose.key] = ((it.fermi.key, it.fermi), (it.bose.key, it.bose))
    it.prims.update(prims or {})
    it.uninterpreted |= set(uninterpreted)
    return it


def obj(it, name, qual=None):
    return SymV(atom('sym', name), it.cls_by_qual(qual) if qual else None)


def S(name):
    return SymV(atom('sym', name))

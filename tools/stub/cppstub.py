"""Stand-ins for the compiled extension modules (not built here)."""
import os, sys, types, enum
import numpy
sys.path.insert(0, os.getcwd())
sys.dont_write_bytecode = True
import warnings
warnings.simplefilter('ignore')


class CollisionIntegralKind(enum.IntEnum):
    Full = 0
    F_1 = 1
    F_f = 2
    Full_vacuum_decay = 3
    F_1_vacuum_decay = 4
    F_f_vacuum_decay = 5
    F_creation = 6
    F_decay = 7


def mk(name, **kw):
    m = types.ModuleType(name)
    m.__dict__.update(kw)
    sys.modules[name] = m


class Rec(object):
    def __init__(self, *a, **k):
        self.args = a
        self.__dict__.update(k)


def distribution_interpolation(grid, distribution, p, m=0., eta=1, T=1., in_equilibrium=False):
    return numpy.interp(p, grid, distribution)


mk('interactions.four_particle.cpp.integral', CollisionIntegralKind=CollisionIntegralKind, integration=lambda ps, *a: [0.] * len(ps),
   M_t=Rec, grid_t=Rec, particle_t=Rec, reaction_t=Rec, distribution_interpolation=distribution_interpolation, binary_find=None)
mk('interactions.three_particle.cpp.integral', integration_3=lambda ps, *a: [0.] * len(ps), grid_t3=Rec, particle_t3=Rec, reaction_t3=Rec, integration=lambda ps, *a: [0.] * len(ps), M_t=Rec, grid_t=Rec, particle_t=Rec,
   reaction_t=Rec)

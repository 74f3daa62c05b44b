from .lib import *
from sa import interp as I_
TECHNIQUE = TECH
KN = 'common.kinematics.'
I_.WHOLE_ARRAYS.add('rescaled')


def star(n, *a):
    return Seq([Part(SymV(atom('fn', n, *a)), star=True)], 'list')


def p_cut4(it, args, kw, node):
    i = args[0]
    return tup(SymV(atom('fn', 'points', i)), SymV(atom('fn', 'momenta', i)), star('beyond', i))


def p_cut3(it, args, kw, node):
    i, ps = args[0], it.freeze(args[1] if len(args) > 1 else kw['ps'])
    return ite(cond_atom('nothing inside', i), FALSE, tup(SymV(atom('fn', 'points', i, ps)), star('below', i), star('above', i)))


def p_scaling(it, args, kw, node):
    names = ('interaction', 'fullstack', 'constant')
    v = list(args) + [kw[n] for n in names[len(args):]]
    v = [it.freeze(x) for x in v]
    return ite(cond_atom('nothing created', v[0]), FALSE, L.lifted(lambda *a: SymV(atom('fn', 'rescaled', *a)), *v))


def p_return(it, args, kw, node):
    return SymV(atom('fn', 'zeros of the shape of', args[0]))


def check(C, tier):
    B = 'interactions.'
    it = C.load()
    F, T3 = B + 'four_particle.FourParticleIntegral', B + 'three_particle.ThreeParticleIntegral'
    i4, i3 = obj(it, 'integral', F), obj(it, 'integral', T3)
    C.func('initialize-4p', it, B + 'four_particle:FourParticleIntegral.initialize', 'specs.collision:initialize_4p', [i4], tr=effects('append'),
           attrs=('grids', 'creaction', 'cMs', 'collision_integrals'))
    C.func('initialize-3p', it, B + 'three_particle:ThreeParticleIntegral.initialize', 'specs.collision:initialize_3p', [i3], tr=effects('append'),
           attrs=('grids', 'par', 'collision_integrals'))
    it = C.load(prims={KN + 'grid_cutoff_4p': p_cut4, KN + 'grid_cutoff_3p': p_cut3, KN + 'scaling': p_scaling, KN + 'return_function': p_return},
                uninterpreted=[KN + x for x in ('Neglect3pInteraction', 'Neglect4pInteraction', 'CollisionMultiplier3p',
                                                'CollisionMultiplier4p', 'interpolation_4p', 'store_energy')] + [D + 'distribution'])
    it.cpp_ignored = frozenset(['stepsize'])
    i4, i3 = obj(it, 'integral', F), obj(it, 'integral', T3)
    h = S('h')
    C.func('integrate-4p', it, B + 'four_particle:FourParticleIntegral.integrate', 'specs.collision:integrate_4p', [i4, S('ps'), h],
           setup=('specs.collision:fresh', [i4]), attrs=(), tr=effects('store_energy'))
    C.func('integrate-3p', it, B + 'three_particle:ThreeParticleIntegral.integrate', 'specs.collision:integrate_3p', [i3, S('ps'), h],
           setup=('specs.collision:fresh_3p', [i3]), attrs=())

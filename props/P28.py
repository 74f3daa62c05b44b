from .lib import *
TECHNIQUE = TECH


def check(C, tier):
    it = C.load()
    Kq, Sq = 'common.kinematics:', 'specs.kinematics:'
    I = obj(it, 'interaction', 'interactions.boltzmann.BoltzmannIntegral')
    ps = S('ps')
    for f, n in [('Neglect3pInteraction', 3), ('Neglect4pInteraction', 4), ('CollisionMultiplier4p', 4), ('CollisionMultiplier3p', 3)]:
        C.func(f, it, Kq + f, Sq + f, [I, ps] if f.startswith('Neg') else [I], setup=('specs.kinematics:with_reaction', [I, items(it, n)]))
    C.func('return_function', it, Kq + 'return_function', Sq + 'return_function', [I, ps])

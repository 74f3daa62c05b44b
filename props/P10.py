from .lib import *
TECHNIQUE = TECH


def check(C, tier):
    it = C.load()
    hist = lambda n: seq(*[S('f%d' % i) for i in range(n)])
    q = 'common.integrators:adams_moulton_solver'
    s = 'specs.integrators:adams_moulton_solver'
    top = 7 if tier == 'quick' else 13
    for n in range(0, top):
        C.func('am-len%d' % n, it, q, s, [S('y'), hist(n), S('A'), S('B'), S('h')])
        for o in range(1, min(5, n + 1) + 1):
            C.func('am-len%d-order%d' % (n, o), it, q, s, [S('y'), hist(n), S('A'), S('B'), S('h'), num(o)])
    C.func('implicit-euler', it, 'common.integrators:implicit_euler', 'specs.integrators:implicit_euler', [S('y'), S('t'), S('A'), S('B'), S('h')])
    it = C.load(uninterpreted=[D + 'distribution', 'common.kinematics.has_decayed', 'common.kinematics.Icoll_fast_decay',
                               'common.integrators.adams_moulton_solver'])
    p = obj(it, 'particle', PARTICLE)
    C.func('collision-rate', it, 'particles:DistributionParticle.calculate_collision_integral',
           'specs.particle:calculate_collision_integral', [p, S('ps')])
    C.func('grid', it, 'particles:DistributionParticle.integrate_collisions', 'specs.particle:integrate_collisions', [p])
    C.func('distribution-step', it, 'particles:DistributionParticle.update_distribution',
           'specs.particle:update_distribution', [p], tr=effects('append'))

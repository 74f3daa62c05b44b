from .lib import *
TECHNIQUE = TECH
CH = 'interactions.three_particle.ThreeParticleIntegral'


def p_integrate(it_, args, kw, node):
    """gain and loss of one reaction, functions of momentum"""
    o = args[0]
    return tup(SymV(atom('attr', o.a, 'gain')), SymV(atom('attr', o.a, 'loss')))


def p_thermal(it_, args, kw, node):
    m = it_.freeze(kw.get('conf_mass', args[1] if len(args) > 1 else NONE))
    return SymV(atom('attr', atom('fn', 'thermal', args[0], m), 'gain'))


def check(C, tier):
    it = C.load(prims={CH + '.integrate': p_integrate, D + 'equilibrium_distribution': p_thermal})
    p = obj(it, 'particle', PARTICLE)
    C.func('has-decayed', it, 'common.kinematics:has_decayed', 'specs.decay:has_decayed', [p, S('ps')])
    ch = [obj(it, 'channel', CH)]
    C.func('one-channel', it, 'common.kinematics:Icoll_fast_decay', 'specs.decay:fast_decay', [p, S('ps')], attrs=('num_creation', '_distribution'),
           setup=('specs.decay:with_channels', [p, seq(*ch)]), assume=C.run(it, 'specs.decay:known', [seq(*ch)]).ret)
    for n in range(2, 3 if tier == 'quick' else 4):
        for thermal, redistributed in ((TRUE, FALSE), (FALSE, TRUE)) + (() if tier == 'quick' else ((TRUE, TRUE), (FALSE, FALSE))):
            ch = [obj(it, 'channel%d' % i, CH) for i in range(n)]
            rs = [seq(*[obj(it, 'item%d%d' % (i, j), 'interactions.IntegralItem') for j in range(3)]) for i in range(n)]
            st = ('specs.decay:two_body', [p, seq(*ch), seq(*rs), thermal, redistributed])
            base = it.st
            it.st = base.copy()
            C.prepare(it, st)
            ok = C.run(it, 'specs.decay:known', [seq(*ch)]).ret
            it.st = base
            C.func('channels-%d%s%s' % (n, '-thermal' if thermal.v else '', '-redistributed' if redistributed.v else ''), it,
                   'common.kinematics:Icoll_fast_decay', 'specs.decay:fast_decay', [p, S('ps')], setup=st, assume=ok,
                   attrs=('num_creation', '_distribution'))
    i = obj(it, 'interaction', CH)
    C.func('products', it, 'common.kinematics:scaling', 'specs.decay:scaling', [i, S('fullstack.gain'), S('constant')])

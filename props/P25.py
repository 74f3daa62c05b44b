from .lib import *
TECHNIQUE = TECH


def check(C, tier):
    it = C.load()
    P = lambda n: obj(it, n, 'common.Params')
    C.func('universe', it, 'specs.outputs:built', 'specs.outputs:built_required', [NONE, P('params')], attrs=(),
           where='evolution:Universe.__init__')
    C.func('second-universe', it, 'specs.outputs:second', 'specs.outputs:second_required',
           [P('params'), P('other'), seq(S('s1')), seq(S('i1')), S('monitor'), S('electron'), S('neutrino'), S('pattern')], attrs=(),
           where='evolution:Universe.__init__')
    for n, w in (('particle', 'particles:AbstractParticle.__init__'), ('defaults', 'particles:AbstractParticle._defaults'),
                 ('table', 'library.SM:particles'), ('element', 'interactions.four_particle:FourParticleM')):
        C.func('second-' + n, it, 'specs.isolation:%s_after' % n, 'specs.isolation:' + n, [S('value'), S('grid'), S('other')], attrs=(), where=w)

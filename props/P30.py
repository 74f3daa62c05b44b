from .lib import *
TECHNIQUE = TECH
EFF = effects('update', 'save_params', 'init_time', 'make_step', 'save', 'export', 'savetxt', 'close', 'run', 'write', 'init_kawano')


def check(C, tier):
    it = C.load(uninterpreted=[U + x for x in ('make_step', 'save', 'save_params', 'total_energy_density', 'total_entropy')]
                + ['common.Params.update', 'common.Params.init_time', 'kawano.run', 'kawano.baryonic_rates'])
    u = obj(it, 'universe', 'evolution.Universe')
    for flags in ([], [FALSE]):
        C.func('evolve-%d' % len(flags), it, 'evolution:Universe.evolve', 'specs.outputs:evolve', [u, S('T_final')] + flags, tr=EFF)
    for k in ('with', 'without'):
        C.func('export-%s-kawano' % k, it, 'evolution:Universe.export', 'specs.outputs:export', [u], tr=EFF, ret=False,
               setup=('specs.outputs:%s_kawano' % k, [u]))
    it = C.load(uninterpreted=['kawano.init_kawano', U + 'init_log'])
    u = obj(it, 'universe', 'evolution.Universe')
    C.func('init-kawano', it, 'evolution:Universe.init_kawano', 'specs.outputs:init_kawano', [u], tr=EFF, ret=False, attrs=('kawano_log',))
    C.func('built', it, 'specs.outputs:built', 'specs.outputs:built_required', [S('folder'), obj(it, 'params', 'common.Params')], attrs=())
    it = C.load()
    u = obj(it, 'universe', 'evolution.Universe')
    C.func('kawano-table', it, 'specs.outputs:kawano_state', 'specs.outputs:kawano_state_required', [NONE, u, S('electron'), S('neutrino')], attrs=())
    for n, q in (('rec', 'DynamicRecArray'), ('array', 'Dynamic2DArray')):
        t = obj(it, 'table', 'common.utils.' + q)
        C.func(n + '-savetxt', it, 'common.utils:%s.savetxt' % q, 'specs.outputs:%s_savetxt' % n, [t, S('f')],
               tr=effects('numpy.savetxt'))
    C.func('species-table', it, 'specs.outputs:species_table', 'specs.outputs:species_table_required', [S('grid')], attrs=(),
           where='particles:AbstractParticle.__init__')
    C.func('kawano-units', it, 'specs.outputs:kawano_units', 'specs.outputs:kawano_units_required', [], attrs=(), where='kawano:heading')

from .lib import *
TECHNIQUE = TECH


def check(C, tier):
    it = C.load(uninterpreted=[D + x for x in ('update', 'integrate_collisions', 'update_distribution', 'set_params')]
                + ['common.integrators.adams_bashforth_correction', 'common.Params.update', 'common.Params.init_time'])
    u = obj(it, 'universe', 'evolution.Universe')
    st = ('specs.state:consistent', [it.getattr(u, 'params')])
    for f, a in (('integrand', [S('t'), S('y')]), ('update_distributions', []), ('make_step', [])):
        C.func(f, it, 'evolution:Universe.' + f, 'specs.universe:' + f, [u] + a, tr=STEP_EFFECTS, setup=st)
    C.func('save_params', it, 'evolution:Universe.save_params', 'specs.universe:save_params', [u], tr=STEP_EFFECTS, setup=st)
    it = C.load(uninterpreted=[U + x for x in ('make_step', 'save', 'save_params', 'export', 'total_energy_density', 'total_entropy')]
                + ['common.Params.update', 'common.Params.init_time'])
    u = obj(it, 'universe', 'evolution.Universe')
    for flags in ([], [FALSE], [FALSE, FALSE], [TRUE, FALSE]):
        C.func('evolve-%d-%s' % (len(flags), flags[0].key if flags else ''), it, 'evolution:Universe.evolve', 'specs.universe:evolve',
               [u, S('T_final')] + flags, tr=STEP_EFFECTS)

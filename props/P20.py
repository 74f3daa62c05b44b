from .lib import *
TECHNIQUE = TECH


def check(C, tier):
    it = C.load()
    where = 'library.SM:particles.leptons.oscillations_map'
    for name, a in (('matter', [S('V12'), S('V13'), TRUE]), ('vacuum', [num(0), num(0), FALSE])):
        C.func('pattern-' + name, it, 'specs.mixing:probabilities_code', 'specs.mixing:probabilities', a, where=where)
        C.func('stochastic-' + name, it, 'specs.mixing:rows', 'specs.mixing:ones', a, where=where)
    u = obj(it, 'universe', 'evolution.Universe')
    C.func('matter-parameters', it, 'evolution:Universe.oscillation_parameters', 'specs.universe:oscillation_parameters', [u])
    it = C.load(uninterpreted=[U + 'oscillation_parameters'])
    u = obj(it, 'universe', 'evolution.Universe')
    C.func('init', it, 'evolution:Universe.init_oscillations', 'specs.mixing:init_oscillations', [u, S('pattern'), S('species'), S('matter')],
           tr=effects('oscillation_parameters'))
    C.func('init-default', it, 'evolution:Universe.init_oscillations', 'specs.mixing:init_oscillations', [u, S('pattern'), S('species'), TRUE],
           cargs=[u, S('pattern'), S('species')], tr=effects('oscillation_parameters'))
    it = C.load(uninterpreted=[U + 'oscillation_parameters', D + 'update_distribution'])
    u = obj(it, 'universe', 'evolution.Universe')
    C.func('mixing', it, 'evolution:Universe.update_distributions', 'specs.universe:update_distributions', [u], tr=STEP_EFFECTS)

from .lib import *
TECHNIQUE = TECH


def check(C, tier):
    it = C.load(prims=QUAD, uninterpreted=[D + 'distribution'])
    p = obj(it, 'particle', PARTICLE)
    for q in ['regime', 'in_equilibrium', 'conformal_mass']:
        C.values(q, 'particles:AbstractParticle.' + q, it, lambda: it.getattr(p, q), lambda: C.run(it, 'specs.thermo:' + q, [p]).ret)
    C.func('conformal-energy', it, 'particles:AbstractParticle.conformal_energy', 'specs.thermo:conformal_energy', [p, S('y')])
    C.func('conformal-energy-mass', it, 'particles:AbstractParticle.conformal_energy', 'specs.thermo:conformal_energy', [p, S('y'), S('M')])
    C.func('energy', it, 'particles:AbstractParticle.energy', 'specs.thermo:particle_energy', [p, S('k')])
    # which functions serve which regime
    C.func('methods-of-regime', it, 'specs.particle:methods_of_regime_code', 'specs.particle:methods_of_regime', [p], attrs=(),
           where='particles:AbstractParticle.populate_methods')
    C.func('constructor', it, 'specs.particle:constructed', 'specs.particle:constructed_required',
           [S('mass'), S('Td'), S('dof'), it.fermi, S('grid'), S('thermal_dyn')], where='particles:AbstractParticle.__init__')
    C.func('constructor-boson', it, 'specs.particle:constructed', 'specs.particle:constructed_required',
           [S('mass'), S('Td'), S('dof'), it.bose, S('grid'), S('thermal_dyn')], where='particles:AbstractParticle.__init__')
    C.func('constructor-defaults', it, 'specs.particle:defaults', 'specs.particle:defaults_required', [], where='particles:AbstractParticle.__init__')

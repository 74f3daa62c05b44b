from .lib import *
TECHNIQUE = TECH


def check(C, tier):
    it = C.load()
    p = obj(it, 'params', 'common.Params')
    u = obj(it, 'universe', 'evolution.Universe')
    C.func('update', it, 'common:Params.update', 'specs.cosmology:update', [p, S('rho'), S('entropy')])
    C.func('infer', it, 'common:Params.infer', 'specs.cosmology:infer', [p])
    C.func('init-time', it, 'common:Params.init_time', 'specs.cosmology:init_time', [p, S('rho')])
    names = ['a', 'a_ini', 'm', 'T', 'x', 'aT', 't', 'y', 'dx', 'dy', 'h']
    for log in (True, False):
        it = C.load(cfg={'LOGARITHMIC_TIMESTEP': K(log)})
        for given in ('none', 'x', 'y', 'both'):
            C.func('step-required-%s-%s' % ('log' if log else 'lin', given), it, 'specs.cosmology:started_code', 'specs.cosmology:started',
                   [K(given), S('T0'), S('y0'), S('x0')], where='common:Params.__init__', attrs=())
        for variant in ((), ('m',), ('m', 't')):
            kw = {'T': S('T0'), ('dy' if log else 'dx'): S('step0')}
            for v in variant:
                kw[v] = S(v + '0')

            def code():
                o = C.run(it, 'common:Params', [], kw)
                return tup(*[o.attr(o.ret, n) for n in names])

            def spec():
                MeV = it.getattr(it.modget('common', 'UNITS'), 'MeV')
                return C.run(it, 'specs.cosmology:init', [
                    kw.get('m', MeV), kw['T'], kw.get('dy', num(0.05)), kw.get('dx', NONE), kw.get('t', num(0)), K(log)]).ret
            C.values('initial-%s-%s' % ('log' if log else 'lin', '-'.join(variant) or 'T'), 'common:Params.__init__', it, code, spec)
    it = C.load()
    u = obj(it, 'universe', 'evolution.Universe')
    C.func('total-energy', it, 'evolution:Universe.total_energy_density', 'specs.universe:total_energy_density', [u])
    C.func('total-entropy', it, 'evolution:Universe.total_entropy', 'specs.universe:total_entropy', [u])
    C.func('entropic-dof', it, 'common:Params.entropic_dof_eq', 'specs.cosmology:entropic_dof_eq', [u])

from .lib import *
TECHNIQUE = TECH


def check(C, tier):
    it = C.load(prims=QUAD, uninterpreted=[D + 'distribution'])
    e, n = obj(it, 'electron', PARTICLE), obj(it, 'neutrino', PARTICLE)
    st = ('specs.export:init_kawano_code', [e, n])
    C.func('rates', it, 'kawano:baryonic_rates', 'specs.export:baryonic_rates', [S('a0')], setup=st, attrs=())
    C.func('species', it, 'specs.export:init_kawano_code', 'specs.export:init_kawano', [e, n], where='kawano:init_kawano', attrs=())
    C.func('columns', it, 'specs.export:heading', 'specs.export:heading_required', [], where='kawano:heading')
    C.func('constants', it, 'specs.export:constants', 'specs.export:constants_required', [], where='kawano:q, m_e, T_kawano')
    it = C.load(uninterpreted=[D + x for x in ('update', 'integrate_collisions', 'update_distribution', 'set_params')]
                + ['common.utils.DynamicRecArray.append', 'common.utils.DynamicRecArray.row_repr', U + 'save_params'],
                prims={'kawano.baryonic_rates': lambda it_, args, kw, node: seq(*[SymV(atom('fn', 'rate%d' % i, it_.freeze(args[0]))) for i in range(6)])})
    u = obj(it, 'universe', 'evolution.Universe')
    st = ('specs.state:with_kawano', [u])
    C.func('save', it, 'evolution:Universe.save', 'specs.universe:save', [u], tr=effects('append', 'write', 'save_params'), setup=st)

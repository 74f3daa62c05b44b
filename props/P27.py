from .lib import *
TECHNIQUE = TECH


def check(C, tier):
    it = C.load(uninterpreted=[D + 'update', D + 'set_params', U + 'add_particles', 'common.Params.update'])
    u = obj(it, 'universe', 'evolution.Universe')
    C.func('transition', it, 'evolution:Universe.QCD_transition', 'specs.universe:QCD_transition',
           [u, S('hadrons'), S('quarkic'), S('hadronic'), S('secondary')],
           tr=effects('truncate', 'add_particles', 'update', 'remove', 'append'))
    C.func('species-filter', it, 'common.utils:particle_filter', 'specs.transition:particle_filter', [S('names'), S('particles')])
    for n, f in (('first', TRUE), ('any', FALSE)):
        C.func('reaction-filter-' + n, it, 'common.utils:interaction_filter', 'specs.transition:interaction_filter',
               [S('names'), S('interactions'), f, S('kinds')])
    C.func('reaction-filter-default', it, 'common.utils:interaction_filter', 'specs.transition:interaction_filter',
           [S('names'), S('interactions'), TRUE, seq()], cargs=[S('names'), S('interactions')])
    it = C.load(uninterpreted=[D + 'set_params', 'common.utils.particle_orderer'])
    u = obj(it, 'universe', 'evolution.Universe')
    C.func('add', it, 'evolution:Universe.add_particles', 'specs.transition:add_particles',
           [u, seq(obj(it, 'first', PARTICLE), obj(it, 'second', PARTICLE))], tr=effects('set_params'),
           setup=('specs.state:with_species', [u, obj(it, 'old', PARTICLE)]))
    ordering(C)


def ordering(C):
    """the species of a universe: each once, heaviest first (massless ones in any order)"""
    import itertools
    it = C.load()
    for masses in sorted(set(itertools.permutations((0, 0, 1, 105)))):
        def go(masses=masses):
            ps = [obj(it, 's%d' % i, PARTICLE) for i in range(4)]
            o = C.run(it, 'common.utils:particle_orderer', [seq(*ps)],
                      setup=('specs.transition:with_masses', [seq(*ps), seq(*map(num, masses)), seq(*[K('n%d' % i) for i in range(4)])]))
            if not isinstance(o.ret, Seq) or not o.ret.concrete():
                raise Unk('order of species %s' % o.ret.key[:80])
            got = [[i for i, p in enumerate(ps) if p.key == v.key] for v in o.ret.items()]
            if sorted(got) != [[0], [1], [2], [3]]:
                return ('violated', 'species %s of four' % got, {'masses': masses})
            if any(masses[a[0]] < masses[b[0]] for a, b in zip(got, got[1:])):
                return ('violated', 'order of masses %s' % [masses[a[0]] for a in got], {'masses': masses})
        C.oblige('order-' + '-'.join(map(str, masses)), 'common.utils:particle_orderer', go, 'every species once, heaviest first')

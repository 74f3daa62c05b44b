"""Agreement of the compiled modules with the Python code that calls them."""
import ast
from .cxxlib import *
TECHNIQUE = ('signature analysis across languages: the binding declarations in the clang syntax tree against the required keyword interface and '
             'against every call of the compiled functions in the Python syntax tree')
GRID, PARTICLE_ARGS = ['grid', 'distribution'], ['eta', 'm', 'grid', 'in_equilibrium', 'T']
INTERP = ['grid', 'distribution', 'p', 'm', 'eta', 'T', 'in_equilibrium']
D_ARGS = ['p', 'E', 'm', 'K1', 'K2', 'order', 'sides']
FUNCTIONS = {4: {'integration': ['ps', 'min_1', 'max_1', 'min_2', 'max_2', 'max_3', 'reaction', 'Ms', 'stepsize', 'kind'],
                 'distribution_interpolation': INTERP, 'binary_find': ['grid', 'x'], 'D': D_ARGS, 'Db': D_ARGS},
             3: {'integration_3': ['ps', 'min_1', 'max_1', 'max_2', 'reaction', 'stepsize', 'kind'],
                 'distribution_interpolation': INTERP, 'binary_find': ['grid', 'x']}}
COUNTS = {4: {'D1': 4, 'D2': 4, 'D3': 4, 'Db1': 3, 'Db2': 3}, 3: {}}
CLASSES = {4: {'M_t': ['order', 'K1', 'K2', 'K'], 'grid_t': GRID, 'particle_t': PARTICLE_ARGS, 'reaction_t': ['specie', 'side']},
           3: {'grid_t3': GRID, 'particle_t3': PARTICLE_ARGS, 'reaction_t3': ['specie', 'side']}}
DEFAULTS = {'distribution_interpolation': {'m': 0, 'eta': 1, 'T': 1, 'in_equilibrium': 0}, 'M_t': {'K1': 0, 'K2': 0, 'K': 0}}
KINDS = {'Full', 'F_1', 'F_f', 'Full_vacuum_decay', 'F_1_vacuum_decay', 'F_f_vacuum_decay', 'F_creation', 'F_decay'}
MODULE = {4: 'interactions.four_particle.cpp.integral', 3: 'interactions.three_particle.cpp.integral'}


def interface(d, need, defaults, functions=True):
    names = [a[0] for a in d['args']]
    if sorted(names) != sorted(need):
        return 'arguments %s, required %s' % (names, need)
    if functions and names != need:
        return 'order of the arguments %s, required %s' % (names, need)
    for a in d['args']:
        want = defaults.get(a[0])
        have = default_value(a[2]) if a[1] else None
        if want is not None and not a[1]:
            return 'argument %s has no default' % a[0]
        if want is not None and have is None:
            raise Unk('default of %s' % a[0])
        if want is not None and have != want:
            return 'default of %s is %s, required %s' % (a[0], have, want)
    return None


def check(C, tier):
    its = load(C)
    for w in (4, 3):
        u = unit(w)
        where = ('four' if w == 4 else 'three') + '_particle/cpp/integral.cpp'

        def go(f):
            def g():
                m = f()
                return ('violated', m, None) if m else None
            return g
        for n, need in FUNCTIONS[w].items():
            def f(n=n, need=need, u=u):
                d = u.defs.get(n)
                if d is None:
                    return '%s is not exported' % n
                return interface(d, need, DEFAULTS.get(n, {}))
            C.oblige('%d-%s' % (w, n), where, go(f), 'exported under its name with the documented keyword arguments')
        for n, k in COUNTS[w].items():
            def f(n=n, k=k, u=u):
                d = u.defs.get(n)
                if d is None:
                    return '%s is not exported' % n
                have = len(d['function']['params']) if 'function' in d else k
                return None if have == k else '%s takes %d arguments' % (n, have)
            C.oblige('%d-%s' % (w, n), where, go(f), 'exported under its name')
        for n, need in CLASSES[w].items():
            def f(n=n, need=need, u=u):
                d = u.classes.get(n)
                if d is None:
                    return '%s is not exported' % n
                if len(d['init']) != len(need):
                    return 'constructor of %s takes %d arguments' % (n, len(d['init']))
                return interface(d, need, DEFAULTS.get(n, {}), False)
            C.oblige('%d-%s' % (w, n), where, go(f), 'exported under its name with the documented keyword arguments')

        def f(u=u, w=w):
            d = u.enumdefs.get('CollisionIntegralKind' + ('' if w == 4 else '_3'))
            if d is None:
                return 'the kinds of collision integrals are not exported'
            v = d['values']
            if set(v) != KINDS:
                return 'kinds %s' % sorted(v)
            if None in v.values() or len(set(v.values())) != len(v):
                return 'kinds share a value'
            o = unit(4).enumdefs.get('CollisionIntegralKind', {}).get('values')
            if v != o:
                return 'values %s differ from those of the four-particle module' % v
        C.oblige('%d-kinds' % w, where, go(f), 'the kinds have one value each, the same in both modules')
    for path in python_sources():
        calls(C, path)


def python_sources():
    out = []
    for base, ds, fs in os.walk(REPO):
        ds[:] = [d for d in ds if d not in ('tests', '.git', 'pybind11', 'docs', 'output', '__pycache__', 'utils')]
        out += [os.path.join(base, f) for f in fs if f.endswith('.py')]
    return sorted(out)


def calls(C, path):
    tree = ast.parse(open(path, encoding='utf8').read())
    names, mods = {}, {}
    for n in ast.walk(tree):
        if isinstance(n, ast.ImportFrom) and n.module:
            for w, m in MODULE.items():
                if n.module == m:
                    for a in n.names:
                        names[a.asname or a.name] = (w, a.name)
                elif m.rsplit('.', 1)[0] == n.module:
                    for a in n.names:
                        if a.name == 'integral':
                            mods[a.asname or a.name] = w
    if not names and not mods:
        return
    rel = os.path.relpath(path, REPO)

    def target(f):
        if isinstance(f, ast.Name) and f.id in names:
            return names[f.id]
        if isinstance(f, ast.Attribute) and isinstance(f.value, ast.Name) and f.value.id in mods:
            return mods[f.value.id], f.attr

    def go():
        k = 0
        for w, n in sorted(set(names.values())):
            u = unit(w)
            if n != '*' and n not in u.defs and n not in u.classes and n not in u.enumdefs and n not in ('__doc__',):
                return ('violated', '%s does not export %s' % (MODULE[w], n), None)
        for c in ast.walk(tree):
            if isinstance(c, ast.Attribute):
                t = target(c.value)
                if t and t[1] in unit(t[0]).enumdefs:
                    k += 1
                    if c.attr not in unit(t[0]).enumdefs[t[1]]['values'] and not c.attr.startswith('__'):
                        return ('violated', 'line %d: %s has no member %s' % (c.lineno, t[1], c.attr), None)
            if not isinstance(c, ast.Call):
                continue
            t = target(c.func)
            if not t:
                continue
            u = unit(t[0])
            d = u.defs.get(t[1]) or u.classes.get(t[1])
            if d is None or not d['args']:
                continue
            k += 1
            pos = [a for a in c.args if not isinstance(a, ast.Starred)]
            star = len(pos) < len(c.args)
            kws = [x.arg for x in c.keywords]
            order = [a[0] for a in d['args']]
            if None in kws:
                continue
            bad = [x for x in kws if x not in order]
            if bad:
                return ('violated', 'line %d: %s has no argument %s' % (c.lineno, t[1], bad[0]), None)
            left = [a for a in d['args'] if a[0] not in kws]
            must = len([a for a in left if not a[1]])
            if len(pos) > len(left) or not star and len(pos) < must:
                return ('violated', 'line %d: %s takes %d arguments' % (c.lineno, t[1], len(order)), None)
            if set(order[:len(pos)]) & set(kws):
                return ('violated', 'line %d: argument of %s given twice' % (c.lineno, t[1]), None)
        return ('held', '%d uses' % k, None)
    C.oblige('calls-' + rel, rel, go, 'every use of a compiled name fits its signature')

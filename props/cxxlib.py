"""The compiled integrators of /repo, translated for the interpreter."""
import os
import re
from .lib import *
from sa import cxx
from sa.interp import REPO, Ref
from sa import interp as I
IP = os.path.join(REPO, 'interactions')
I4, I3 = os.path.join(IP, 'four_particle', 'cpp'), os.path.join(IP, 'three_particle', 'cpp')
N = 'specs.integrals:'


def sources(d):
    """the translation units of the extension module, from its Makefile"""
    mk = os.path.join(d, 'Makefile')
    names = ['integral.cpp'] + (['Ds.cpp'] if os.path.exists(os.path.join(d, 'Ds.cpp')) else [])
    if os.path.exists(mk):
        m = re.search(r'^integral\.so\s*:(.*)$', open(mk).read(), re.M)
        if m:
            listed = [x for x in m.group(1).split() if x.endswith('.cpp')]
            if listed:
                names = listed
    return [os.path.join(d, x) for x in names]


def p_unmodelled(it, args, kw, node):
    raise Unk('C++: %s' % (args[0].v if args and isinstance(args[0], K) else 'outside the translated subset'))


def p_new(it, args, kw, node):
    r = Ref(it.fresh('B'), args[0])
    it.st.attrs[(r.key, '%obj', None)] = TRUE
    return r


def p_quad(it, args, kw, node):
    b = atom('sym', '%%y%d' % it.int_depth)
    it.int_depth += 1
    # what happens in the integrand (an exception, a store) depends on the integration
    # variable: it stays in the integrand
    base = it.st
    it.st = base.copy()
    it.st.ret, it.st.rv, it.st.brk, it.st.cnt = FALSE, NONE, FALSE, FALSE
    try:
        body = it.freeze(it.call(args[0], [Num(T.from_atom(b))], {}, node))
        raised = it.st.ret
        failed = body.key == BOT.key or raised.key == 'True'
        body = ite(raised, BOT, body) if raised.key != 'False' else body
    finally:
        it.st = base
        it.int_depth -= 1
    if failed:
        it.throw(TRUE)
        return BOT
    lo, hi = it.freeze(args[1]), it.freeze(args[2])
    if body.key == '0':
        return num(0)
    return Num(T.from_atom(atom('INT', lo, hi, b, T.from_atom(atom('diag', body)))))


def p_indicator(it, args, kw, node):
    c = args[0]
    if isinstance(c, K) and isinstance(c.v, bool):
        return num(1 if c.v else 0)
    c = it.truth(c)
    if isinstance(c, K):
        return num(1 if c.v else 0)
    v = ite(c, num(1), num(0))
    return Num(linearize(v) if c.size <= 1 else T.from_atom(atom("diag", v)))


def p_nonzero(it, args, kw, node):
    x = args[0]
    if is_bool(x) or isinstance(x, Ite) and all(is_bool(l) for _, l in leaves(x)):
        return x
    if isinstance(x, Num):
        s = x.p.single()
        if s and len(s[1]) == 1 and s[1][0][0].kind == 'ind':
            return Ite(s[1][0][0].args[0], TRUE, FALSE)
    return it.truth(x)


def prims(status=0):
    return {
        'specs.cxxrt.unmodelled': p_unmodelled,
        'specs.cxxrt.indicator': p_indicator,
        'specs.cxxrt.nonzero': p_nonzero,
        'specs.cxxrt.new_object': p_new,
        'specs.integrals.bound': p_bound,
        'specs.cxxrt.quadrature': p_quad,
        'specs.integrals.quadrature': p_quad,
        'specs.cxxrt.status_of': lambda it, args, kw, node: it.status(it, args[0]),
        'specs.cxxrt.error_of': lambda it, args, kw, node: num(0),
    }


# the kernels, once shown to have their closed forms, stand for themselves: an atom
# symmetric in the arguments it is symmetric in, evaluated by the closed form
SYMMETRY = {'D1': ((0, 1, 2, 3),), 'D2': ((0, 1), (2, 3)), 'D3': ((0, 1, 2, 3),), 'Db1': ((0, 1, 2),), 'Db2': ((0,), (1, 2))}


def closed_forms(all=False):
    import ast
    src = open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'specs', 'integrals.py')).read()
    names = {'moments', 'sgn', 'need_D', 'need_Db'} | {'need_' + n for n in SYMMETRY}
    t = ast.parse(src)
    t.body = [x for x in t.body if isinstance(x, ast.FunctionDef) and x.name in names]
    env = {'indicator': lambda c: 1 if c else 0}
    exec(compile(t, 'specs/integrals.py', 'exec'), env)
    return env if all else {'kernel ' + n: env['need_' + n] for n in SYMMETRY}


def kernel(name):
    def p(it, args, kw, node):
        args = [it.freeze(a) for a in args]
        if kw or len(args) != sum(len(g) for g in SYMMETRY[name]):
            raise Unk('call of %s' % name)
        out = []
        for g in SYMMETRY[name]:
            out += sorted([args[i] for i in g], key=lambda v: v.key)
        return Num(T.from_atom(atom('fn', 'kernel ' + name, *out)))
    return p


def rest(name):
    def p(it, args, kw, node):
        if kw or len(args) != 7:
            raise Unk('call of %s' % name)
        flat = []
        for n, a in enumerate(args):
            if n in (3, 4):
                flat.append(it.freeze(a))
            else:
                flat += [it.freeze(it.index(a, num(i))) for i in range(4)]
        return Num(T.from_atom(atom('fn', 'kernel ' + name, *flat)))
    return p


def with_sums(it):
    """the whole kernels D and Db as well"""
    from sa import evalt
    with_kernels(it)
    env = closed_forms(True)

    def whole(f):
        def g(*a):
            a = list(a)
            return f(a[0:4], a[4:8], a[8:12], a[12], a[13], [int(x) for x in a[14:18]], a[18:22])
        return g
    for n in ('D', 'Db'):
        evalt.CLOSED['kernel ' + n] = whole(env['need_' + n])
        d = unit(4).defs.get(n)
        if d and 'ref' in d:
            it.prims['cxx4.' + d['ref']] = rest(n)
        it.prims['specs.integrals.need_' + n] = rest(n)


def with_kernels(it):
    from sa import evalt
    evalt.CLOSED.update(closed_forms())
    u = unit(4)
    for n in SYMMETRY:
        d = u.defs.get(n)
        if d and 'ref' in d:
            it.prims['cxx4.' + d['ref']] = kernel(n)
        it.prims['specs.integrals.need_' + n] = kernel(n)


_units = {}


def unit(which):
    if which not in _units:
        try:
            _units[which] = cxx.Unit(sources(I4 if which == 4 else I3))
        except Unk as e:
            _units[which] = e
    return _units[which]


def load(C, which=(4, 3)):
    """an interpreter that knows the translated modules cxx4 and cxx3"""
    it = C.load(modules=['environment'])
    it.status = lambda it, w: num(0)
    it.prims.update(prims())
    for w in which:
        u = unit(w)
        if isinstance(u, Unk):
            raise u
        it.prog.trees['cxx%d' % w] = u.tree()
        it.prog.virtual.add('cxx%d' % w)
    for w in which:
        it.module('cxx%d' % w)
    it.module('specs.integrals')
    return it


def undecidable(C, e):
    def f():
        raise e
    C.oblige('front-end', 'C++ sources', f)


CXX_TECH = ('the clang syntax tree of the C++ sources is rewritten for the abstract interpreter (value numbering with gated joins); '
            'the derived symbolic value is compared with the required one by normal form')


def race_obligation(C, which, oid, where):
    from sa import races

    def go():
        u = unit(which)
        if isinstance(u, Unk):
            raise u
        msgs, n = races.static_state(u)
        for f, node in u.omp:
            src = [s for p, _, s in u.units if p == f.path][0]
            m, k = races.loop_races(f, node, src)
            msgs, n = msgs + m, n + k
        if msgs:
            return ('violated', '; '.join(msgs), None)
        return ('held', '%d writes, %d parallel loops' % (n, len(u.omp)), None)
    C.oblige(oid, where, go, 'every iteration of a parallel loop writes only its own element and variables of its own')


def default_value(node):
    """the literal a binding declares as default"""
    calls = []

    def walk(n):
        if n.get('kind') == 'CXXOperatorCallExpr':
            calls.append(n)
        for c in n.get('inner', []):
            walk(c)
    walk(node)
    if not calls or len(calls[0].get('inner', [])) != 3:
        return None
    sign, n = 1, calls[0]['inner'][2]
    while n is not None:
        k, inner = n.get('kind'), n.get('inner', [])
        if k in ('FloatingLiteral', 'IntegerLiteral'):
            return sign * float(n['value'])
        if k == 'CXXBoolLiteralExpr':
            return float(n['value'] in (True, 'true'))
        if k == 'UnaryOperator' and n.get('opcode') in ('-', '+'):
            sign = -sign if n['opcode'] == '-' else sign
        elif k == 'UserDefinedLiteral' or len(inner) != 1:
            return None
        n = inner[0] if inner else None
    return None


# the records Python builds by keyword
def p_bound(it, args, kw, node):
    w, label = it.cint(args[0]), args[1].v
    u = unit(w)
    d = u.classes.get(label)
    if d is None:
        raise Unk('%s is not exported' % label)
    out = []
    for a in d['args']:
        if a[0] in kw:
            out.append(kw[a[0]])
        else:
            v = default_value(a[2])
            if v is None:
                raise Unk('argument %s of %s' % (a[0], label))
            out.append(num(int(v) if v == int(v) else v))
    cls = it.lookup_qual('cxx%d:%s' % (w, d['type'].split('::')[-1]))
    return it.call(cls, out, {}, node)


def kind_value(name, w=4):
    v = unit(w).enumdefs.get('CollisionIntegralKind' if w == 4 else 'CollisionIntegralKind_3', {}).get('values', {}).get(name)
    if v is None:
        raise Unk('kind %s' % name)
    return v

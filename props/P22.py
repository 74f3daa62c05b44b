from .lib import *
from sa import evalt
from sa.check import HELD, VIOLATED, UNDECIDED
TECHNIQUE = ('abstract interpretation of the source to integer transfer functions of append/truncate (used length, capacity, stored '
             'index, kept rows); forward reachability of the length/capacity domain; accessors by normal form of the abstract value')

Q = 'common.utils:'


class Ints(evalt.Evaluator):
    def __init__(self, env):
        evalt.Evaluator.__init__(self, 1, 1, {})
        self.ints = env

    def atom(self, a):
        if a.key in self.ints:
            return self.ints[a.key]
        if a.kind in ('attr', 'sym') or a.kind == 'fn' and a.args[0] == 'len':
            raise Unk('capacity depends on %s' % a.key[:60])
        return evalt.Evaluator.atom(self, a)

    def eq(self, x, y):
        return self.num(self.val(x)) == self.num(self.val(y))


class Leaf(Exception):
    pass


def base_capacity(v, old):
    """capacity (value) and number of leading rows kept, of an array expression over the old one"""
    if v.key == old.key:
        return 'same', None
    a = v.a if isinstance(v, SymV) else None
    if a is None or a.kind != 'call':
        raise Unk('array expression %s' % v.key[:60])
    f = a.args[0].key if hasattr(a.args[0], 'key') else str(a.args[0])
    if f.endswith('numpy.resize') and a.args[1].key == old.key:
        n = a.args[2]
        if isinstance(n, Seq):
            n = n.parts[0].v
        return 'resize', n
    if f.endswith('numpy.delete') and a.args[1].key == old.key:
        return 'delete', a.args[2]
    if f.endswith(('numpy.concatenate', 'numpy.vstack', 'numpy.append')):
        raise Unk('growth by %s' % f)
    raise Unk('array expression %s' % f)


def transfer(v, old, env):
    """-> (capacity after, stored index or None, stored value, first old row that is lost) for one state"""
    ev = Ints(env)
    n = 0
    while isinstance(v, Ite):
        v = v.hi if ev.cond(v.c) else v.lo
    idx = val = None
    if isinstance(v, SymV) and v.a.kind == 'store':
        base, i, val = v.a.args
        idx = ev.num(ev.arg(i))
        v = base
    while isinstance(v, Ite):
        v = v.hi if ev.cond(v.c) else v.lo
    how, arg = base_capacity(v, old)
    N = env['fn[len;arr._data]']
    if how == 'same':
        return N, idx, val, N
    x = ev.num(ev.arg(arg))
    if how == 'resize':
        return x, idx, val, min(x, N)
    if x != int(x) or not (-N <= x < N):
        raise Leaf('deletes row %g of %g allocated rows' % (x, N))
    if x < 0:
        x += N
    return N - 1, idx, val, x


def number(v, env):
    ev = Ints(env)
    while isinstance(v, Ite):
        v = v.hi if ev.cond(v.c) else v.lo
    return ev.num(ev.arg(v))


def explore(C, it, cls, bound):
    A = obj(it, 'arr', 'common.utils.' + cls)
    old = it.getattr(A, '_data')
    ap = C.run(it, Q + cls + '.append', [A, S('row')])
    tr = C.run(it, Q + cls + '.truncate', [A])
    shapes = []

    def zeros(it_, args, kw, node):
        shapes.append(args[0] if args else kw['shape'])
        return num(0)
    keep = {k: L.TABLE[k] for k in ('numpy.zeros', 'numpy.empty') if k in L.TABLE}
    L.TABLE.update({'numpy.zeros': zeros, 'numpy.empty': zeros})
    try:
        ini = C.run(it, Q + cls, [S('columns')])
    finally:
        L.TABLE.pop('numpy.empty', None)
        L.TABLE.update(keep)
    if len(shapes) != 1:
        raise Unk('initial allocation')
    n0 = it.freeze(shapes[0])
    if isinstance(n0, Seq):
        n0 = n0.parts[0].v

    def attr(o, n):
        return o.attr(A, n)
    steps = {'append': (ap, 1), 'truncate': (tr, -1)}
    vals = {k: {n: attr(o, n) for n in ('length', 'size', '_data')} for k, (o, _) in steps.items()}
    L0 = int(number(ini.attr(ini.ret, 'length'), {}))
    s0 = int(number(ini.attr(ini.ret, 'size'), {}))
    N0 = int(number(n0, {}))
    seen = {(L0, s0, N0)}
    todo = [(L0, s0, N0)]
    n = 0
    while todo:
        Lc, sz, N = todo.pop()
        env = {'arr.length': float(Lc), 'arr.size': float(sz), 'fn[len;arr._data]': float(N)}
        for k, (o, d) in steps.items():
            if k == 'truncate' and Lc == 0:
                continue
            n += 1
            try:
                N2, idx, val, kept = transfer(vals[k]['_data'], old, env)
            except Leaf as e:
                return VIOLATED, '%s in the state length=%d, allocated=%d: %s' % (k, Lc, N, e), {'length': Lc, 'allocated': N}, n
            L2 = number(vals[k]['length'], env)
            s2 = number(vals[k]['size'], env)
            w = {'operation': k, 'length': Lc, 'allocated': N, 'size': sz, 'stored_at': idx, 'allocated_after': N2, 'length_after': L2, 'kept_rows': kept}
            if L2 != Lc + d:
                return VIOLATED, '%s changes the number of rows from %d to %g' % (k, Lc, L2), w, n
            if k == 'append':
                if idx is None or idx != Lc:
                    return VIOLATED, 'append stores row %d at position %s' % (Lc, idx), w, n
                if not idx < N2:
                    return VIOLATED, 'append stores at position %d of an array of %g rows' % (idx, N2), w, n
            if kept < min(Lc, L2):
                return VIOLATED, '%s loses recorded row %g of %d' % (k, kept, Lc), w, n
            if L2 > N2:
                return VIOLATED, '%s leaves %g rows recorded in %g allocated' % (k, L2, N2), w, n
            s = (int(L2), int(s2), int(N2))
            if s not in seen and s[0] <= bound and s[1] <= 2 * bound:
                seen.add(s)
                todo.append(s)
    return HELD, '%d states of (rows, size, allocated), %d transitions up to %d rows' % (len(seen), n, bound), None, n


def check(C, tier):
    it = C.load()
    bound = 100 if tier == 'quick' else 400
    for cls in ('Dynamic2DArray', 'DynamicRecArray'):
        C.oblige('rows-' + cls, Q + cls + '.append / truncate', lambda: explore(C, it, cls, bound)[:3])
        A = obj(it, 'arr', 'common.utils.' + cls)

        def stored():
            o = C.run(it, Q + cls + '.append', [A, S('row')])
            out = []
            for c, l in leaves(o.attr(A, '_data')):
                if not (isinstance(l, SymV) and l.a.kind == 'store'):
                    raise Unk('append does not store a row')
                out.append(l.a.args[2])
            for v in out[1:]:
                if v.key != out[0].key:
                    raise Unk('append stores different values')
            return out[0]
        C.values('stored-' + cls, Q + cls + '.append', it, stored,
                 (lambda: C.run(it, 'specs.arrays:rec_of', [it.getattr(A, 'columns'), S('row')]).ret) if cls == 'DynamicRecArray' else (lambda: S('row')))
        C.func('len-' + cls, it, Q + cls + '.__len__', 'specs.arrays:length', [A])
        C.values('data-' + cls, Q + cls + '.data', it, lambda: it.getattr(A, 'data'), lambda: C.run(it, 'specs.arrays:data', [A]).ret)
        itu = C.load(uninterpreted=['common.utils.%s.append' % cls])
        B = obj(itu, 'arr', 'common.utils.' + cls)
        C.func('extend-' + cls, itu, Q + cls + '.extend', 'specs.arrays:extend', [B, S('rows')], tr=effects('append'))
    A = obj(it, 'arr', 'common.utils.Dynamic2DArray')
    C.func('getitem-2d', it, Q + 'Dynamic2DArray.__getitem__', 'specs.arrays:getitem', [A, S('index')])
    A = obj(it, 'arr', 'common.utils.DynamicRecArray')
    for name, cols, at in (('column', ('a', 't', 'T'), K('t')), ('other-column', ('a', 't', 'T'), K('T')), ('row', (), S('index')), ('first', (), num(0)), ('last', (), num(-1))):
        itc = C.load()
        A = obj(itc, 'arr', 'common.utils.DynamicRecArray')
        itc.setattr(A, 'columns', Seq([Part(K(c)) for c in cols], 'list'), None)
        C.func('getitem-' + name, itc, Q + 'DynamicRecArray.__getitem__', 'specs.arrays:rec_getitem', [A, at])
    A = obj(it, 'arr', 'common.utils.DynamicRecArray')
    C.func('row', it, Q + 'DynamicRecArray.row_repr', 'specs.arrays:row_repr', [A, S('index')])
    C.func('row-names', it, Q + 'DynamicRecArray.row_repr', 'specs.arrays:row_repr_names', [A, S('index'), TRUE], cargs=[A, S('index'), TRUE])
    def built():
        o = C.run(it, Q + 'DynamicRecArray', [S('cols')])
        return tup(*[o.attr(o.ret, n) for n in ('columns', 'unit_names', 'units', 'length')])
    C.values('columns', Q + 'DynamicRecArray.__init__', it, built, lambda: C.run(it, 'specs.arrays:rec_init', [S('cols')]).ret)
    def empty():
        o = C.run(it, Q + 'Dynamic2DArray', [S('header')])
        return tup(*[o.attr(o.ret, n) for n in ('header', 'length')])
    C.values('empty-2d', Q + 'Dynamic2DArray.__init__', it, empty, lambda: tup(S('header'), num(0)))

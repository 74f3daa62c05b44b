"""Models of builtins, numpy and scipy names used by the repository."""
import ast
from fractions import Fraction
from . import terms as T
from .terms import atom, Unk, Poly
from .values import *
from . import values as VV
from . import interp as I


def fnum(name, *polys):
    return Num(T.from_atom(atom('fn', name, *polys)))


def lift(tag, f):
    """elementwise numeric function of one argument"""
    def g(it, args, kw, node):
        v = args[0]
        if isinstance(v, Ref):
            v = it.freeze(v)
        if isinstance(v, Seq):
            if v.concrete():
                return Seq([Part(g(it, [x], kw, node)) for x in v.items()], 'array')
            raise Unk(tag + ' of symbolic sequence')

        def h(x):
            if x is BOT:
                return BOT
            p = as_poly(x)
            if p is None:
                raise Unk('%s of %s' % (tag, x.key[:40]))
            r = f(p)
            return r if isinstance(r, V) else Num(r)
        return apply1(tag, h, v)
    return g


def f_sqrt(p):
    return T.power(p, Fraction(1, 2))


def f_abs(p):
    c = p.const()
    if c is not None:
        return T.const(abs(c))
    s = VV._mono_sign(p)
    if s > 0:
        return p
    if s < 0:
        return T.neg(p)
    one = p.single()
    if one:
        r = T.const(abs(one[0]))
        for a, e in one[1]:
            if T.nonneg_atom(a):
                r = T.mul(r, T.from_atom(a, e))
            else:
                r = T.mul(r, T.from_atom(atom('fn', 'abs', T.from_atom(a)), e))
        return r
    if T.lead_sign(p) < 0:
        p = T.neg(p)
    return T.from_atom(atom('fn', 'abs', p))


def f_odd(name):
    def f(p):
        c = p.const()
        if c == 0:
            return T.ZERO
        if T.lead_sign(p) < 0:
            return T.neg(T.from_atom(atom('fn', name, T.neg(p))))
        return T.from_atom(atom('fn', name, p))
    return f


def f_cos(p):
    if p.const() == 0:
        return T.ONE
    if T.lead_sign(p) < 0:
        p = T.neg(p)
    return T.from_atom(atom('fn', 'cos', p))


def f_tan(p):
    s, c = f_odd('sin')(p), f_cos(p)
    return T.div(s, c)


def f_plain(name):
    return lambda p: T.from_atom(atom('fn', name, p))


def f_exp(p):
    return T.mk_exp(p)


def f_round(p):
    c = p.const()
    if c is not None:
        return T.const(round(c))
    return T.from_atom(atom('fn', 'round', p))


ELEM = {
    'numpy.sqrt': f_sqrt, 'math.sqrt': f_sqrt, 'numpy.exp': f_exp, 'math.exp': f_exp,
    'numpy.log': T.mk_log, 'math.log': T.mk_log, 'numpy.absolute': f_abs, 'numpy.abs': f_abs, 'builtins.abs': f_abs,
    'numpy.fabs': f_abs, 'math.fabs': f_abs,
    'numpy.sin': f_odd('sin'), 'math.sin': f_odd('sin'), 'numpy.cos': f_cos, 'math.cos': f_cos,
    'numpy.tan': f_tan, 'math.tan': f_tan,
    'numpy.arcsin': f_plain('arcsin'), 'numpy.arccos': f_plain('arccos'), 'numpy.arctan': f_plain('arctan'),
    'numpy.ceil': f_plain('ceil'), 'numpy.floor': f_plain('floor'), 'math.ceil': f_plain('ceil'), 'math.floor': f_plain('floor'),
    'builtins.round': f_round, 'numpy.square': lambda p: T.mul(p, p),
    'numpy.reciprocal': lambda p: T.div(T.ONE, p), 'numpy.negative': T.neg, 'numpy.expm1': lambda p: T.sub(T.mk_exp(p), T.ONE),
    'numpy.log1p': lambda p: T.mk_log(T.add(p, T.ONE)), 'numpy.cbrt': lambda p: T.power(p, Fraction(1, 3)),
    'numpy.log10': lambda p: T.div(T.mk_log(p), T.mk_log(T.const(10))),
}
IDENT = {'numpy.float_', 'numpy.float64', 'builtins.float', 'numpy.asarray', 'numpy.asanyarray', 'numpy.ascontiguousarray', 'numpy.squeeze', 'numpy.nan_to_num_', 'numpy.copy', 'copy.copy', 'numpy.atleast_1d', 'numpy.transpose', 'numpy.ravel'}
BINOP = {'numpy.add': ast.Add, 'numpy.subtract': ast.Sub, 'numpy.multiply': ast.Mult, 'numpy.divide': ast.Div,
         'numpy.true_divide': ast.Div, 'numpy.power': ast.Pow, 'math.pow': ast.Pow, 'builtins.pow': ast.Pow,
         'operator.add': ast.Add, 'operator.mul': ast.Mult, 'operator.sub': ast.Sub, 'operator.truediv': ast.Div}
CMPOP = {'numpy.greater': ast.Gt, 'numpy.less': ast.Lt, 'numpy.greater_equal': ast.GtE, 'numpy.less_equal': ast.LtE,
         'numpy.equal': ast.Eq, 'numpy.not_equal': ast.NotEq}


def seq_arg(it, v):
    if isinstance(v, Ref):
        v = it.cell(v)
    return v


def sum_seq(it, v, start=None):
    s = it.iterate(v)
    if isinstance(s, Ite):
        return ite(Ite(s.c, TRUE, FALSE), sum_seq(it, s.hi, start), sum_seq(it, s.lo, start))
    acc = start if start is not None else num(0)
    for p in s.parts:
        if p.star:
            acc = it.binop(ast.Add(), acc, Num(T.from_atom(atom('fn', 'sumof', p.v))))
            continue
        if not p.binders and p.guard.key == 'True':
            acc = it.binop(ast.Add(), acc, p.v)
            continue
        v = ite(p.guard, p.v, num(0))
        fv = it.freeze(v)
        if p.binders:
            if isinstance(p.v, SymV) and len(p.binders) == 1 and p.v.a is p.binders[0][1] and p.guard.key == 'True' and p.binders[0][0].key.startswith('arr['):
                pass
            acc = it.binop(ast.Add(), acc, it.sum_over(fv, p.binders))
        else:
            acc = it.binop(ast.Add(), acc, fv)
    return acc


def minmax(it, name, args, kw, node):
    if len(args) == 1:
        s = it.iterate(args[0])
        if isinstance(s, Ite) or not s.concrete():
            return SymV(atom('fn', name, it.freeze(args[0])))
        args = s.items()
    if not args:
        raise Unk('min/max of nothing')
    r = args[0]
    for x in args[1:]:
        def f(a, b):
            p, q = as_poly(a), as_poly(b)
            if p is None or q is None:
                raise Unk('min/max')
            c = cond_gt(T.sub(p, q))
            return ite(c, a, b) if name == 'max' else ite(c, b, a)
        r = apply2(name, f, r, x)
    return r


EFFECTS = {'numpy.savetxt', 'numpy.save', 'numpy.set_printoptions'}


def call_builtin(it, name, args, kw, node):
    if name in ELEM and not kw:
        return lift(name, ELEM[name])(it, args, kw, node)
    if name in BINOP:
        return it.binop(BINOP[name](), args[0], args[1], node)
    if name in CMPOP:
        return it.compare(CMPOP[name](), args[0], args[1])
    if name in IDENT:
        if not args:
            return num(0)
        v = args[0]
        if name == 'builtins.float' and isinstance(v, K) and isinstance(v.v, str):
            return num(Fraction(v.v))
        if name == 'builtins.float' and isinstance(v, SymV) and v.a.kind == 'envstr':
            return to_number(it, v, '-float')
        if name == 'builtins.float' and isinstance(v, K) and v.v is None:
            return BOT
        if name == 'builtins.float' and isinstance(v, Ite):
            return apply1('float', lambda x: call_builtin(it, name, [x], {}, node), v)
        if name.endswith('asarray') and isinstance(it.cell(v), Seq):
            return call_builtin(it, 'numpy.array', args, {}, node)
        return v
    f = TABLE.get(name)
    if f is not None:
        return f(it, args, kw, node)
    if name in ('sys.exit', 'builtins.exit', 'builtins.quit', 'os._exit'):
        # ends the run, like an exception that nothing handles
        it.throw(TRUE)
        return BOT
    if name.startswith('cpp.'):
        return cpp_call(it, name, args, kw)
    root = name.split('.')[0]
    if root not in I.PURE_ROOTS or name in EFFECTS:
        ea = [Part(it.freeze(a)) for a in args] + [Part(Seq([Part(K(k)), Part(it.freeze(v))], 'kw')) for k, v in sorted(kw.items())]
        it.event('extcall', K(name), Seq(ea, 'tuple'), node=node)
    fa = [it.freeze(a) for a in args] + [Seq([Part(K(k)), Part(it.freeze(v))], 'kw') for k, v in sorted(kw.items())]
    return it._opq(Builtin(name), fa)


# argument names of the C++ bindings (checked against the C++ source by P17)
CPP = {
    'grid_t': ('grid', 'distribution'), 'particle_t': ('eta', 'm', 'grid', 'in_equilibrium', 'T'), 'reaction_t': ('specie', 'side'),
    'M_t': ('order', 'K1', 'K2', 'K'),
    'integration': ('ps', 'min_1', 'max_1', 'min_2', 'max_2', 'max_3', 'reaction', 'Ms', 'stepsize', 'kind'),
    'distribution_interpolation': ('grid', 'distribution', 'p', 'm', 'eta', 'T', 'in_equilibrium'), 'binary_find': ('grid', 'x'),
    'integration_3': ('ps', 'min_1', 'max_1', 'max_2', 'reaction', 'stepsize', 'kind'),
}
for _n in ('grid', 'particle', 'reaction'):
    CPP[_n + '_t3'] = CPP[_n + '_t']


def cpp_call(it, name, args, kw):
    """call into the compiled extension: a pure function of its named arguments"""
    short = name.split('.')[-1]
    names = CPP.get(short, ())
    vals = {}
    for i, a in enumerate(args):
        if i >= len(names) or isinstance(a, Seq) and a.kind == 'starargs':
            raise Unk('arguments of ' + name)
        vals[names[i]] = a
    for k, v in kw.items():
        if names and k not in names:
            raise Unk('argument %s of %s' % (k, name))
        vals[k] = v
    fz = [(k, it.freeze(v)) for k, v in sorted(vals.items()) if k not in it.cpp_ignored]
    a = atom('fn', 'cpp.' + short, *[Seq([Part(K(k)), Part(v)], 'kw') for k, v in fz])
    if short.startswith('integration'):
        return Seq([Part(SymV(a), star=True)], 'list')
    return SymV(a)


def b_sum(it, args, kw, node):
    start = args[1] if len(args) > 1 else kw.get('start')
    return sum_seq(it, args[0], start)


def b_len(it, args, kw, node):
    v = args[0]
    if isinstance(v, (Ref, SymV)) and v.cls is not None and not (isinstance(v, Ref) and v.id in it.st.cells):
        f = it.cls_lookup(v.cls, '__len__')
        if f is not None:
            return it.call(Bound(f, v), [], {}, node)

    def g(x):
        if isinstance(x, (Ref, Seq, DictV)) or isinstance(x, K):
            return Num(it.length(x))
        return Num(slice_len(it, x))
    v = it.freeze(v) if isinstance(v, Ref) else v
    return apply1(None, g, v)


def slice_len(it, x):
    """len() of slices, under 0 <= lo <= hi <= len (numpy clips otherwise)"""
    if isinstance(x, SymV) and x.a.kind == 'slice':
        base, lo, hi, st = x.a.args
        if st.key == 'None':
            n = slice_len(it, base) if isinstance(base, (SymV, Num)) else it.length(base)
            lo_p = T.ZERO if lo.key == 'None' else as_poly(lo)
            hi_p = n if hi.key == 'None' else as_poly(hi)
            if lo_p is not None and hi_p is not None and not any(l.const() is not None and l.const() < 0 for l in (lo_p, hi_p)):
                return T.sub(hi_p, lo_p)
    if isinstance(x, SymV) and x.a.kind == 'range':
        return x.a.args[0]
    if isinstance(x, Num):
        s = x.p.single()
        if s and s[0] == 1 and len(s[1]) == 1 and s[1][0][1] == 1:
            x = SymV(s[1][0][0])
            if x.a.kind == 'slice':
                return slice_len(it, x)
        elif s:
            # an argument times other factors: elementwise, of the argument's length
            bare = [a for a, e in s[1] if a.kind == 'sym' and '.' not in str(a.args[0])]
            if len(bare) == 1:
                x = SymV(bare[0])
    return T.from_atom(atom('fn', 'len', x))


def b_range(it, args, kw, node):
    cs = [it.cint(a) for a in args]
    if all(c is not None for c in cs):
        r = range(*cs)
        if len(r) > 400:
            raise Unk('long range')
        return Seq([Part(num(i)) for i in r], 'tuple')
    if len(args) == 1 and as_poly(args[0]) is not None:
        return SymV(atom('range', as_poly(args[0])))
    if len(args) == 2:
        lo, hi = as_poly(args[0]), as_poly(args[1])
        if lo is not None and hi is not None:
            cnt = SymV(atom('range', T.sub(hi, lo)))
            e = it.elem_of(cnt)
            return Seq([Part(Num(T.add(lo, T.from_atom(e.a))), [(cnt, e.a)])], 'tuple')
    return SymV(atom('fn', 'range', *[it.freeze(a) for a in args]))


def b_enumerate(it, args, kw, node):
    start = it.cint(args[1]) if len(args) > 1 else (it.cint(kw['start']) if 'start' in kw else 0)
    s = it.iterate(args[0])
    if isinstance(s, Ite):
        raise Unk('enumerate over conditional')
    out = []
    i = start if start is not None else None
    base = T.const(start) if start is not None else (as_poly(args[1]) if len(args) > 1 else as_poly(kw['start']))
    n = T.ZERO
    for p in s.parts:
        if p.plain():
            out.append(Part(Seq([Part(Num(T.add(base, n))), Part(p.v)], 'tuple')))
            n = T.add(n, T.ONE)
        elif p.binders and len(p.binders) == 1 and p.guard.key == 'True' and isinstance(p.v, SymV) and p.v.a is p.binders[0][1]:
            ix = T.from_atom(atom('pos', p.v.a))
            out.append(Part(Seq([Part(Num(T.add(T.add(base, n), ix))), Part(p.v)], 'tuple'), p.binders, p.guard))
            n = T.add(n, it.length(Seq([p])))
        elif p.binders:
            ix = T.from_atom(atom('pos', Seq([Part(TRUE, p.binders, p.guard)])))
            out.append(Part(Seq([Part(Num(T.add(T.add(base, n), ix))), Part(p.v)], 'tuple'), p.binders, p.guard))
            n = T.add(n, it.length(Seq([p])))
        else:
            raise Unk('enumerate over optional items')
    return Seq(out, 'list')


def b_zip(it, args, kw, node):
    ss = [it.iterate(a) for a in args]
    if any(isinstance(s, Ite) for s in ss):
        raise Unk('zip over conditional')
    if all(s.concrete() for s in ss):
        n = min(len(s.parts) for s in ss)
        return Seq([Part(Seq([Part(s.parts[i].v) for s in ss], 'tuple')) for i in range(n)], 'list')
    # zip of a symbolic collection with others: one joint binder over the first symbolic one
    if all(len(s.parts) == 1 and len(s.parts[0].binders) == 1 and s.parts[0].guard.key == 'True' for s in ss):
        c0, b0 = ss[0].parts[0].binders[0]
        colls = [s.parts[0].binders[0][0] for s in ss]
        if all(c.key == c0.key for c in colls):
            # same collection mapped several times
            vals = []
            for s in ss:
                c, b = s.parts[0].binders[0]
                vals.append(Part(vsubst(s.parts[0].v, {b: T.from_atom(b0)})))
            return Seq([Part(Seq(vals, 'tuple'), [(c0, b0)])], 'list')
        z = SymV(atom('zip', *colls))
        e = it.elem_of(z)
        vals = []
        for i, s in enumerate(ss):
            c, b = s.parts[0].binders[0]
            cls = s.parts[0].v.cls if isinstance(s.parts[0].v, SymV) else None
            v = vsubst(s.parts[0].v, {b: T.from_atom(atom('idx', SymV(e.a), T.const(i)))})
            if isinstance(v, SymV) and cls is not None:
                v = SymV(v.a, cls)
            vals.append(Part(v))
        return Seq([Part(Seq(vals, 'tuple'), [(z, e.a)])], 'list')
    return SymV(atom('fn', 'zip', *[it.freeze(a) for a in args]))


def formatted(it, pieces):
    """pieces: literal text or (specification, conversion, value)"""
    vals = [x[2] for x in pieces if not isinstance(x, str)]
    for v in vals:
        f = it.freeze(v)
        if isinstance(f, Ite) and all(isinstance(l, (K, Num)) for _, l in leaves(f)) and f.size < 20:
            def pick(l):
                return formatted(it, [x if isinstance(x, str) or x[2] is not v else (x[0], x[1], l) for x in pieces])
            return apply1(None, pick, f)
    text, args = '', []
    flat = []
    for x in pieces:
        flat += [x] if isinstance(x, str) or x[0] or x[1] not in ('', 's') else str_pieces(it.freeze(x[2]))
    for x in flat:
        if isinstance(x, str):
            text += x.replace('{', '{{').replace('}', '}}')
            continue
        spec, conv, v = x[0], x[1], it.freeze(x[2])
        c = None
        if isinstance(v, K) and isinstance(v.v, str):
            c = v.v
        elif isinstance(v, Num) and v.p.const() is not None and v.p.const().denominator == 1 and not spec.endswith(('e', 'f', 'g')):
            c = int(v.p.const())
        if c is not None and conv in ('', 's'):
            try:
                text += format(c, spec).replace('{', '{{').replace('}', '}}')
                continue
            except ValueError:
                pass
        text += '{' + ('!' + conv if conv else '') + (':' + spec if spec else '') + '}'
        args.append(v)
    if not args:
        return K(text.replace('{{', '{').replace('}}', '}'))
    return SymV(atom('fn', 'format', K(text), *args))


def str_pieces(v):
    """a text as literal parts and values"""
    if isinstance(v, SymV) and v.a.kind == 'fn' and v.a.args[0] == 'format':
        import string
        out, i = [], 2
        text = v.a.args[1].v
        if all(f in ('', None) for _, f, _, _ in string.Formatter().parse(text)) and '[' not in text:
            for lit, field, spec, conv in string.Formatter().parse(text):
                if lit:
                    out.append(lit)
                if field is not None:
                    out.append((spec or '', conv or '', v.a.args[i]))
                    i += 1
            if i == len(v.a.args):
                return out
    return [('', '', v)]


def join_path(it, args, kw, node):
    """os.path.join of relative parts"""
    if kw or not args or any(isinstance(a, Seq) or isinstance(it.cell(a) if isinstance(a, Ref) else a, Seq) for a in args):
        return it._opq(Builtin('os.path.join'), [it.freeze(a) for a in args])
    if any(isinstance(a, K) and (not isinstance(a.v, str) or a.v.startswith('/')) for a in args[1:]):
        return it._opq(Builtin('os.path.join'), [it.freeze(a) for a in args])
    pieces = []
    for i, a in enumerate(args):
        pieces += (['/'] if i else []) + [('', '', a)]
    return formatted(it, pieces)


def str_format(it, text, args, kw):
    import string
    opaque = SymV(atom('fn', 'format', K(text), *([it.freeze(a) for a in args] + [Seq([Part(K(k)), Part(it.freeze(v))], 'kw') for k, v in sorted(kw.items())])))
    pieces, n = [], 0
    try:
        for lit, field, spec, conv in string.Formatter().parse(text):
            if lit:
                pieces.append(lit)
            if field is None:
                continue
            if '{' in (spec or ''):
                return opaque
            if field == '':
                field, n = str(n), n + 1
            if field.isdigit():
                v = args[int(field)]
            elif field in kw:
                v = kw[field]
            else:
                return opaque
            pieces.append((spec or '', conv or '', v))
    except (ValueError, IndexError):
        return opaque
    if any(isinstance(a, Seq) and a.kind == 'starargs' for a in args):
        return opaque
    return formatted(it, pieces)


def percent(it, text, v):
    import re
    vals = v.items() if isinstance(v, Seq) and v.kind == 'tuple' and v.concrete() else [v]
    pieces, i, pos = [], 0, 0
    for m in re.finditer(r'%(%|([-0 +#]*)(\d*)(\.\d+)?([sdrefgi]))', text):
        pieces.append(text[pos:m.start()])
        pos = m.end()
        if m.group(1) == '%':
            pieces.append('%')
            continue
        if i >= len(vals):
            return SymV(atom('fn', 'percent', K(text), it.freeze(v)))
        c = m.group(5)
        if m.group(2):
            return SymV(atom('fn', 'percent', K(text), it.freeze(v)))
        spec = (m.group(3) or '') + (m.group(4) or '') + (c if c in 'efg' else 'd' if c in 'di' and (m.group(3) or '') else '')
        pieces.append((spec, 'r' if c == 'r' else '', vals[i]))
        i += 1
    pieces.append(text[pos:])
    if i != len(vals) or '%' in ''.join(x for x in re.sub(r'%(%|([-0 +#]*)(\d*)(\.\d+)?([sdrefgi]))', '', text)):
        return SymV(atom('fn', 'percent', K(text), it.freeze(v)))
    return formatted(it, [x for x in pieces if x != ''])


def b_list(it, args, kw, node):
    if not args:
        return it.newlist([])

    def whole(x):
        if isinstance(x, Ite):
            return ite(Ite(x.c, TRUE, FALSE), whole(x.hi), whole(x.lo))
        if isinstance(x, Ref) and isinstance(it.cell(x), (Seq, Ite)):
            return whole(it.cell(x))
        if isinstance(x, Seq):
            return Seq(x.parts)
        s = it.iterate(x)
        if isinstance(x, SymV) and isinstance(s, Seq) and len(s.parts) == 1 and s.parts[0].binders:
            return Seq([Part(x, star=True)])
        if isinstance(s, Ite):
            return whole(s)
        return Seq(s.parts)
    r = Ref(it.fresh('L'))
    it.st.cells[r.id] = whole(args[0])
    return r


def b_tuple(it, args, kw, node):
    if not args:
        return Seq([], 'tuple')
    s = it.iterate(args[0])
    if isinstance(s, Ite):
        return apply1(None, lambda x: Seq(x.parts, 'tuple'), s)
    if isinstance(args[0], SymV):
        return Seq([Part(args[0], star=True)], 'tuple')
    return Seq(s.parts, 'tuple')


def b_set(it, args, kw, node):
    if not args:
        return it.newlist([], 'set')
    s = it.iterate(args[0])
    if isinstance(s, Ite):
        return SymV(atom('fn', 'set', it.freeze(args[0])))
    if s.concrete():
        seen, out = set(), []
        for p in s.parts:
            k = it.freeze(p.v).key
            if k not in seen:
                seen.add(k)
                out.append(p)
        return it.newlist(out, 'set')
    return SymV(atom('fn', 'set', it.freeze(args[0])))


def b_dict(it, args, kw, node):
    ents = []
    if args:
        c = it.cell(args[0])
        if isinstance(c, DictV):
            ents = list(c.e)
        else:
            s = it.iterate(args[0])
            if isinstance(s, Ite):
                raise Unk('dict of conditional')
            for p in s.parts:
                kv = it.iterate(p.v)
                k, v = kv.items()
                ents.append((it.freeze(k), v, p.binders, p.guard))
    for k, v in kw.items():
        ents = [x for x in ents if x[0].key != K(k).key]
        ents.append((K(k), v, (), TRUE))
    return it.newdict(ents)


def b_sorted(it, args, kw, node):
    s = it.iterate(args[0])
    if isinstance(s, Seq) and s.concrete():
        vals = s.items()
        ks = []
        for v in vals:
            k = it.call(kw['key'], [v], {}, node) if 'key' in kw else v
            ks.append(it.freeze(k))
        py = [to_py(k) for k in ks]
        if all(p is not None for p in py):
            try:
                order = sorted(range(len(vals)), key=lambda i: py[i])
                rev = kw.get('reverse')
                if rev is not None and rev.key == 'True':
                    order = sorted(range(len(vals)), key=lambda i: py[i], reverse=True)
                return it.newlist([Part(vals[i]) for i in order])
            except TypeError:
                pass
        if len(vals) <= 1:
            return it.newlist(s.parts)
        import functools
        try:
            rev = kw.get('reverse')
            return it.newlist([Part(vals[i]) for i in sorted(range(len(vals)), key=functools.cmp_to_key(lambda i, j: pyorder(it, ks[i], ks[j], node)),
                                                             reverse=rev is not None and rev.key == 'True')])
        except Unk:
            pass
    extra = [Seq([Part(K(k)), Part(it.freeze(v))], 'kw') for k, v in sorted(kw.items())]
    return it.newlist([Part(SymV(atom('fn', 'sorted', it.freeze(args[0]), *extra)), star=True)])


def pyorder(it, a, b, node):
    """-1, 0 or 1 as python's `<` orders two values; tuples by their first different entries"""
    x, y = to_py(a), to_py(b)
    if x is not None and y is not None and x[0] == y[0]:
        return (x > y) - (x < y)
    if isinstance(a, Seq) and isinstance(b, Seq) and a.concrete() and b.concrete():
        for v, w in zip(a.items(), b.items()):
            if v.key != w.key:
                c = pyorder(it, v, w, node)
                if c:
                    return c
                raise Unk('order of equal values')
        return (len(a.parts) > len(b.parts)) - (len(a.parts) < len(b.parts))
    if all(isinstance(x, (Ref, SymV)) and x.cls is not None for x in (a, b)):
        def less(p, q):
            for o, n, other in ((p, '__lt__', q), (q, '__gt__', p)):
                f = it.cls_lookup(o.cls, n)
                if f is not None:
                    c = it.truth(it.call(it.bind(f, o), [other], {}, node))
                    if isinstance(c, K):
                        return c.v
                    raise Unk('order')
            raise Unk('order')
        if less(a, b):
            return -1
        if less(b, a):
            return 1
    raise Unk('order')


def to_py(v):
    """concrete python value for ordering, or None"""
    if isinstance(v, K) and not isinstance(v.v, type(None)):
        return (0 if not isinstance(v.v, str) else 1, v.v)
    if isinstance(v, Num) and v.p.const() is not None:
        return (0, v.p.const())
    if isinstance(v, Seq) and v.concrete():
        r = [to_py(x) for x in v.items()]
        if any(x is None for x in r):
            return None
        return (2, tuple(r))
    return None


def b_reversed(it, args, kw, node):
    s = it.iterate(args[0])
    if isinstance(s, Seq) and s.concrete():
        return it.newlist(list(reversed(s.parts)))
    return SymV(atom('fn', 'reversed', it.freeze(args[0])))


def b_next(it, args, kw, node):
    """the first element of a generator or iterator made on the spot"""
    at = node.args[0] if isinstance(node, ast.Call) and node.args else None
    if not isinstance(at, (ast.GeneratorExp, ast.Call)) or len(args) not in (1, 2):
        raise Unk('next')
    s = it.iterate(args[0])
    if not isinstance(s, Seq):
        raise Unk('next')
    if len(args) == 1:
        some = FALSE
        for p in s.parts:
            if p.star:
                raise Unk('next')
            some = bor(some, it.exists(TRUE, p.binders, p.guard) if p.binders else p.guard)
        it.throw(bnot(some))
    out = args[1] if len(args) == 2 else BOT
    for p in reversed(s.parts):
        if p.star:
            raise Unk('next')
        if p.binders:
            out = SymV(atom('firstor', Seq([Part(it.freeze(p.v), p.binders, p.guard)]), it.freeze(out)))
        else:
            out = ite(p.guard, p.v, out)
    return out


def b_any(it, args, kw, node, want=True):
    v = args[0]
    s = it.iterate(v) if not isinstance(v, Ite) or not it.boolish(v) else None
    if s is None:
        return v
    if isinstance(s, Ite):
        return ite(Ite(s.c, TRUE, FALSE), b_any(it, [s.hi], kw, node, want), b_any(it, [s.lo], kw, node, want))
    r = FALSE
    for p in s.parts:
        t = it.truth(p.v)
        if not want:
            t = bnot(t)
        if p.star:
            r = bor(r, cond_atom('any' if want else 'notall', p.v))
        elif p.binders:
            r = bor(r, it.exists(t, p.binders, p.guard))
        else:
            r = bor(r, band(p.guard, t))
    return r


def b_all(it, args, kw, node):
    return bnot(b_any(it, args, kw, node, want=False))


def np_any(it, args, kw, node):
    v = args[0]
    if it.boolish(v):
        if is_bool(v):
            return v
        return cond_atom('np_any', v)
    if isinstance(it.cell(v), Seq):
        return b_any(it, args, kw, node)
    return cond_atom('np_any', bnot(it_eq0(it, v)))


def it_eq0(it, v):
    return bnot(it.truth(v))


def np_all(it, args, kw, node):
    v = args[0]
    if it.boolish(v):
        if is_bool(v):
            return v
        return bnot(cond_atom('np_any', bnot(v)))
    if isinstance(it.cell(v), Seq):
        return b_all(it, args, kw, node)
    return bnot(cond_atom('np_any', bnot(it.truth(v))))


def b_map(it, args, kw, node):
    f = args[0]
    seqs = [it.iterate(a) for a in args[1:]]
    if len(seqs) == 1:
        s = seqs[0]
        if isinstance(s, Ite):
            raise Unk('map over conditional')
        out = []
        for p in s.parts:
            if p.star:
                e = it.elem_of(p.v)
                out.append(Part(it.call(f, [e], {}, node), [(p.v, e.a)], p.guard))
            else:
                out.append(Part(it.call(f, [p.v], {}, node), p.binders, p.guard))
        return it.newlist(out)
    z = b_zip(it, args[1:], {}, node)
    s = it.iterate(z)
    return it.newlist([Part(it.call(f, [x for x in p.v.items()], {}, node), p.binders, p.guard) for p in s.parts])


def b_filter(it, args, kw, node):
    s = it.iterate(args[1])
    out = []
    for p in s.parts:
        c = it.truth(it.call(args[0], [p.v], {}, node)) if args[0] is not NONE else it.truth(p.v)
        g = band(p.guard, c)
        if g.key != 'False':
            out.append(Part(p.v, p.binders, g, p.star))
    return it.newlist(out)


def all_known(c):
    return all(isinstance(b, ClsV) and all_known(b) or isinstance(b, Builtin) and b.name == 'builtins.object' for b in c.bases)


def b_hasattr(it, args, kw, node):
    def f(o):
        n = args[1].v
        if isinstance(o, Ref):
            v = it.st.attrs.get((o.key, n, None))
            if v is not None:
                return apply1(None, lambda x: K(x is not UNBOUND), v)
            if o.cls is not None and it.cls_lookup(o.cls, n) is not None:
                return TRUE
            return FALSE
        if isinstance(o, SymV):
            v = it.st.attrs.get((o.key, n, o.a))
            if v is not None and v is not UNBOUND:
                return TRUE
            return cond_atom('hasattr', SymV(o.a), K(n))
        if isinstance(o, ClsV):
            v = it.cls_lookup(o, n)
            if v is not None:
                return apply1(None, lambda x: K(x is not UNBOUND), v)
            if all_known(o):
                return FALSE
        if isinstance(o, (Num, K, Seq)):
            return FALSE if not isinstance(o, Num) else cond_atom('hasattr', o, K(n))
        return cond_atom('hasattr', it.freeze(o), K(n))
    return apply1(None, f, args[0])


def b_getattr(it, args, kw, node):
    n = args[1]
    if isinstance(n, K) and isinstance(n.v, str):
        if len(args) > 2:
            h = b_hasattr(it, args[:2], {}, node)
            if h.key == 'False':
                return args[2]
            v = it.getattr(args[0], n.v, node)
            return ite(h, v, args[2])
        return it.getattr(args[0], n.v, node)
    raise Unk('getattr with symbolic name')


def b_setattr(it, args, kw, node):
    n = args[1]
    if isinstance(n, K) and isinstance(n.v, str):
        it.setattr(args[0], n.v, args[2], node)
        return NONE
    it.dynattrs.add(args[0].key)
    it.event('dynset', it.freeze(args[0]), it.freeze(n), it.freeze(args[2]), node=node)
    return NONE


def b_isinstance(it, args, kw, node):
    def f(o):
        cl = args[1]
        cls = [cl] if not isinstance(cl, Seq) else cl.items()
        res = []
        for c in cls:
            if isinstance(o, (Ref, SymV)) and o.cls is not None and isinstance(c, ClsV):
                res.append(K(is_sub(o.cls, c)))
            elif isinstance(o, Ref) and o.id in it.st.cells and isinstance(c, Builtin):
                cell = it.cell(o)
                nm = c.name.split('.')[-1]
                if isinstance(cell, DictV):
                    res.append(K(nm == 'dict'))
                elif isinstance(cell, Seq):
                    res.append(K(nm == cell.kind))
                else:
                    res.append(cond_atom('isinst', it.freeze(o), c))
            elif isinstance(o, K) and isinstance(c, Builtin):
                res.append(K(type(o.v).__name__ == c.name.split('.')[-1]))
            elif isinstance(o, SymV) and o.a.kind == 'envstr' and isinstance(c, Builtin):
                res.append(K(c.name.split('.')[-1] == 'str'))
            elif isinstance(o, Num) and isinstance(c, Builtin) and c.name.split('.')[-1] in ('dict', 'str', 'list', 'tuple', 'bool'):
                res.append(FALSE)
            elif isinstance(o, (Seq, DictV)) and isinstance(c, Builtin):
                nm = c.name.split('.')[-1]
                res.append(K(nm == ('dict' if isinstance(o, DictV) else o.kind)))
            else:
                res.append(cond_atom('isinst', it.freeze(o), c))
        r = FALSE
        for x in res:
            r = bor(r, x)
        return r
    return apply1(None, f, args[0])


def is_sub(c, d):
    if not isinstance(c, ClsV):
        return False
    if c.qual == d.qual:
        return True
    return any(is_sub(b, d) for b in c.bases if isinstance(b, ClsV))


def to_number(it, v, kind=''):
    """int(v) or float(v): the number a text denotes"""
    def f(x):
        if isinstance(x, SymV) and x.a.kind == 'envstr':
            return SymV(atom('fn', 'number' + kind, x))
        if isinstance(x, Num) or as_poly(x) is not None:
            return x
        if isinstance(x, K) and x.v is None:
            return BOT
        raise Unk('conversion of %s to a number' % x.key[:60])
    return apply1('number', f, v)


def b_int(it, args, kw, node):
    def f(x):
        if isinstance(x, SymV) and x.a.kind == 'envstr':
            return to_number(it, x, '-int')
        if isinstance(x, SymV) and x.a.kind == 'fn' and x.a.args[0] == 'number-int':
            return x
        if isinstance(x, K) and x.v is None:
            return BOT
        p = as_poly(x)
        if p is None:
            if isinstance(x, K) and isinstance(x.v, str):
                try:
                    return num(int(x.v))
                except ValueError:
                    it.throw(TRUE)
                    return BOT
            return SymV(atom('fn', 'int', it.freeze(x)))
        c = p.const()
        if c is not None:
            import math
            return num(int(c))
        if isinstance(x, SymV) and x.a.kind == 'fn' and x.a.args[0] in ('int', 'len'):
            return x
        return Num(T.from_atom(atom('fn', 'int', p)))
    return apply1('int', f, args[0])


def b_bool(it, args, kw, node):
    return it.truth(args[0])


def b_print(it, args, kw, node):
    return NONE


def b_str(it, args, kw, node):
    if not args:
        return K('')
    v = it.freeze(args[0])
    if isinstance(v, K):
        return K(str(v.v))
    return SymV(atom('fn', 'str', v))


def b_type(it, args, kw, node):
    v = args[0]
    if isinstance(v, (Ref, SymV)) and v.cls is not None:
        return v.cls
    if isinstance(v, K) and v.v is not None:
        return Builtin('builtins.' + type(v.v).__name__)
    if isinstance(v, Num) and v.lit:
        return Builtin('builtins.' + v.lit)
    return SymV(atom('fn', 'type', it.freeze(v)))


def b_round(it, args, kw, node):
    if len(args) == 1:
        v = lift('round', f_round)(it, args, kw, node)
        return Num(v.p, 'int') if isinstance(v, Num) else v
    return SymV(atom('fn', 'round', *[it.freeze(a) for a in args]))


def np_zeros(it, args, kw, node):
    return num(0)


def np_ones(it, args, kw, node):
    return num(1)


def np_full(it, args, kw, node):
    return args[1]


def np_array(it, args, kw, node):
    v = args[0]
    c = it.cell(v) if isinstance(v, Ref) else v
    if isinstance(c, Ite):
        return apply1(None, lambda x: np_array(it, [x], kw, node), c)
    if isinstance(c, Seq):
        if len(c.parts) == 1 and c.parts[0].star:
            return c.parts[0].v
        return Seq([Part(np_array(it, [p.v], {}, node) if isinstance(it.cell(p.v), Seq) else p.v, p.binders, p.guard, p.star) for p in c.parts], 'array')
    return v


def np_where(it, args, kw, node):
    if len(args) == 1:
        return SymV(atom('fn', 'where', it.freeze(args[0])))
    return ite(it.truth(args[0]), args[1], args[2])


def np_clip(it, args, kw, node):
    v = args[0]
    lo = args[1] if len(args) > 1 else kw.get('a_min', NONE)
    hi = args[2] if len(args) > 2 else kw.get('a_max', NONE)
    if lo.key != 'None':
        v = minmax(it, 'max', [v, lo], {}, node)
    if hi.key != 'None':
        v = minmax(it, 'min', [v, hi], {}, node)
    return v


def np_sum(it, args, kw, node):
    v = args[0]
    c = it.cell(v) if isinstance(v, Ref) else v
    if isinstance(c, Seq):
        return sum_seq(it, c)
    if kw or len(args) > 1:
        return SymV(atom('fn', 'npsum', it.freeze(v), *[Seq([Part(K(k)), Part(it.freeze(x))], 'kw') for k, x in sorted(kw.items())]))
    return all_sum(it, v)


ARR = atom('sym', '%arr')


def all_sum(it, v):
    """sum over array elements of an elementwise expression; linear"""
    def g(p):
        out = T.ZERO
        for m, c in p.t.items():
            out = T.add(out, T.scale(T.from_atom(atom('ASUM', Poly({m: T.F1}))), c))
        return out
    if isinstance(v, Ite):
        return Num(g(linearize(v)))
    return Num(g(as_poly(v)))


def np_dot(it, args, kw, node):
    a, b = args
    ca, cb = it.cell(a) if isinstance(a, Ref) else a, it.cell(b) if isinstance(b, Ref) else b
    if isinstance(ca, Seq) and isinstance(cb, Seq) and ca.concrete() and cb.concrete():
        r = num(0)
        for x, y in zip(ca.items(), cb.items()):
            r = it.binop(ast.Add(), r, it.binop(ast.Mult(), x, y))
        return r
    return all_sum(it, it.binop(ast.Mult(), a, b, node))


def np_vectorize(it, args, kw, node):
    return args[0]


def ident_decorator(it, args, kw, node):
    return PyFn(lambda it2, a, k, n: a[0], 'ident')


def f_wraps(it, args, kw, node):
    return PyFn(lambda it2, a, k, n: a[0], 'ident')


def f_partial(it, args, kw, node):
    f, rest, kws = args[0], list(args[1:]), dict(kw)

    def g(it2, a, k, n):
        kk = dict(kws)
        kk.update(k)
        return it2.call(f, rest + list(a), kk, n)
    return PyFn(g, 'partial:' + f.key)


def f_reduce(it, args, kw, node):
    f = args[0]
    s = it.iterate(args[1])
    if not isinstance(s, Seq) or not s.concrete():
        raise Unk('reduce over symbolic sequence')
    vals = s.items()
    acc = args[2] if len(args) > 2 else vals.pop(0)
    for v in vals:
        acc = it.call(f, [acc, v], {}, node)
    return acc


def f_namedtuple(it, args, kw, node):
    n = args[0].v
    fl = args[1]
    c = it.cell(fl) if isinstance(fl, Ref) else fl
    if isinstance(c, K):
        fields = c.v.replace(',', ' ').split()
    else:
        fields = [x.v for x in c.items()]
    mod = it.stack[-1][0] if it.stack else 'x'
    return ClsV(n, mod + '.' + n, [], tuple(fields))


def f_deepcopy(it, args, kw, node):
    v = args[0]
    return deepcopy(it, v, {})


def deepcopy(it, v, memo):
    if isinstance(v, Ite):
        return ite(Ite(v.c, TRUE, FALSE), deepcopy(it, v.hi, memo), deepcopy(it, v.lo, memo))
    if isinstance(v, Ref):
        if v.key in memo:
            return memo[v.key]
        r = Ref(it.fresh('C'), v.cls)
        memo[v.key] = r
        if v.id in it.st.cells:
            it.st.cells[r.id] = deepcopy(it, it.st.cells[v.id], memo)
        for (ok, n, b), x in list(it.st.attrs.items()):
            if ok == v.key:
                it.st.attrs[(r.key, n, None)] = deepcopy(it, x, memo)
        return r
    if isinstance(v, Seq):
        return Seq([Part(deepcopy(it, p.v, memo), p.binders, p.guard, p.star) for p in v.parts], v.kind)
    if isinstance(v, DictV):
        return DictV([(k, deepcopy(it, x, memo), b, g) for k, x, b, g in v.e])
    if isinstance(v, SymV):
        return SymV(atom('fn', 'deepcopy', v), v.cls)
    return v


def f_counter(it, args, kw, node):
    if not args and not kw:
        return it.newlist([], 'Counter')
    if len(args) != 1 or kw:
        raise Unk('Counter')
    s = it.freeze(args[0])
    if isinstance(s, Seq) and s.concrete():
        # multiset: canonical sorted
        parts = sorted(s.parts, key=lambda p: p.v.key)
        return Seq(parts, 'Counter')
    if isinstance(s, K) and isinstance(s.v, str):
        return Seq([Part(K(c)) for c in sorted(s.v)], 'Counter')
    return SymV(atom('fn', 'Counter', s))


def f_permutations(it, args, kw, node):
    s = it.iterate(args[0])
    if isinstance(s, Seq) and s.concrete() and len(args) == 1:
        import itertools
        vals = s.items()
        if len(vals) <= 4:
            return Seq([Part(Seq([Part(v) for v in p], 'tuple')) for p in itertools.permutations(vals)], 'list')
    return SymV(atom('fn', 'permutations', it.freeze(args[0])))


def f_product(it, args, kw, node):
    ss = [it.iterate(a) for a in args]
    if all(isinstance(s, Seq) and s.concrete() for s in ss) and not kw:
        import itertools
        return Seq([Part(Seq([Part(v) for v in t], 'tuple')) for t in itertools.product(*[s.items() for s in ss])], 'list')
    raise Unk('itertools.product')


def f_combinations(it, args, kw, node, repl=False):
    s = it.iterate(args[0])
    n = it.cint(args[1])
    if isinstance(s, Seq) and s.concrete() and n is not None:
        import itertools
        g = itertools.combinations_with_replacement if repl else itertools.combinations
        return Seq([Part(Seq([Part(v) for v in t], 'tuple')) for t in g(s.items(), n)], 'list')
    raise Unk('itertools.combinations')


def f_chain(it, args, kw, node):
    parts = []
    for a in args:
        s = it.iterate(a)
        if isinstance(s, Ite):
            raise Unk('chain')
        parts.extend(s.parts)
    return it.newlist(parts)


def f_chain_from(it, args, kw, node):
    s = it.iterate(args[0])
    if isinstance(s, Ite) or any(p.binders or p.star for p in s.parts):
        raise Unk('chain.from_iterable')
    return f_chain(it, [p.v for p in s.parts], {}, node)


def np_append(it, args, kw, node):
    if len(args) == 2 and isinstance(args[1], Seq) and len(args[1].parts) == 1 and args[1].kind == 'array':
        # one value followed by n equal ones: an array described by its elements
        p = args[1].parts[0]
        if len(p.binders) == 1 and isinstance(p.binders[0][0], SymV) and p.binders[0][0].a.kind == 'range' \
                and p.guard.key == 'True' and not isinstance(it.freeze(args[0]), Seq):
            n = p.binders[0][0].a.args[0]
            d = Num(T.from_atom(atom('fn', 'atindex', num(0), Num(T.add(n, T.ONE)))))
            return it.binop(ast.Add(), p.v, it.binop(ast.Mult(), d, it.binop(ast.Sub(), args[0], p.v, node), node), node)
    def join(a, b):
        parts = []
        for c in (a, b):
            if isinstance(c, Seq):
                parts.extend(c.parts)
            else:
                parts.append(Part(c, star=isinstance(c, SymV)))
        return Seq(parts, 'array')
    return apply2(None, join, it.freeze(args[0]), it.freeze(args[1]))


def lifted(f, *vals):
    """f over the branches of its arguments"""
    t = [x.c for x in vals if isinstance(x, Ite)]
    if not t:
        return f(*vals)
    t = min(t, key=lambda c: c.key)
    return ite(Ite(t, TRUE, FALSE), lifted(f, *[simp(cof(x, t, True), t, True) for x in vals]),
               lifted(f, *[simp(cof(x, t, False), t, False) for x in vals]))


def np_repeat(it, args, kw, node):
    n = as_poly(args[1])
    if n is None:
        raise Unk('repeat')
    c = n.const()
    if c is not None:
        return Seq([Part(args[0])] * int(c), 'array')
    cnt = SymV(atom('range', n))
    return Seq([Part(args[0], [(cnt, atom('elem', cnt, '0'))])], 'array')


def np_concatenate(it, args, kw, node):
    s = it.iterate(args[0])
    if isinstance(s, Ite) or not s.concrete():
        raise Unk('concatenate')
    r = s.items()[0]
    for x in s.items()[1:]:
        r = np_append(it, [r, x], {}, node)
    return r


def np_isfinite(it, args, kw, node):
    return apply1('isfinite', lambda x: TRUE if isinstance(x, Num) and x.p.is_const() else cond_atom('isfinite', x), it.freeze(args[0]))


def np_isnan(it, args, kw, node):
    return apply1('isnan', lambda x: FALSE if isinstance(x, Num) and x.p.is_const() else cond_atom('isnan', x), it.freeze(args[0]))


def simps(it, args, kw, node):
    """sampled-grid integral: linear functional of the first argument"""
    y = args[0]
    x = args[1] if len(args) > 1 else kw.get('x')
    if x is None:
        return it._opq(Builtin('scipy.integrate.simps'), [it.freeze(a) for a in args])
    xv = it.freeze(x)
    y = it.freeze(y)
    if isinstance(y, Seq):
        raise Unk('simps of sequence')
    batoms = grid_atoms(xv)
    f = reduce_atom('SIMPS', batoms, (xv,))
    # everything that varies along the grid stays inside: array-valued atoms
    bs = batoms + [a for a in deep_all(y) if is_array_atom(a)]
    f = reduce_atom('SIMPS', bs, (xv,))
    return lift_reduce(y, bs, f)


def deep_all(v):
    acc = set()
    v.deep_atoms(acc)
    return acc


def np_arange(it, args, kw, node):
    """numpy.arange(n), (0, n) and (0, n, 1) are the same sequence"""
    if not kw or set(kw) == {'dtype'}:
        a = [it.freeze(x) for x in args]
        if len(a) == 3 and it.cint(a[2]) == 1:
            a = a[:2]
        if len(a) == 2 and it.cint(a[0]) == 0:
            a = a[1:]
        return it._opq(Builtin('numpy.arange'), a)
    return it._opq(Builtin('numpy.arange'), [it.freeze(x) for x in args] + [Seq([Part(K(k)), Part(it.freeze(v))], 'kw') for k, v in sorted(kw.items())])


ARRAY_NAMES = set(['gain', 'loss', '_distribution', 'collision_integral', 'TEMPLATE'])


def is_array_atom(a):
    if a.kind == 'sym':
        return a.key.split('.')[-1] in ARRAY_NAMES
    if a.kind == 'attr':
        return a.args[1] in ARRAY_NAMES
    return False


def grid_atoms(x):
    acc = set()
    x.deep_atoms(acc)
    return [a for a in acc if is_array_atom(a)] or ([x.a] if isinstance(x, SymV) else [])


def integral(it, f, lo, hi, node=None, kind='INT'):
    """definite integral of a one-argument function value"""
    b = atom('sym', '%%y%d' % it.int_depth)
    it.int_depth += 1
    try:
        body = it.call(f, [Num(T.from_atom(b))], {}, node)
    finally:
        it.int_depth -= 1
    body = it.freeze(body)
    red = reduce_atom(kind, [b], (it.freeze(lo), it.freeze(hi), b))

    def both(l, h):
        return lift_reduce(body, [b], reduce_atom(kind, [b], (l, h, b)))
    return apply2(None, both, it.freeze(lo), it.freeze(hi))


def ext_quad(it, args, kw, node):
    v = integral(it, args[0], args[1], args[2], node)
    return Seq([Part(v), Part(SymV(atom('sym', 'quad_error')))], 'tuple')


def os_getenv(it, args, kw, node):
    """an environment variable: some string when set, else the default"""
    n = it.freeze(args[0])
    d = args[1] if len(args) > 1 else kw.get('default', NONE)
    return ite(cond_atom('envset', n), SymV(atom('envstr', n)), d)


def os_environ_index(it, n):
    return SymV(atom('envstr', n))


TABLE = {
    'os.environ.get': os_getenv, 'os.getenv': os_getenv,
    'builtins.sum': b_sum, 'builtins.len': b_len, 'builtins.range': b_range, 'builtins.enumerate': b_enumerate,
    'builtins.zip': b_zip, 'builtins.list': b_list, 'builtins.tuple': b_tuple, 'builtins.set': b_set,
    'builtins.frozenset': b_set, 'builtins.dict': b_dict, 'builtins.sorted': b_sorted, 'builtins.reversed': b_reversed,
    'builtins.next': b_next, 'builtins.any': b_any, 'builtins.all': b_all, 'builtins.map': b_map, 'builtins.filter': b_filter,
    'os.path.join': join_path,
    'builtins.vars': lambda it, a, k, n: it.getattr(a[0], '__dict__', n),
    'builtins.hasattr': b_hasattr, 'builtins.getattr': b_getattr, 'builtins.setattr': b_setattr,
    'builtins.isinstance': b_isinstance, 'builtins.int': b_int, 'builtins.bool': b_bool, 'builtins.print': b_print,
    'builtins.str': b_str, 'builtins.repr': b_str, 'builtins.type': b_type, 'builtins.round': b_round,
    'builtins.max': lambda it, a, k, n: minmax(it, 'max', a, k, n),
    'builtins.min': lambda it, a, k, n: minmax(it, 'min', a, k, n),
    'builtins.slice': lambda it, a, k, n: Seq([Part(x) for x in a], 'slice'),
    'builtins.callable': lambda it, a, k, n: K(isinstance(a[0], (Fn, Bound, PyFn, Builtin))),
    'builtins.iter': lambda it, a, k, n: a[0],
    'numpy.maximum': lambda it, a, k, n: minmax(it, 'max', a, k, n),
    'numpy.minimum': lambda it, a, k, n: minmax(it, 'min', a, k, n),
    'numpy.fmax': lambda it, a, k, n: minmax(it, 'max', a, k, n),
    'numpy.zeros': np_zeros, 'numpy.zeros_like': np_zeros, 'numpy.ones': np_ones, 'numpy.ones_like': np_ones,
    'numpy.arange': np_arange, 'numpy.full': np_full, 'numpy.full_like': np_full, 'numpy.array': np_array, 'numpy.where': np_where, 'numpy.clip': np_clip, 'numpy.sum': np_sum,
    'numpy.dot': np_dot, 'numpy.inner': np_dot, 'numpy.vdot': np_dot, 'numpy.vectorize': np_vectorize,
    'numpy.any': np_any, 'numpy.all': np_all, 'numpy.isfinite': np_isfinite, 'numpy.isnan': np_isnan,
    'numpy.append': np_append, 'numpy.repeat': np_repeat, 'numpy.concatenate': np_concatenate, 'numpy.hstack': np_concatenate,
    'numpy.seterr': b_print, 'numpy.set_printoptions': b_print,
    'numpy.logical_and': lambda it, a, k, n: band(it.truth(a[0]), it.truth(a[1])),
    'numpy.logical_or': lambda it, a, k, n: bor(it.truth(a[0]), it.truth(a[1])),
    'numpy.logical_not': lambda it, a, k, n: bnot(it.truth(a[0])),
    'functools.wraps': f_wraps, 'functools.partial': f_partial, 'functools.reduce': f_reduce,
    'collections.namedtuple': f_namedtuple, 'collections.Counter': f_counter, 'copy.deepcopy': f_deepcopy,
    'collections.OrderedDict': b_dict,
    'itertools.permutations': f_permutations, 'itertools.product': f_product, 'itertools.combinations': f_combinations,
    'itertools.combinations_with_replacement': lambda it, a, k, n: f_combinations(it, a, k, n, True),
    'itertools.chain': f_chain, 'itertools.chain.from_iterable': f_chain_from,
    'scipy.integrate.simps': simps, 'scipy.integrate.simpson': simps, 'scipy.integrate.quad': ext_quad,
    'sys.stdout.write': b_print, 'contextlib.contextmanager': lambda it, a, k, n: a[0],
}


def call_method(it, o, name, args, kw, node):
    if isinstance(o, Ite):
        return ite(Ite(o.c, TRUE, FALSE), call_method(it, o.hi, name, args, kw, node), call_method(it, o.lo, name, args, kw, node))
    if isinstance(o, I.ObjDict):
        if name == 'update':
            d = it.cell(args[0]) if args else DictV([])
            if isinstance(d, DictV) and all(isinstance(k, K) and not b and g.key == 'True' for k, v, b, g in d.e):
                for k, v, b, g in list(d.e) + [(K(k), v, (), TRUE) for k, v in kw.items()]:
                    it.rawset(o.obj, k.v, v)
                return NONE
        if name == 'get':
            return b_getattr(it, [o.obj] + (args if len(args) > 1 else args + [NONE]), {}, node)
        raise Unk('__dict__.' + name)
    if isinstance(o, Ref) and o.id in it.st.cells:
        cell = it.st.cells[o.id]
        if isinstance(cell, DictV):
            return dict_method(it, o, cell, name, args, kw, node)
        if name == 'append':
            it.list_append(o, args[0])
            return NONE
        if name in ('extend', 'update') and not isinstance(cell, DictV):
            it.list_extend(o, args[0])
            return NONE
        if name == 'add':
            it.list_append(o, args[0])
            return NONE
        if name == 'copy':
            return it.newlist(cell.parts, cell.kind) if isinstance(cell, Seq) else o
        if name == 'count' and isinstance(cell, Seq):
            n = it.tally(cell, args[0])
            if n is not None:
                return n
        if name == 'index' and isinstance(cell, Seq) and cell.concrete():
            k = it.freeze(args[0]).key
            ks = [it.freeze(v).key for v in cell.items()]
            if k in ks:
                return num(ks.index(k))
        if name in ('remove', 'pop', 'insert', 'clear', 'sort', 'reverse') and isinstance(cell, Seq):
            if name == 'clear':
                it.st.cells[o.id] = Seq([], cell.kind)
                return NONE
            if name == 'pop' and cell.concrete() and cell.parts:
                i = it.cint(args[0]) if args else -1
                if i is not None:
                    v = cell.parts[i].v
                    l = list(cell.parts)
                    del l[i]
                    it.st.cells[o.id] = Seq(l, cell.kind)
                    return v
            if name == 'sort' and not args:
                s = b_sorted(it, [cell], kw, node)
                it.st.cells[o.id] = Seq(it.cell(s).parts, cell.kind)
                return NONE
            if name == 'remove' and cell.concrete():
                k = it.freeze(args[0])
                same = [eq_values(it.freeze(p.v), k) for p in cell.parts]
                if all(isinstance(c, K) for c in same) and any(c.v for c in same):
                    n = [c.v for c in same].index(True)
                    it.st.cells[o.id] = Seq(cell.parts[:n] + cell.parts[n + 1:], cell.kind)
                    return NONE
            if name == 'reverse' and cell.concrete():
                it.st.cells[o.id] = Seq(list(reversed(cell.parts)), cell.kind)
                return NONE
            if name == 'insert' and cell.concrete() and it.cint(args[0]) is not None:
                l = list(cell.parts)
                l.insert(it.cint(args[0]), Part(args[1]))
                it.st.cells[o.id] = Seq(l, cell.kind)
                return NONE
            it.st.cells[o.id] = Seq([Part(SymV(atom('fn', 'list.' + name, it.freeze(cell), *[it.freeze(a) for a in args])), star=True)])
            return NONE
        if isinstance(cell, Ite):
            raise Unk('method %s on conditional list' % name)
    if isinstance(o, DictV):
        return dict_method(it, None, o, name, args, kw, node)
    if isinstance(o, Ref) and o.cls is not None:
        if o.cls.fields and name == '_replace':
            r = Ref(it.fresh('N'), o.cls)
            it.st.attrs[(r.key, '%obj', None)] = TRUE
            for f in o.cls.fields:
                it.st.attrs[(r.key, f, None)] = kw.get(f, it.st.attrs[(o.key, f, None)])
            return r
        it.event('call', o, K(name), Seq([Part(it.freeze(a)) for a in args], 'tuple'), node=node)
        return it.unk('method %s of object' % name)
    if isinstance(o, ClsV):
        it.event('call', o, K(name), Seq([Part(it.freeze(a)) for a in args], 'tuple'), node=node)
        return it.unk('class method ' + name)
    if isinstance(o, K) and isinstance(o.v, str):
        if name == 'join':
            s = it.freeze(args[0])
            if isinstance(s, Seq) and s.concrete() and all(isinstance(x, K) for x in s.items()):
                return K(o.v.join(x.v for x in s.items()))
            return SymV(atom('fn', 'join', o, s))
        if name == 'format':
            return str_format(it, o.v, args, kw)
        if all(isinstance(a, K) for a in args) and not kw:
            try:
                r = getattr(o.v, name)(*[a.v for a in args])
                if isinstance(r, (str, bool)):
                    return K(r)
                if isinstance(r, int):
                    return num(r)
                if isinstance(r, list):
                    return it.newlist([Part(K(x)) for x in r])
            except Exception:
                pass
        return SymV(atom('fn', 'str.' + name, o, *[it.freeze(a) for a in args]))
    if isinstance(o, Seq):
        if o.kind in ('array', 'tuple', 'list') and name in ('copy', 'tolist', 'astype'):
            return o
        if name == 'index' and o.concrete():
            k = it.freeze(args[0]).key
            for i, v in enumerate(o.items()):
                if it.freeze(v).key == k:
                    return num(i)
        if name == 'count':
            n = it.tally(o, args[0])
            if n is not None:
                return n
        if name == 'sum':
            return sum_seq(it, o)
        if name == 'any':
            return b_any(it, [o], {}, node)
        return SymV(atom('fn', 'm.' + name, it.freeze(o), *[it.freeze(a) for a in args]))
    # numbers / arrays / opaque
    if name in ('copy', 'astype', 'flatten', 'ravel', 'conj', 'conjugate', 'squeeze'):
        return o
    if name in ('any', 'all') and isinstance(o, (Num, SymV)):
        return (np_any if name == 'any' else np_all)(it, [o], {}, node)
    if name == 'sum' and isinstance(o, (Num, SymV)):
        return np_sum(it, [o], kw, node)
    if name == 'dot':
        return np_dot(it, [o] + args, {}, node)
    if name == 'clip':
        return np_clip(it, [o] + args, kw, node)
    if name in ('tolist',):
        return o
    if name in ('max', 'min', 'mean', 'transpose', 'reshape', 'searchsorted', 'repeat', 'view', 'prod', 'cumsum'):
        return it._opq(SymV(atom('sym', 'np.' + name)), [it.freeze(o)] + [it.freeze(a) for a in args])
    if name == '_replace' and isinstance(o, SymV):
        e = [o]
        return SymV(atom('replace', o, *[Seq([Part(K(k)), Part(it.freeze(v))], 'kw') for k, v in sorted(kw.items())]), o.cls)
    if name == 'keys' and isinstance(o, SymV):
        return it.newlist([Part(o, star=True)])
    if name in ('values', 'items') and isinstance(o, SymV):
        el = it.elem_of(o)
        v = it.index(o, el)
        return it.newlist([Part(v if name == 'values' else Seq([Part(el), Part(v)], 'tuple'), [(o, el.a)])])
    if name == 'get' and isinstance(o, SymV):
        return it._opq(SymV(atom('sym', 'dict.get')), [o] + [it.freeze(a) for a in args])
    fz = o if isinstance(o, (SymV, Num, Builtin)) else it.freeze(o)
    fa = [it.freeze(a) for a in args] + [Seq([Part(K(k)), Part(it.freeze(v))], 'kw') for k, v in sorted(kw.items())]
    it.event('mcall', fz, K(name), Seq([Part(a) for a in fa], 'tuple'), node=node)
    return it._opq(SymV(atom('sym', 'meth.' + name)), [fz] + fa)


def dict_method(it, o, cell, name, args, kw, node):
    if name == 'items':
        return it.newlist([Part(Seq([Part(k), Part(v)], 'tuple'), b, g) for k, v, b, g in cell.e])
    if name == 'keys':
        return it.newlist([Part(k, b, g) for k, v, b, g in cell.e])
    if name == 'values':
        return it.newlist([Part(v, b, g) for k, v, b, g in cell.e])
    if name == 'get':
        return it.dict_get(cell, args[0], args[1] if len(args) > 1 else NONE)
    if name == 'copy':
        return it.newdict(cell.e)
    if name == 'update' and o is not None:
        ents = list(cell.e)
        if args:
            d = it.cell(args[0])
            if not isinstance(d, DictV):
                raise Unk('dict.update')
            for x in d.e:
                if not x[2]:
                    ents = [y for y in ents if y[0].key != x[0].key]
                ents.append(x)
        for k, v in kw.items():
            ents = [y for y in ents if y[0].key != K(k).key]
            ents.append((K(k), v, (), TRUE))
        it.st.cells[o.id] = DictV(ents)
        return NONE
    if name == 'pop' and o is not None:
        v = it.dict_get(cell, args[0], args[1] if len(args) > 1 else None)
        k = it.freeze(args[0])
        it.st.cells[o.id] = DictV([y for y in cell.e if y[0].key != k.key])
        return v
    if name == 'setdefault' and o is not None:
        k = it.freeze(args[0])
        for kk, v, b, g in cell.e:
            if kk.key == k.key and g.key == 'True':
                return v
            if kk.key == k.key:
                raise Unk('dict.setdefault')
        it.st.cells[o.id] = DictV(list(cell.e) + [(k, args[1], (), TRUE)])
        return args[1]
    raise Unk('dict.' + name)

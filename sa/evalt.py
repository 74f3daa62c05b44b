"""Identity testing of abstract terms.

When two normal forms differ, the difference is only reported if an assignment
of the atoms distinguishes them.  The *terms* are evaluated here (rational
functions, decision diagrams, finite sums, quadratures as linear functionals);
the analysed program is not run.  This protects against reporting two forms
that are equal by an identity the normaliser does not know."""
import hashlib
import math
from fractions import Fraction
from . import terms as T
from .terms import Atom, Poly, Unk
from .values import *
from .precise import HP

BOOLNAMES = {'thermal_dyn', 'majorana', 'in_equilibrium', 'antiparticle', 'decayed', 'crossed'}
INTNAMES = {'MOMENTUM_SAMPLES', 'dof', 'Q', 'length', 'size', 'order', 'num', 'n'}
SIDENAMES = {'side'}
# functions with a closed form, kept as atoms
CLOSED = {}
# functions of a whole array (their first argument)
REDUCING = {'searchsorted', 'len'}
ARRAYNAMES = {'gain', 'loss', 'TEMPLATE', '_distribution', 'collision_integral', 'points', 'weights', 'distribution_array'}
# lists of one object that always have the same length
PARALLEL = ('columns', 'unit_names', 'units', 'dtypes')
FACTS = {}


class Undefined(Exception):
    pass


class Obj(object):
    """evaluated non-numeric value, compared by token"""
    __slots__ = ('t',)

    def __init__(self, t):
        self.t = t

    def __repr__(self):
        return self.t


def _h(s):
    return int(hashlib.md5(s.encode()).hexdigest()[:12], 16)


def tok(v):
    if isinstance(v, bool):
        return str(v)
    if isinstance(v, float):
        if v == int(v) and abs(v) < 1e9:
            return str(int(v))
        return '%.8e' % v
    if isinstance(v, int):
        return str(v)
    if isinstance(v, Obj):
        return v.t
    if isinstance(v, (list, tuple)):
        return '(' + ','.join(tok(x) for x in v) + ')'
    if isinstance(v, dict):
        return '{' + ','.join(sorted(k + ':' + tok(x) for k, x in v.items())) + '}'
    return repr(v)


def last(key):
    return key.split('.')[-1]


class Evaluator(object):
    def __init__(self, seed, mode, consts, force=None, scales=None, precise=False, salt=None):
        self.real = HP if precise else float
        self.precise = precise
        self.force = force or {}
        self.scales = scales or {}
        self.seed = str(seed)
        self.salt = salt or {}    # draws made anew by the search for a valuation of a path
        self.drawn = []
        self.mode = mode
        self.consts = consts      # opaque value key -> constant keys it is compared with
        self.env = {}             # binder atom key -> Obj or float
        self.grid = None          # current grid index inside a sampled integral
        self.memo = {}
        self.trace = {}
        self.expscale, self.expmax = 1., 0.
        self.big = 0.

    def h(self, token):
        self.drawn.append(token)
        n = self.salt.get(token)
        return _h(self.seed + token) if n is None else _h('%s%s~%d' % (self.seed, token, n))

    # random draws ---------------------------------------------------------------
    def rnd(self, token, name=''):
        h = self.h('|' + token)
        u = (h % 1000003) / 1000003.0
        r = (h // 1000003) % 97
        if name in BOOLNAMES:
            return float(h & 1)
        if name in SIDENAMES:
            return 1.0 if h & 1 else -1.0
        if name in INTNAMES:
            return float(1 + h % 5) if name != 'Q' else float(h % 3 - 1)
        signed = name in T.SIGNED
        strict = name in STRICT
        m = self.mode
        n = self.salt.get('|' + token)
        if n is not None:
            m = n % 7
        if m == 0:
            v = [0.0, 1.0, 2.0][h % 3]
            if strict and v == 0:
                v = 3.0
        elif m == 1:
            v = [1.0, 2.0, 3.0, 0.5][h % 4]
        elif m == 2:
            v = 0.2 + 2.5 * u
        elif m == 3:
            v = 10 ** (-5 + 10 * u)
        elif m == 5 and n is not None:
            v = 10 ** (-18 + 12 * u)
        elif m == 6:
            v = 10 ** (6 + 12 * u)
        elif m == 5:
            v = math.exp(self.scales.get(name, 0.)) * (0.2 + 2.5 * u)
        else:
            v = 0.2 + 2.5 * u if r > 15 else (0.0 if not strict else 1.0)
        if signed and (h >> 7) & 1:
            v = -v
        self.trace[token] = v
        return self.real(v)

    # values ---------------------------------------------------------------------
    def val(self, v):
        if isinstance(v, Num):
            return self.poly(v.p, True)
        if isinstance(v, K):
            if isinstance(v.v, bool):
                return v.v
            if v.v is None or isinstance(v.v, str):
                return Obj(repr(v.v))
            return Obj(v.key)
        if isinstance(v, SymV):
            return self.atom(v.a)
        if isinstance(v, Ite):
            try:
                c = self.cond(v.c)
            except Undefined:
                # a test of another path: no matter if both sides agree
                hi, lo = self.val(v.hi), self.val(v.lo)
                if tok(hi) != tok(lo):
                    raise
                return hi
            return self.val(v.hi if c else v.lo)
        if isinstance(v, Seq):
            return (v.kind if v.kind in ('Counter', 'set') else '',) + tuple(self.items(v))
        if isinstance(v, DictV):
            out = {}
            for k, x, bs, g in v.e:
                for _ in self.bind(bs):
                    if g.key == 'True' or self.val(g):
                        out[tok(self.val(k))] = self.val(x)
            return out
        return Obj(v.key)

    def items(self, s):
        out = []
        for p in s.parts:
            if p.star:
                out.append(Obj('*' + tok(self.val(p.v))))
                continue
            for _ in self.bind(p.binders):
                if p.guard.key == 'True' or self.val(p.guard):
                    out.append(self.val(p.v))
        if s.kind in ('Counter', 'set'):
            out.sort(key=tok)
        return out

    def bind(self, binders):
        if not binders:
            yield
            return
        (c, b), rest = binders[0], binders[1:]
        n = self.size(c)
        old = self.env.get(b.key)
        m = self.memo
        for i in range(n):
            self.env[b.key] = self.element(c, i)
            self.memo = {}
            for _ in self.bind(rest):
                yield
        if old is None:
            self.env.pop(b.key, None)
        else:
            self.env[b.key] = old
        self.memo = m

    def size(self, c):
        a = c.a if isinstance(c, SymV) else (c if isinstance(c, Atom) else None)
        if a is not None:
            if a.kind == 'range':
                n = self.poly(a.args[0])
                n = int(round(n)) if n == n else 0
                return max(0, min(n, 6))
            if a.kind == 'zip':
                return min(self.size(x) for x in a.args)
            if a.kind == 'slice' and a.args[3].key == 'None':
                n = self.size(a.args[0])
                return len(range(n)[self.sl(a, n)])
        if isinstance(c, Seq):
            return len(self.items(c))
        i = self.ident(c)
        for n in PARALLEL:
            if i.endswith('.' + n):
                i = i[:-len(n)] + '#'
        return 1 + self.h('len|' + i) % 3

    def sl(self, a, n):
        def g(x):
            if x.key == 'None':
                return None
            v = self.val(x)
            if not isinstance(v, (int, float)) or v != v:
                raise Undefined()
            return int(v)
        return slice(g(a.args[1]), g(a.args[2]))

    def element(self, c, i):
        a = c.a if isinstance(c, SymV) else (c if isinstance(c, Atom) else None)
        if a is not None:
            if a.kind == 'range':
                return float(i)
            if a.kind == 'zip':
                return ('zip', [self.element(x, i) for x in a.args])
            if a.kind == 'slice' and a.args[3].key == 'None':
                n = self.size(a.args[0])
                return self.element(a.args[0], range(n)[self.sl(a, n)][i])
        if isinstance(c, Seq):
            return self.items(c)[i]
        return Obj('%s[%d]' % (self.ident(c), i))

    def ident(self, x):
        """identity token of an opaque value"""
        if isinstance(x, SymV):
            x = x.a
        if isinstance(x, Atom):
            if x.key in self.env:
                return tok(self.env[x.key]) if not isinstance(self.env[x.key], tuple) else 'z'
            if x.kind == 'sym':
                t = x.key
                if self.grid is not None and last(t) in ARRAYNAMES:
                    t += '~%d' % self.grid
                return t
            if x.kind == 'attr':
                t = self.ident(x.args[0]) + '.' + x.args[1]
                if self.grid is not None and x.args[1] in ARRAYNAMES:
                    t += '~%d' % self.grid
                return t
            if x.kind == 'idx':
                base = x.args[0]
                ba = base.a if isinstance(base, SymV) else None
                if ba is not None and isinstance(self.env.get(ba.key), tuple):
                    return tok(self.env[ba.key][1][int(self.arg(x.args[1]))])
                i = self.arg(x.args[1])
                if isinstance(i, (int, float)) and not isinstance(i, bool):
                    n = None
                    if ba is not None and ba.kind == 'slice' or i < 0:
                        n = self.size(base)
                        j = int(i) + (n if i < 0 else 0)
                        if 0 <= j < n:
                            e = self.element(base, j)
                            return tok(e)
                return '%s[%s]' % (self.ident(base), tok(i))
            if x.kind == 'call' and self.grid is not None and last(x.args[0].key) in REDUCING:
                old, self.grid = self.grid, None
                try:
                    first = self.idarg(x.args[1])
                finally:
                    self.grid = old
                return x.kind + '(' + ','.join([self.idarg(x.args[0]), first] + [self.idarg(y) for y in x.args[2:]]) + ')'
            return x.kind + '(' + ','.join(self.idarg(y) for y in x.args) + ')' + ('~%d' % self.grid if self.grid is not None and self.arrayish(x) else '')
        return tok(self.val(x))

    def arrayish(self, x):
        return False

    def idarg(self, y):
        if isinstance(y, str):
            return y
        return tok(self.arg(y))

    def arg(self, y):
        if isinstance(y, Poly):
            return self.poly(y)
        if isinstance(y, Atom):
            return self.atom(y)
        if isinstance(y, (str,)):
            return Obj(y)
        if isinstance(y, (Fraction, int)):
            return self.real(y)
        if isinstance(y, tuple):
            return tuple(self.arg(z) for z in y)
        return self.val(y)

    def num(self, x):
        if isinstance(x, (int, float)):
            return x if isinstance(x, HP) else self.real(x)
        if isinstance(x, Obj):
            return self.rnd(x.t, last(x.t.split('[')[0]) if '[' in x.t else last(x.t))
        raise Undefined()

    def poly(self, p, top=False):
        s = 0.0
        for m, c in p.t.items():
            t = self.real(c)
            roots = 0
            for a, e in m:
                x = self.num(self.atom(a))
                if x == 0 and e < 0:
                    raise Undefined()
                if x < 0 and e.denominator != 1:
                    # the root of a quotient or a product is kept as roots of the factors
                    if e.denominator % 2 == 0:
                        roots += 1
                    elif e.numerator % 2:
                        t = -t
                    x = -x
                try:
                    t *= x ** (int(e) if e.denominator == 1 else e if self.precise else float(e))
                except (OverflowError, ZeroDivisionError):
                    raise Undefined()
            if roots % 2:
                raise Undefined()
            s += t
            if top and self.precise:
                self.big = max(self.big, abs(t))
        if s != s or abs(s) > 1e280:
            raise Undefined()
        return s

    def cond(self, a):
        k = a.kind
        if a.key in self.force:
            return self.force[a.key]
        if k in ('gt', 'eq0') and self.precise:
            x = self.poly(a.args[0])
            return x > 1e-40 if k == 'gt' else abs(x) <= 1e-40
        if k in ('gt', 'eq0') and self.mode == 5:
            # magnitudes are adapted to the value: rounding is relative to the largest term
            p = a.args[0]
            big = max([abs(self.poly(Poly({m: c}))) for m, c in p.t.items()] or [0.])
            return self.poly(p) > 1e-12 * big if k == 'gt' else abs(self.poly(p)) <= 1e-12 * big
        if k == 'gt':
            return self.poly(a.args[0]) > 1e-12
        if k == 'eq0':
            if self.same_length(a.args[0]):
                return True
            return abs(self.poly(a.args[0])) < 1e-12
        if k == 'cfg':
            return bool(self.h(a.key) & 1)
        if k == 'eq':
            return self.eq(a.args[0], a.args[1])
        if k == 'exists':
            s = a.args[0]
            for p in s.parts:
                for _ in self.bind(p.binders):
                    g = True if p.guard.key == 'True' else self.val(p.guard)
                    if g and self.truth(self.val(p.v)):
                        # leave the generator in a clean state
                        pass
                        res = True
                        break
                else:
                    continue
                for c, b in p.binders:
                    self.env.pop(b.key, None)
                self.memo = {}
                return True
            return False
        if k in ('isfinite', 'isnan'):
            h = self.h('nan|' + self.idarg(a.args[0])) % 12
            return h != 0 and h != 1 if k == 'isfinite' else h == 0
        if k == 'ind':
            return self.cond(a.args[0])
        if k == 'np_any':
            old, om = self.grid, self.memo
            try:
                for j in (old, 0, 1, 2):
                    self.grid = j
                    self.memo = {}
                    if self.truth(self.val(a.args[0])):
                        return True
                return False
            finally:
                self.grid, self.memo = old, om
        t = self.ident(a)
        return bool(self.h('c|' + t) & 1)

    def eq(self, x, y):
        cc = (K, Fn, ClsV, ModV, Builtin)
        for u, w in ((x, y), (y, x)):
            if isinstance(w, cc) and isinstance(u, SymV):
                i = self.ident(u)
                al = sorted(self.consts.get(u.key, {w.key}) | {w.key})
                pick = self.h('k|' + i) % (len(al) + 1)
                return pick < len(al) and al[pick] == w.key
        a, b = self.val(x), self.val(y)
        if isinstance(a, float) and isinstance(b, float):
            return abs(a - b) < (1e-40 if self.precise else 1e-12)
        ta, tb = tok(a), tok(b)
        if ta != tb and all(isinstance(v, SymV) and v.a.kind == 'fn' and len(v.a.args) == 2 and v.a.args[0] in TEXTFN for v in (x, y)) \
                and x.a.args[0] == y.a.args[0]:
            # multisets of unknown texts may coincide, their sets also when the multisets differ
            u, w = x.a.args[1], y.a.args[1]
            return self.coincide(u, w) or x.a.args[0] == 'set' and self.coincide(u, w, 'letters|')
        return ta == tb

    def coincide(self, u, w, how='same|'):
        t = sorted(tok(self.val(v)) for v in (u, w))
        return t[0] == t[1] or bool(self.h(how + '|'.join(t)) & 1)

    def same_length(self, p):
        """len(x) - len(y) of two texts of the same letters"""
        if len(p.t) != 2 or sorted(p.t.values()) != [-1, 1]:
            return False
        u = [m[0][0] for m in p.t if len(m) == 1 and m[0][1] == 1 and m[0][0].kind == 'fn' and m[0][0].args[0] == 'len']
        if len(u) != 2 or not any(isinstance(v.args[1], SymV) and v.args[1].a.kind == 'fn' and v.args[1].a.args[0] == 'join' for v in u):
            return False
        return self.coincide(u[0].args[1], u[1].args[1])

    def truth(self, v):
        if isinstance(v, (bool, int, float)):
            return bool(v)
        if isinstance(v, Obj):
            return v.t not in ('None', "''")
        return True

    def atom(self, a):
        if a.key in self.env:
            v = self.env[a.key]
            if isinstance(v, Obj):
                return v
            return v
        mk = (a.key, self.grid)
        if mk in self.memo:
            return self.memo[mk]
        v = self.atom0(a)
        self.memo[mk] = v
        return v

    def atom0(self, a):
        k = a.kind
        if k in ('unk', 'hdr', 'seqdep'):
            if k == 'seqdep':
                return self.rnd(a.key)
            raise Unk('unknown value in term')
        if k == 'sym':
            if a.key == 'pi':
                return math.pi
            if a.key == 'inf':
                return 1e30
            if a.key == 'nan':
                return Obj('nan')
            n = last(a.key)
            t = self.ident(a)
            return self.rnd(t, n) if self.numeric_name(a.key) else Obj(t)
        if k == 'attr':
            return self.rnd(self.ident(a), a.args[1])
        if k == 'exp':
            x = self.poly(a.args[0])
            self.expmax = max(self.expmax, abs(x))
            x *= self.expscale
            if x > 600:
                raise Undefined()
            return x.exp() if isinstance(x, HP) else math.exp(x)
        if k == 'log':
            x = self.poly(a.args[0])
            if x <= 0:
                raise Undefined()
            return x.log() if isinstance(x, HP) else math.log(x)
        if k == 'powsum':
            return self.poly(a.args[0])
        if k == 'diag':
            return self.num(self.val(a.args[0]))
        if k == 'prime':
            return float(a.args[0])
        if k == 'ind':
            return 1.0 if self.cond(a.args[0]) else 0.0
        if k in ('INT', 'LAG'):
            return self.quad(a)
        if k == 'SIMPS':
            return self.sampled(a.args[-1], 'S' + tok_key(a.args[0]))
        if k == 'ASUM':
            return self.sampled(a.args[-1], None)
        if k == 'SUM':
            c, b, body = a.args
            s = 0.0
            for _ in self.bind([(c, b)]):
                s += self.poly(body)
            return s
        if k == 'PROD':
            s = 1.0
            for p in a.args[0].parts:
                for _ in self.bind(p.binders):
                    s *= self.num(self.val(p.v))
            return s
        if k == 'pos':
            b = a.args[0]
            if isinstance(b, Atom) and b.key in self.env and isinstance(self.env[b.key], Obj):
                t = self.env[b.key].t
                if t.endswith(']'):
                    return float(t[t.rindex('[') + 1:-1])
            raise Undefined()
        if k in ('first', 'firstor', 'last', 'lastor'):
            got = []
            for p in a.args[0].parts:
                for _ in self.bind(p.binders):
                    if p.guard.key == 'True' or self.val(p.guard):
                        got.append(self.val(p.v))
            if got:
                return got[-1] if k in ('last', 'lastor') else got[0]
            if k in ('first', 'last'):
                raise Undefined()
            return self.val(a.args[1])
        if k == 'cfgv':
            if self.h("cfg[%s]" % a.args[0].key) & 1:
                return self.rnd(a.key, '') or 1.5
            return self.rnd(a.key, '') or 1.5
        if k == 'fn':
            return self.fn(a)
        if k in ('idx', 'elem', 'call', 'slice', 'store', 'meth', 'arr', 'replace', 'zip', 'range'):
            t = self.ident(a)
            nm = ''
            if k == 'call':
                f = a.args[0]
                nm = last(f.key)
                if nm == 'searchsorted' and isinstance(a.args[1], V):
                    # a position in the array, or its length
                    try:
                        n = self.size(a.args[1])
                    except Undefined:
                        n = 3
                    return float(self.h('|' + t) % (n + 1))
            if k == 'idx':
                nm = last(a.args[0].key)
                c = getattr(a.args[0], 'a', None)
                if c is not None and c.kind == 'call' and last(c.args[0].key) in POSITIONS:
                    return float(self.h('|' + t) % 4 - 1)
            if k in ('slice', 'replace', 'zip', 'range', 'arr', 'elem'):
                return Obj(t)
            return self.rnd(t, nm)
        return self.rnd(self.ident(a), '')

    def numeric_name(self, key):
        return True

    def fn(self, a):
        n = a.args[0]
        xs = a.args[1:]
        if n in CLOSED:
            return CLOSED[n](*[self.num(self.arg(x)) for x in xs])
        if n in ('sin', 'cos', 'arcsin', 'arccos', 'arctan', 'abs', 'floor', 'ceil', 'int', 'round', 'log10', 'tanh', 'sinh', 'cosh', 'sign'):
            v = self.arg(xs[0])
            x = self.num(v)
            try:
                if n == 'abs' and isinstance(x, HP):
                    return abs(x)
                return float({'sin': math.sin, 'cos': math.cos, 'arcsin': math.asin, 'arccos': math.acos, 'arctan': math.atan,
                              'abs': abs, 'floor': lambda z: math.floor(z + 1e-12), 'ceil': lambda z: math.ceil(z - 1e-12),
                              'int': lambda z: math.trunc(z + (1e-12 if z > 0 else -1e-12)), 'round': round,
                              'log10': math.log10, 'tanh': math.tanh, 'sinh': math.sinh, 'cosh': math.cosh,
                              'sign': lambda z: (z > 0) - (z < 0)}[n](x))
            except (ValueError, OverflowError):
                raise Undefined()
        if n == 'pow':
            b, e = self.arg(xs[0]), self.arg(xs[1])
            b, e = self.num(b), self.num(e)
            try:
                r = b ** e
            except (OverflowError, ZeroDivisionError):
                raise Undefined()
            if isinstance(r, complex):
                raise Undefined()
            return r
        if n == 'floordiv':
            q = self.num(self.arg(xs[1]))
            if q == 0:
                raise Undefined()
            return float(math.floor(self.num(self.arg(xs[0])) / q + 1e-12))
        if n == 'mod':
            q = self.num(self.arg(xs[1]))
            if q == 0:
                raise Undefined()
            return self.num(self.arg(xs[0])) % q
        if n == 'len':
            return float(self.size(xs[0]))
        if n == 'div0':
            raise Undefined()
        if n in ('max', 'min') and len(xs) == 1 and isinstance(xs[0], V):
            if isinstance(xs[0], Seq):
                it = [self.num(x) for x in self.items(xs[0])]
                if it:
                    return (max if n == 'max' else min)(it)
        if n == 'sumof':
            return sum(self.num(self.element(xs[0], i)) for i in range(self.size(xs[0])))
        if n in ('str', 'format', 'join', 'fstr', 'sorted', 'set', 'Counter', 'deepcopy', 'keys', 'values', 'items', 'type') or n.startswith('str'):
            return Obj(self.ident(a))
        return self.rnd(self.ident(a), '')

    def quad(self, a):
        lo, hi, b, body = a.args
        if a.kind == 'LAG':
            nodes = LAGN
            l, h = 0.0, 1.0
        else:
            l, h = self.num(self.val(lo)), self.num(self.val(hi))
            nodes = GLN
        s = 0.0
        old, m = self.env.get(b.key), self.memo
        for x, w in nodes:
            self.env[b.key] = x if a.kind == 'LAG' else l + (h - l) * x
            self.memo = {}
            s += w * self.poly(body, True)
        self.memo = m
        if old is None:
            self.env.pop(b.key, None)
        else:
            self.env[b.key] = old
        return s if a.kind == 'LAG' else s * (h - l)

    def sampled(self, body, wt):
        old, m = self.grid, self.memo
        s = 0.0
        try:
            for j in range(3):
                self.grid = j
                self.memo = {}
                w = 1.0 if wt is None else 0.3 + (_h('%s%s%d' % (self.seed, wt, j)) % 1000) / 700.0
                s += w * self.poly(body)
        finally:
            self.grid, self.memo = old, m
        return s


# functions whose results are positions on a grid, -1 for none
TEXTFN = ('Counter', 'set', 'sorted')
POSITIONS = {'binary_find'}


def tok_key(v):
    return v.key


def _gl():
    # 6-node Gauss-Legendre on [0, 1]: exact linear functional, enough to tell integrands apart
    xs = [0.2386191860831969, 0.6612093864662645, 0.932469514203152]
    ws = [0.4679139345726910, 0.3607615730481386, 0.1713244923791704]
    out = []
    for x, w in zip(xs, ws):
        out.append((0.5 + x / 2, w / 2))
        out.append((0.5 - x / 2, w / 2))
    return out


GLN = _gl()
LAGN = [(0.3, 0.5), (1.1, 0.3), (2.7, 0.15), (4.9, 0.05)]


def balance(*vals):
    """log-magnitudes of the drawn quantities, by name, at which the terms of
    every sum are comparable (least squares), so that no term is lost in rounding"""
    acc = set()
    polys = []
    for v in vals:
        v.deep_atoms(acc)
        if isinstance(v, Num):
            polys.append((v.p, 0.1))
    for a in acc:
        w = 1.0 if a.kind == 'exp' or a.kind == 'fn' else 0.2
        for x in a.args:
            if isinstance(x, Num):
                x = x.p
            if isinstance(x, Poly):
                polys.append((x, w))
    rows = []
    for p, w in polys:
        for m, c in p.t.items():
            e = {}
            for a, x in m:
                n = last(a.key) if a.kind == 'sym' else a.args[1] if a.kind == 'attr' else None
                if isinstance(n, str):
                    e[n] = e.get(n, 0.) + float(x)
            e = {n: x for n, x in e.items() if x}
            if e:
                rows.append((math.log(abs(c)), e, w))
    # one row per shape
    seen = {}
    for l, e, w in rows:
        seen.setdefault((round(l), tuple(sorted(e.items()))), [l, e, 0.])[2] += w
    rows = sorted(seen.values(), key=lambda r: -r[2])[:300]
    names = sorted({n for r in rows for n in r[1]})
    s = {n: 0. for n in names}
    use = {n: [r for r in rows if n in r[1]] for n in names}
    for it in range(30):
        for n in names:
            a = b = 0.
            for l, e, w in use[n]:
                rest = l + sum(x * s[k] for k, x in e.items() if k != n)
                a -= w * e[n] * rest
                b += w * e[n] * e[n]
            s[n] = a / (b + 1e-3)
    return {n: max(-200., min(200., x)) for n, x in s.items()}


def scalable(*vals):
    """may exp(x) be read as exp(s x) with one s throughout?  An identity between values in
    normal form that are rational in exponentials holds for every such reading."""
    acc = set()
    for v in vals:
        v.deep_atoms(acc)
    for a in acc:
        if a.kind in ('exp', 'log'):
            inner = set()
            Num(a.args[0]).deep_atoms(inner)
            if any(b.kind in ('exp', 'log') for b in inner):
                return False
    return any(a.kind == 'exp' for a in acc)


def collect_consts(*vals):
    acc = set()
    for v in vals:
        v.deep_atoms(acc)
    out = {}
    cc = (K, Fn, ClsV, ModV, Builtin)
    for a in acc:
        if a.kind == 'eq':
            x, y = a.args
            for u, w in ((x, y), (y, x)):
                if isinstance(w, cc) and isinstance(u, SymV):
                    out.setdefault(u.key, set()).add(w.key)
    return out


def same(a, b, tol=1e-7, floor=0.):
    if isinstance(a, bool) and isinstance(b, bool):
        return a == b
    if isinstance(a, (bool, int, float)) and isinstance(b, (bool, int, float)):
        if not isinstance(a, HP) and not isinstance(b, HP):
            a, b = float(a), float(b)
        return abs(a - b) <= tol * max(abs(a), abs(b)) or abs(a - b) <= floor
    if isinstance(a, tuple) and isinstance(b, tuple):
        return len(a) == len(b) and all(same(x, y, tol, floor) for x, y in zip(a, b))
    if isinstance(a, dict) and isinstance(b, dict):
        return set(a) == set(b) and all(same(a[k], b[k], tol, floor) for k in a)
    if isinstance(a, Obj) and isinstance(b, (int, float)) or isinstance(b, Obj) and isinstance(a, (int, float)):
        return False
    return tok(a) == tok(b)

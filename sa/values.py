"""Abstract values: algebraic terms, decision diagrams over condition atoms,
sequences with symbolic (per-element) parts, references to abstract cells."""
from . import terms as T
from .terms import Poly, Atom, atom, Unk, TooBig, Fraction


class V(object):
    __slots__ = ()
    key = None

    def __repr__(self):
        return self.key

    def deep_atoms(self, acc):
        return acc

    def subst(self, mp, memo):
        return self


class Num(V):
    # lit: 'int' or 'float' where the value is a literal of that type (not part of its identity)
    __slots__ = ('p', 'key', 'lit')

    def __init__(self, p, lit=None):
        self.p = p
        self.key = p.key
        self.lit = lit

    def deep_atoms(self, acc):
        return self.p.deep_atoms(acc)

    def subst(self, mp, memo):
        q = T._subst(self.p, mp, memo)
        return self if q.key == self.p.key else Num(q)


class K(V):
    __slots__ = ('v', 'key')

    def __init__(self, v):
        self.v = v
        self.key = repr(v)


class SymV(V):
    """opaque value named by an atom; may act as object or number"""
    __slots__ = ('a', 'key', 'cls')

    def __init__(self, a, cls=None):
        self.a = a
        self.key = a.key
        self.cls = cls

    def deep_atoms(self, acc):
        return T.deep(self.a, acc)

    def subst(self, mp, memo):
        r = T.subst_atom(self.a, mp, memo)
        if r is None:
            return self
        s = r.single()
        if s and s[0] == 1 and len(s[1]) == 1 and s[1][0][1] == 1:
            return SymV(s[1][0][0], self.cls)
        return Num(r)


class Ite(V):
    __slots__ = ('c', 'hi', 'lo', 'key', 'size')

    def __init__(self, c, hi, lo):
        self.c, self.hi, self.lo = c, hi, lo
        k = '?%s{%s|%s}' % (c.key, hi.key, lo.key)
        if len(k) > 4000:
            import hashlib
            k = '?#' + hashlib.sha1(k.encode()).hexdigest()
        self.key = k
        self.size = 1 + (hi.size if isinstance(hi, Ite) else 0) + (lo.size if isinstance(lo, Ite) else 0)

    def deep_atoms(self, acc):
        T.deep(self.c, acc)
        self.hi.deep_atoms(acc)
        self.lo.deep_atoms(acc)
        return acc

    def subst(self, mp, memo):
        c = cond_subst(self.c, mp, memo)
        return ite(c, self.hi.subst(mp, memo), self.lo.subst(mp, memo))


class Part(object):
    """one segment of a sequence: for binders (coll, elem atom)*, if guard, value"""
    __slots__ = ('binders', 'guard', 'v', 'star')

    def __init__(self, v, binders=(), guard=None, star=False):
        self.v = v
        self.binders = tuple(binders)
        self.guard = guard if guard is not None else TRUE
        self.star = star

    @property
    def key(self):
        s = ('*' if self.star else '') + self.v.key
        if self.binders:
            s += ' for ' + ','.join('%s in %s' % (b.key, c.key) for c, b in self.binders)
        if self.guard.key != 'True':
            s += ' if ' + self.guard.key
        return s

    def plain(self):
        return not self.binders and not self.star and self.guard.key == 'True'


class Seq(V):
    __slots__ = ('parts', 'kind', 'key')

    def __init__(self, parts, kind='list'):
        self.parts = tuple(parts)
        self.kind = kind
        self.key = {'tuple': '(%s)', 'list': '[%s]', 'array': 'A[%s]', 'set': '{%s}'}.get(kind, kind + '<%s>') % ', '.join(p.key for p in self.parts)

    def concrete(self):
        return all(p.plain() for p in self.parts)

    def items(self):
        return [p.v for p in self.parts]

    def deep_atoms(self, acc):
        for p in self.parts:
            p.v.deep_atoms(acc)
            p.guard.deep_atoms(acc)
            for c, b in p.binders:
                c.deep_atoms(acc)
        return acc

    def subst(self, mp, memo):
        return Seq([Part(p.v.subst(mp, memo),
                         [(c.subst(mp, memo), b) for c, b in p.binders],
                         p.guard.subst(mp, memo), p.star) for p in self.parts], self.kind)


class DictV(V):
    """entries: list of (key value, value, binders, guard); later entries win"""
    __slots__ = ('e', 'key')

    def __init__(self, e):
        self.e = tuple(e)
        self.key = '{%s}' % ', '.join('%s: %s%s' % (k.key, v.key, ''.join(' for %s in %s' % (x.key, c.key) for c, x in b)
                                                     + ('' if g.key == 'True' else ' if ' + g.key)) for k, v, b, g in self.e)

    def deep_atoms(self, acc):
        for k, v, b, g in self.e:
            k.deep_atoms(acc)
            v.deep_atoms(acc)
            g.deep_atoms(acc)
        return acc

    def subst(self, mp, memo):
        return DictV([(k.subst(mp, memo), v.subst(mp, memo), b, g.subst(mp, memo)) for k, v, b, g in self.e])


class Ref(V):
    __slots__ = ('id', 'key', 'cls')

    def __init__(self, id, cls=None):
        self.id = id
        self.cls = cls
        self.key = '@%s' % id


class Fn(V):
    __slots__ = ('node', 'mod', 'fid', 'defaults', 'kwdefaults', 'name', 'key', 'owner')

    def __init__(self, node, mod, fid, defaults, kwdefaults, name, key, owner=None):
        self.node, self.mod, self.fid, self.defaults, self.kwdefaults = node, mod, fid, defaults, kwdefaults
        self.name, self.key, self.owner = name, key, owner


class Wrap(V):
    """property / staticmethod / classmethod marker"""
    __slots__ = ('kind', 'f', 'key')

    def __init__(self, kind, f):
        self.kind, self.f = kind, f
        self.key = kind + ':' + f.key


class Bound(V):
    __slots__ = ('f', 'self', 'key')

    def __init__(self, f, self_):
        self.f, self.self = f, self_
        self.key = 'bound<%s,%s>' % (f.key, self_.key)


class Builtin(V):
    __slots__ = ('name', 'key')

    def __init__(self, name):
        self.name = name
        self.key = 'ext:' + name


class MethodOf(V):
    """method of an opaque / builtin-typed value"""
    __slots__ = ('obj', 'name', 'key')

    def __init__(self, obj, name):
        self.obj, self.name = obj, name
        self.key = 'meth<%s.%s>' % (obj.key, name)


class ObjDict(V):
    """the attributes of an object, as a dictionary"""
    __slots__ = ('obj', 'key')

    def __init__(self, obj):
        self.obj, self.key = obj, 'dict<%s>' % obj.key


class ClsV(V):
    __slots__ = ('name', 'qual', 'bases', 'key', 'fields')

    def __init__(self, name, qual, bases, fields=None):
        self.name, self.qual, self.bases, self.fields = name, qual, bases, fields
        self.key = 'cls:' + qual


class ModV(V):
    __slots__ = ('name', 'key', 'ext')

    def __init__(self, name, ext):
        self.name, self.ext = name, ext
        self.key = 'mod:' + name


class PyFn(V):
    """function implemented by the analyser (spec side or partial application)"""
    __slots__ = ('f', 'key')

    def __init__(self, f, key):
        self.f, self.key = f, key


TRUE, FALSE, NONE = K(True), K(False), K(None)
UNBOUND = K('<unbound>')
BOT = K('<raises>')
MAXITE = 3000


def num(x):
    if isinstance(x, Poly):
        return Num(x)
    return Num(T.const(x))


def is_bool(v):
    return isinstance(v, K) and isinstance(v.v, bool)


# conditions -------------------------------------------------------------------

def _mono_sign(p):
    """+1 if p>=0 provable, -1 if p<=0 provable, else 0 ; strict flag"""
    signs = set()
    for m, c in p.t.items():
        ok = True
        for a, e in m:
            if not T.nonneg_atom(a) and not (e.denominator == 1 and int(e) % 2 == 0):
                ok = False
        if not ok:
            return 0
        signs.add(1 if c > 0 else -1)
    if signs == {1}:
        return 1
    if signs == {-1}:
        return -1
    return 0


STRICT = set()   # symbol names known to be strictly positive


def strictly_pos_atom(a):
    if a.kind in ('exp', 'prime'):
        return True
    if a.kind == 'sym' and (a.key in ('pi', 'eV') or a.key.split('.')[-1] in STRICT):
        return True
    if a.kind == 'attr' and a.args[1] in STRICT:
        return True
    if a.kind == 'powsum' and _mono_sign(a.args[0]) > 0:
        return any(all(strictly_pos_atom(b) for b, e in m) for m in a.args[0].t)
    return False


def cond_gt(p):
    """p > 0 as a decision diagram"""
    c = p.const()
    if c is not None:
        return K(c > 0)
    # divide by positive content / strictly positive common factors
    g = T._common_monomial(p)
    g = {a: e for a, e in g.items() if strictly_pos_atom(a)}
    if g:
        p = T.mul(p, Poly({tuple(sorted(((a, -e) for a, e in g.items()), key=lambda x: x[0].key)): T.F1}))
        c = p.const()
        if c is not None:
            return K(c > 0)
    ct = T._content(p)
    p = T.scale(p, 1 / ct)
    # clear denominators that are known strictly positive is done above;
    s = _mono_sign(p)
    if s < 0:
        return FALSE
    if s > 0:
        for m in p.t:
            if all(strictly_pos_atom(a) for a, e in m):
                return TRUE
        # product of non-negative factors: positive iff every factor positive
        one = p.single()
        if one:
            r = TRUE
            for a, e in one[1]:
                if strictly_pos_atom(a):
                    continue
                r = band(r, Ite(atom('gt', T.from_atom(a)), TRUE, FALSE))
            return r
    lead = integer_lead(p)
    if lead is not None and lead < 0:
        # p > 0 for a whole number p is p >= 1
        return bnot(cond_gt(T.sub(T.ONE, p)))
    return Ite(atom('gt', p), TRUE, FALSE)


def integer_lead(p):
    """sign of the first coefficient of a combination of counts and positions; None for anything else"""
    first = None
    for m, c in p.t.items():
        if c.denominator != 1:
            return None
        for a, e in m:
            if e != 1 or not (a.kind == 'fn' and a.args[0] == 'len'
                              or a.kind == 'call' and getattr(a.args[0], 'key', None) == 'ext:numpy.searchsorted'):
                return None
        if m:
            k = tuple(a.key for a, e in m)
            if first is None or k < first[0]:
                first = (k, c)
    return first and first[1]


def cond_eq0(p):
    c = p.const()
    if c is not None:
        return K(c == 0)
    if T.is_zero(p):
        return TRUE
    s = _mono_sign(p)
    if s > 0:
        return bnot(cond_gt(p))
    if s < 0:
        return bnot(cond_gt(T.neg(p)))
    one = p.single()
    if one:
        r = FALSE
        for a, e in one[1]:
            if T.nonneg_atom(a):
                if strictly_pos_atom(a):
                    continue
                r = bor(r, bnot(cond_gt(T.from_atom(a))))
            else:
                r = bor(r, Ite(atom('eq0', T.from_atom(a)), TRUE, FALSE))
        return r
    p = T.scale(p, 1 / T._content(p))
    if T.lead_sign(p) < 0:
        p = T.neg(p)
    return Ite(atom('eq0', p), TRUE, FALSE)


def cond_atom(kind, *args):
    return Ite(atom(kind, *args), TRUE, FALSE)


def cond_subst(a, mp, memo):
    """substitute inside a condition atom -> diagram"""
    changed = False
    nargs = []
    for x in a.args:
        y = T._subst_arg(x, mp, memo)
        changed = changed or (y is not x)
        nargs.append(y)
    if not changed:
        return Ite(a, TRUE, FALSE)
    if a.kind == 'gt':
        return cond_gt(nargs[0])
    if a.kind == 'eq0':
        return cond_eq0(nargs[0])
    if a.kind == 'eq':
        return eq_values(nargs[0], nargs[1])
    return cond_atom(a.kind, *nargs)


# closed symbolic enumerations: value key -> set of alternatives is exactly two
ENUM2 = {}


def eq_values(a, b):
    """== on frozen values"""
    if isinstance(a, Ite):
        return ite(Ite(a.c, TRUE, FALSE), eq_values(a.hi, b), eq_values(a.lo, b))
    if isinstance(b, Ite):
        return ite(Ite(b.c, TRUE, FALSE), eq_values(a, b.hi), eq_values(a, b.lo))
    if isinstance(a, (Num,)) or isinstance(b, Num):
        pa, pb = as_poly(a), as_poly(b)
        if pa is not None and pb is not None:
            return cond_eq0(T.sub(pa, pb))
        if isinstance(a, K) or isinstance(b, K):
            return FALSE
    if a.key == b.key:
        return TRUE
    if isinstance(a, K) and isinstance(b, K):
        return K(a.v == b.v)
    concrete = (K, Fn, ClsV, ModV, Builtin)
    if isinstance(a, concrete) and isinstance(b, concrete):
        return FALSE
    if isinstance(a, Seq) and isinstance(b, Seq) and a.concrete() and b.concrete():
        if len(a.parts) != len(b.parts):
            return FALSE
        r = TRUE
        for x, y in zip(a.items(), b.items()):
            r = band(r, eq_values(x, y))
        return r
    if isinstance(a, Seq) and isinstance(b, (K, Num)) or isinstance(b, Seq) and isinstance(a, (K, Num)):
        return FALSE
    if isinstance(a, Ref) and isinstance(b, Ref) and a.cls is not None and b.cls is not None:
        return FALSE        # distinct objects; __eq__ is handled by the caller
    if a.key > b.key:
        a, b = b, a
    for x, y in ((a, b), (b, a)):
        e = ENUM2.get(y.key)
        if e is not None:
            # binary enumeration: second alternative is the negation of the first
            first, second = e
            if y.key == second[0]:
                return bnot(eq_values(x, first[1]))
    return cond_atom('eq', a, b)


def as_poly(v):
    if isinstance(v, Num):
        return v.p
    if isinstance(v, K):
        if v.v is True:
            return T.ONE
        if v.v is False:
            return T.ZERO
        return None
    if isinstance(v, SymV):
        return T.from_atom(v.a)
    return None


# decision diagrams ---------------------------------------------------------------
_ite_memo = {}
_mk_memo = {}


def root(v):
    return v.c if isinstance(v, Ite) else None


def cof(v, c, b):
    if isinstance(v, Ite) and v.c is c:
        return v.hi if b else v.lo
    return v


def implied(c, val, d):
    """truth of condition atom d given c == val (None when unknown)"""
    if c is d:
        return val
    if c.kind == 'gt' and val:
        if d.kind == 'eq0':
            if d.args[0].key in (c.args[0].key, T.neg(c.args[0]).key):
                return False
        if d.kind == 'gt':
            if d.args[0].key == T.neg(c.args[0]).key:
                return False
            diff = T.sub(d.args[0], c.args[0]).const()
            if diff is not None and diff >= 0:
                return True
            diff = T.add(d.args[0], c.args[0]).const()   # d = k - c
            if diff is not None and diff <= 0:
                return False
    if c.kind == 'gt' and not val:
        if d.kind == 'gt':
            diff = T.sub(d.args[0], c.args[0]).const()
            if diff is not None and diff <= 0:
                return False
            # not(c>0) ; d = -c + k, k>0  => d>0
            diff = T.add(d.args[0], c.args[0]).const()
            if diff is not None and diff > 0:
                return True
        if d.kind == 'eq0':
            diff = T.sub(d.args[0], c.args[0]).const()
            if diff is not None and diff < 0:
                return False
            diff = T.add(d.args[0], c.args[0]).const()
            if diff is not None and diff > 0:
                return False
    if c.kind == 'eq0' and val:
        if d.kind in ('gt', 'eq0'):
            for s in (1, -1):
                diff = T.sub(d.args[0], T.scale(c.args[0], s)).const()
                if diff is not None:
                    return diff > 0 if d.kind == 'gt' else diff == 0
    if c.kind == 'eq' and val and d.kind == 'eq':
        for i in (0, 1):
            for j in (0, 1):
                if c.args[i].key == d.args[j].key:
                    x, y = c.args[1 - i], d.args[1 - j]
                    cc = (K, Fn, ClsV, ModV, Builtin)
                    if isinstance(x, cc) and isinstance(y, cc):
                        return x.key == y.key
    if c.kind == 'isnone' and val and d.kind == 'eq':
        pass
    return None


def implied_more(pos, neg_, d):
    return None


_simp_memo = {}


def simp(v, c, val):
    if not isinstance(v, Ite):
        return v
    k = (v.key, c.key, val)
    r = _simp_memo.get(k)
    if r is not None:
        return r
    i = implied(c, val, v.c)
    if i is not None:
        r = simp(v.hi if i else v.lo, c, val)
    else:
        hi, lo = simp(v.hi, c, val), simp(v.lo, c, val)
        r = v if (hi is v.hi and lo is v.lo) else mk(v.c, hi, lo)
    _simp_memo[k] = r
    return r


_under_memo = {}


def under(v, pc, limit=30):
    """v where pc holds: branches excluded by pc are dropped"""
    if not isinstance(v, Ite) or not isinstance(pc, Ite) or pc.size > limit or v.size > max(100, limit):
        return v
    r = _under(v, pc)
    if r is None or isinstance(r, Ite) and r.size >= v.size:
        return v
    return r


def _under(v, pc):
    if isinstance(pc, K):
        return v if pc.v else None
    if not isinstance(v, Ite):
        return v
    k = (v.key, pc.key, v.__class__)
    if k in _under_memo:
        return _under_memo[k]
    t = min(v.c, pc.c, key=lambda x: x.key)
    if t is v.c:
        hi, lo = simp(v.hi, t, True), simp(v.lo, t, False)
    else:
        hi, lo = simp(v, t, True), simp(v, t, False)
    hi = _under(hi, simp(cof(pc, t, True), t, True))
    lo = _under(lo, simp(cof(pc, t, False), t, False))
    if hi is None or lo is None:
        r = lo if hi is None else hi
    elif t is v.c:
        r = v if hi is v.hi and lo is v.lo else mk(t, hi, lo)
    else:
        r = v if hi.key == lo.key == v.key else ite(Ite(t, TRUE, FALSE), hi, lo)
    _under_memo[k] = r
    return r


def zero_atom(c):
    """symbol forced to zero when condition atom c (gt s) is false"""
    if c.kind == 'gt':
        s = c.args[0].single()
        if s and len(s[1]) == 1 and s[0] > 0:
            a, e = s[1][0]
            if e > 0 and a.kind in ('sym', 'attr', 'idx') and T.nonneg_atom(a):
                return a
    return None


def mk(c, hi, lo):
    if hi.key == lo.key:
        return hi
    hi = simp(hi, c, True)
    lo = simp(lo, c, False)
    if hi.key == lo.key:
        return hi
    z = zero_atom(c)
    if z is not None:
        lo2 = vsubst(lo, {z: T.ZERO})
        if lo2.key != lo.key:
            lo = lo2
        if not is_bool(hi) and not is_bool(lo):
            try:
                h0 = vsubst(hi, {z: T.ZERO})
                if h0.key == lo.key or (isinstance(h0, Num) and isinstance(lo, Num) and 'div0' not in h0.key and T.equal(h0.p, lo.p)):
                    if 'div0' not in h0.key:
                        return hi
            except Unk:
                pass
    if hi.key == lo.key:
        return hi
    r = Ite(c, hi, lo)
    if r.size > MAXITE:
        raise TooBig('decision diagram too large')
    return r


def vsubst(v, mp):
    return v.subst(mp, {})


def _below(c, v):
    """v's root may be ordered before c after simplification; restore order"""
    return v


def ite(c, a, b):
    if isinstance(c, K):
        return a if c.v else b
    if a.key == b.key:
        return a
    if is_bool(a) and is_bool(b) and a.v and not b.v:
        return c
    k = (c.key, a.key, b.key, a.__class__, b.__class__)
    r = _ite_memo.get(k)
    if r is not None:
        return r
    tops = [x.c for x in (c, a, b) if isinstance(x, Ite)]
    t = min(tops, key=lambda x: x.key)
    hi = ite(cof(c, t, True), cof(a, t, True), cof(b, t, True))
    lo = ite(cof(c, t, False), cof(a, t, False), cof(b, t, False))
    r = mk(t, hi, lo)
    if isinstance(r, Ite) and r.c is t:
        # simplification may have raised an atom above t
        pass
    _ite_memo[k] = r
    return r


def bnot(c):
    if isinstance(c, K):
        return K(not c.v)
    return ite(c, FALSE, TRUE)


def band(a, b):
    return ite(a, b, FALSE)


def bor(a, b):
    return ite(a, TRUE, b)


_ap_memo = {}


STRICTK = {BOT.key, UNBOUND.key}


def apply1(tag, f, v):
    if isinstance(v, Ite):
        k = (tag, v.key)
        if tag is not None and k in _ap_memo:
            return _ap_memo[k]
        r = ite(Ite(v.c, TRUE, FALSE), apply1(tag, f, v.hi), apply1(tag, f, v.lo))
        if tag is not None:
            _ap_memo[k] = r
        return r
    if v.key in STRICTK and isinstance(v, K):
        return v
    return f(v)


def apply2(tag, f, a, b):
    if isinstance(a, Ite) or isinstance(b, Ite):
        k = (tag, a.key, b.key)
        if tag is not None and k in _ap_memo:
            return _ap_memo[k]
        t = min([x.c for x in (a, b) if isinstance(x, Ite)], key=lambda x: x.key)
        hi = apply2(tag, f, simp(cof(a, t, True), t, True), simp(cof(b, t, True), t, True))
        lo = apply2(tag, f, simp(cof(a, t, False), t, False), simp(cof(b, t, False), t, False))
        r = ite(Ite(t, TRUE, FALSE), hi, lo)
        if tag is not None:
            _ap_memo[k] = r
        return r
    if a.key in STRICTK and isinstance(a, K):
        return a
    if b.key in STRICTK and isinstance(b, K):
        return b
    return f(a, b)


def cof_deep(v, c, val):
    """cofactor everywhere in the diagram"""
    if not isinstance(v, Ite):
        return v
    if v.c is c:
        return cof_deep(v.hi if val else v.lo, c, val)
    i = implied(c, val, v.c)
    if i is not None:
        return cof_deep(v.hi if i else v.lo, c, val)
    return ite(Ite(v.c, TRUE, FALSE), cof_deep(v.hi, c, val), cof_deep(v.lo, c, val))


def conds_of(v, acc=None):
    acc = {} if acc is None else acc
    if isinstance(v, Ite):
        acc[v.c.key] = v.c
        conds_of(v.hi, acc)
        conds_of(v.lo, acc)
    return acc


def leaves(v, path=()):
    if isinstance(v, Ite):
        for x in leaves(v.hi, path + ((v.c, True),)):
            yield x
        for x in leaves(v.lo, path + ((v.c, False),)):
            yield x
    else:
        yield path, v


def has_unk(v):
    acc = set()
    v.deep_atoms(acc)
    for a in acc:
        if a.kind in ('unk', 'hdr') or a.key.startswith('unk'):
            return True
    return False


# linear forms (sum / integral bodies) ------------------------------------------------

def linearize(v):
    """diagram -> polynomial with idempotent indicator atoms"""
    if isinstance(v, Ite):
        i = T.from_atom(atom('ind', v.c))
        return T.add(T.mul(i, linearize(v.hi)), T.mul(T.sub(T.ONE, i), linearize(v.lo)))
    p = as_poly(v)
    if p is None:
        raise Unk('non-numeric value in a sum or integral: %s' % v.key[:80])
    return p


def _mentions(a, batoms):
    d = T.deep(a, set())
    return any(b in d for b in batoms)


def lift_reduce(v, batoms, f):
    """apply f to binder-dependent bodies, with binder-free conditions outside"""
    for k, c in sorted(conds_of(v).items()):
        if not _mentions(c, batoms):
            return ite(Ite(c, TRUE, FALSE),
                       lift_reduce(cof_deep(v, c, True), batoms, f),
                       lift_reduce(cof_deep(v, c, False), batoms, f))
    return Num(f(linearize(v)))


def reduce_atom(kind, batoms, extra):
    """returns f(poly) -> poly distributing a linear functional over monomials"""
    def f(p):
        # sum atoms with natural powers are already expanded by the normal form
        out = T.ZERO
        for m, c in p.t.items():
            inside, outside = [], []
            for a, e in m:
                (inside if _mentions(a, batoms) else outside).append((a, e))
            if inside:
                # split exp(arg) into binder-free and bound parts
                ins2 = []
                for a, e in inside:
                    if a.kind == 'exp':
                        dep, ind = T.ZERO, T.ZERO
                        for mm, cc in a.args[0].t.items():
                            q = Poly({mm: cc})
                            if T.depends(q, batoms):
                                dep = T.add(dep, q)
                            else:
                                ind = T.add(ind, q)
                        ins2.append((dep, None))
                        if ind.t:
                            outside.append((atom('exp', ind), T.F1))
                    else:
                        ins2.append((a, e))
                body = T.ONE
                for a, e in ins2:
                    body = T.mul(body, T.mk_exp(a) if e is None else T.from_atom(a, e))
            else:
                body = T.ONE
            o = Poly({tuple(sorted(outside, key=lambda x: x[0].key)): c}) if outside else T.const(c)
            out = T.add(out, T.mul(o, T.from_atom(atom(kind, *(tuple(extra) + (body,))))))
        return out
    return f


def subst_leaf(v, key, d):
    if isinstance(v, Ite):
        return ite(Ite(v.c, TRUE, FALSE), subst_leaf(v.hi, key, d), subst_leaf(v.lo, key, d))
    return d if v.key == key else v

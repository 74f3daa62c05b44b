"""Algebraic term domain: canonical sums of monomials with exact rational
coefficients and rational exponents over hash-consed atoms.

Two expressions that are equal as rational functions over the atoms (with the
rewrite rules for exp, log, sqrt, sin^2+cos^2, idempotent indicators and
finite sums / integrals listed here) get the same normal form; `is_zero` is
the equality decision.  Nothing here evaluates the analysed program: terms are
produced from its syntax tree by sa.interp.
"""
from fractions import Fraction
from functools import lru_cache

F0 = Fraction(0)
F1 = Fraction(1)

_atoms = {}


class Unk(Exception):
    """The construct is outside the modelled subset: no verdict may be drawn."""


class TooBig(Unk):
    pass


class Atom(object):
    __slots__ = ('kind', 'args', 'key', 'rank', '_has')

    def __repr__(self):
        return self.key


def _argkey(a):
    if isinstance(a, str):
        return a
    if isinstance(a, (Fraction, int)):
        return str(a)
    if isinstance(a, tuple):
        return '(' + ','.join(_argkey(x) for x in a) + ')'
    if a is None:
        return 'None'
    return a.key


def atom(kind, *args):
    if kind == 'sym':
        key = args[0]
    else:
        key = kind + '[' + ';'.join(_argkey(a) for a in args) + ']'
    if len(key) > 20000:
        # keep keys bounded: hash-cons on a digest, remember the structure
        import hashlib
        key = kind + '#' + hashlib.sha1(key.encode()).hexdigest()
    k = (kind, key)
    got = _atoms.get(k)
    if got is None:
        got = Atom()
        got.kind, got.args, got.key = kind, args, key
        got._has = None
        got.rank = len(_atoms)
        _atoms[k] = got
    return got


# facts about symbols -------------------------------------------------------
SIGNED = set()          # atoms keys that may be negative
UNIT_SQUARE = set()     # atoms whose square is one


def nonneg_atom(a):
    if a.kind == 'sym':
        return a.key not in SIGNED and not a.key.split('.')[-1] in SIGNED
    if a.kind in ('exp', 'prime', 'ind', 'const'):
        return True
    if a.kind == 'powsum':
        # the base is a sum of non-negative terms
        return all(c > 0 and all(nonneg_atom(b) or e.denominator == 1 and int(e) % 2 == 0 for b, e in m) for m, c in a.args[0].t.items())
    if a.kind == 'fn' and a.args[0] in ('abs', 'len', 'cfg', 'max0'):
        return True
    return False


class Poly(object):
    """sum of coeff * prod atom^exp; monomial = tuple of (atom, Fraction)."""
    __slots__ = ('t', '_key', '_zero')

    def __init__(self, t):
        self.t = t
        self._key = None
        self._zero = None

    @property
    def key(self):
        if self._key is None:
            parts = []
            for m, c in self.t.items():
                ms = '*'.join(a.key if e == 1 else '%s^%s' % (a.key, e) for a, e in m)
                parts.append((ms, c))
            parts.sort()
            self._key = '+'.join(('%s*%s' % (c, ms)) if ms else str(c) for ms, c in parts) or '0'
        return self._key

    def __repr__(self):
        return self.key

    def __eq__(self, o):
        return isinstance(o, Poly) and self.key == o.key

    def __hash__(self):
        return hash(self.key)

    # helpers
    def is_const(self):
        return not self.t or (len(self.t) == 1 and () in self.t)

    def const(self):
        if not self.t:
            return F0
        if self.is_const():
            return self.t[()]
        return None

    def atoms(self):
        s = set()
        for m in self.t:
            for a, e in m:
                s.add(a)
        return s

    def deep_atoms(self, acc=None):
        acc = set() if acc is None else acc
        for a in self.atoms():
            deep(a, acc)
        return acc

    def single(self):
        """(coeff, monomial) if the poly is one monomial."""
        if len(self.t) == 1:
            (m, c), = self.t.items()
            return c, m
        return None


def deep(a, acc):
    if a in acc:
        return acc
    acc.add(a)
    for x in a.args:
        _deep_arg(x, acc)
    return acc


def _deep_arg(x, acc):
    if isinstance(x, Poly):
        x.deep_atoms(acc)
    elif isinstance(x, Atom):
        deep(x, acc)
    elif isinstance(x, tuple):
        for y in x:
            _deep_arg(y, acc)
    elif hasattr(x, 'deep_atoms'):
        x.deep_atoms(acc)


ZERO = Poly({})
ONE = Poly({(): F1})
MAXMON = 6000


def const(c):
    c = Fraction(c)
    return Poly({(): c}) if c else ZERO


def from_atom(a, e=F1):
    return Poly({((a, Fraction(e)),): F1})


def sym(name):
    return from_atom(atom('sym', name))


PI = sym('pi')


def add(p, q):
    if not p.t:
        return q
    if not q.t:
        return p
    r = dict(p.t)
    for m, c in q.t.items():
        c2 = r.get(m, F0) + c
        if c2:
            r[m] = c2
        else:
            r.pop(m, None)
    if len(r) > MAXMON:
        raise TooBig('polynomial too large')
    return Poly(r)


def scale(p, c):
    c = Fraction(c)
    if not c:
        return ZERO
    if c == 1:
        return p
    return Poly({m: v * c for m, v in p.t.items()})


def neg(p):
    return scale(p, -1)


def sub(p, q):
    return add(p, neg(q))


def _norm_mon(d):
    """d: dict atom->exp (no zero). Returns Poly (handles exp merging, cos^2,
    idempotent indicators, unit squares, sum atoms with natural exponents)."""
    coeff = F1
    extra = None
    exps = [(a, e) for a, e in d.items() if a.kind == 'exp']
    if len(exps) > 1 or (exps and exps[0][1] != 1):
        arg = ZERO
        for a, e in exps:
            arg = add(arg, scale(a.args[0], e))
            del d[a]
        ex = mk_exp(arg)
        c, m = ex.single()
        coeff *= c
        for a, e in m:
            d[a] = d.get(a, F0) + e
            if not d[a]:
                del d[a]
    for a in list(d):
        e = d[a]
        k = a.kind
        if k == 'ind':
            if e > 0:
                d[a] = F1
        elif k == 'prime':
            if e >= 1 or e < 0:
                n = e.numerator // e.denominator
                coeff *= Fraction(a.args[0]) ** n
                e2 = e - n
                if e2:
                    d[a] = e2
                else:
                    del d[a]
        elif a.key in UNIT_SQUARE or (k == 'sym' and a.key.split('.')[-1] in UNIT_SQUARE):
            if e.denominator == 1:
                if e % 2:
                    d[a] = F1
                else:
                    del d[a]
        elif k == 'powsum':
            if e.denominator == 1 and e > 0:
                if e > 8:
                    continue
                del d[a]
                q = a.args[0]
                r = q
                for _ in range(int(e) - 1):
                    r = mul(r, q)
                extra = r if extra is None else mul(extra, r)
        elif k == 'fn' and a.args[0] == 'cos' and e.denominator == 1 and e >= 2:
            s = from_atom(atom('fn', 'sin', *a.args[1:]))
            n = int(e) // 2
            if int(e) % 2:
                d[a] = F1
            else:
                del d[a]
            r = sub(ONE, mul(s, s))
            for _ in range(n):
                extra = r if extra is None else mul(extra, r)
    m = tuple(sorted(((a, e) for a, e in d.items()), key=lambda x: x[0].key))
    base = Poly({m: coeff})
    if extra is not None:
        return mul(base, extra)
    return base


_mm_cache = {}


def _mul_mon(m1, m2):
    if not m1:
        return None, m2
    if not m2:
        return None, m1
    k = (m1, m2)
    r = _mm_cache.get(k)
    if r is not None:
        return r
    d = dict(m1)
    special = False
    for a, e in m2:
        if a in d:
            e2 = d[a] + e
            if e2:
                d[a] = e2
            else:
                del d[a]
        else:
            d[a] = e
    nexp = 0
    for a, e in d.items():
        kd = a.kind
        if kd == 'exp':
            nexp += 1
            if e != 1:
                special = True
        elif kd != 'sym' or a.key in UNIT_SQUARE or a.key.split('.')[-1] in UNIT_SQUARE:
            if e != 1 or kd == 'powsum':
                special = True
    if nexp > 1:
        special = True
    if special:
        r = (_norm_mon(d), None)
    else:
        r = (None, tuple(sorted(d.items(), key=lambda x: x[0].key)))
    _mm_cache[k] = r
    return r


def mul(p, q):
    if not p.t or not q.t:
        return ZERO
    if len(p.t) * len(q.t) > 40000:
        raise TooBig('product too large')
    r = {}
    for m1, c1 in p.t.items():
        for m2, c2 in q.t.items():
            pol, mon = _mul_mon(m1, m2)
            c = c1 * c2
            if pol is None:
                v = r.get(mon, F0) + c
                if v:
                    r[mon] = v
                else:
                    r.pop(mon, None)
            else:
                for m3, c3 in pol.t.items():
                    v = r.get(m3, F0) + c * c3
                    if v:
                        r[m3] = v
                    else:
                        r.pop(m3, None)
    if len(r) > MAXMON:
        raise TooBig('polynomial too large')
    return Poly(r)


def _content(p):
    from math import gcd
    num, den = 0, 1
    for c in p.t.values():
        num = gcd(num, abs(c.numerator))
        den = den * c.denominator // gcd(den, c.denominator)
    return Fraction(num, den)


def _common_monomial(p):
    """greatest common monomial factor (min exponents of atoms in all terms)."""
    it = iter(p.t)
    first = dict(next(it))
    for m in it:
        d = dict(m)
        for a in list(first):
            if a in d:
                if d[a] < first[a]:
                    first[a] = d[a]
            elif first[a] < 0:
                pass
            else:
                del first[a]
        for a, e in d.items():
            if e < 0 and a not in first:
                first[a] = e
    return {a: e for a, e in first.items() if a.kind not in ('exp', 'ind')}


def _factor_const(c, e):
    """c^e for positive Fraction c, fractional e -> Poly."""
    res = ONE
    for n, s in ((c.numerator, 1), (c.denominator, -1)):
        p = 2
        m = n
        while p * p <= m and p < 100000:
            k = 0
            while m % p == 0:
                m //= p
                k += 1
            if k:
                res = mul(res, _norm_mon({atom('prime', Fraction(p)): e * k * s}))
            p += 1 if p == 2 else 2
        if m > 1:
            res = mul(res, _norm_mon({atom('prime', Fraction(m)): e * s}))
    return res


def lead_sign(p):
    """deterministic sign of a representative monomial."""
    k = min(p.t, key=lambda m: [(a.key, e) for a, e in m])
    return 1 if p.t[k] > 0 else -1


def power(p, e):
    """p^e for rational e."""
    e = Fraction(e)
    if e == 0:
        return ONE
    if e == 1:
        return p
    if not p.t:
        if e > 0:
            return ZERO
        return from_atom(atom('fn', 'div0'))
    s = p.single()
    if s is not None:
        c, m = s
        if e.denominator == 1:
            d = {}
            for a, x in m:
                d[a] = x * e
            base = scale(ONE, c ** int(e))
            if not d:
                return base
            # exp atoms
            return mul(base, _norm_mon(d))
        # fractional exponent: non-negativity of every factor is assumed
        if c > 0:
            res = _factor_const(c, e)
            d = {}
            for a, x in m:
                if not nonneg_atom(a) and x.denominator == 1 and int(x) % 2 == 0 and (x * e).denominator == 1 and int(x * e) % 2 == 1:
                    b = atom('fn', 'abs', from_atom(a))
                    d[b] = d.get(b, F0) + x * e
                else:
                    d[a] = d.get(a, F0) + x * e
            if d:
                res = mul(res, _norm_mon(d))
            return res
        return from_atom(atom('powsum', p), e)
    if e.denominator == 1 and 0 < e <= 8:
        r = p
        for _ in range(int(e) - 1):
            r = mul(r, p)
        return r
    # sums: pull out content and common monomial
    c = _content(p)
    g = _common_monomial(p)
    q = p
    if c != 1:
        q = scale(q, 1 / c)
    if g:
        inv = {a: -x for a, x in g.items()}
        q = mul(q, Poly({tuple(sorted(inv.items(), key=lambda x: x[0].key)): F1}))
    if len(q.t) == 1:
        return mul(power(scale(ONE, c), e), mul(power(Poly({tuple(sorted(g.items(), key=lambda x: x[0].key)): F1}), e), power(q, e)))
    sign = 1
    if e.denominator == 1:
        if lead_sign(q) < 0:
            q = neg(q)
            sign = -1 if e.numerator % 2 else 1
    res = from_atom(atom('powsum', q), e)
    if c != 1:
        res = mul(res, power(scale(ONE, c), e))
    if g:
        res = mul(res, power(Poly({tuple(sorted(g.items(), key=lambda x: x[0].key)): F1}), e))
    return scale(res, sign)


def div(p, q):
    if not q.t:
        return from_atom(atom('fn', 'div0'))
    if not p.t:
        return ZERO
    if p.key == q.key:
        return ONE
    return mul(p, power(q, -1))


def mk_exp(p):
    if not p.t:
        return ONE
    # exp(c*log(x)) = x^c
    s = p.single()
    if s is not None:
        c, m = s
        if len(m) == 1 and m[0][0].kind == 'log' and m[0][1] == 1:
            return power(m[0][0].args[0], c)
    return from_atom(atom('exp', p))


def mk_log(p):
    s = p.single()
    if s is not None:
        c, m = s
        if c == 1 and not m:
            return ZERO
        if c == 1 and len(m) == 1 and m[0][0].kind == 'exp':
            return m[0][0].args[0]
        if c > 0 and (len(m) + (c != 1)) > 1 or (c == 1 and len(m) == 1 and m[0][1] != 1):
            # log of a product of positive factors
            r = from_atom(atom('log', scale(ONE, c))) if c != 1 else ZERO
            for a, e in m:
                b = a.args[0] if a.kind == 'exp' else None
                r = add(r, scale(b if b is not None else from_atom(atom('log', from_atom(a))), e))
            return r
    return from_atom(atom('log', p))


def _clear(p, depth=0):
    """Multiply away sum-atoms; returns list of polys that must all vanish."""
    if depth > 12:
        raise TooBig('denominator clearing too deep')
    best = None
    for m in p.t:
        for a, e in m:
            if a.kind == 'powsum':
                n = len(a.key)
                if best is None or n > best[0] or (n == best[0] and a.key > best[1].key):
                    best = (n, a)
    if best is None:
        return [p]
    a = best[1]
    groups = {}
    for m, c in p.t.items():
        d = dict(m)
        e = d.pop(a, F0)
        r = e - (e.numerator // e.denominator)
        groups.setdefault(r, []).append((e, tuple(sorted(d.items(), key=lambda x: x[0].key)), c))
    out = []
    base = a.args[0]
    for r, lst in groups.items():
        lo = min(e for e, _, _ in lst)
        acc = ZERO
        pw = {0: ONE}
        for e, m, c in lst:
            n = int(e - lo)
            if n > 16:
                raise TooBig('power')
            while n not in pw:
                k = max(pw)
                pw[k + 1] = mul(pw[k], base)
            acc = add(acc, mul(Poly({m: c}), pw[n]))
        out.extend(_clear(acc, depth + 1))
    return out


def _exp_indep(p):
    return p


def is_zero(p):
    if p._zero is not None:
        return p._zero
    if not p.t:
        p._zero = True
        return True
    if p.is_const():
        p._zero = False
        return False
    r = all(not q.t for q in _clear(p))
    p._zero = r
    return r


def equal(p, q):
    return p.key == q.key or is_zero(sub(p, q))


def near_equal(p, q, rtol):
    """equal up to a relative change of the numeric coefficients."""
    if equal(p, q):
        return True
    if set(p.t) != set(q.t):
        return False
    for m in p.t:
        a, b = p.t[m], q.t[m]
        if abs(a - b) > rtol * max(abs(a), abs(b)):
            return False
    return True


# substitution ---------------------------------------------------------------

def subst(p, mp):
    """mp: dict Atom -> Poly"""
    if not mp:
        return p
    memo = {}
    return _subst(p, mp, memo)


def _subst(p, mp, memo):
    k = ('p', p.key)
    if k in memo:
        return memo[k]
    res = ZERO
    changed = False
    for m, c in p.t.items():
        term = const(c)
        for a, e in m:
            b = subst_atom(a, mp, memo)
            if b is None:
                term = mul(term, from_atom(a, e)) if term.t else term
            else:
                changed = True
                term = mul(term, power(b, e))
        res = add(res, term)
    if not changed:
        res = p
    memo[k] = res
    return res


REBUILD = {}


def subst_atom(a, mp, memo):
    """returns Poly or None when unchanged"""
    if a in mp:
        return mp[a]
    k = ('a', a.key)
    if k in memo:
        return memo[k]
    memo[k] = None
    nargs = []
    changed = False
    for x in a.args:
        y = _subst_arg(x, mp, memo)
        if y is not x:
            changed = True
        nargs.append(y)
    if not changed:
        return None
    r = rebuild(a.kind, nargs)
    memo[k] = r
    return r


def _subst_arg(x, mp, memo):
    if isinstance(x, Poly):
        y = _subst(x, mp, memo)
        return x if y.key == x.key else y
    if isinstance(x, Atom):
        y = subst_atom(x, mp, memo)
        if y is None:
            return x
        s = y.single()
        if s and s[0] == 1 and len(s[1]) == 1 and s[1][0][1] == 1:
            return s[1][0][0]
        return y
    if isinstance(x, tuple):
        z = tuple(_subst_arg(y, mp, memo) for y in x)
        return x if all(a is b for a, b in zip(x, z)) else z
    if hasattr(x, 'subst'):
        return x.subst(mp, memo)
    return x


def rebuild(kind, args):
    if kind in REBUILD:
        return REBUILD[kind](*args)
    if kind == 'exp':
        return mk_exp(args[0])
    if kind == 'log':
        return mk_log(args[0])
    if kind == 'powsum':
        return args[0]
    return from_atom(atom(kind, *args))


def depends(p, atoms_):
    d = p.deep_atoms()
    return any(a in d for a in atoms_)


# dimensions -------------------------------------------------------------------

class DimError(Exception):
    pass

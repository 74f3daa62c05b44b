"""Decide equality of two abstract values."""
import random
import re
from . import terms as T
from .terms import Unk
from .values import *
from . import evalt

EQUAL, DIFFERENT, UNKNOWN = 'equal', 'different', 'unknown'


class Verdict(object):
    def __init__(self, status, how='', witness=None, detail=''):
        self.status, self.how, self.witness, self.detail = status, how, witness, detail

    def __repr__(self):
        return '%s (%s) %s' % (self.status, self.how, self.detail)


def leaf_equal(a, b):
    if a.key == b.key:
        return True
    p, q = as_poly(a), as_poly(b)
    if p is not None and q is not None:
        try:
            return T.equal(p, q)
        except Unk:
            return False
    if isinstance(a, Seq) and isinstance(b, Seq) and a.concrete() and b.concrete():
        return len(a.parts) == len(b.parts) and all(struct_equal(x, y) for x, y in zip(a.items(), b.items()))
    if isinstance(a, DictV) and isinstance(b, DictV) and len(a.e) == len(b.e):
        d = {k.key: v for k, v, bb, g in b.e}
        return all(k.key in d and struct_equal(v, d[k.key]) for k, v, bb, g in a.e)
    return False


def struct_equal(a, b, depth=0):
    if a.key == b.key:
        return True
    if isinstance(a, Ite) or isinstance(b, Ite):
        t = min([x.c for x in (a, b) if isinstance(x, Ite)], key=lambda x: x.key)
        return struct_equal(cof_deep(a, t, True), cof_deep(b, t, True), depth + 1) and \
            struct_equal(cof_deep(a, t, False), cof_deep(b, t, False), depth + 1)
    return leaf_equal(a, b)


class Many(Exception):
    pass


def pairs(a, b, path, out, limit=600):
    if a.key == b.key:
        return
    if isinstance(a, Ite) or isinstance(b, Ite):
        t = min([x.c for x in (a, b) if isinstance(x, Ite)], key=lambda x: x.key)
        for v in (True, False):
            pairs(cof_deep(a, t, v), cof_deep(b, t, v), path + ((t, v),), out, limit)
        return
    if isinstance(a, Seq) and isinstance(b, Seq) and a.kind == b.kind and a.concrete() and b.concrete() and len(a.parts) == len(b.parts):
        for x, y in zip(a.items(), b.items()):
            for c, v in path:
                x, y = cof_deep(x, c, v), cof_deep(y, c, v)
            pairs(x, y, path, out, limit)
        return
    if not leaf_equal(a, b):
        out.append((a, b, path))
        if len(out) > limit:
            raise Many()


FORCE = {'cfg', 'hasattr'}


def evals(ev, x):
    try:
        return ev.val(x)
    except evalt.Undefined:
        return None


def search(a, b, path, consts, assume, tol, want, tries, seed0=0, constrained=True):
    """-> (number of compared valuations, witness or None, number of unmodelled)"""
    n = unk = 0
    force = {t.key: v for t, v in path if t.kind in FORCE} if constrained else {}
    scales = soft = None
    for i in range(tries):
        if i % 6 == 5 and scales is None:
            scales = evalt.balance(a, b)
        ev = evalt.Evaluator(seed0 + i, i % 6, consts, force, scales)
        try:
            if constrained:
                if any(ev.cond(t) != v for t, v in path):
                    continue
                if assume is not None and not ev.val(assume):
                    continue
            x, y = evals(ev, a), evals(ev, b)
        except evalt.Undefined:
            continue
        except (Unk, RecursionError):
            unk += 1
            if unk > 40 and n == 0:
                break
            continue
        if ev.expmax > 5 and (x is None or y is None or evalt.same(x, y, tol)):
            # the exponentials vanish or overflow: read them on a smaller scale
            if soft is None:
                soft = evalt.scalable(a, b)
            if soft:
                ev2 = evalt.Evaluator(seed0 + i, i % 6, consts, force, scales)
                ev2.expscale = 1. / ev.expmax
                try:
                    if not constrained or all(ev2.cond(t) == v for t, v in path) and (assume is None or ev2.val(assume)):
                        x2, y2 = evals(ev2, a), evals(ev2, b)
                        if x2 is not None and y2 is not None:
                            ev, x, y = ev2, x2, y2
                except (evalt.Undefined, Unk, RecursionError):
                    pass
        if x is None or y is None:
            continue
        n += 1
        if not evalt.same(x, y, tol):
            # is it rounding?
            ev3 = evalt.Evaluator(seed0 + i, i % 6, consts, force, scales, precise=True)
            ev3.expscale = ev.expscale
            try:
                if constrained and (any(ev3.cond(t) != v for t, v in path) or assume is not None and not ev3.val(assume)):
                    continue
                x, y = evals(ev3, a), evals(ev3, b)
            except (evalt.Undefined, Unk, RecursionError, OverflowError, ZeroDivisionError):
                continue
            if x is None or y is None or evalt.same(x, y, tol, 1e-40 * ev3.big):
                continue
            w = {k: round(v, 6) for k, v in sorted(ev.trace.items())[:40]}
            return n, {'atoms': w, 'conditions': ['%s=%s' % (t.key[:80], v) for t, v in path][:20],
                       'code': evalt.tok(x)[:300], 'required': evalt.tok(y)[:300]}, unk
        if n >= want:
            break
    return n, None, unk


def conflicts(ev, path):
    """conditions of the path the valuation misses, with the draws they depend on"""
    bad = []
    for t, v in path:
        ev.memo, ev.drawn = {}, []
        try:
            c = ev.cond(t)
        except evalt.Undefined:
            c = None
        if c != v:
            bad.append(sorted(set(ev.drawn)))
    return bad


def walk(path, consts, seed, steps=50):
    """draws under which the path is taken, found by redrawing what a missed condition depends on"""
    rng = random.Random(seed)
    force = {t.key: v for t, v in path if t.kind in FORCE}
    salt = {}

    def miss(s):
        return conflicts(evalt.Evaluator(seed, seed % 5, consts, force, salt=s), path)
    bad = miss(salt)
    for i in range(steps):
        if not bad:
            return salt
        tokens = [t for t in rng.choice(bad)]
        if not tokens:
            return None
        best = None
        for j in range(5):
            s = dict(salt)
            for t in rng.sample(tokens, 1 if rng.random() < .8 else min(2, len(tokens))):
                s[t] = rng.randrange(1, 10000)
            b = miss(s)
            if best is None or len(b) < len(best[1]):
                best = (s, b)
        if len(best[1]) <= len(bad) or rng.random() < .1:
            salt, bad = best
    return salt if not bad else None


def walked(a, b, path, consts, tol, walks=8):
    """like search, for a path random valuations do not find"""
    n = 0
    force = {t.key: v for t, v in path if t.kind in FORCE}
    for i in range(walks):
        try:
            salt = walk(path, consts, 40 + i)
        except (Unk, RecursionError, OverflowError):
            return n, None
        if salt is None:
            if i >= 3 and n == 0:
                break
            continue
        r = []
        for precise in (False, True):
            ev = evalt.Evaluator(40 + i, (40 + i) % 5, consts, force, salt=salt, precise=precise)
            try:
                if any(ev.cond(t) != v for t, v in path):
                    break
                x, y = evals(ev, a), evals(ev, b)
            except (evalt.Undefined, Unk, RecursionError, OverflowError, ZeroDivisionError):
                break
            if x is None or y is None:
                break
            r.append(evalt.same(x, y, tol, 1e-40 * ev.big) if precise else evalt.same(x, y, tol))
            if r[-1]:
                break
            w = {'atoms': {k: '%.6g' % v for k, v in sorted(ev.trace.items())[:40]},
                 'conditions': ['%s=%s' % (t.key[:80], v) for t, v in path][:20],
                 'code': evalt.tok(x)[:300], 'required': evalt.tok(y)[:300]}
        n += bool(r)
        if r == [False, False]:
            return n, w
    return n, None


# external functions whose meaning the specifications rely on: calling another of
# these is a different computation; any other external function the code calls and
# the requirement does not is outside the model and never counts as a difference
DISTINCT = {
    'numpy.polynomial.legendre.leggauss', 'numpy.polynomial.laguerre.laggauss', 'scipy.integrate.simps', 'scipy.integrate.quad',
    'numpy.searchsorted', 'numpy.linspace', 'numpy.meshgrid', 'numpy.transpose', 'scipy.interpolate.interp1d', 'numpy.repeat',
    'numpy.resize', 'numpy.delete', 'builtins.open', 'time.time', 'numpy.trapz', 'scipy.integrate.trapz', 'scipy.integrate.trapezoid',
}
EXT = re.compile(r"ext:([\w.]+)|'?(meth\.\w+)")


def foreign(code, spec):
    def names(v):
        return {a or b for a, b in EXT.findall(v.key) if not a.startswith(('CollisionIntegralKind', 'cpp.'))}
    return {n for n in names(code) - names(spec) if n not in DISTINCT}


def compare(code, spec, samples=400, tol=1e-7, assume=None):
    v = compare_(code, spec, samples, tol, assume)
    if v.status == DIFFERENT:
        extra = foreign(code, spec)
        if extra:
            return Verdict(UNKNOWN, 'the code calls %s, which is outside the model' % ', '.join(sorted(extra)[:4]))
    return v


def compare_(code, spec, samples=400, tol=1e-7, assume=None):
    """assume: boolean value restricting the valuations considered"""
    if code.key == spec.key:
        return Verdict(EQUAL, 'normal form')
    if assume is not None:
        code, spec = ite(assume, code, BOT), ite(assume, spec, BOT)
    out = []
    try:
        pairs(code, spec, (), out)
    except Many:
        out = [(code, spec, ())]
    except Unk:
        out = [(code, spec, ())]
    if not out:
        return Verdict(EQUAL, 'normal form')
    consts = evalt.collect_consts(code, spec)
    checked = unreached = missing = 0
    for a, b, path in out:
        n, w, unk = search(a, b, path, consts, None, tol, 25 if path else samples, 80 if path else 4 * samples, constrained=False)
        if w is None and n >= (8 if path else 5):
            checked += n
            continue
        if w is None and unk and n < 5:
            return Verdict(UNKNOWN, 'unmodelled construct in the value', detail=a.key[:200])
        if path:
            n, w, unk = search(a, b, path, consts, None, tol, 40, 4000)
        if w is not None:
            return Verdict(DIFFERENT, 'identity test', w,
                           'code = %s ; required = %s' % (evalt_key(a), evalt_key(b)))
        if n == 0 and unk:
            return Verdict(UNKNOWN, 'unmodelled construct in the value', detail=a.key[:200])
        if n == 0 and path and missing < 40:
            missing += 1
            n, w = walked(a, b, path, consts, tol)
            if w is not None:
                return Verdict(DIFFERENT, 'identity test', w,
                               'code = %s ; required = %s' % (evalt_key(a), evalt_key(b)))
        if n == 0:
            unreached += 1
        checked += n
    if unreached:
        # no valuation realises some differing branch: compare the whole values
        n, w, unk = search(code, spec, (), consts, None, tol, samples, 3 * samples, 7000)
        if w is not None:
            return Verdict(DIFFERENT, 'identity test', w, 'code = %s ; required = %s' % (evalt_key(code), evalt_key(spec)))
        checked += n
    if checked == 0:
        return Verdict(UNKNOWN, 'no defined valuation', detail='%d differing leaves' % len(out))
    return Verdict(EQUAL, 'identity test (%d leaf pairs, %d valuations%s)' % (len(out), checked, ', %d unrealisable' % unreached if unreached else ''))


def evalt_key(v):
    return v.key[:260]

"""Concrete species with symbolic masses, and order-independent comparison of
sets of collision integrals."""
from .lib import *
R = 'specs.reactions:'


def species(it, name, key, majorana=False, **kw):
    r = Ref(it.fresh('P'), it.cls_by_qual(PARTICLE))
    at = dict(name=K(name), symbol=K(key), mass=Num(T.sym('m_' + key)), majorana=K(majorana))
    at.update(kw)
    for k, v in at.items():
        it.st.attrs[(r.key, k, None)] = v
    return r


def dots(it):
    return it.newdict([(tup(num(i), num(j)), Num(T.sym('d%d%d' % (i, j))), (), TRUE) for i in range(4) for j in range(i + 1, 4)])


def canonical(v):
    """the same items in one order"""
    if not isinstance(v, Seq):
        raise Unk('collection of reactions: %s' % v.key[:80])
    return Seq(sorted(v.parts, key=lambda p: tuple(x.key for x in p.v.items()) if isinstance(p.v, Seq) else (p.v.key,)), 'set')


def value(C, it, f, args):
    r = C.run(it, f, args).ret
    return r if r.key == BOT.key else canonical(r)


def same(C, oid, it, where, code, spec, assume=None, rule=''):
    """code, spec: (function, args) whose results are collections of descriptions"""
    def go():
        a, b = value(C, it, *(code() if callable(code) else code)), value(C, it, *spec)
        if b.key == BOT.key:
            return (UNDECIDED, 'the requirement has no value here', None)
        return CMP.compare(a, b, assume=assume)
    C.oblige(oid, where, go, rule)

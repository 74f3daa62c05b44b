"""Dimensional constants: value and mass dimension of an abstract value that is a
function of the base unit only."""
from .lib import *
from sa import evalt
from sa.check import HELD, VIOLATED, UNDECIDED


class Unit(evalt.Evaluator):
    def __init__(self, eV):
        evalt.Evaluator.__init__(self, 1, 1, {})
        self.unit = eV

    def atom(self, a):
        if a.kind == 'sym':
            if a.key == 'eV':
                return self.unit
            if a.key != 'pi':
                raise Unk('depends on %s' % a.key)
        return evalt.Evaluator.atom(self, a)


def at(v, eV):
    ev = Unit(eV)
    while isinstance(v, Ite):
        v = v.hi if ev.cond(v.c) else v.lo
    if not isinstance(v, (Num, SymV)):
        raise Unk('not a number: %s' % v.key[:60])
    return ev.num(ev.arg(v))


def physical(v):
    """-> (value at eV = 1, power of eV), or None when it does not scale with a power"""
    a = at(v, 1.)
    if a == 0:
        return 0., 0
    for p in range(-12, 13):
        if all(abs(at(v, u) - a * u**p) <= 1e-9 * abs(a * u**p) for u in (2., 3., 0.5)):
            return a, p
    return None


def quantity(C, oid, where, value, want, power, tol, rule=''):
    """value() has mass dimension `power` and the size `want` (in powers of eV) within the relative tolerance"""
    def go():
        v = value()
        if v.key == BOT.key:
            return (VIOLATED, 'has no value', None)
        r = physical(v)
        if r is None:
            return (VIOLATED, '%s is not a power of the energy unit' % v.key[:100], None)
        a, p = r
        if want == 0:
            return None if a == 0 else (VIOLATED, '%g eV^%d instead of zero' % (a, p), None)
        if p != power:
            return (VIOLATED, 'mass dimension %d instead of %d' % (p, power), None)
        if isinstance(want, tuple):
            if not want[0] <= a <= want[1]:
                return (VIOLATED, '%g eV^%d outside %g .. %g' % (a, p, want[0], want[1]), None)
            return None
        if abs(a - want) > tol * abs(want):
            return (VIOLATED, '%g eV^%d instead of %g within %g' % (a, p, want, tol), None)
        return (HELD, '%g eV^%d, required %g within %g' % (a, p, want, tol), None)
    C.oblige(oid, where, go, rule)

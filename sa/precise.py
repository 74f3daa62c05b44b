"""Numbers carrying a 60-digit value beside the rounded one.

An identity between terms that holds only up to cancellation is confirmed with
these: the normal forms are evaluated again on the same valuation."""
import decimal
from fractions import Fraction

CTX = decimal.Context(prec=60, Emin=-999999, Emax=999999)


def dec(x):
    if isinstance(x, HP):
        return x.d
    if isinstance(x, Fraction):
        return CTX.divide(decimal.Decimal(x.numerator), decimal.Decimal(x.denominator))
    if isinstance(x, (int, float)):
        return decimal.Decimal(x)
    return None


def small(d):
    try:
        return float(d)
    except OverflowError:
        return float('inf')


def _op(name, swap=False):
    f = getattr(decimal.Context, name)

    def op(self, o):
        e = dec(o)
        if e is None:
            return NotImplemented
        if not e.is_finite() or not self.d.is_finite():
            raise OverflowError()
        a, b = (e, self.d) if swap else (self.d, e)
        if name == 'divide' and b == 0:
            raise ZeroDivisionError()
        try:
            return HP(f(CTX, a, b))
        except decimal.Overflow:
            raise OverflowError()
        except decimal.InvalidOperation:
            raise OverflowError()
    return op


def _cmp(name):
    def op(self, o):
        e = dec(o)
        if e is None:
            return NotImplemented
        return getattr(decimal.Decimal, name)(self.d, e)
    return op



class HP(float):
    __slots__ = ('d',)

    def __new__(cls, x):
        d = x if isinstance(x, decimal.Decimal) else dec(x)
        r = float.__new__(cls, small(d))
        r.d = d
        return r

    __add__, __radd__ = _op('add'), _op('add', True)
    __sub__, __rsub__ = _op('subtract'), _op('subtract', True)
    __mul__, __rmul__ = _op('multiply'), _op('multiply', True)
    __truediv__, __rtruediv__ = _op('divide'), _op('divide', True)

    def __neg__(self):
        return HP(CTX.minus(self.d))

    def __pos__(self):
        return self

    def __abs__(self):
        return HP(CTX.abs(self.d))

    def __pow__(self, e):
        if not self.d.is_finite():
            return float(self) ** e
        x = dec(e)
        if self.d == 0:
            if x < 0:
                raise ZeroDivisionError()
            return HP(1 if x == 0 else 0)
        try:
            if x == int(x):
                return HP(CTX.power(self.d, int(x)))
            if self.d < 0:
                return float(self) ** float(e)
            if x * 2 == int(x * 2):
                return HP(CTX.power(CTX.sqrt(self.d), int(x * 2)))
            return HP(CTX.power(self.d, x))
        except (decimal.Overflow, decimal.InvalidOperation):
            raise OverflowError()

    def __rpow__(self, b):
        return HP(b) ** self

    __lt__, __le__, __gt__, __ge__, __eq__, __ne__ = [_cmp('__%s__' % n) for n in ('lt', 'le', 'gt', 'ge', 'eq', 'ne')]
    __hash__ = float.__hash__

    def exp(self):
        return HP(CTX.exp(self.d))

    def log(self):
        return HP(CTX.ln(self.d))

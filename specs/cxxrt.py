"""What the C++ library operations mean, for the translated C++ sources."""
import numpy

UNSET = None
BOUND = 40


def unmodelled(why):
    """outside the translated subset"""


def unbounded():
    return unmodelled('loop bound')


def new_object(cls):
    """an instance, not initialised"""


def quadrature(f, lo, hi):
    """definite integral"""


def status_of(w):
    """status of an integration; zero when it converged"""


def error_of(w):
    """error estimate"""


def throw():
    raise RuntimeError()


def indicator(c):
    """1 where c holds, else 0"""


def nonzero(x):
    """x != 0"""


def isnan(x):
    # numbers are exact
    return False


def isinf(x):
    return False


def isfinite(x):
    return True


def hypot(x, y):
    return numpy.sqrt(x * x + y * y)


def power(x, n):
    return x ** n


def pow2(x):
    return x ** 2


def pow3(x):
    return x ** 3


def pow4(x):
    return x ** 4


def pow5(x):
    return x ** 5


def maximum(x, y):
    return y if x < y else x


def minimum(x, y):
    return y if y < x else x


def maximum_of(xs):
    r = xs[0]
    for x in xs[1:]:
        r = maximum(r, x)
    return r


def minimum_of(xs):
    r = xs[0]
    for x in xs[1:]:
        r = minimum(r, x)
    return r


def clamp(x, lo, hi):
    return lo if x < lo else hi if hi < x else x


def fdim(x, y):
    return x - y if x > y else 0


def fma(x, y, z):
    return x * y + z


def copysign(x, y):
    return abs(x) if y >= 0 else -abs(x)


def signbit(x):
    return x < 0


def idiv(x, y):
    return x // y if x * y >= 0 else -((-x) // y)


def imod(x, y):
    return x - y * idiv(x, y)


def trunc(x):
    return int(x)


def accumulate(xs, start):
    for x in xs:
        start = start + x
    return start


def sort(xs, descending):
    n = len(xs)
    for i in range(n):
        for j in range(n - 1 - i):
            a, b = xs[j], xs[j + 1]
            if descending:
                xs[j], xs[j + 1] = maximum(a, b), minimum(a, b)
            else:
                xs[j], xs[j + 1] = minimum(a, b), maximum(a, b)


def reverse_(xs):
    ys = list(xs)
    n = len(xs)
    for i in range(n):
        xs[i] = ys[n - 1 - i]


def fill_(xs, v):
    for i in range(len(xs)):
        xs[i] = v


def mapped(f, x):
    return f(x)


def blank(cls):
    return new_object(cls)


class gsl_function(object):
    def __init__(self, function=None, params=None):
        self.function = function
        self.params = params

    def copy_(self):
        return gsl_function(self.function, self.params)


class workspace(object):
    def __init__(self, limit):
        self.limit = limit
        self.size = 0
        self.busy = False
        self.freed = False


def workspace_alloc(n):
    return workspace(n)


def workspace_free(w):
    if w.freed or w.busy:
        raise RuntimeError()
    w.freed = True


def qag(F, lo, hi, epsabs, epsrel, limit, key, w):
    """adaptive quadrature; the workspace must be free, unused and large enough"""
    if w.freed or w.busy or limit > w.limit:
        raise RuntimeError()
    w.busy = True
    result = quadrature(lambda x: F.function(x, F.params), lo, hi)
    w.busy = False
    return status_of(w), result, error_of(w)

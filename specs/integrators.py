import numpy
from scipy import integrate

import environment
from common import GRID, integrators
from common.integrators import gauss_legendre, gauss_laguerre

AB = {
    1: ([1.], 1.),
    2: ([-1., 3.], 2.),
    3: ([5., -16., 23.], 12.),
    4: ([-9., 37., -59., 55.], 24.),
    5: ([251., -1274., 2616., -2774., 1901.], 720.),
}

AM = {
    1: ([1.], 1.),
    2: ([1., 1.], 2.),
    3: ([-1., 8., 5.], 12.),
    4: ([1., -5., 19., 9.], 24.),
    5: ([-19., 106., -264., 646., 251.], 720.),
}


def euler_correction(y, t, f, h):
    return h * f(t, y)


def heun_correction(y, t, f, h):
    k1 = h * f(t, y)
    k2 = h * f(t + h, y + k1)
    return (k1 + k2) / 2.


def implicit_euler(y, t, A, B, h):
    return (y + A * h) / (1 - B * h)


def adams_bashforth_correction(fs, h, order=None):
    n = order if order is not None else min(5, len(fs))
    used = fs[len(fs) - n:]
    bs, d = AB[n]
    acc = 0
    for i in range(n):
        acc = acc + bs[i] * used[i]
    return h * acc / d


def adams_moulton_solver(y, fs, A, B, h, order=None):
    n = order if order is not None else min(5, len(fs) + 1)
    used = fs[len(fs) - (n - 1):]
    bs, d = AM[n]
    acc = bs[n - 1] * A
    for i in range(n - 1):
        acc = acc + bs[i] * used[i]
    return (y + h * acc / d) / (1 - h * B * bs[n - 1] / d)


def gaussian(f, a, b):
    half, mid = (b - a) / 2., (b + a) / 2.
    return half * numpy.dot(f(half * gauss_legendre.points + mid), gauss_legendre.weights)


def integrate_1D(integrand, bounds):
    lo, hi = bounds[0], bounds[1]
    if environment.get('FIXED_ORDER_1D_QUADRATURE'):
        return gaussian(integrand, lo, hi)
    val, err = integrate.quad(integrand, lo, hi)
    return val


def remap_interval(f, x, y, bounds):
    a, b, g, h = bounds
    X = (b - a) / 2. * x + (b + a) / 2.
    lo, hi = g(X), h(X)
    Y = (hi - lo) / 2. * y + (hi + lo) / 2.
    return (b - a) / 2. * (hi - lo) / 2. * f(X, Y)


def paired_remap_interval(fs, x, y, bounds):
    a, b, g, h = bounds
    X = (b - a) / 2. * x + (b + a) / 2.
    lo, hi = g(X), h(X)
    Y = (hi - lo) / 2. * y + (hi + lo) / 2.
    f1, ff = fs(X, Y)
    J = (b - a) / 2. * (hi - lo) / 2.
    return J * f1, J * ff


def laguerre(f):
    return numpy.dot(f(gauss_laguerre.points), gauss_laguerre.weights)


def integrate_1D_pair(integrand, bounds):
    return integrate_1D(integrand, bounds)


def double_gaussian(f, a, b, g, h):
    P = gauss_legendre.points
    W = gauss_legendre.weights
    x, y = numpy.meshgrid(P, P)
    return numpy.dot(numpy.transpose(W), numpy.dot(remap_interval(f, x, y, (a, b, g, h)), W))


def integrate_2D(f, bounds):
    (a, b), (g, h) = bounds
    return double_gaussian(f, a, b, g, h)


def paired_double_gaussian(fs, a, b, g, h):
    P = gauss_legendre.points
    W = gauss_legendre.weights
    x, y = numpy.meshgrid(P, P)
    m1, mf = paired_remap_interval(fs, x, y, (a, b, g, h))
    return numpy.dot(numpy.transpose(W), numpy.dot(m1, W)), numpy.dot(numpy.transpose(W), numpy.dot(mf, W))


def paired_integrate_2D(fs, bounds):
    (a, b), (g, h) = bounds
    return paired_double_gaussian(fs, a, b, g, h)


def legendre_rule():
    x, w = numpy.polynomial.legendre.leggauss(environment.get('GAUSS_LEGENDRE_ORDER'))
    return x, w


def laguerre_rule():
    x, w = numpy.polynomial.laguerre.laggauss(environment.get('GAUSS_LAGUERRE_ORDER'))
    return x, w


def lambda_integrate(func, lo, hi):
    return integrate_1D(func(), (lo, hi))


def first(x):
    return x[0]


def lambda_integrate_code(func, lo, hi):
    return integrators.lambda_integrate((lo, hi))(func)()


def integrate_1D_code(f, bounds):
    return integrators.integrate_1D(f, bounds)[0]


def integrate_2D_code(f, bounds):
    return integrators.integrate_2D(f, bounds)[0]


def laguerre_code(f):
    return gauss_laguerre.integrate_1D(f)[0]

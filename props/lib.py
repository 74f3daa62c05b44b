import sys
from sa.check import *
from sa.model import *
from sa import lib as L


def p_int(it, args, kw, node):
    f = args[0] if args else kw['integrand']
    b = args[1] if len(args) > 1 else kw['bounds']
    lo, hi = it.index(b, num(0)), it.index(b, num(1))
    return Seq([Part(L.integral(it, f, lo, hi, node)), Part(SymV(atom('sym', 'nan')))], 'tuple')


def p_lag(it, args, kw, node):
    f = args[0] if args else kw['integrand']
    return Seq([Part(L.integral(it, f, num(0), S('inf'), node, kind='LAG')), Part(SymV(atom('sym', 'nan')))], 'tuple')


QUAD = {'common.integrators.integrate_1D': p_int, 'common.integrators.gauss_laguerre.integrate_1D': p_lag}


def seq(*xs):
    return Seq([Part(x) for x in xs], 'list')


def items(it, n, name='item'):
    return tup(*[obj(it, '%s%d' % (name, i), 'interactions.IntegralItem') for i in range(n)])


def tup(*xs):
    return Seq([Part(x) for x in xs], 'tuple')


TECH = ('abstract interpretation of the source (flow-sensitive value numbering with gated joins); '
        'the derived symbolic value/effect summary is compared with the required one by normal form')
RULE = ('each obligation names a construct (function, attribute or table) of /repo; its abstract value, attribute stores '
        'and ordered effects, derived from the syntax tree on this run, must equal the required ones for all values of the '
        'symbolic inputs and settings')
ASSUME = [
    'numbers are exact reals: floating-point rounding, overflow and quadrature truncation error are not modelled',
    'numpy/scipy functions behave as documented',
    'particle and universe attributes are only changed by code in this repository',
]
D = 'particles.DistributionParticle.'
U = 'evolution.Universe.'
STEP_EFFECTS = effects('update', 'append', 'initialize', 'integrate_collisions', 'update_distribution', 'truncate', 'write',
                       'remove', 'set_params', 'init_time', 'make_step', 'save', 'save_params', 'export', 'step_monitor')

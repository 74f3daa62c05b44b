from .lib import *
TECHNIQUE = TECH


def check(C, tier):
    it = C.load()
    hist = lambda n: seq(*[S('f%d' % i) for i in range(n)])
    q = 'common.integrators:adams_bashforth_correction'
    s = 'specs.integrators:adams_bashforth_correction'
    top = 8 if tier == 'quick' else 14
    for n in range(1, top):
        C.func('ab-len%d' % n, it, q, s, [hist(n), S('h')])
        for o in range(1, min(5, n) + 1):
            C.func('ab-len%d-order%d' % (n, o), it, q, s, [hist(n), S('h'), num(o)])
    C.func('euler', it, 'common.integrators:euler_correction', 'specs.integrators:euler_correction', [S('y'), S('t'), S('f'), S('h')])
    C.func('heun', it, 'common.integrators:heun_correction', 'specs.integrators:heun_correction', [S('y'), S('t'), S('f'), S('h')])

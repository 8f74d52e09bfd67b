"""The gamma family of special functions: unknown functions of a number, known by name and by their derivatives."""
from . import terms as tm
from .terms import app, T
from .values import *
from .world import EXT_ATTR, EXT

ONE_ARG = ('psi', 'digamma', 'gamma', 'gammaln', 'rgamma', 'gammasgn')
NAME = {'digamma': 'psi', 'loggamma': 'gammaln'}


def special(name, *xs):
    """the value, for code and specifications: 1/gamma is rgamma, a polygamma of order 0 is psi"""
    name = NAME.get(name, name)
    if name == 'rgamma':
        return tm.inv(special('gamma', *xs))
    if name == 'polygamma' and xs[0] is tm.ZERO:
        return special('psi', xs[1])
    return app('SP_' + name, tuple(xs), 'Real')


def one(name):
    def f(I, a, k):
        if len(a) != 1 or k:
            raise Unsupported('scipy.special.%s with these arguments' % name)
        np = I.world.np
        x = np.asarr(I, a[0])
        r = np.elementwise(I, [x], lambda t: special(name, t), 'f')
        return r if isinstance(a[0], Arr) and x.ndim else np.scalarize(I, r)
    return Bi('scipy.special.' + name, f)


def poly(I, a, k):
    if len(a) != 2 or k:
        raise Unsupported('scipy.special.polygamma with these arguments')
    np = I.world.np
    n, x = np.asarr(I, a[0]), np.asarr(I, a[1])
    r = np.elementwise(I, [n, x], lambda s, t: special('polygamma', s, t), 'f')
    return r if any(isinstance(v, Arr) and v.ndim for v in a) else np.scalarize(I, r)


for _n in ONE_ARG + ('loggamma',):
    EXT_ATTR['scipy.special.' + _n] = EXT_ATTR['autograd.scipy.special.' + _n] = one(_n)
EXT_ATTR['scipy.special.polygamma'] = EXT_ATTR['autograd.scipy.special.polygamma'] = \
    Bi('scipy.special.polygamma', poly)

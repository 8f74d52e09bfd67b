"""Shared drivers: symbolic patterns and values."""
from pv import terms as tm
from pv.terms import *
from pv.values import *
from pv.interp import INF

BOUNDS = [('free', False, False), ('lb', True, False), ('ub', False, True), ('both', True, True)]
SHAPES = ['block', 'vec', 'mat']


def bounds(e, has_lb, has_ub):
    lb, ub = -INF, INF
    if has_lb:
        lb = e.real('lb')
    if has_ub:
        ub = e.real('ub')
    if has_lb and has_ub:
        e.assume(lt(lb.t, ub.t))
    return lb, ub


def dims(e, shape, tag=''):
    """the dimensions of the pattern: 'block' = a shape of any rank, given as an opaque group"""
    if shape == 'block':
        return [e.block('B' + tag)]
    if shape == 'vec':
        return [e.int('n' + tag)]
    if shape == 'mat':
        return [e.int('n' + tag), e.int('m' + tag)]
    if shape == 'scalar':
        return [1]
    if shape == 'none':
        return []
    raise ValueError(shape)


def numeric(e, shape, has_lb, has_ub, default_validate=True, free_default=None):
    """(pattern, dims, lb, ub)"""
    d = dims(e, shape)
    lb, ub = bounds(e, has_lb, has_ub)
    if shape == 'vec':
        C = e.cls('numeric_array_patterns', 'NumericVectorPattern')
        p = e.call(C, d[0], lb=lb, ub=ub, default_validate=default_validate, free_default=free_default)
    elif shape == 'scalar':
        C = e.cls('numeric_array_patterns', 'NumericScalarPattern')
        p = e.call(C, lb=lb, ub=ub, default_validate=default_validate, free_default=free_default)
    else:
        C = e.cls('numeric_array_patterns', 'NumericArrayPattern')
        p = e.call(C, e.shape_of(d), lb=lb, ub=ub, default_validate=default_validate, free_default=free_default)
    return p, d, lb, ub


def inside(lb, ub, strict):
    """fact about one entry"""
    f = lt if strict else le

    def g(idx, t):
        out = []
        if isinstance(lb, S):
            out.append(f(lb.t, t))
        if isinstance(ub, S):
            out.append(f(t, ub.t))
        return and_(*out)
    return g


def size_of(e, d):
    return mul(*[dsize(e.dim(x)) for x in d])


class L(list):
    """list of cases"""

    def add(self, name, fn, *a, **k):
        self.append((name, lambda e: fn(e, *a, **k)))

"""Contracts of the numpy functions that the code uses."""
import math as _math
from . import terms as tm
from .terms import (T, TRUE, FALSE, ZERO, ONE, num, add, sub, mul, neg, le, lt, eq, ne, not_, and_, or_, ite,
                    subst, fv, ex_, all_, sum_, lam_, app, fresh)
from .values import *
from .npm import Np, INF, SORT

FUN = {}
METH = {}


class Missing:
    pass


def fun(*names, params=None):
    def deco(f):
        for n in names:
            FUN[n] = (f, params)
        return f
    return deco


def args_of(I, name, args, kw, params):
    """params: list of 'name' or ('name', default)"""
    out = []
    kw = dict(kw)
    if len(args) > len(params):
        raise Unsupported('arguments of %s' % name)
    for i, p in enumerate(params):
        pn, d = p if isinstance(p, tuple) else (p, Missing)
        if i < len(args):
            out.append(args[i])
        elif pn in kw:
            out.append(kw.pop(pn))
        elif d is Missing:
            I.raise_(TypeError, '%s() missing argument %s' % (name, pn))
        else:
            out.append(d)
    if kw:
        raise Unsupported('keyword %s of %s' % (sorted(kw), name))
    return out


def call(self, I, name, args, kw):
    f = FUN.get(name)
    if f is None:
        raise Unsupported('numpy.%s' % name)
    f, params = f
    if params is not None:
        args = args_of(I, name, args, kw, params)
        kw = {}
    return f(self, I, *args, **kw)


Np.call = call


def dkind(I, dtype):
    if dtype is None:
        return None
    if dtype is float or dtype is int or dtype is bool:
        return {float: 'f', int: 'i', bool: 'b'}[dtype]
    if isinstance(dtype, str):
        if dtype in ('bool', '?'):
            return 'b'
        # types of fewer bits, and unsigned ones, change values: not read as mathematical numbers
        if dtype in ('int', 'int64'):
            return 'i'
        if dtype in ('float', 'float64', 'd'):
            return 'f'
    if isinstance(dtype, Opaque) and dtype.tag == 'dtype':
        return dtype.kind
    if dtype is object:
        return 'O'
    if dtype is str:
        return 'S'
    raise Unsupported('dtype %r' % (dtype,))


def nparr(self, I, x):
    return self.asarr(I, x)


@fun('array', params=['x', ('dtype', None), ('copy', True), ('ndmin', 0)])
def f_array(self, I, x, dtype, copy, ndmin):
    if ndmin != 0:
        raise Unsupported('ndmin')
    if isinstance(x, Opaque):
        r = I.world.opaque_array(I, x)
        if r is not None:
            return r
    a = self.asarr(I, x)
    k = dkind(I, dtype) or a.kind
    if k == 'S' and a.kind != 'S' and not I.cx.prove(eq(a.shape[0] if a.ndim == 1 else ONE, ZERO)):
        raise Unsupported('an array of strings from %s' % a.kind)
    f = a.snap()
    r = self.new(I, a.shape, (lambda idx: self.cast(f(idx), k)) if k in 'ifb' else f, k)
    r.concat = a.concat
    if hasattr(a, 'infinite'):
        r.infinite = a.infinite
    return r


@fun('asarray', 'asanyarray', 'ascontiguousarray', params=['x', ('dtype', None)])
def f_asarray(self, I, x, dtype):
    if isinstance(x, Arr) and (dtype is None or dkind(I, dtype) == x.kind):
        return x
    return f_array(self, I, x, dtype, True, 0)


@fun('copy', params=['x'])
def f_copy(self, I, x):
    return f_array(self, I, x, None, True, 0)


def atleast_1d(self, I, x):
    a = x if isinstance(x, Arr) else self.asarr(I, x)
    if a.ndim == 0:
        f = a.snap()
        return self.new(I, (ONE,), lambda idx: f(()), a.kind)
    if len(a.shape) == 1 and isinstance(a.shape[0], Block):
        if not I.cx.prove(le(ONE, a.shape[0].rank)):
            raise Unsupported('atleast_1d of an array that may have no dimension')
    return a


@fun('atleast_1d')
def f_atleast_1d(self, I, *xs):
    if len(xs) != 1:
        raise Unsupported('atleast_1d')
    return atleast_1d(self, I, xs[0])


@fun('atleast_2d', params=['x'])
def f_atleast_2d(self, I, x):
    if isinstance(x, Opaque) and x.tag == 'mat':
        return x
    a = self.asarr(I, x)
    if any(isinstance(d, Block) for d in a.shape):
        raise Unsupported('atleast_2d')
    if a.ndim >= 2:
        return a
    f = a.snap()
    if a.ndim == 1:
        return self.new(I, (ONE,) + a.shape, lambda idx: f(idx[1:]), a.kind)
    return self.new(I, (ONE, ONE), lambda idx: f(()), a.kind)


@fun('full', params=['shape', 'fill_value', ('dtype', None)])
def f_full(self, I, shape, v, dtype):
    dims = self.dims_of(I, shape)
    a = self.asarr(I, v)
    k = dkind(I, dtype) or a.kind
    for d in dims:
        if not isinstance(d, Block) and not I.cx.prove(le(ZERO, d)):
            if not I.cx.decide(le(ZERO, d)):
                I.raise_(ValueError, 'negative dimensions are not allowed')
    if a.ndim:
        _, _, m = self.broadcast(I, dims, a.shape)
    else:
        m = lambda idx: ()
    f = a.snap()
    return self.new(I, dims, lambda idx: self.cast(f(m(idx)), k) if k in 'ifb' else f(m(idx)), k)


@fun('full_like', params=['a', 'v'])
def f_full_like(self, I, a, v):
    a = self.asarr(I, a)
    k = a.kind
    return f_full(self, I, self.shape_value(I, a), v, {'f': float, 'i': int, 'b': bool}[k])


@fun('zeros', params=['shape', ('dtype', float)])
def f_zeros(self, I, shape, dtype):
    return f_full(self, I, shape, 0, dtype)


@fun('ones', params=['shape', ('dtype', float)])
def f_ones(self, I, shape, dtype):
    return f_full(self, I, shape, 1, dtype)


@fun('empty', params=['shape', ('dtype', float)])
def f_empty(self, I, shape, dtype):
    dims = self.dims_of(I, shape)
    k = dkind(I, dtype)
    nm = fresh('uninit', 'Int').val
    return self.new(I, dims, lambda idx: app(nm, tuple(idx), SORT[k]), k)


@fun('zeros_like', params=['a', ('dtype', None)])
def f_zeros_like(self, I, a, dtype):
    a = self.asarr(I, a)
    k = dkind(I, dtype) or a.kind
    z = self.cast(num(0, 'Int'), k) if k != 'f' else num(0, 'Real')
    return self.new(I, a.shape, lambda idx: z, k)


@fun('ones_like', params=['a', ('dtype', None)])
def f_ones_like(self, I, a, dtype):
    a = self.asarr(I, a)
    k = dkind(I, dtype) or a.kind
    z = self.cast(num(1, 'Int'), k) if k != 'f' else num(1, 'Real')
    return self.new(I, a.shape, lambda idx: z, k)


@fun('arange')
def f_arange(self, I, *args, dtype=None):
    if len(args) == 1:
        lo, hi = ZERO, I.term_i(args[0])
    elif len(args) == 2:
        lo, hi = I.term_i(args[0]), I.term_i(args[1])
    else:
        raise Unsupported('arange with a step')
    n = sub(hi, lo)
    if not I.cx.prove(le(ZERO, n)):
        n = ite(le(ZERO, n), n, ZERO)
    k = dkind(I, dtype) or 'i'
    return self.new(I, (n,), lambda idx: add(lo, idx[0]), k)


@fun('eye', 'identity', params=['n'])
def f_eye(self, I, n):
    n = I.term_i(n)
    return self.new(I, (n, n), lambda idx: ite(eq(idx[0], idx[1]), num(1, 'Real'), num(0, 'Real')), 'f')


@fun('prod', 'product', params=['x', ('axis', None), ('dtype', None)])
def f_prod(self, I, x, axis, dtype=None):
    if axis is not None:
        raise Unsupported('prod over an axis')
    if dtype is not None:
        kind = dkind(I, dtype)
        r = f_prod(self, I, x, None)
        if kind == 'i' and isinstance(r, float) and r == 1.0:
            return 1
        t, k = I.term(r)
        if k != kind:
            raise Unsupported('prod with another dtype')
        return r
    if isinstance(x, (tuple, STup, PList)):
        t = ONE
        kind = 'i'
        for s in I.norm_segs(I.segs_of(x)):
            if isinstance(s, One):
                u, k = I.term(s.v)
                t = mul(t, u)
                kind = 'f' if k == 'f' else kind
            elif isinstance(s, BSeg) and s.lin is None and s.fn is None:
                t = mul(t, s.block.size)
            else:
                raise Unsupported('product of a symbolic sequence')
        if isinstance(x, (tuple, PList)) and not I.norm_segs(I.segs_of(x)):
            return 1.0
        return I.wrap(t, kind)
    raise Unsupported('product of an array')


@fun('shape', params=['x'])
def f_shape(self, I, x):
    return self.shape_value(I, self.asarr(I, x))


@fun('ndim', params=['x'])
def f_ndim(self, I, x):
    return I.mkint(self.ndim(I, self.asarr(I, x)))


@fun('size', params=['x'])
def f_size(self, I, x):
    return I.mkint(self.size(I, self.asarr(I, x)))


@fun('reshape', params=['a', 'newshape'])
def f_reshape(self, I, a, shape):
    return self.reshape(I, self.asarr(I, a), shape)


@fun('ravel', params=['a'])
def f_ravel(self, I, a):
    return self.reshape(I, self.asarr(I, a), (-1,))


@fun('hstack', params=['x'])
def f_hstack(self, I, x):
    return self.hstack(I, x)


@fun('concatenate', params=['x', ('axis', 0)])
def f_concatenate(self, I, x, axis):
    if isinstance(x, PList) or isinstance(x, tuple):
        segs = I.norm_segs(I.segs_of(x))
        if all(isinstance(s, One) for s in segs):
            if not segs:
                I.raise_(ValueError, 'need at least one array to concatenate')
            return self.concatenate(I, [s.v for s in segs], axis)
        if axis == 0 or axis == -1:
            self.nonempty(I, segs)
            return self.concat1(I, segs)
    return self.hstack(I, x)


@fun('vstack', params=['x'])
def f_vstack(self, I, x):
    segs = I.norm_segs(I.iter_segs(x))
    if len(segs) == 1 and isinstance(segs[0], Rep):
        return self.from_seq(I, x if not isinstance(x, Arr) else x)
    els = [self.asarr(I, s.v) for s in segs]
    els = [self.new(I, (ONE,) + a.shape, (lambda f: lambda idx: f(idx[1:]))(a.snap()), a.kind)
           if a.ndim == 1 else a for a in els]
    return self.concatenate(I, els, 0)


@fun('stack', params=['x', ('axis', 0)])
def f_stack(self, I, x, axis):
    r = self.from_seq(I, x)
    if axis == 0:
        return r
    if any(isinstance(d, Block) for d in r.shape) or not isinstance(axis, int):
        raise Unsupported('stack along another axis')
    axis %= len(r.shape)
    perm = list(range(1, len(r.shape)))
    perm.insert(axis, 0)
    return self.call(I, 'copy', [self.transpose(I, r, tuple(perm))], {})


@fun('column_stack', params=['x'])
def f_column_stack(self, I, x):
    r = self.from_seq(I, x)
    if len(r.shape) != 2:
        raise Unsupported('column_stack of arrays that are not vectors')
    return self.call(I, 'copy', [self.transpose(I, r, (1, 0))], {})


@fun('expand_dims', params=['a', 'axis'])
def f_expand_dims(self, I, a, axis):
    a = self.asarr(I, a)
    if axis not in (-1, 0) or (axis == 0 and False):
        raise Unsupported('expand_dims')
    m0 = a.imap
    f = (lambda idx: idx[:-1]) if axis == -1 else (lambda idx: idx[1:])
    shape = a.shape + (ONE,) if axis == -1 else (ONE,) + a.shape
    return Arr(shape, a.cell, (lambda idx: m0(f(idx))) if m0 is not None else f, a.kind)


@fun('broadcast_to', params=['a', 'shape'])
def f_broadcast_to(self, I, a, shape):
    a = self.asarr(I, a)
    dims = self.dims_of(I, shape)
    if len(a.shape) > len(dims):
        I.raise_(ValueError, 'cannot broadcast')
    shp, m1, m2 = self.broadcast(I, dims, a.shape)
    if not self.same_shape(I, shp, dims):
        I.raise_(ValueError, 'cannot broadcast')
    m0 = a.imap
    return Arr(dims, a.cell, (lambda idx: m0(m2(idx))) if m0 is not None else m2, a.kind)


# ---------------------------------------------------------------- elementwise
def ufunc(name, fn, kind=None):
    @fun(name, params=['x'])
    def f(self, I, x):
        if isinstance(x, Opaque):
            return I.world.opaque_ufunc(I, name, x)
        a = self.asarr(I, x)
        if a.kind in 'OS':
            raise Unsupported('%s of an object array' % name)
        r = self.elementwise(I, [a], lambda t: fn(I, ite(t, ONE, ZERO) if t.sort == 'Bool' else t),
                             kind or ('i' if a.kind == 'b' else a.kind))
        if isinstance(x, Arr) and a.ndim > 0:
            return r
        return self.scalarize(I, r)
    return f


ufunc('exp', lambda I, t: tm.exp(t), 'f')
ufunc('log', lambda I, t: I.s_log(t), 'f')
ufunc('sqrt', lambda I, t: I.s_sqrt(t), 'f')
ufunc('expm1', lambda I, t: sub(tm.exp(t), ONE), 'f')
ufunc('log1p', lambda I, t: I.s_log(add(ONE, t)), 'f')
ufunc('square', lambda I, t: mul(t, t))
ufunc('negative', lambda I, t: neg(t))


def t_abs(I, t):
    if I.cx.prove(le(ZERO, t), effort=1, timeout=800):
        return t
    if I.cx.prove(le(t, ZERO), effort=1, timeout=800):
        return neg(t)
    return ite(le(ZERO, t), t, neg(t))


ufunc('abs', t_abs)
ufunc('absolute', t_abs)
ufunc('fabs', t_abs, 'f')
ufunc('real', lambda I, t: t)
ufunc('conj', lambda I, t: t)
ufunc('tanh', lambda I, t: tm.div(sub(tm.exp(mul(num(2), t)), ONE), add(tm.exp(mul(num(2), t)), ONE)), 'f')


@fun('isnan', params=['x'])
def f_isnan(self, I, x):
    a = self.asarr(I, x)
    return self.scalarize(I, self.elementwise(I, [a], lambda t: FALSE, 'b'))


@fun('isfinite', 'isreal', params=['x'])
def f_isreal(self, I, x):
    if isinstance(x, Opaque) and x.tag == 'complex':
        return False
    if isinstance(x, float):
        return _math.isfinite(x)
    a = self.asarr(I, x)
    return self.scalarize(I, self.elementwise(I, [a], lambda t: TRUE, 'b'))


@fun('signbit', params=['x'])
def f_signbit(self, I, x):
    raise Unsupported('signbit')


@fun('logaddexp', params=['x', 'y'])
def f_logaddexp(self, I, x, y):
    a, b = self.asarr(I, x), self.asarr(I, y)
    return self.scalarize(I, self.elementwise(
        I, [a, b], lambda s, t: I.s_log(add(tm.exp(s), tm.exp(t))), 'f'))


@fun('nonzero', params=['a'])
def f_nonzero(self, I, a):
    """of a vector: the positions of its nonzero entries"""
    a = self.asarr(I, a)
    if len(a.shape) != 1 or isinstance(a.shape[0], Block):
        raise Unsupported('nonzero of an array that is not a vector')
    m = a if a.kind == 'b' else self.elementwise(I, [a], lambda t: ne(t, ZERO), 'b')
    L, cnt, n = self.mask_terms(I, m)

    def content(idx):
        s = app('SEL', (L, idx[0]), 'Int')
        with I.cx.scope([le(ZERO, idx[0]), lt(idx[0], cnt)]):
            I.cx.assume(and_(le(ZERO, s), lt(s, n)))
        return s
    return (self.new(I, (cnt,), content, 'i'),)


METH['nonzero'] = (f_nonzero, [])


@fun('flatnonzero', params=['a'])
def f_flatnonzero(self, I, a):
    return f_nonzero(self, I, self.reshape(I, self.asarr(I, a), (-1,)))[0]


@fun('where', params=['c', ('x', None), ('y', None)])
def f_where(self, I, c, x, y):
    if x is None:
        return f_nonzero(self, I, c)
    c, a, b = self.asarr(I, c), self.asarr(I, x), self.asarr(I, y)
    k = self.common([a.kind, b.kind])
    return self.scalarize(I, self.elementwise(
        I, [c, a, b], lambda p, s, t: ite(self.cast(p, 'b'), self.cast(s, k), self.cast(t, k)), k))


def minmax(name, flip):
    @fun(name, params=['x', 'y'])
    def f(self, I, x, y):
        a, b = self.asarr(I, x), self.asarr(I, y)
        k = self.common([a.kind, b.kind])

        def g(s, t):
            s, t = self.cast(s, k), self.cast(t, k)
            return ite(le(t, s), s, t) if flip else ite(le(s, t), s, t)
        return self.scalarize(I, self.elementwise(I, [a, b], g, k))


minmax('maximum', True)
minmax('minimum', False)
minmax('fmax', True)
minmax('fmin', False)


@fun('clip', params=['a', 'lo', 'hi'])
def f_clip(self, I, a, lo, hi):
    if lo is not None:
        a = FUN['maximum'][0](self, I, a, lo)
    if hi is not None:
        a = FUN['minimum'][0](self, I, a, hi)
    return a
for _n, _o in (('add', '+'), ('subtract', '-'), ('multiply', '*'), ('divide', '/'), ('true_divide', '/'),
               ('power', '**')):
    @fun(_n, params=['x', 'y'])
    def _f(self, I, x, y, o=_o):
        return I.binop(o, x, y)
for _n, _o in (('equal', '=='), ('not_equal', '!='), ('less', '<'), ('less_equal', '<='), ('greater', '>'),
               ('greater_equal', '>=')):
    @fun(_n, params=['x', 'y'])
    def _f(self, I, x, y, o=_o):
        return I.compare(o, x, y)


@fun('logical_and', params=['x', 'y'])
def f_land(self, I, x, y):
    return self.scalarize(I, self.elementwise(I, [self.asarr(I, x), self.asarr(I, y)],
                                              lambda a, b: and_(self.cast(a, 'b'), self.cast(b, 'b')), 'b'))


@fun('logical_or', params=['x', 'y'])
def f_lor(self, I, x, y):
    return self.scalarize(I, self.elementwise(I, [self.asarr(I, x), self.asarr(I, y)],
                                              lambda a, b: or_(self.cast(a, 'b'), self.cast(b, 'b')), 'b'))


@fun('logical_not', params=['x'])
def f_lnot(self, I, x):
    return self.scalarize(I, self.elementwise(I, [self.asarr(I, x)], lambda a: not_(self.cast(a, 'b')), 'b'))

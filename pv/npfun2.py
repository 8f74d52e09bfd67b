"""Contracts of numpy: reductions, linear algebra, array methods."""
from . import terms as tm
from .terms import (T, TRUE, FALSE, ZERO, ONE, num, add, sub, mul, neg, le, lt, eq, ne, not_, and_, or_, ite,
                    subst, fv, ex_, all_, sum_, lam_, app, fresh)
from .values import *
from .npm import Np, INF, SORT
from .npfun import fun, FUN, METH, dkind, args_of, f_array, f_prod


def axis_of(I, a, axis):
    if axis is None:
        return None
    if isinstance(axis, tuple):
        if len(axis) == 1:
            axis = axis[0]
        else:
            raise Unsupported('several axes')
    if not isinstance(axis, int):
        raise Unsupported('symbolic axis')
    if axis >= 0 and any(isinstance(d, Block) for d in a.shape[:axis + 1]):
        raise Unsupported('axis of an unknown shape')
    if axis < 0 and any(isinstance(d, Block) for d in a.shape[axis:]):
        raise Unsupported('axis of an unknown shape')
    n = len(a.shape)
    if axis < -n or axis >= n:
        if any(isinstance(d, Block) for d in a.shape):
            raise Unsupported('axis of an unknown shape')
        I.raise_(ValueError, 'axis out of bounds')
    return axis % n


def reduce_(self, I, a, axis, keepdims, red, kind):
    """red(n, fn(k) -> term) -> term"""
    ax = axis_of(I, a, axis)
    f = a.snap()
    if ax is None:
        sh = a.shape
        n = self.size(I, a)

        def total():
            def at(k):
                with I.cx.scope([le(ZERO, k), lt(k, n)]):
                    return f(self.unlinear(I, sh, k))
            # a single dimension is reduced as it is; several are nested sums in row-major order
            return red(n, at)
        if len(sh) == 1 and red is red_sum and a.concat is not None:
            ts = []
            for p in a.concat:
                if p[0] == 'one':
                    ts.append(red_sum(p[1], lambda k, p=p: _scoped(I, [le(ZERO, k), lt(k, p[1])], lambda: p[2]((k,)))))
                else:
                    def at(k, p=p):
                        with I.cx.scope([le(ZERO, k), lt(k, p[1])]):
                            return red_sum(p[2](k), lambda x: p[3](k, x))
                    ts.append(red_sum(p[1], at))
            t = add(ZERO, *ts)
        elif len(sh) > 1 and red in (red_sum, red_any, red_all):
            # several dimensions: nested, in row-major order
            def nest(pre):
                if len(pre) == len(sh):
                    return f(pre)
                dk = dsize(sh[len(pre)])

                def at(k):
                    with I.cx.scope([le(ZERO, k), lt(k, dk)]):
                        return nest(pre + (k,))
                return red(dk, at)
            t = nest(())
        elif len(sh) > 1 and red in (red_max, red_min):
            sg = 1 if red is red_max else -1

            def deep(pre):
                if len(pre) == len(sh):
                    return f(pre) if sg == 1 else neg(f(pre))
                dk = dsize(sh[len(pre)])
                k = tm.scratch()
                with I.cx.scope([le(ZERO, k), lt(k, dk)]):
                    b = deep(pre + (k,))
                return lam_(dk, k, b)
            t = app('vmaxn', (deep(()), num(len(sh))), 'Int' if a.kind in 'ib' else 'Real')
            if sg == -1:
                t = neg(t)
        else:
            t = total()
        if keepdims:
            if any(isinstance(d, Block) for d in sh):
                raise Unsupported('keepdims')
            return self.new(I, tuple(ONE for _ in sh), lambda idx: t, kind)
        return I.wrap(t, kind)
    d = a.shape[ax]
    shape = a.shape[:ax] + ((ONE,) if keepdims else ()) + a.shape[ax + 1:]

    def content(idx):
        rest = idx[:ax] + idx[ax + (1 if keepdims else 0):]

        def at(k):
            with I.cx.scope([le(ZERO, k), lt(k, d)]):
                return f(rest[:ax] + (k,) + rest[ax:])
        with I.cx.scope(self.ranges(shape, idx)):
            return red(d, at)
    r = self.new(I, shape, content, kind)
    return self.scalarize(I, r)


def _scoped(I, facts, f):
    with I.cx.scope(facts):
        return f()


def red_sum(n, at):
    k = tm.scratch()
    b = at(k)
    if b.sort == 'Bool':
        b = ite(b, ONE, ZERO)
    return sum_(ZERO, n, k, b)


def red_any(n, at):
    k = tm.scratch()
    b = at(k)
    if b.sort != 'Bool':
        b = ne(b, ZERO)
    return ex_(ZERO, n, k, b)


def red_all(n, at):
    k = tm.scratch()
    b = at(k)
    if b.sort != 'Bool':
        b = ne(b, ZERO)
    return all_(ZERO, n, k, b)


def red_max(n, at):
    if n.op == 'const' and 1 <= n.val <= 4:
        r = at(ZERO)
        for j in range(1, int(n.val)):
            x = at(num(j))
            r = ite(le(x, r), r, x)
        return r
    k = tm.scratch()
    b = at(k)
    return app('vmax', (lam_(n, k, b),), b.sort)


def red_min(n, at):
    k = tm.scratch()
    return neg(red_max(n, lambda j: neg(at(j))))


def reduction(names, red, kind):
    def f(self, I, x, axis, keepdims):
        if isinstance(x, Opaque):
            return I.world.opaque_ufunc(I, names[0], x)
        if isinstance(x, Iter):
            raise Unsupported('reduction of a generator')
        if x is True or x is False or isinstance(x, S) and x.t.sort == 'Bool':
            if names[0] in ('any', 'all'):
                return x
        if isinstance(x, SymVal):
            if names[0] == 'any':
                return I.wrap(app('ANY', (x.t,), 'Bool'))
            raise Unsupported('reduction of an abstract value')
        a = self.asarr(I, x)
        if a.kind == 'O' and a.ndim == 0:
            v = a.at(())
            if isinstance(v, PDict) and names[0] in ('any', 'all'):
                return I.mkbool(ne(I.length(v), ZERO))
        if a.kind == 'O' and names[0] in ('any', 'all'):
            return object_any(self, I, a, names[0])
        if a.kind in 'OS':
            raise Unsupported('reduction of an object array')
        k = kind or ('i' if a.kind == 'b' else a.kind)
        keep = keepdims if isinstance(keepdims, bool) else bool(keepdims)
        return reduce_(self, I, a, axis, keep, red, k)
    if names[0] not in ('max', 'min'):
        fun(*names, params=['x', ('axis', None), ('keepdims', False)])(f)
        for nm in names:
            METH[nm] = (f, [('axis', None), ('keepdims', False)])
        return f

    def g(self, I, x, axis, keepdims, initial):
        a = self.asarr(I, x)
        if initial is None:
            # no greatest entry of an empty array
            if axis is None and a.kind in 'ifb' and I.cx.decide(eq(self.size(I, a), ZERO)):
                I.raise_(ValueError, 'zero-size array to reduction operation')
            return f(self, I, x, axis, keepdims)
        if axis is not None or keepdims or a.kind not in 'if':
            raise Unsupported('an initial value for this reduction')
        # the greatest (least) of the initial value and of the entries, of which there may be none
        if I.cx.decide(eq(self.size(I, a), ZERO)):
            return initial
        it, ik = I.term(initial)
        m = I.term(f(self, I, x, None, False))[0]
        better = le(it, m) if names[0] == 'max' else le(m, it)
        return I.wrap(ite(better, m, it), 'f' if 'f' in (ik, a.kind) else 'i')
    fun(*names, params=['x', ('axis', None), ('keepdims', False), ('initial', None)])(g)
    for nm in names:
        METH[nm] = (g, [('axis', None), ('keepdims', False), ('initial', None)])
    return g


@fun('cumsum', params=['x', ('axis', None)])
def f_cumsum(self, I, x, axis):
    a = self.asarr(I, x)
    if len(a.shape) != 1 or isinstance(a.shape[0], Block) or a.kind not in 'ifb':
        raise Unsupported('cumulative sums of an array of several dimensions')
    f = a.snap()

    def content(idx):
        # the first entry by itself: it often differs from the others
        i, k = idx[0], tm.scratch()
        at0 = f((ZERO,))
        with I.cx.scope([le(ZERO, k), lt(k, i)]):
            b = f((add(k, ONE),))
        if b.sort == 'Bool':
            at0, b = ite(at0, ONE, ZERO), ite(b, ONE, ZERO)
        return add(at0, sum_(ZERO, i, k, b))
    return self.new(I, a.shape, content, 'i' if a.kind == 'b' else a.kind)


METH['cumsum'] = (lambda self, I, x, axis: f_cumsum(self, I, x, axis), [('axis', None)])


def object_any(self, I, a, nm):
    if a.ndim == 0:
        return I.mkbool(I.contains_true(a.at(())))
    raise Unsupported('%s of an object array' % nm)


reduction(('sum',), red_sum, None)
reduction(('any',), red_any, 'b')
reduction(('all',), red_all, 'b')
reduction(('max', 'amax'), red_max, None)
reduction(('min', 'amin'), red_min, None)


def mean(self, I, x, axis):
    a = self.asarr(I, x)
    s = reduce_(self, I, a, axis, False, red_sum, 'f')
    n = self.size(I, a) if axis is None else dsize(a.shape[axis_of(I, a, axis)])
    return I.binop('/', s, I.mkint(n))


fun('mean', params=['x', ('axis', None)])(mean)
METH['mean'] = (mean, [('axis', None)])
METH['prod'] = (lambda self, I, a: f_prod(self, I, a, None), [])


# ---------------------------------------------------------------- linear algebra
def two(self, I, a):
    a = self.asarr(I, a)
    if any(isinstance(d, Block) for d in a.shape):
        raise Unsupported('unknown shape')
    return a


def stacked(self, I, a):
    """as two, but the matrices (or vectors) may be stacked in a shape of any rank"""
    a = self.asarr(I, a)
    if a.shape and any(isinstance(d, Block) for d in a.shape[-2 if len(a.shape) > 1 and not isinstance(a.shape[-2], Block)
                                                             else -1:]):
        raise Unsupported('unknown shape')
    return a


def casewise(t):
    return any(x.op == 'ite' for x in tm.subterms(t, into_sums=True))


def matmul(self, I, a, b):
    if isinstance(a, Opaque) or isinstance(b, Opaque):
        return I.world.opaque_binop(I, '@', a, b)
    a, b = stacked(self, I, a), stacked(self, I, b)
    if a.ndim == 0 or b.ndim == 0:
        I.raise_(ValueError, 'matmul: not enough dimensions')
    av, bv = a.ndim == 1, b.ndim == 1
    for x in (a, b):
        if x.ndim > 1 and isinstance(x.shape[-2], Block):
            raise Unsupported('matmul of an unknown shape')
    fa, fb = a.snap(), b.snap()
    da = a.shape[-1]
    db = b.shape[-2] if not bv else b.shape[-1]
    if not self.same_dim(I, da, db):
        I.raise_(ValueError, 'matmul: mismatch in its core dimension')
    la = () if av else a.shape[:-2]
    lb = () if bv else b.shape[:-2]
    lead, ma, mb = self.broadcast(I, la, lb)
    shape = lead + (() if av else (a.shape[-2],)) + (() if bv else (b.shape[-1],))
    kind = self.binop_kind('*', a.kind, b.kind)
    nl = len(lead)

    def content(idx):
        i = idx[:nl]
        j = nl
        row = None
        if not av:
            row = idx[j]
            j += 1
        col = idx[j] if not bv else None
        k = tm.scratch()
        with I.cx.scope(self.ranges(shape, idx) + [le(ZERO, k), lt(k, da)]):
            x = fa(ma(i) + ((row,) if not av else ()) + (k,)) if not av else fa((k,))
            y = fb(mb(i) + (k, col)) if not bv else fb((k,))
            x = ite(x, ONE, ZERO) if x.sort == 'Bool' else x
            y = ite(y, ONE, ZERO) if y.sort == 'Bool' else y
            if a.ndim == 2 and b.ndim == 2 and (casewise(x) or casewise(y)):
                # named elements: the product is recognizable (world.gram), the definition is ELT's axiom
                x = tm.app('ELT', (ma2(), row, k), 'Real')
                y = tm.app('ELT', (mb2(), col, k), 'Real')
            body = mul(x, y)
        return sum_(ZERO, da, k, body)

    def ma2():
        return I.world.mat_term2(I, a.shape[0], da, lambda i, k: fa((i, k)))

    def mb2():
        return I.world.mat_term2(I, b.shape[1], da, lambda i, k: fb((k, i)))
    r = self.new(I, shape, content, kind)
    return self.scalarize(I, r)


Np.matmul = matmul


@fun('matmul', params=['a', 'b'])
def f_matmul(self, I, a, b):
    return self.matmul(I, a, b)


@fun('dot', params=['a', 'b'])
def f_dot(self, I, a, b):
    if not isinstance(a, Opaque) and not isinstance(b, Opaque):
        a, b = self.asarr(I, a), self.asarr(I, b)
        if a.ndim == 0 or b.ndim == 0:
            return I.binop('*', a, b)
        if b.ndim > 2 and not (I.cx.prove(eq(self.ndim(I, b), num(2))) and I.cx.prove(eq(self.ndim(I, a), num(2)))):
            raise Unsupported('dot of many dimensions')
    return self.matmul(I, a, b)


METH['dot'] = (lambda self, I, a, b: f_dot(self, I, a, b), ['b'])


@fun('outer', params=['a', 'b'])
def f_outer(self, I, a, b):
    a, b = self.asarr(I, a), self.asarr(I, b)
    a, b = self.reshape(I, a, (-1,)), self.reshape(I, b, (-1,))
    fa, fb = a.snap(), b.snap()
    return self.new(I, (a.shape[0], b.shape[0]), lambda idx: mul(fa((idx[0],)), fb((idx[1],))),
                    self.binop_kind('*', a.kind, b.kind))


@fun('diag', params=['v', ('k', 0)])
def f_diag(self, I, v, k):
    if k != 0:
        raise Unsupported('diag off the diagonal')
    if isinstance(v, Opaque):
        return I.world.opaque_ufunc(I, 'diag', v)
    a = two(self, I, v)
    f = a.snap()
    if a.ndim == 1:
        return self.new(I, (a.shape[0], a.shape[0]),
                        lambda idx: ite(eq(idx[0], idx[1]), f((idx[0],)), num(0, SORT[a.kind])), a.kind)
    if a.ndim == 2:
        return diagonal(self, I, a)
    I.raise_(ValueError, 'Input must be 1- or 2-d.')


def diagonal(self, I, a):
    a = two(self, I, a)
    if a.ndim < 2:
        I.raise_(ValueError, 'diag requires an array of at least two dimensions')
    d, e = a.shape[0], a.shape[1]
    if a.ndim > 2:
        raise Unsupported('diagonal of many dimensions')
    n = d if self.same_dim(I, d, e) else ite(le(d, e), d, e)
    f = a.snap()
    return self.new(I, (n,), lambda idx: f((idx[0], idx[0])), a.kind)


fun('diagonal', params=['a'])(diagonal)
METH['diagonal'] = (diagonal, [])


@fun('make_diagonal', params=['D', ('offset', 0), ('axis1', 0), ('axis2', 1)])
def f_make_diagonal(self, I, D, offset, axis1, axis2):
    a = two(self, I, D)
    if offset != 0 or {axis1, axis2} != {-1, -2} and not (a.ndim == 1 and {axis1, axis2} == {0, 1}):
        raise Unsupported('make_diagonal')
    f = a.snap()
    n = a.shape[-1]
    return self.new(I, a.shape + (n,), lambda idx: ite(eq(idx[-1], idx[-2]), f(idx[:-1]), num(0, 'Real')), a.kind)


@fun('trace', params=['a'])
def f_trace(self, I, a):
    if isinstance(a, Opaque):
        return I.world.opaque_ufunc(I, 'trace', a)
    return reduce_(self, I, diagonal(self, I, a), None, False, red_sum, self.asarr(I, a).kind)


@fun('transpose', params=['a', ('axes', None)])
def f_transpose(self, I, a, axes):
    if isinstance(a, Opaque):
        return I.world.getattr(I, a, 'T')
    return self.transpose(I, self.asarr(I, a), axes)


METH['transpose'] = (lambda self, I, a, *axes: self.transpose(
    I, a, (axes[0] if len(axes) == 1 and isinstance(axes[0], tuple) else axes) or None), None)


@fun('swapaxes', params=['a', 'axis1', 'axis2'])
def f_swapaxes(self, I, a, i, j):
    if isinstance(a, Opaque):
        return I.world.opaque_ufunc(I, 'swapaxes', a)
    a = two(self, I, a)
    axes = list(range(a.ndim))
    i, j = axis_of(I, a, i), axis_of(I, a, j)
    axes[i], axes[j] = axes[j], axes[i]
    return self.transpose(I, a, axes)


METH['swapaxes'] = (lambda self, I, a, i, j: f_swapaxes(self, I, a, i, j), ['i', 'j'])


@fun('tril_indices', params=['n', ('k', 0)])
def f_tril_indices(self, I, n, k):
    """positions (row, col), col <= row, of an n x n matrix in row-major order"""
    if k != 0:
        raise Unsupported('tril_indices off the diagonal')
    n = I.term_i(n)
    m = tri(n)
    rows = self.new(I, (m,), lambda idx: trow(I, idx[0]), 'i')
    cols = self.new(I, (m,), lambda idx: tcol(I, idx[0]), 'i')
    rows.tril = cols.tril = n
    return (rows, cols)


def tri(n):
    return tm.mul(num(tm.Fraction(1, 2)), n, add(n, ONE))


def tri_split(I, t):
    """t = r (r + 1) / 2 + c with 0 <= c <= r provable: (r, c)"""
    p = tm.poly_of(t)
    for m, c in p.items():
        if len(m) == 1 and m[0][1] == 2 and m[0][0].sort == 'Int' and c == tm.Fraction(1, 2):
            r = m[0][0]
            rest = sub(t, tri(r))
            # allow for shifts of the row
            for dr in (0, 1, -1):
                rr = add(r, num(dr))
                cc = sub(t, tri(rr))
                if I.cx.prove(and_(le(ZERO, cc), le(cc, rr), le(ZERO, rr))):
                    return rr, cc
    return None


def trow(I, t):
    if t.op == 'const':
        r = 0
        while (r + 1) * (r + 2) // 2 <= t.val:
            r += 1
        return num(r)
    s = tri_split(I, t)
    return s[0] if s else app('trow', (t,), 'Int')


def tcol(I, t):
    if t.op == 'const':
        return num(int(t.val) - int(tri(trow(I, t)).val))
    s = tri_split(I, t)
    return s[1] if s else app('tcol', (t,), 'Int')


@fun('ravel_multi_index', params=['multi_index', 'dims'])
def f_ravel_multi_index(self, I, mi, dims):
    segs = list(mi.segs) if isinstance(mi, (ItemProd, STup, PList)) else [One(x) for x in mi]
    ds = self.dims_of(I, dims)
    if len(segs) != len(ds):
        if any(isinstance(d, Block) for d in ds) or any(isinstance(s, BSeg) for s in segs):
            raise Unsupported('ravel_multi_index')
        I.raise_(ValueError, 'parameter multi_index must be a sequence of length %d' % len(ds))
    idx = []
    for s, d in zip(segs, ds):
        if isinstance(s, BSeg):
            if not isinstance(d, Block) or d != s.block:
                raise Unsupported('ravel_multi_index')
            idx.append(s.lin)
        else:
            if isinstance(d, Block):
                raise Unsupported('ravel_multi_index')
            t = I.term_i(s.v)
            if not I.cx.decide(and_(le(ZERO, t), lt(t, d))):
                I.raise_(ValueError, 'invalid entry in coordinates array')
            idx.append(t)
    return I.wrap(self.linear(ds, idx), 'i')


@fun('unique', params=['x'])
def f_unique(self, I, x):
    """only the number of distinct values is specified"""
    a = self.reshape(I, self.asarr(I, x), (-1,))
    n = a.shape[0]
    f = a.snap()
    if n.op == 'const' and n.val <= 4:
        m = int(n.val)
        els = [f((num(i),)) for i in range(m)]
        cnt = ZERO
        for i in range(m):
            cnt = add(cnt, ite(or_(*[eq(els[i], els[j]) for j in range(i)]), ZERO, ONE))
        return self.new(I, (cnt,), lambda idx: app('uniq', (cnt, idx[0]), SORT[a.kind]), a.kind)
    k, j = tm.scratch(), tm.scratch()
    with I.cx.scope([le(ZERO, k), lt(k, n)]):
        fk = f((k,))
    L = lam_(n, k, fk)
    distinct = all_(ZERO, n, k, all_(ZERO, k, j, ne(subst(fk, {k: j}), fk)))
    cnt = n
    if not I.cx.decide(distinct):
        cnt = app('NDISTINCT', (L,), 'Int')
        I.cx.assume(and_(le(ONE, cnt), lt(cnt, n)))
    return self.new(I, (cnt,), lambda idx: app('uniq', (L, idx[0]), SORT[a.kind]),
                    a.kind)


@fun('argsort', params=['x'])
def f_argsort(self, I, x):
    a = self.asarr(I, x)
    if a.ndim != 1 or isinstance(a.shape[0], Block):
        raise Unsupported('argsort')
    if a.shape[0].op != 'const':
        # the sorting permutation and its inverse
        n = a.shape[0]
        f = a.snap()
        k = fresh('k', 'Int')
        with I.cx.scope([le(ZERO, k), lt(add(k, ONE), n)]):
            if I.cx.prove(lt(f((k,)), f((add(k, ONE),)))):
                return self.new(I, (n,), lambda idx: idx[0], 'i')
        k = tm.scratch()
        L = lam_(n, k, f((k,)))
        o = lambda j: app('ORDER', (L, j), 'Int')
        return self.new(I, (n,), lambda idx: o(idx[0]), 'i')
    n = int(a.shape[0].val)
    els = [a.at((num(i),)) for i in range(n)]
    # order found by deciding the comparisons (stable)
    order = []
    for i in range(n):
        p = 0
        while p < len(order) and I.cx.decide(le(els[order[p]], els[i])):
            p += 1
        order.insert(p, i)
    return self.from_seq(I, tuple(order))


@fun('nonzero', params=['x'])
def f_nonzero(self, I, x):
    a = self.asarr(I, x)
    if a.ndim != 1:
        raise Unsupported('nonzero')
    b = a if a.kind == 'b' else self.elementwise(I, [a], lambda t: ne(t, ZERO), 'b')
    return (self.getitem(I, FUN['arange'][0](self, I, I.mkint(a.shape[0])), b),)


@fun('array_equal', params=['a', 'b'])
def f_array_equal(self, I, a, b):
    a, b = self.asarr(I, a), self.asarr(I, b)
    if not self.same_shape(I, a.shape, b.shape):
        return False
    return I.world.np.call(I, 'all', [I.compare('==', a, b)], {})


@fun('squeeze', params=['a'])
def f_squeeze(self, I, a):
    raise Unsupported('squeeze')


@fun('append', params=['a', 'b'])
def f_append(self, I, a, b):
    return self.concat1(I, [One(self.reshape(I, self.asarr(I, a), (-1,))),
                            One(self.reshape(I, self.asarr(I, b), (-1,)))])


@fun('float64', 'float_', params=[('x', 0.0)])
def f_float64(self, I, x):
    return I.world.to_float(I, x)


@fun('random.random', params=[('size', None)])
def f_random(self, I, size):
    nm = fresh('rand', 'Real').val
    if size is None:
        t = tm.var(nm, 'Real')
        I.cx.assume(and_(le(ZERO, t), lt(t, ONE)))
        return S(t, 'f')
    dims = self.dims_of(I, size)
    return self.new(I, dims, lambda idx: app(nm, tuple(idx), 'Real'), 'f')


@fun('linalg.cholesky', params=['a'])
def f_cholesky(self, I, a):
    a = two(self, I, a)
    if a.ndim != 2 or not self.same_dim(I, a.shape[0], a.shape[1]):
        I.raise_(ValueError, 'Last 2 dimensions of the array must be square')
    n = a.shape[0]
    return I.world.cholesky(I, a, n)


# ---------------------------------------------------------------- methods
def meth(name, params):
    def deco(f):
        METH[name] = (f, params)
        return f
    return deco


@meth('flatten', [])
def m_flatten(self, I, a):
    return self.flat_copy(I, a)


@meth('ravel', [])
def m_ravel(self, I, a):
    return self.reshape(I, a, (-1,))


@meth('copy', [])
def m_copy(self, I, a):
    return f_array(self, I, a, None, True, 0)


@meth('astype', ['dtype'])
def m_astype(self, I, a, dtype):
    k = dkind(I, dtype)
    f = a.snap()
    return self.new(I, a.shape, lambda idx: self.cast(f(idx), k), k)


@meth('tolist', [])
def m_tolist(self, I, a):
    if a.ndim != 1:
        raise Unsupported('tolist')
    f = a.snap()
    return PList(I.cx, I.norm_segs([Rep(a.shape[0], lambda k: self.elem(I, f((k,)), a.kind))]))


@meth('item', [])
def m_item(self, I, a):
    if not I.cx.decide(eq(self.size(I, a), ONE)):
        I.raise_(ValueError, 'can only convert an array of size 1 to a Python scalar')
    return self.item(I, a)


def m_reshape(self, I, a, *shape):
    if len(shape) == 1:
        shape = shape[0]
    return self.reshape(I, a, shape)


METH['reshape'] = (m_reshape, None)
METH['conj'] = (lambda self, I, a: a, [])
METH['fill'] = (lambda self, I, a, v: self.store_all(I, a, v), ['v'])


def method(self, I, a, name):
    m = METH.get(name)
    if m is None:
        raise Unsupported('ndarray.%s' % name)
    f, params = m

    def call(I2, args, kw):
        if params is None:
            if kw:
                raise Unsupported('keywords of ndarray.%s' % name)
            return f(self, I2, a, *args)
        return f(self, I2, a, *args_of(I2, name, args, kw, params))
    return Bi('ndarray.' + name, call)


Np.method = method


def _triangle(self, I, a, k, keep):
    a = two(self, I, a)
    if a.ndim != 2 or a.kind not in 'ifb':
        raise Unsupported('triangle of this array')
    k = I.term_i(k)
    f = a.snap()
    zero = FALSE if a.kind == 'b' else num(0, 'Real' if a.kind == 'f' else 'Int')
    return self.new(I, a.shape, lambda idx: ite(keep(sub(idx[1], idx[0]), k), f(idx), zero), a.kind)


@fun('tril', params=['m', ('k', 0)])
def f_tril(self, I, m, k):
    return _triangle(self, I, m, k, le)


@fun('triu', params=['m', ('k', 0)])
def f_triu(self, I, m, k):
    return _triangle(self, I, m, k, lambda d, k: le(k, d))


@fun('tile', params=['A', 'reps'])
def f_tile(self, I, a, reps):
    a = self.asarr(I, a)
    if a.kind not in 'ifb':
        raise Unsupported('tile of this array')
    segs = list(I.norm_segs(I.segs_of(reps))) if isinstance(reps, (tuple, STup, PList)) else [One(reps)]
    dims = list(a.shape)
    out = []                      # (dimension, number of the dimension of a or None, its length when repeated)
    while dims:
        d = dims.pop()
        j = len(dims)
        if not segs:
            out.append((d, j, None))
        elif isinstance(d, Block):
            s = segs.pop()
            if not isinstance(s, Rep) or s.cond is not None or not I.cx.prove(eq(s.n, d.rank)):
                raise Unsupported('tile of an unknown shape')
            k = tm.scratch()
            if I.term_i(s.fn(k)) is not ONE:
                raise Unsupported('tile of an unknown shape')
            out.append((d, j, None))
        else:
            s = segs.pop()
            if not isinstance(s, One):
                raise Unsupported('tile by an unknown number of repetitions')
            r = I.term_i(s.v)
            out.append((d, j, None) if r is ONE else (mul(r, d), j, d))
    for s in reversed(segs):
        if isinstance(s, One):
            out.append((I.term_i(s.v), None, None))
        elif isinstance(s, BSeg) and s.lin is None and s.fn is None:
            out.append((s.block, None, None))
        else:
            raise Unsupported('tile by an unknown number of repetitions')
    out.reverse()
    f = a.snap()

    def content(idx):
        at = [None] * len(a.shape)
        for (d, j, m), x in zip(out, idx):
            if j is not None:
                at[j] = x if m is None else I.divmod_terms(x, m)[1]
        return f(tuple(at))
    return self.new(I, [d for d, _, _ in out], content, a.kind)

"""Clipping, spectral functions and Hessian preconditioning: symmetric matrices of any size, any limits."""
from .common import *
from .numeric import raised
from .precond import klass, op_entry, operator, times
from pv.objfun import objfun, tag_of
from pv.linalg import matrix

LIMITS = [('no limits', False, False), ('lower limit', True, False), ('upper limit', False, True),
          ('both limits', True, True)]


def fn(e, name):
    return e.attr(e.mod('optimization_lib'), name)


def limits(e, has_lo, has_hi, kind='f'):
    mk = (lambda q: e.real(q)) if kind == 'f' else (lambda q: e.int(q, lo=None))
    lo, hi = mk('ev_min') if has_lo else None, mk('ev_max') if has_hi else None
    if has_lo and has_hi:
        e.assume(le(lo.t, hi.t))
    return lo, hi


def clip(t, lo, hi):
    if lo is not None:
        t = ite(le(t, lo.t), lo.t, t)
    if hi is not None:
        t = ite(le(hi.t, t), hi.t, t)
    return t


def kwargs(lo, hi, always=False):
    kw = {}
    if lo is not None or always:
        kw['ev_min'] = lo
    if hi is not None or always:
        kw['ev_max'] = hi
    return kw


def truncated(e, has_lo, has_hi, kind, lkind, how):
    n = e.int('n')
    ev = e.array('ev', [n], kind=kind)
    e.remember(ev)
    lo, hi = limits(e, has_lo, has_hi, lkind)
    args = (lo, hi) if how == 'positional' else ()
    r = e.call(fn(e, 'truncate_eigenvalues'), ev, *args, **({} if args else kwargs(lo, hi)))
    f = {'f': lambda t: t, 'i': lambda t: t, 'b': lambda t: ite(t, ONE, ZERO)}[kind]
    e.elements('every value is clipped', r, lambda idx: clip(f(ev.at(idx)), lo, hi), [n])
    e.check('the result can hold any limit', isinstance(r, Arr) and r.kind == 'f')
    e.fresh_storage('the result is a copy', r, ev)
    e.unchanged()


def eigenspace(e):
    e.cx.tensor = True
    n, k = e.int('n'), e.int('k')
    Q, ev, x = e.array('Q', [n, k]), e.array('ev', [k]), e.array('x', [n])
    e.remember(Q, ev, x)
    m = e.call(fn(e, 'transform_eigenspace'), Q, ev, operator('F'))
    r = e.call(m, x)

    def spec(idx):
        j, l = tm.scratch(), tm.scratch()
        new = op_entry('F', k.t, lambda t: tm.app('ev', t, 'Real'), l)
        load = sum_(ZERO, n.t, j, mul(tm.app('Q', (j, l), 'Real'), tm.app('x', (j,), 'Real')))
        return add(tm.app('x', tuple(idx), 'Real'),
                   sum_(ZERO, k.t, l, mul(tm.app('Q', (idx[0], l), 'Real'), sub(new, ONE), load)))
    e.elements('the loadings are transformed, the rest is kept', r, spec, [n])
    e.unchanged()


def bad_eigenspace(e, how):
    n, k = e.int('n'), e.int('k')
    Q, ev = e.array('Q', [n, k]), e.array('ev', [k])
    ok = FALSE
    if how == 'vectors not a matrix':
        Q = e.array('Q1', [n])
    elif how == 'values not a vector':
        ev = e.array('ev2', [k, n])
    else:
        m = e.int('m')
        ev = e.array('ev3', [m])
        ok = eq(k.t, m.t)
    _, exc = e.attempt(e.call, fn(e, 'transform_eigenspace'), Q, ev, operator('F'))
    raised(e, exc, ok)


def preconditioned(e, has_lo, has_hi, given, positional=False):
    e.cx.tensor = True
    fun = objfun()
    n = e.int('n', lo=1)
    lo, hi = limits(e, has_lo, has_hi)
    p = e.call(klass(e), fun)
    if given == 'hessian':
        h = e.array('h', [n, n])
        H = e.I.binop('+', h, e.attr(h, 'T'))
        e.remember(H)
        Hs = H.snap()
        e.call(e.attr(p, 'set_preconditioner_with_hessian'), hessian=H, **kwargs(lo, hi, always=True))
        e.check('the function is not called', not fun.calls)
    else:
        x0 = e.array('x0', [n])
        e.remember(x0)
        t = tag_of(e.I, fun, x0.shape, x0.snap())
        Hs = lambda idx: tm.app('D2OBJ', (t,) + tuple(idx), 'Real')
        if given == 'point, positional':
            e.call(e.attr(p, 'set_preconditioner_with_hessian'), x0, None, lo, hi)
        else:
            e.call(e.attr(p, 'set_preconditioner_with_hessian'), x=x0, **kwargs(lo, hi))
    l, _ = matrix(e.I, n.t, lambda i, j: Hs((i, j)))
    ev = lambda k: clip(tm.app('EIGVAL', (l, k), 'Real'), lo, hi)
    V = lambda i, k: tm.app('EIGVEC', (l, i, k), 'Real')
    q = tm.scratch()
    e.assume(tm.all_(ZERO, n.t, q, lt(ZERO, ev(q))))

    def spectral(f, x):
        def g(i):
            j, k = tm.scratch(), tm.scratch()
            with e.cx.scope([le(ZERO, k), lt(k, n.t)]):
                fk = f(ev(k))
            return sum_(ZERO, n.t, k, mul(V(i, k), fk, sum_(ZERO, n.t, j, mul(V(j, k), x(j)))))
        return g
    x = e.array('x', [n])
    e.remember(x)
    xt = lambda i: tm.app('x', (i,), 'Real')
    root, iroot = (lambda t: tm.sqrt(t)), (lambda t: inv(tm.sqrt(t)))
    r = e.meth(p, 'unprecondition', x)
    e.elements('the inverse square root of the clipped matrix', r, lambda idx: spectral(iroot, xt)(idx[0]), [n])
    s = e.meth(p, 'precondition', x)
    e.elements('the square root of the clipped matrix', s, lambda idx: spectral(root, xt)(idx[0]), [n])
    back = e.meth(p, 'precondition', r)
    e.elements('the inverse operator undoes the preconditioner', back, lambda idx: xt(idx[0]), [n])
    back = e.meth(p, 'unprecondition', s)
    e.elements('the preconditioner undoes its inverse', back, lambda idx: xt(idx[0]), [n])
    mid = e.np.new(e.I, (n.t,), lambda idx: spectral(lambda t: t, lambda j: r.at((j,)))(idx[0]), 'f')
    e.elements('sandwiching the clipped matrix gives the identity', e.meth(p, 'unprecondition', mid),
               lambda idx: xt(idx[0]), [n])
    P = e.meth(p, 'get_preconditioner', n)

    def unit(j):
        return lambda i: ite(eq(i, j), ONE, ZERO)
    e.elements('as a matrix', P, lambda idx: spectral(iroot, unit(idx[1]))(idx[0]), [n, n])
    e.elements('the matrix is symmetric', P, lambda idx: P.at((idx[1], idx[0])), [n, n])
    e.unchanged()


def bad_call(e, how):
    n = e.int('n', lo=1)
    p = e.call(klass(e), objfun())
    kw = {} if how == 'neither' else {'x': e.array('x', [n]), 'hessian': e.array('H', [n, n])}
    e.raises('ValueError', ValueError, e.call, e.attr(p, 'set_preconditioner_with_hessian'), **kw)


def c17(c, tier):
    for nm, lo, hi in LIMITS:
        for kind in 'fib':
            for lk in 'fi':
                for how in ('keywords', 'positional'):
                    c.add('clipping, %s of kind %s, values of kind %s, %s' % (nm, lk, kind, how), truncated, lo, hi,
                          kind, lk, how)
        for given in ('hessian', 'point', 'point, positional'):
            c.add('preconditioner from a %s, %s' % (given, nm), preconditioned, lo, hi, given)
    c.add('transform_eigenspace', eigenspace)
    for how in ('vectors not a matrix', 'values not a vector', 'lengths differ'):
        c.add('transform_eigenspace, %s' % how, bad_eigenspace, how)
    for how in ('neither', 'both'):
        c.add('%s of point and Hessian' % how, bad_call, how)

"""Preconditioned functions: any function, any operators, any matrices of any size."""
from .common import *
from .numeric import raised
from pv.objfun import objfun, value, same_contents
from pv.world import opaque
from pv.deps import sparse
from pv.linalg import norm_value


@opaque('operator', 'call')
def operator_call(I, o, args, kw):
    """an unknown function of vectors to vectors of the same length"""
    if len(args) != 1 or kw or not isinstance(args[0], Arr) or len(args[0].shape) != 1:
        raise Unsupported('operator of %r' % (args,))
    x = args[0]
    s = x.snap()
    return I.world.np.new(I, x.shape, lambda idx: op_entry(o.name, x.shape[0], s, idx[0]), 'f')


def op_entry(name, n, s, i):
    k = tm.scratch()
    return tm.app('OP_' + name, (tm.lam_(n, k, s((k,))), i), 'Real')


def operator(name):
    return Opaque('operator', name=name)


def mat(e, name, n, m=None):
    return e.array(name, [n, m or n])


def times(A, x, n):
    """entry i of A x"""
    def f(i):
        k = tm.scratch()
        return sum_(ZERO, n, k, mul(A(i, k), x(k)))
    return f


def inv_of(e, A):
    """entries of the inverse of A"""
    from pv.linalg import inverse_entry
    n = A.shape[-1]
    return lambda i, j: inverse_entry(e.I, n, lambda u, v: A.at((u, v)), i, j)


class Setter:
    """how a preconditioner is set; forward(x)(i), backward(x)(i): what it must do afterwards"""

    def __init__(self, e, how, n, tag=''):
        self.how, self.n = how, n
        d = n.t
        if how == 'identity':
            self.run = lambda p: e.meth(p, 'set_identitity_preconditioner')
            self.fwd = self.bwd = lambda x: x
        elif how == 'functions':
            f, g = operator('F' + tag), operator('G' + tag)
            self.run = lambda p: e.meth(p, 'set_preconditioner_functions', f, g)
            self.fwd = lambda x: lambda i: op_entry('F' + tag, d, lambda t: x(t[0]), i)
            self.bwd = lambda x: lambda i: op_entry('G' + tag, d, lambda t: x(t[0]), i)
        elif how == 'hessian':
            h = e.array('h' + tag, [n, n])
            sym = e.I.binop('+', h, e.attr(h, 'T'))
            self.run = lambda p: e.meth(p, 'set_preconditioner_with_hessian', hessian=sym)
            self.fwd = self.bwd = None
        else:
            A = mat(e, 'A' + tag, n)
            B = mat(e, 'B' + tag, n) if 'given' in how else None
            e.remember(A, *([B] if B is not None else []))
            a, b = A, B
            if 'sparse' in how:
                a, b = sparse(e.I, A, 'csc'), None if B is None else sparse(e.I, B, 'csc')
            old = 'deprecated' in how
            nm = 'set_preconditioner' if old else 'set_preconditioner_matrix'
            args = [a] if b is None else [a, b]
            self.run = lambda p: e.meth(p, nm, *args)
            at = lambda i, j: A.at((i, j))
            bt = (lambda i, j: B.at((i, j))) if B is not None else inv_of(e, A)
            self.fwd = lambda x: times(at, x, d)
            self.bwd = lambda x: times(bt, x, d)


HOWS = ['identity', 'functions', 'dense', 'dense, inverse given', 'sparse', 'sparse, inverse given', 'dense, deprecated',
        'dense, inverse given, deprecated', 'sparse, deprecated']
BEFORE = ['none', 'identity', 'functions', 'dense', 'dense, inverse given', 'sparse', 'hessian']


def klass(e):
    return e.cls('optimization_lib', 'PreconditionedFunction')


def behaves(e, how, before):
    e.cx.tensor = True
    fun = objfun()
    n = e.int('n', lo=1)
    p = e.call(klass(e), fun)
    e.check('the function is not called', not fun.calls)
    if before == 'none':
        s = Setter(e, 'identity', n)
        if how != 'identity':
            return
    else:
        Setter(e, before, n, tag='0').run(p)
        s = Setter(e, how, n)
        s.run(p)
    x, y = e.array('x', [n]), e.array('y', [n])
    e.remember(x, y)
    xt, yt = (lambda i: tm.app('x', (i,), 'Real')), (lambda i: tm.app('y', (i,), 'Real'))
    r = e.meth(p, 'unprecondition', x)
    e.elements('unprecondition', r, lambda idx: s.fwd(xt)(idx[0]), [n])
    r = e.meth(p, 'precondition', y)
    e.elements('precondition', r, lambda idx: s.bwd(yt)(idx[0]), [n])
    if 'functions' not in how and 'given' not in how:
        z = e.meth(p, 'precondition', e.meth(p, 'unprecondition', x))
        e.elements('preconditioning undoes unpreconditioning', z, lambda idx: xt(idx[0]), [n])
        z = e.meth(p, 'unprecondition', e.meth(p, 'precondition', y))
        e.elements('unpreconditioning undoes preconditioning', z, lambda idx: yt(idx[0]), [n])
    fun.calls.clear()
    r = e.call(p, x)
    e.check('the function is called once', len(fun.calls) == 1, str(len(fun.calls)))
    if len(fun.calls) == 1:
        e.elements('the function is evaluated at the unpreconditioned point', fun.calls[0],
                   lambda idx: s.fwd(xt)(idx[0]), [n])
    want = e.np.new(e.I, (n.t,), lambda idx: s.fwd(xt)(idx[0]), 'f')
    e.same('its value is returned', r, S(value(e.I, fun, want), 'f'))
    if 'functions' not in how:
        one = lambda j: lambda i: ite(eq(i, j), ONE, ZERO)
        r = e.meth(p, 'get_preconditioner', n)
        e.elements('get_preconditioner', r, lambda idx: s.fwd(one(idx[1]))(idx[0]), [n, n])
        r = e.meth(p, 'get_preconditioner_inv', n)
        e.elements('get_preconditioner_inv', r, lambda idx: s.bwd(one(idx[1]))(idx[0]), [n, n])
    tol = e.real('tol')
    for t in ((), (S(tol.t, 'f'),)):
        _, exc = e.attempt(e.meth, p, 'check_preconditioner', y, *t)
        lim = tol.t if t else e.term(1e-8)
        z = s.fwd(s.bwd(yt))
        err = norm_value(e.I, (n.t,), lambda idx: sub(yt(idx[0]), z(idx[0])))
        ok = le(err, lim)
        raised(e, exc, ok)
    e.unchanged()


def history(e, how):
    """what a setter leaves behind does not depend on what was set before: every attribute that any setter changes is
    replaced by every setter"""
    n = e.int('n', lo=1)
    fun = objfun()
    changed = set()
    for other in BEFORE[1:]:
        p = e.call(klass(e), fun)
        was = dict(p.attrs)
        Setter(e, other, n, tag='0').run(p)
        changed |= {k for k in set(p.attrs) | set(was) if p.attrs.get(k) is not was.get(k)}
    q = e.call(klass(e), fun)
    Setter(e, how, n, tag='1').run(q)
    for other in BEFORE[1:]:
        p = e.call(klass(e), fun)
        Setter(e, other, n, tag='0').run(p)
        was = dict(p.attrs)
        Setter(e, how, n, tag='1').run(p)
        for k in sorted(changed):
            v, w = p.attrs.get(k), q.attrs.get(k)
            simple = isinstance(v, (bool, int, float, str)) or v is None
            e.check('after %s: %s is set anew' % (other, k), (k in p.attrs) == (k in q.attrs) and
                    (k not in p.attrs or v is not was.get(k) or simple and type(v) is type(w) and v == w))


def c16(c, tier):
    c.add('initially', behaves, 'identity', 'none')
    for how in HOWS:
        for before in BEFORE[1:]:
            c.add('%s after %s' % (how, before), behaves, how, before)
        c.add('history before %s' % how, history, how)

"""Differentiable products and solvers, and the sparse Cholesky preconditioners: matrices of any size."""
from .common import *
from .grouped import lib, forward, reverse
from .numeric import raised
from pv.deps import sparse, tracing
from pv.world import opaque
from .precond import times

FORMS = {'vector': 1, 'matrix': 2}


def arg(e, name, n, form, kind='f'):
    return e.array(name, [n] if form == 'vector' else [n, e.int('k')], kind=kind)


def given(e, name, n, m, fmt):
    a = e.array(name, [n, m])
    return a, (a if fmt == 'dense' else sparse(e.I, a, fmt))


def product_at(M, x, n, tr):
    """entry idx of M x (of M^T x when tr)"""
    def f(idx):
        k = tm.scratch()
        return sum_(ZERO, n, k, mul(M.at((k, idx[0]) if tr else (idx[0], k)), x.at((k,) + tuple(idx[1:]))))
    return f


def rules_are(e, name, f, fwd, bwd, n_in, n_out, form, ans, x):
    """f has a forward rule equal to fwd and a reverse rule equal to bwd, both made of differentiable operations"""
    ext = [] if form == 'vector' else [x.shape[1]]
    g, v = e.array('g' + name, [S(n_in)] + ext), e.array('v' + name, [S(n_out)] + ext)
    with tracing(e.w):
        j = forward(e, f, 0, g, ans, (x,), {})
        t = reverse(e, f, 0, ans, (x,), {}, v)
    if j is not None:
        e.elements(name + ', forward rule: the derivative', j, fwd(g), [S(n_out)] + ext)
    if t is not None:
        e.elements(name + ', reverse rule: the adjoint of the derivative', t, bwd(v), [S(n_in)] + ext)


def products(e, fmt1, fmt2, form, kind):
    """two matrices: the functions of the first are those of the first after the second was made, and vice versa"""
    made = []
    for q, fmt in (('1', fmt1), ('2', fmt2)):
        n, m = e.int('n' + q), e.int('m' + q)
        M, z = given(e, 'Z' + q, n, m, fmt)
        e.remember(M)
        fs = e.I.unpack(e.call(lib(e, 'get_sparse_product'), z), 2)
        made.append((q, n, m, M, fs))
    for q, n, m, M, fs in made:
        for f, name, tr, a, b in ((fs[0], 'product ' + q, False, n, m), (fs[1], 'transposed product ' + q, True, m, n)):
            x = arg(e, 'x' + name, b, form, kind)
            e.remember(x)
            r = e.call(f, x)
            e.elements(name, r, product_at(M, x, b.t, tr), [a] + ([] if form == 'vector' else [x.shape[1]]))
            rules_are(e, name, f, lambda y, tr=tr, b=b, M=M: product_at(M, y, b.t, tr),
                      lambda y, tr=tr, a=a, M=M: product_at(M, y, a.t, not tr), b.t, a.t, form, r, x)
    e.unchanged()


def product_scalar(e):
    n = e.int('n')
    M = e.array('Z', [n, 1])
    fs = e.I.unpack(e.call(lib(e, 'get_sparse_product'), M), 2)
    x = e.real('x')
    r = e.call(fs[0], x)
    e.elements('a number times a matrix of one column', r, lambda idx: mul(M.at((idx[0], ZERO)), x.t), [n])


def product_refused(e, fmt, extra):
    n, m = e.int('n'), e.int('m')
    _, z = given(e, 'Z', n, m, fmt)
    fs = e.I.unpack(e.call(lib(e, 'get_sparse_product'), z), 2)
    d = [e.int('k')] + ([e.block('B')] if extra == 'any rank' else [e.int('l')])
    if extra == 'any rank':
        d.append(e.int('l'))
    e.raises('more than two dimensions', ValueError, e.call, fs[0], e.array('x', [m] + d))
    e.raises('more than two dimensions, transposed', ValueError, e.call, fs[1], e.array('y', [n] + d))


def not_a_matrix(e, how):
    d = {'vector': [e.int('n')], 'three dimensions': [e.int('n'), e.int('m'), e.int('k')],
         'any rank': [e.int('n'), e.int('m'), e.int('k'), e.block('B')], 'number': []}[how]
    e.raises('not a two-dimensional matrix', ValueError, e.call, lib(e, 'get_sparse_product'), e.array('Z', d))


@opaque('solver', 'call')
def solver_call(I, o, args, kw):
    """an unknown function, called with one array; the result has the shape of the argument"""
    if len(args) != 1 or kw or not isinstance(args[0], Arr) or len(args[0].shape) > 2:
        raise Unsupported('solver of %r' % (args,))
    if I.world.tracing:
        I.raise_(TypeError, 'a given solver was applied to a value that is being differentiated')
    x = args[0]
    return I.world.np.new(I, x.shape, solver_at(o.name, x), 'f')


def solver_at(name, x):
    s = x.snap()

    def f(idx):
        ks = [tm.scratch() for _ in x.shape]
        t = s(tuple(ks))
        for k, d in reversed(list(zip(ks, x.shape))):
            t = tm.lam_(dsize(d), k, t)
        return tm.app('SOLVER%d_%s' % (len(ks), name), (t,) + tuple(idx), 'Real')
    return f


def solvers(e, form):
    made = []
    for q in '12':
        f, g = Opaque('solver', name='F' + q), Opaque('solver', name='G' + q)
        fs = e.I.unpack(e.call(lib(e, 'get_differentiable_solver'), f, g), 2)
        made.append((q, fs))
    for q, fs in made:
        n = e.int('n' + q)
        for f, name, own, other in ((fs[0], 'solver ' + q, 'F' + q, 'G' + q),
                                    (fs[1], 'transposed solver ' + q, 'G' + q, 'F' + q)):
            x = arg(e, 'x' + name, n, form)
            e.remember(x)
            r = e.call(f, x)
            e.elements(name, r, solver_at(own, x), [n] + ([] if form == 'vector' else [x.shape[1]]))
            # the solver is linear and the given pair are each other's transposes
            rules_are(e, name, f, lambda y, own=own: solver_at(own, y), lambda y, other=other: solver_at(other, y),
                      n.t, n.t, form, r, x)
    e.unchanged()


def c20(c, tier):
    for form in FORMS:
        for f1, f2 in (('dense', 'dense'), ('csc', 'csr'), ('coo', 'dense')):
            for kind in ('f', 'i'):
                c.add('products with %s and %s matrices, %s of kind %s' % (f1, f2, form, kind), products, f1, f2, form, kind)
        c.add('solvers, ' + form, solvers, form)
    c.add('product with a number', product_scalar)
    for fmt in ('dense', 'csc'):
        for extra in ('three dimensions', 'any rank'):
            c.add('a %s product refuses, %s' % (fmt, extra), product_refused, fmt, extra)
    for how in ('number', 'vector', 'three dimensions', 'any rank'):
        c.add('not a matrix: ' + how, not_a_matrix, how)


# ---------------------------------------------------------------- C23
def spl(e, name):
    return e.attr(e.mod('sparse_preconditioners_lib'), name)


def pd_matrix(e, n, fmt):
    h = e.array('h', [n, n])
    H = e.I.binop('+', h, e.attr(h, 'T'))
    return H, sparse(e.I, H, fmt)


def roots(e, fmt):
    e.cx.tensor = True
    n = e.int('n', lo=1)
    H, hs = pd_matrix(e, n, fmt)
    e.remember(H)
    S_, Si = e.I.unpack(e.call(spl(e, 'get_sym_matrix_inv_sqrt_funcs'), hs), 2)
    N = n.t
    x = e.array('x', [n])
    e.remember(x)
    y = e.call(S_, x)
    if not e.is_arr('the square root', y, [n]):
        return
    # the entry (i, j) of the square root is the i-th entry of what it does to the j-th unit vector
    def col(f, j):
        unit = e.np.new(e.I, (N,), lambda idx: ite(eq(idx[0], j), ONE, ZERO), 'f')
        return e.call(f, unit)

    def linear(name, f, r):
        def spec(idx):
            j = tm.scratch()
            with e.cx.scope([le(ZERO, j), lt(j, N)]):
                c = col(f, j).at((idx[0],))
            return sum_(ZERO, N, j, mul(c, x.at((j,))))
        e.elements(name + ' is linear', r, spec, [n])
    linear('the square root', S_, y)
    z = e.call(Si, x)
    if not e.is_arr('the inverse', z, [n]):
        return
    linear('the inverse', Si, z)
    e.elements('the inverse undoes the square root', e.call(Si, y), lambda idx: x.at(idx), [n])
    e.elements('the square root undoes the inverse', e.call(S_, z), lambda idx: x.at(idx), [n])
    # S^T S = H
    i, j = tm.fresh('i', 'Int'), tm.fresh('j', 'Int')
    with e.cx.scope([le(ZERO, i), lt(i, N), le(ZERO, j), lt(j, N)]):
        ci, cj = col(S_, i), col(S_, j)
        k = tm.scratch()
        with e.cx.scope([le(ZERO, k), lt(k, N)]):
            t = mul(ci.at((k,)), cj.at((k,)))
        e.same('the square root squared is the matrix', sum_(ZERO, N, k, t), H.at((i, j)))
        # the sandwich  inv(S)^T H inv(S),  H = S^T S by the obligation above
        di, dj = col(Si, i), col(Si, j)
        p, q = tm.scratch(), tm.scratch()
        with e.cx.scope([le(ZERO, p), lt(p, N), le(ZERO, q), lt(q, N)]):
            cp, cq = col(S_, p), col(S_, q)
            with e.cx.scope([le(ZERO, k), lt(k, N)]):
                hk = mul(cp.at((k,)), cq.at((k,)))
            t = mul(di.at((p,)), sum_(ZERO, N, k, hk), dj.at((q,)))
        e.same('preconditioning turns the matrix into the identity', sum_(ZERO, N, p, sum_(ZERO, N, q, t)),
               ite(eq(i, j), ONE, ZERO))
    # derivative rules: the maps are linear, so the derivative is the map itself and the adjoint its transpose
    for name, f, ans in (('square root', S_, y), ('inverse', Si, z)):
        g, v = e.array('g' + name, [n]), e.array('v' + name, [n])
        with tracing(e.w):
            jv = forward(e, f, 0, g, ans, (x,), {})
            t = reverse(e, f, 0, ans, (x,), {}, v)
        if jv is not None:
            want = e.call(f, g)
            e.elements(name + ', forward rule: the derivative', jv, lambda idx: want.at(idx), [n])
        if t is not None:
            def adj(idx):
                c = col(f, idx[0])
                k = tm.scratch()
                with e.cx.scope([le(ZERO, k), lt(k, N)]):
                    b = mul(c.at((k,)), v.at((k,)))
                return sum_(ZERO, N, k, b)
            e.elements(name + ', reverse rule: the adjoint', t, adj, [n])
    e.unchanged()


def dense_refused(e, how):
    n = e.int('n', lo=1)
    H, hs = pd_matrix(e, n, 'csc')
    e.raises('a dense matrix', ValueError, e.call, spl(e, 'get_sym_matrix_inv_sqrt_funcs'),
             H if how == 'array' else e.call(e.attr(hs, 'todense')))


def c23(c, tier):
    for fmt in ('csc', 'csr', 'coo'):
        c.add('square root of a %s matrix' % fmt, roots, fmt)
    for how in ('array', 'matrix'):
        c.add('a dense %s' % how, dense_refused, how)

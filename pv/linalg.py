"""Contracts of numpy.linalg on matrices of any size (and stacks of them).

inv(A) is named INV(A): the tensor algebra (pv/tensor.py) knows that it cancels against A on both sides.
solve(A, b) = inv(A) b.  slogdet(A) = SIGNDET(A), LOGDET(A).  eigh(A), for a symmetric A, = EIGVAL(A), EIGVEC(A):
orthonormal eigenvectors with sum_k V(i,k) e(k) V(j,k) = A(i,j)."""
from . import terms as tm
from .terms import *
from .values import *

from .npfun import fun
from .npfun2 import two, stacked
from .deps import ext, sparse, dense2
from .world import opaque

KEEP = []


def matrix(I, n, at):
    """(the matrix as a term, whether it is written transposed): a matrix and its transpose share one name"""
    i, j = tm.scratch(), tm.scratch()
    with I.cx.scope([le(ZERO, i), lt(i, n), le(ZERO, j), lt(j, n)]):
        t, tt = at(i, j), at(j, i)
    l = tm.lam_(n, i, tm.lam_(n, j, t))
    r = tm.lam_(n, i, tm.lam_(n, j, tt))
    KEEP.extend((l, r))
    return (l, False) if l.id <= r.id else (r, True)


def inverse_entry(I, n, at, i, j):
    l, tr = matrix(I, n, at)
    u, v = tm.scratch(), tm.scratch()
    from .tensor import entry
    c, b = entry(l, u, v)
    if b is not None and b.val == 'INV' and set(b.args[1:]) == {u, v}:
        # the inverse of an inverse
        p, q = (j, i) if tr else (i, j)
        if b.args[1] is v:
            p, q = q, p
        return mul(num(1 / c), tm.open_elt(b.args[0], p, q))
    return app('INV', (l, j, i) if tr else (l, i, j), 'Real')


def square(self, I, a, what):
    a = stacked(self, I, a)
    if a.ndim > 1 and isinstance(a.shape[-2], Block):
        raise Unsupported('unknown shape')
    if a.ndim < 2:
        I.raise_(I.world.ext_attr(I, I.world.external('numpy.linalg'), 'LinAlgError'), 'at least two-dimensional')
    if not self.same_dim(I, a.shape[-1], a.shape[-2]):
        I.raise_(I.world.ext_attr(I, I.world.external('numpy.linalg'), 'LinAlgError'), 'must be square')
    return a, a.shape[-1]


@fun('linalg.inv', params=['a'])
def f_inv(self, I, a):
    a, n = square(self, I, a, 'inv')
    s = a.snap()
    return self.new(I, a.shape, lambda idx: inverse_entry(I, n, lambda i, j: s(idx[:-2] + (i, j)), *idx[-2:]), 'f')


@fun('linalg.solve', params=['a', 'b'])
def f_solve(self, I, a, b):
    a, n = square(self, I, a, 'solve')
    b = stacked(self, I, b)
    vec = I.cx.decide(eq(self.ndim(I, b), sub(self.ndim(I, a), ONE)))
    if not vec and b.ndim > 1 and isinstance(b.shape[-2], Block):
        raise Unsupported('solve with a right-hand side of unknown shape')
    if not vec and b.ndim < 2:
        I.raise_(ValueError, 'solve: not enough dimensions')
    if not self.same_dim(I, n, b.shape[-1] if vec else b.shape[-2]):
        I.raise_(ValueError, 'solve: mismatch in its core dimension')
    sa, sb = a.snap(), b.snap()
    lb = b.shape[:-1] if vec else b.shape[:-2]
    lead, ma, mb = self.broadcast(I, a.shape[:-2], lb)
    nl = len(lead)
    shape = tuple(lead) + ((n,) if vec else (n, b.shape[-1]))

    def content(idx):
        la, lb = tuple(ma(idx[:nl])), tuple(mb(idx[:nl]))
        k = tm.scratch()
        with I.cx.scope(self.ranges(shape, idx) + [le(ZERO, k), lt(k, n)]):
            body = mul(inverse_entry(I, n, lambda i, j: sa(la + (i, j)), idx[nl], k), sb(lb + (k,) + tuple(idx[nl + 1:])))
        return sum_(ZERO, n, k, body)
    return self.new(I, shape, content, 'f')


@fun('linalg.slogdet', params=['a'])
def f_slogdet(self, I, a):
    a, n = square(self, I, a, 'slogdet')
    s = a.snap()

    def part(what):
        def content(idx):
            return app(what, (matrix(I, n, lambda i, j: s(tuple(idx) + (i, j)))[0],), 'Real')
        r = self.new(I, a.shape[:-2], content, 'f')
        return r if a.ndim > 2 else self.scalarize(I, r)
    return (part('SIGNDET'), part('LOGDET'))


@fun('linalg.eigh', params=['a', ('UPLO', 'L')])
def f_eigh(self, I, a, UPLO):
    a, n = square(self, I, a, 'eigh')
    if a.ndim != 2:
        raise Unsupported('eigh of a stack')
    s = a.snap()
    # only one triangle is read: the contract is that of a symmetric matrix
    i, j = tm.fresh('i', 'Int'), tm.fresh('j', 'Int')
    with I.cx.scope(self.ranges((n, n), (i, j))):
        sym = I.cx.prove(eq(s((i, j)), s((j, i))))
    if not sym:
        raise Unsupported('eigh of a matrix that is not known to be symmetric')
    l, _ = matrix(I, n, lambda i, j: s((i, j)))
    ev = self.new(I, (n,), lambda idx: app('EIGVAL', (l, idx[0]), 'Real'), 'f')
    V = self.new(I, (n, n), lambda idx: app('EIGVEC', (l, idx[0], idx[1]), 'Real'), 'f')
    return (ev, V)


@fun('linalg.norm', params=['x', ('ord', None), ('axis', None), ('keepdims', False)])
def f_norm(self, I, x, ord, axis, keepdims):
    if ord is not None or axis is not None or keepdims is not False:
        raise Unsupported('norm with these arguments')
    a = self.asarr(I, x)
    return S(norm_value(I, a.shape, a.snap()), 'f', True)


def norm_value(I, shape, at):
    """the Euclidean norm: one name for provably equal contents"""
    from .objfun import same_contents
    if same_contents(I, shape, at, shape, lambda idx: ZERO):
        return num(0, 'Real')
    for i, (sh, c) in enumerate(I.cx.norms):
        if same_contents(I, sh, c, shape, at):
            break
    else:
        i = len(I.cx.norms)
        I.cx.norms.append((tuple(shape), at))
    t = app('NORM', (num(i),), 'Real')
    I.cx.assume(le(ZERO, t))
    return t


@fun('einsum')
def f_einsum(self, I, sub_, *ops):
    if not isinstance(sub_, str) or not ops:
        raise Unsupported('einsum in this form')
    spec = sub_.replace(' ', '')
    lhs, arrow, rhs = spec.partition('->')
    ins = lhs.split(',')
    arrs = [stacked(self, I, o) for o in ops]
    if len(ins) != len(arrs):
        I.raise_(ValueError, 'einsum: number of operands')
    letters = [list(p.replace('...', '')) for p in ins]
    lead = []
    for p, l, a in zip(ins, letters, arrs):
        m = a.ndim - len(l)
        if m < 0 or m > 0 and '...' not in p:
            I.raise_(ValueError, 'einsum: number of subscripts')
        if m and not p.startswith('...'):
            raise Unsupported('einsum with dots in this place')
        lead.append(m)
    if not arrow:
        flat = [c for l in letters for c in l]
        rhs = ('...' if any(lead) else '') + ''.join(sorted(c for c in set(flat) if flat.count(c) == 1))
    out = list(rhs.replace('...', ''))
    if '...' in rhs and not rhs.startswith('...') or any(lead) and '...' not in rhs:
        raise Unsupported('einsum with dots in this place')
    dim = {}
    for l, a, m in zip(letters, arrs, lead):
        if any(isinstance(d, Block) for d in a.shape[m:]):
            raise Unsupported('einsum of an unknown shape')
        for c, d in zip(l, a.shape[m:]):
            if c in dim and not self.same_dim(I, dim[c], d):
                I.raise_(ValueError, 'einsum: dimensions do not match')
            dim.setdefault(c, d)
    shape, maps = (), []
    for a, m in zip(arrs, lead):
        shape, m1, m2 = self.broadcast(I, shape, a.shape[:m])
        maps = [(lambda idx, f=f, m1=m1: f(m1(idx))) for f in maps] + [m2]
    nl = len(shape)
    full = tuple(shape) + tuple(dim[c] for c in out)
    snaps = [a.snap() for a in arrs]
    inner = [c for c in dim if c not in out]

    def content(idx):
        at = dict(zip(out, idx[nl:]))
        ks = {c: tm.scratch() for c in inner}
        at.update(ks)
        rng = [f for c in inner for f in (le(ZERO, ks[c]), lt(ks[c], dim[c]))]
        with I.cx.scope(self.ranges(full, idx) + rng):
            t = mul(*[s(tuple(f(idx[:nl])) + tuple(at[c] for c in l)) for s, f, l in zip(snaps, maps, letters)])
        for c in reversed(inner):
            t = sum_(ZERO, dim[c], ks[c], t)
        return t
    r = self.new(I, full, content, 'f')
    return self.scalarize(I, r)


# ---------------------------------------------------------------- scipy.sparse.linalg
@ext('scipy.sparse.linalg.inv')
def sparse_inv(I, a):
    if not (isinstance(a, Opaque) and a.tag == 'sparse'):
        I.raise_(TypeError, 'Input must be a sparse matrix')
    return sparse(I, I.world.np.call(I, 'linalg.inv', [a.arr], {}), a.fmt)


@ext('scipy.sparse.linalg.spsolve')
def spsolve(I, a, b, **kw):
    if isinstance(b, Opaque):
        raise Unsupported('spsolve with a sparse right-hand side')
    return I.world.np.call(I, 'linalg.solve', [dense2(I, a), b], {})


@ext('scipy.sparse.linalg.factorized')
def factorized(I, a):
    m = dense2(I, a)
    m = I.world.np.call(I, 'array', [m], {})
    def call(I2, x, k):
        if I2.world.tracing:
            I2.raise_(TypeError, 'a sparse solver was applied to a value that is being differentiated')
        return I2.world.np.call(I2, 'linalg.solve', [m] + list(x), k)
    return Bi('solve', call)


@ext('scipy.sparse.linalg.splu')
def splu(I, a, **kw):
    return Opaque('splu', m=I.world.np.call(I, 'array', [dense2(I, a)], {}))


@opaque('splu', 'getattr')
def splu_attr(I, o, name):
    np = I.world.np

    def solve(I2, x, k):
        trans = x[1] if len(x) > 1 else k.get('trans', 'N')
        m = o.m if trans == 'N' else np.transpose(I2, o.m)
        return np.call(I2, 'linalg.solve', [m, x[0]], {})
    return Bi('solve', solve) if name == 'solve' else NotImplemented


@fun('result_type')
def f_result_type(self, I, *xs):
    kinds = set()
    for x in xs:
        if isinstance(x, (Arr, S, int, float, PList, tuple)):
            kinds.add(self.asarr(I, x).kind)
        elif x in (float, int, bool):
            kinds.add({float: 'f', int: 'i', bool: 'b'}[x])
        else:
            raise Unsupported('result_type of %r' % (x,))
    return float if 'f' in kinds else int if 'i' in kinds else bool


@fun('isreal', params=['x'])
def f_isreal(self, I, x):
    a = self.asarr(I, x)
    if a.kind not in 'fib':
        raise Unsupported('isreal of a value that is not a number')
    r = self.elementwise(I, [a], lambda t: TRUE, 'b')
    return r if a.ndim else self.scalarize(I, r)


@fun('real', params=['x'])
def f_real(self, I, x):
    """of real numbers"""
    a = self.asarr(I, x)
    if a.kind not in 'fib':
        raise Unsupported('real of a value that is not a number')
    return x


# ---------------------------------------------------------------- sksparse.cholmod
def perm(l, i):
    """position of row i of the permuted matrix: (P x)(i) = x(perm(i)); unperm is its inverse"""
    return i.args[1] if i.op == 'app' and i.val == 'UNPERM' and i.args[0] is l else app('PERM', (l, i), 'Int')


def unperm(l, i):
    return i.args[1] if i.op == 'app' and i.val == 'PERM' and i.args[0] is l else app('UNPERM', (l, i), 'Int')


@ext('sksparse.cholmod.cholesky')
def cholesky_of(I, A, beta=0, mode='auto', ordering_method='default', use_long=None):
    """L and an unknown permutation P with  P (A + beta I) P^T = L L^T.  The entry (i, j) of P^T L is named
    CHOLP(A; i, j): its rows have the inner products of the rows and columns of A (pv/tensor.py)"""
    if not (isinstance(A, Opaque) and A.tag == 'sparse'):
        I.raise_(I.world.ext_attr(I, I.world.external('sksparse.cholmod'), 'CholmodError'), 'a sparse matrix is needed')
    np = I.world.np
    a, n = square(np, I, A.arr, 'cholesky')
    s = a.snap()
    b = beta if isinstance(beta, (int, float)) and beta == 0 else I.num(beta)
    i, j = tm.fresh('i', 'Int'), tm.fresh('j', 'Int')
    with I.cx.scope(np.ranges((n, n), (i, j))):
        if not I.cx.prove(eq(s((i, j)), s((j, i)))):
            raise Unsupported('cholesky of a matrix that is not known to be symmetric')
    if b != 0 and b is not ZERO:
        raise Unsupported('cholesky with beta')
    l, _ = matrix(I, n, lambda u, v: s((u, v)))
    return Opaque('cholmod', l=l, n=n)


def bijection(I, l, n, i):
    """facts about the permutation at i"""
    p, q = app('PERM', (l, i), 'Int'), app('UNPERM', (l, i), 'Int')
    I.cx.assume(and_(le(ZERO, p), lt(p, n), le(ZERO, q), lt(q, n)))


@opaque('cholmod', 'getattr')
def cholmod_attr(I, o, name):
    np = I.world.np
    l, n = o.l, o.n

    def rows(what, x):
        sp = isinstance(x, Opaque) and x.tag == 'sparse'
        a = stacked(np, I, x.arr if sp else x)
        if not a.ndim or not np.same_dim(I, a.shape[0], n):
            I.raise_(ValueError, 'dimensions do not match')
        s = a.snap()

        def content(idx):
            bijection(I, l, n, idx[0])
            return s((what(l, idx[0]),) + tuple(idx[1:]))
        r = np.new(I, a.shape, content, a.kind)
        return sparse(I, r, x.fmt) if sp else r
    if name == 'L':
        def entries(idx):
            bijection(I, l, n, idx[0])
            return app('CHOLP', (l, perm(l, idx[0]), idx[1]), 'Real')
        return Bi(name, lambda I2, x, k: sparse(I2, np.new(I2, (n, n), entries, 'f'), 'csc'))
    if name == 'P':
        def index(idx):
            bijection(I, l, n, idx[0])
            return perm(l, idx[0])
        return Bi(name, lambda I2, x, k: np.new(I2, (n,), index, 'i'))
    if name == 'apply_P':
        return Bi(name, lambda I2, x, k: rows(perm, x[0]))
    if name == 'apply_Pt':
        return Bi(name, lambda I2, x, k: rows(unperm, x[0]))
    raise Unsupported('cholmod factor: ' + name)

"""Forward-mode derivative rules registered on import: matrices of any size, stacked or not, and special functions."""
from .common import *
from .grouped import rules
from .numeric import raised
from pv.special import special
from pv.linalg import inverse_entry

LEADS = {'single': [], 'stacked': ['K'], 'stacked twice': ['K', 'L'], 'stacked to any rank': None}


def lead(e, how):
    return [e.block('B')] if LEADS[how] is None else [e.int(q) for q in LEADS[how]]


def fn(e, module, name):
    e.mod('autograd_supplement_lib')        # the rules are registered on import
    return e.w.ext_attr(e.I, e.w.external(module), name)


def rule(e, f, i):
    r = rules(e, f, 'forward').get(i, 'none')
    if r == 'none':
        e.fail('a forward rule for argument %d is registered' % i)
    return r


def apply_rule(e, f, i, g, args):
    """(value of f, derivative in direction g of its argument i), None when there is no rule"""
    ans = e.call(f, *args)
    r = rule(e, f, i)
    if r == 'none':
        return ans, None
    if r is None:
        return ans, 0
    if r == 'same':
        args = list(args)
        args[i] = g
        return ans, e.call(f, *args)
    return ans, e.call(r, g, ans, *args)


def contract(n, f):
    k = tm.scratch()
    return sum_(ZERO, n, k, f(k))


def inverse(e, how):
    e.cx.tensor = True
    d, n = lead(e, how), e.int('n')
    x, g = e.array('x', d + [n, n]), e.array('g', d + [n, n])
    e.remember(x, g)
    ans, j = apply_rule(e, fn(e, 'autograd.numpy.linalg', 'inv'), 0, g, (x,))
    if j is None or not e.is_arr('derivative of the inverse', j, d + [n, n]):
        return
    N = n.t
    # (A + tG)(X + tJ) = I to first order
    check(e, 'A J + G X = 0', d + [n, n], lambda h, p, q: add(
        contract(N, lambda k: mul(x.at(h + (p, k)), j.at(h + (k, q)))),
        contract(N, lambda k: mul(g.at(h + (p, k)), ans.at(h + (k, q))))))
    e.unchanged()


def check(e, name, dims, f):
    sh = [e.dim(x) for x in dims]
    idx = []
    rng = []
    for q in sh:
        i = tm.fresh('i', 'Int')
        idx.append(i)
        rng += [le(ZERO, i), lt(i, dsize(q))]
    with e.cx.scope(rng):
        e.same(name, f(tuple(idx[:-2]), *idx[-2:]), ZERO)


def solve(e, how, rhs, argnum):
    """rhs: vector, matrix (same stacking); 'many' = right-hand sides stacked over a single or less stacked matrix"""
    e.cx.tensor = True
    d, n = lead(e, how), e.int('n')
    vec = rhs == 'vector'
    tail = [n] if vec else [n, e.int('k')]
    bd = ([e.int('R')] if rhs == 'more' else [e.block('C')] if rhs == 'any' else []) + d + tail
    a, b = e.array('a', d + [n, n]), e.array('b', bd)
    args = (a, b)
    g = e.array('g', (d + [n, n]) if argnum == 0 else bd)
    e.remember(a, b, g)
    ans, j = apply_rule(e, fn(e, 'autograd.numpy.linalg', 'solve'), argnum, g, args)
    if j is None or not e.is_arr('derivative of the solution', j, bd):
        return
    N, nd = n.t, len(d)
    sh = [e.dim(x) for x in bd]
    ts = [tm.fresh('i', 'Int') for _ in sh]
    rng = [z for q, i in zip(sh, ts) for z in (le(ZERO, i), lt(i, dsize(q)))]
    nl = len(bd) - len(tail)
    h, p, t = tuple(ts[:nl]), ts[nl], tuple(ts[nl + 1:])
    ha = h[nl - nd:]
    with e.cx.scope(rng):
        lhs = contract(N, lambda k: mul(a.at(ha + (p, k)), j.at(h + (k,) + t)))
        if argnum == 0:
            # (A + tG)(X + tJ) = B
            e.same('A J + G X = 0', add(lhs, contract(N, lambda k: mul(g.at(ha + (p, k)), ans.at(h + (k,) + t)))), ZERO)
        else:
            e.same('A J = G', lhs, g.at(h + (p,) + t))
    e.unchanged()


def logdet(e, how):
    e.cx.tensor = True
    d, n = lead(e, how), e.int('n')
    x, g = e.array('x', d + [n, n]), e.array('g', d + [n, n])
    e.remember(x, g)
    res, exc = e.attempt(apply_rule, e, fn(e, 'autograd.numpy.linalg', 'slogdet'), 0, g, (x,))
    if exc is not None:
        # documented limit of the rule for stacked matrices
        e.check('only stacked matrices are refused', bool(d) and issubclass(exc.cls, ValueError)
                if isinstance(exc.cls, type) else False)
        return
    ans, j = res
    if j is None:
        return
    s, l = e.I.unpack(j, 2)
    sh = [e.dim(q) for q in d]
    ts = tuple(tm.fresh('i', 'Int') for _ in sh)
    rng = [z for q, i in zip(sh, ts) for z in (le(ZERO, i), lt(i, dsize(q)))]
    with e.cx.scope(rng):
        at = lambda v: v.at(ts) if isinstance(v, Arr) else e.term(v)
        e.same('the sign is locally constant', at(s), ZERO)
        # Jacobi: the derivative of log det is tr(inv(A) G)
        want = contract(n.t, lambda p: contract(n.t, lambda q: mul(
            inverse_entry(e.I, n.t, lambda u, v: x.at(ts + (u, v)), p, q), g.at(ts + (q, p)))))
        e.same('the derivative of the log determinant', at(l), want)
    e.unchanged()


def deriv(name, x, n=None):
    s = special
    if name in ('psi', 'digamma'):
        return s('polygamma', ONE, x)
    if name == 'gamma':
        return mul(s('gamma', x), s('psi', x))
    if name == 'gammaln':
        return s('psi', x)
    if name == 'rgamma':
        return neg(mul(s('rgamma', x), s('psi', x)))
    if name == 'polygamma':
        return s('polygamma', add(n, ONE), x)
    if name == 'gammasgn':
        return ZERO


def specials(e, name, shape):
    d = {'number': None, 'vector': ['n'], 'matrix': ['n', 'm'], 'any shape': 'block'}[shape]
    dims = [e.block('B')] if d == 'block' else [e.int(q) for q in d or []]
    x = e.real('x') if d is None else e.array('x', dims)
    g = e.real('g') if d is None else e.array('g', dims)
    at = lambda v, idx: v.at(idx) if isinstance(v, Arr) else e.term(v)
    f = fn(e, 'autograd.scipy.special', name)
    if name == 'polygamma':
        for what in ('number', 'array'):
            k = e.int('k') if what == 'number' or d is None else e.array('k', dims, kind='i')
            one(e, name + ', order a ' + what, f, 1, g, (k, x), dims, d,
                lambda idx, k=k: mul(at(g, idx), deriv(name, at(x, idx), at(k, idx))))
    else:
        one(e, name, f, 0, g, (x,), dims, d, lambda idx: mul(at(g, idx), deriv(name, at(x, idx))))


def one(e, name, f, i, g, args, dims, d, spec):
    e.remember(*[v for v in args + (g,) if isinstance(v, Arr)])
    ans, j = apply_rule(e, f, i, g, args)
    if j is None:
        return
    if isinstance(j, int) and j == 0:
        # no rule: the derivative is zero
        ts = tuple(tm.fresh('i', 'Int') for _ in dims)
        e.same(name + ': the derivative', ZERO, spec(ts))
    elif d is None:
        e.same(name + ': the derivative', e.term(j), spec(()))
    else:
        e.elements(name + ': the derivative', j, spec, dims)
    e.unchanged()


def c21(c, tier):
    for how in LEADS:
        c.add('inverse, ' + how, inverse, how)
        for rhs in ('vector', 'matrix', 'more', 'any'):
            for i in (0, 1):
                c.add('solve, %s matrices, right-hand side %s, argument %d' % (how, rhs, i), solve, how, rhs, i)
        c.add('log determinant, ' + how, logdet, how)
    for name in ('psi', 'digamma', 'gamma', 'gammaln', 'rgamma', 'gammasgn', 'polygamma'):
        for shape in ('number', 'vector', 'matrix', 'any shape'):
            c.add('%s, %s' % (name, shape), specials, name, shape)

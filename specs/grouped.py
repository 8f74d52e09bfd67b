"""Grouped sums and replacement, and the derivative rules registered for them: arrays of any size."""
from .common import *
from .numeric import raised

TAILS = {'vectors': [], 'matrices': ['D1'], 'three dimensions': ['D1', 'D2'], 'any rank': None}


def lib(e, name):
    return e.attr(e.mod('autograd_supplement_lib'), name)


def tail(e, how):
    return [e.block('B')] if TAILS[how] is None else [e.int(q) for q in TAILS[how]]


def rules(e, f, kind):
    from pv.deps import rule_key
    return (e.w.jvps if kind == 'forward' else e.w.vjps).get(rule_key(f), {})


def forward(e, f, i, g, ans, args, kw):
    r = rules(e, f, 'forward').get(i)
    if r is None:
        e.fail('a forward rule for argument %d is registered' % i)
        return None
    if r == 'same':
        args = list(args)
        args[i] = g
        return e.I.call(f, args, dict(kw))
    return e.I.call(r, [g, ans] + list(args), dict(kw))


def reverse(e, f, i, ans, args, kw, v):
    r = rules(e, f, 'reverse').get(i)
    if r is None:
        e.fail('a reverse rule for argument %d is registered' % i)
        return None
    return e.I.call(e.I.call(r, [ans] + list(args), dict(kw)), [v], {})


def groups_of(e, n, kind):
    """(argument, group of observation i)"""
    a = e.array('grp', [n], kind='i')
    if kind == 'float':
        b = e.np.new(e.I, a.shape, lambda idx: tm.app('grp', tuple(idx), 'Int'), 'f')
        return b, lambda i: tm.app('grp', (i,), 'Int')
    return a, lambda i: tm.app('grp', (i,), 'Int')


def in_range(n, g, G):
    k = tm.scratch()
    return tm.all_(ZERO, n, k, and_(le(ZERO, g(k)), TRUE if G is None else lt(g(k), G)))


def summed(e, how, given, gkind, xkind):
    n, d = e.int('N'), tail(e, how)
    x = e.array('x', [n] + d, kind=xkind)
    garg, g = groups_of(e, n, gkind)
    G = e.int('G') if given else None
    e.remember(x, garg)
    e.assume(in_range(n.t, g, None if G is None else G.t))
    kw = {} if G is None else {'num_groups': G}
    f = lib(e, 'grouped_sum')
    r = e.call(f, x, garg, **kw)
    if G is None:
        # one plus the largest group
        q = r.shape[0]
        k = tm.scratch()
        e.check('as many groups as needed', and_(tm.all_(ZERO, n.t, k, lt(g(k), q)), or_(
            eq(q, ZERO), tm.ex_(ZERO, n.t, k, eq(add(g(k), ONE), q)))))
        nG = q
    else:
        nG = G.t

    def spec(at):
        def s(idx):
            k = tm.scratch()
            return sum_(ZERO, n.t, k, ite(eq(g(k), idx[0]), at((k,) + tuple(idx[1:])), ZERO))
        return s
    e.elements('the sum of the entries of each group', r, spec(lambda idx: x.at(idx)), [S(nG)] + d)
    e.fresh_storage('a new array', r, x)
    v = e.array('v', [n] + d)
    j = forward(e, f, 0, v, r, (x, garg), kw)
    if j is not None:
        e.elements('forward rule: the derivative in a direction', j, spec(lambda idx: v.at(idx)), [S(nG)] + d)
    w = e.array('w', [S(nG)] + d)
    t = reverse(e, f, 0, r, (x, garg), kw, w)
    if t is not None:
        def adjoint(idx):
            e.cx.assume(and_(le(ZERO, g(idx[0])), lt(g(idx[0]), nG)))
            return w.at((g(idx[0]),) + tuple(idx[1:]))
        e.elements('reverse rule: the adjoint of the derivative', t, adjoint, [n] + d)
    e.unchanged()


def refused(e, how, given):
    n, m, d = e.int('N'), e.int('M'), tail(e, how)
    x = e.array('x', [m] + d)
    garg, g = groups_of(e, n, 'int')
    G = e.int('G') if given else None
    _, exc = e.attempt(e.call, lib(e, 'grouped_sum'), x, garg, **({} if G is None else {'num_groups': G}))
    raised(e, exc, and_(eq(m.t, n.t), in_range(n.t, g, None if G is None else G.t)))


def refused_rank(e):
    n, m = e.int('N'), e.int('M')
    x = e.array('x', [n])
    e.raises('groups that are not a vector', ValueError, e.call, lib(e, 'grouped_sum'), x,
             e.array('grp2', [n, m], kind='i'))


def replaced(e, how, xkind):
    n, k, d = e.int('n'), e.int('k'), tail(e, how)
    x, s = e.array('x', [n] + d, kind=xkind), e.array('s', [k] + d)
    inds = e.array('inds', [k], kind='i')
    at = lambda i: tm.app('inds', (i,), 'Int')
    p, q = tm.scratch(), tm.scratch()
    e.assume(tm.all_(ZERO, k.t, p, and_(le(ZERO, at(p)), lt(at(p), n.t))))
    e.assume(tm.all_(ZERO, k.t, p, tm.all_(ZERO, k.t, q, or_(eq(p, q), ne(at(p), at(q))))))
    e.remember(x, s, inds)
    f = lib(e, 'replace')
    r = e.call(f, s, x, inds)
    check_replaced(e, '', r, s, lambda idx: x.at(idx), n, k, d, at)
    e.fresh_storage('a new array', r, x)
    e.check('the result can hold any number', isinstance(r, Arr) and r.kind == 'f')
    g = e.array('g', [k] + d)
    j = forward(e, f, 0, g, r, (s, x, inds), {})
    if j is not None:
        check_replaced(e, 'forward rule, replacement: ', j, g, lambda idx: ZERO, n, k, d, at)
    h = e.array('h', [n] + d)
    j = forward(e, f, 1, h, r, (s, x, inds), {})
    if j is not None:
        check_replaced(e, 'forward rule, original: ', j, None, lambda idx: h.at(idx), n, k, d, at)
    w = e.array('w', [n] + d)
    t = reverse(e, f, 0, r, (s, x, inds), {}, w)
    if t is not None:
        e.elements('reverse rule, replacement: the adjoint', t, lambda idx: w.at((at(idx[0]),) + tuple(idx[1:])), [k] + d)
    t = reverse(e, f, 1, r, (s, x, inds), {}, w)
    if t is not None:
        check_replaced(e, 'reverse rule, original: ', t, None, lambda idx: w.at(idx), n, k, d, at)
    e.unchanged()


def check_replaced(e, name, r, s, other, n, k, d, at):
    if not e.is_arr(name + 'result', r, [n] + d):
        return
    ts = tuple(tm.fresh('i', 'Int') for _ in r.shape[1:])
    rng = [f for q, i in zip(r.shape[1:], ts) for f in (le(ZERO, i), lt(i, dsize(q)))]
    j = tm.fresh('j', 'Int')
    with e.cx.scope(rng + [le(ZERO, j), lt(j, k.t), le(ZERO, at(j)), lt(at(j), n.t)]):
        e.same(name + 'the entries at the indices', r.at((at(j),) + ts), ZERO if s is None else s.at((j,) + ts))
    i, q = tm.fresh('i', 'Int'), tm.scratch()
    with e.cx.scope(rng + [le(ZERO, i), lt(i, n.t), tm.all_(ZERO, k.t, q, ne(at(q), i))]):
        e.same(name + 'the entries elsewhere', r.at((i,) + ts), other((i,) + ts))


def c19(c, tier):
    for how in TAILS:
        for given in (True, False):
            for gk in ('int', 'float'):
                for xk in ('f', 'i'):
                    c.add('grouped sum, %s, %s groups of kind %s, values of kind %s' % (
                        how, 'given' if given else 'inferred', gk, xk), summed, how, given, gk, xk)
            c.add('grouped sum refuses, %s, %s groups' % (how, 'given' if given else 'inferred'), refused, how, given)
        for xk in ('f', 'i'):
            c.add('replacement, %s, values of kind %s' % (how, xk), replaced, how, xk)
    c.add('groups that are not a vector', refused_rank)

"""PatternArray of any shape with at least one element, of any base pattern whose folded values are arrays of any
shape (the base is known by the contract of Pattern only)."""
from .common import *
from .numeric import raised, report, state, same_state, dense_of, dd, pick
from .simplex import lin
from pv.sympat import pat

SHP = ('block', 'vec', 'mat', 'none')
P = tm.var('base', 'U:Pat')


def build(e, shape, fd=None):
    """(pattern, array dims, block of the base's folded shape)"""
    d = dims(e, shape, 'a')
    b = e.block('F')
    A = e.call(e.cls('pattern_containers', 'PatternArray'), e.shape_of(d), pat(P, b), free_default=fd)
    return A, d, b


def FL(free):
    return tm.app('FL', (P, tm.boolc(free)), 'Int')


def count(e, d):
    return size_of(e, d)


def flen(e, d, free):
    return mul(count(e, d), FL(free))


def item(name, idx, b, sort='Real'):
    """the term of the element at idx of the array called name"""
    q = tm.scratch()
    return tm.lam_(b.size, q, tm.app(name, tuple(idx) + (q,), sort))


def each_item(e, d, body):
    return e.forall_idx(dd(e, d), body)


def value(e, name, d, b, ok=True, kind='f'):
    D = dd(e, list(d) + [b])
    x = e.array(name, D, kind=kind)
    sort = {'f': 'Real', 'b': 'Bool'}[kind]
    if ok:
        e.assume(each_item(e, d, lambda idx: and_(*[valid(item(name, idx, b, sort), c) for c in (TRUE, FALSE)])))
    return x


def valid(v, c):
    return tm.app('VALID', (P, v, c), 'Bool')


def each(c, fn, name='', shapes=SHP, frees=(False, True), extra=((),)):
    for free in frees:
        for sh in shapes:
            for x in extra:
                c.add('array %s free=%s %s%s' % (sh, free, name, x if x != () else ''), fn, sh, free, *x)


def kwv(vv):
    return {} if vv is None else {'validate_value': vv}


def at_item(e, d, names='s'):
    """fresh indices of an element, with their range"""
    D = dd(e, d)
    idx = tuple(tm.fresh(names, 'Int') for _ in D)
    return idx, [f for q, i in zip(D, idx) for f in (le(ZERO, i), lt(i, dsize(q)))]


def rt(e, sh, free, vv):
    A, d, b = build(e, sh)
    x = value(e, 'x', d, b)
    v = e.meth(A, 'flatten', x, free=free, **kwv(vv))
    y = e.meth(A, 'fold', v, free=free, **kwv(vv))
    e.elements('fold(flatten(x)) == x', y, lambda i: x.at(i), dims=dd(e, list(d) + [b]))


def c01(c, tier):
    each(c, rt, extra=((None,), (True,), (False,)))


def back(e, sh, free):
    A, d, b = build(e, sh)
    n = flen(e, d, free)
    v = e.array('v', [n])
    y, exc = e.attempt(e.meth, A, 'fold', v, free=free)
    if exc is not None:
        e.check('folding fails only in non-free mode', not free)
        return
    w = e.meth(A, 'flatten', y, free=free)
    e.elements('flatten(fold(v)) == v', w, lambda i: v.at(i), dims=[n])


def c02(c, tier):
    each(c, back)


def in_set(e, name, y, d, b):
    if not e.is_arr(name + ' has the folded shape', y, list(d) + [b]):
        return
    idx, rng = at_item(e, d)
    with e.cx.scope(rng):
        q = tm.scratch()
        with e.cx.scope([le(ZERO, q), lt(q, b.size)]):
            t = y.at(idx + (q,))
        e.check(name + ': every element is valid', valid(tm.lam_(b.size, q, t), TRUE))


def fold_valid(e, sh, free):
    A, d, b = build(e, sh)
    v = e.array('v', [flen(e, d, True)])
    in_set(e, 'fold', e.meth(A, 'fold', v, free=True), d, b)
    in_set(e, 'random', e.meth(A, 'random'), d, b)
    in_set(e, 'empty', e.meth(A, 'empty', True), d, b)
    e.is_arr('empty(valid=False) has the folded shape', e.meth(A, 'empty', False), list(d) + [b])


def c03(c, tier):
    each(c, fold_valid, frees=(True,))


def lengths(e, sh, free):
    A, d, b = build(e, sh)
    n = flen(e, d, free)
    e.same_int('flat_length', e.meth(A, 'flat_length', free=free), n)
    e.equal('shape()', e.meth(A, 'shape'), e.shape_of(list(d) + [b]))
    e.equal('array_shape()', e.meth(A, 'array_shape'), e.shape_of(d))
    x = value(e, 'x', d, b)
    e.is_arr('flatten', e.meth(A, 'flatten', x, free=free), [n])
    w = e.array('w', [n])
    y, exc = e.attempt(e.meth, A, 'fold', w, free=free, validate_value=False)
    if exc is not None:
        e.fail('fold accepts a vector of the flat length', repr(exc))
    else:
        e.is_arr('fold', y, list(d) + [b])


def wrong_length(e, sh, free, how):
    A, d, b = build(e, sh)
    n = flen(e, d, free)
    m = e.int('len')
    if how == 'length':
        e.assume(ne(m.t, n))
        w = e.array('w', [m])
    else:
        w = e.array('w', [m, e.int('cols')])
    e.raises('fold rejects it with ValueError', ValueError, e.meth, A, 'fold', w, free=free, validate_value=False)


def c04(c, tier):
    each(c, lengths)
    each(c, wrong_length, extra=(('length',), ('2d',)))


def ok_term(e, d, it, vv):
    c = tm.app('DV', (P,), 'Bool') if vv is None else tm.boolc(vv)
    return each_item(e, d, lambda idx: valid(it(idx), c))


def validates(e, sh, free, vv, op):
    A, d, b = build(e, sh)
    if op == 'fold':
        w = e.array('w', [flen(e, d, False)])
        y, exc = e.attempt(e.meth, A, 'fold', w, free=False, **kwv(vv))
        c = tm.app('DV', (P,), 'Bool') if vv is None else tm.boolc(vv)
        k = tm.scratch()
        raised(e, exc, tm.all_(ZERO, count(e, d), k, valid(folded(b, w, k, False), c)))
        return
    x = value(e, 'x', d, b, ok=False)
    ok = ok_term(e, d, lambda idx: item('x', idx, b), vv)
    if op == 'validate':
        report(e, e.meth(A, 'validate_folded', x, **kwv(vv)), ok)
    else:
        v, exc = e.attempt(e.meth, A, 'flatten', x, free=free, **kwv(vv))
        raised(e, exc, ok)


def folded(b, w, k, free):
    """what the k-th element (in row-major order) folds to"""
    j, q = tm.scratch(), tm.scratch()
    part = tm.lam_(FL(free), j, w.at((add(mul(k, FL(free)), j),)))
    return tm.lam_(b.size, q, tm.app('FOLDA', (P, tm.boolc(free), part, q), 'Real'))


def bad_shape(e, sh, free, how):
    A, d, b = build(e, sh)
    D = list(d) + [b]
    if how == 'base shape':
        b2 = e.block('F2')
        e.assume(ne(b2.term, b.term))
        D[-1] = b2
    elif how == 'array shape':
        if sh == 'block':
            b2 = e.block('B2')
            e.assume(ne(b2.term, d[0].term))
            D[0] = b2
        else:
            m = e.int('m2')
            e.assume(ne(m.t, d[0].t))
            D[0] = m
    elif how == 'one more dimension':
        D = [e.int('extra')] + D
    x = e.array('x', D)
    for vv in (None, True, False):
        report(e, e.meth(A, 'validate_folded', x, **kwv(vv)), FALSE)
    e.raises('flatten raises ValueError', ValueError, e.meth, A, 'flatten', x, free=free)
    bx = e.array('bx', D, kind='b')
    e.raises('flat_indices raises ValueError', ValueError, e.meth, A, 'flat_indices', bx, free=free)


def c05(c, tier):
    for op in ('validate', 'flatten', 'fold'):
        each(c, validates, op, frees=(False, True) if op == 'flatten' else (False,),
             extra=((None, op), (True, op), (False, op)))
    each(c, bad_shape, 'shape', extra=(('base shape',), ('one more dimension',)))
    each(c, bad_shape, 'shape', shapes=SHP[:3], extra=(('array shape',),))


def selection(e, d, b):
    x = value(e, 'sel', d, b, ok=False, kind='b')
    e.assume(each_item(e, d, lambda idx: valid(item('sel', idx, b, 'Bool'), FALSE)))
    return x


def modes(e, sh, free, fd, which):
    A, d, b = build(e, sh, fd=fd)
    x = value(e, 'x', d, b)
    s = selection(e, d, b)
    mode = free if free is not None else fd
    kw = {} if free is None else {'free': free}
    ops = {'flatten': (x,), 'flat_length': (), 'flat_indices': (s,)}
    if which == 'fold':
        ops['fold'] = (e.meth(A, 'flatten', x, free=mode),) if mode is not None else \
            (e.array('v', [flen(e, d, True)]),)
    for kws in ([kw] if free is not None else [{}, {'free': None}]):
        if which == 'flat_names':
            if mode is None:
                e.raises('flat_names without a mode raises ValueError', ValueError, e.meth, A, 'flat_names', None)
            else:
                e.equal('flat_names uses the resolved mode', e.meth(A, 'flat_names', free),
                        e.meth(A, 'flat_names', mode))
            break
        a = ops[which]
        if mode is None:
            e.raises('%s without a mode raises ValueError' % which, ValueError, e.meth, A, which, *a, **kws)
        else:
            e.equal('%s uses the resolved mode' % which, e.meth(A, which, *a, **kws), e.meth(A, which, *a, free=mode))
    if mode is None or which != 'flatten':
        return
    e.same_int('flat_length: elements in the resolved mode', e.meth(A, 'flat_length', **kw), flen(e, d, mode))
    v = e.meth(A, 'flatten', x, **kw)
    idx, rng = at_item(e, d)
    j = tm.fresh('j', 'Int')
    with e.cx.scope(rng + [le(ZERO, j), lt(j, FL(mode))]):
        e.same('flatten: elements in the resolved mode', v.at((add(mul(lin(e, dd(e, d), idx), FL(mode)), j),)),
               tm.app('FLAT', (P, tm.boolc(mode), item('x', idx, b), j), 'Real'))


def c06(c, tier):
    each(c, modes, frees=(None, True, False), shapes=('block', 'vec'),
         extra=[(fd, w) for fd in (None, True, False) for w in
                ('flatten', 'flat_length', 'flat_indices', 'fold', 'flat_names')])


def layout(e, sh, free, what):
    A, d, b = build(e, sh)
    n = flen(e, d, free)
    idx, rng = at_item(e, d)
    j = tm.fresh('j', 'Int')
    pos = lambda j: add(mul(lin(e, dd(e, d), idx), FL(free)), j)
    if what == 'flatten':
        x = value(e, 'x', d, b)
        v = e.meth(A, 'flatten', x, free=free)
        if e.is_arr('flatten', v, [n]):
            with e.cx.scope(rng + [le(ZERO, j), lt(j, FL(free))]):
                e.same('elements in row-major order', v.at((pos(j),)),
                       tm.app('FLAT', (P, tm.boolc(free), item('x', idx, b), j), 'Real'))
    elif what == 'fold':
        w = e.array('w', [n])
        y, exc = e.attempt(e.meth, A, 'fold', w, free=free, validate_value=False)
        if exc is not None:
            e.fail('fold', repr(exc))
        elif e.is_arr('fold', y, list(d) + [b]):
            with e.cx.scope(rng + [le(ZERO, j), lt(j, b.size)]):
                q = tm.scratch()
                part = tm.lam_(FL(free), q, w.at((pos(q),)))
                e.same('each element from its own part of the vector', y.at(idx + (j,)),
                       tm.app('FOLDA', (P, tm.boolc(free), part, j), 'Real'))
    else:
        e.same('as many names as flat entries', e.I.length(e.meth(A, 'flat_names', free)), n)


def c07(c, tier):
    each(c, layout, extra=(('flatten',), ('fold',), ('names',)))


def indices(e, sh, free):
    A, d, b = build(e, sh)
    s = selection(e, d, b)
    r = e.meth(A, 'flat_indices', s, free=free)
    D = dd(e, d)

    def tsel(l):
        return item('sel', e.np.unlinear(e.I, D, l), b, 'Bool')

    def nfi(l):
        q = tm.scratch()
        t = tsel(l)
        return ite(tm.ex_(ZERO, b.size, q, tm.open_binder(t, q)), tm.app('NFI', (P, tm.boolc(free), t), 'Int'), ZERO)
    N = count(e, d)
    q = tm.scratch()
    with e.cx.scope([le(ZERO, q), lt(q, N)]):
        body = nfi(q)
    if not e.is_arr('flat_indices', r, [sum_(ZERO, N, q, body)]):
        return
    e.check('integer indices', r.kind == 'i', r.kind)
    k, t = tm.fresh('k', 'Int'), tm.fresh('t', 'Int')
    with e.cx.scope([le(ZERO, k), lt(k, N)]):
        with e.cx.scope([le(ZERO, t), lt(t, nfi(k))]):
            at = r.at((add(sum_(ZERO, k, q, body), t),)) if not (r.shape[0] is ZERO) else None
            if at is None:
                e.check('every selected element is listed', FALSE)
            else:
                e.same('the indices of element k, moved to its part of the vector', at,
                       add(mul(k, FL(free)), tm.app('FI', (P, tm.boolc(free), tsel(k), t), 'Int')))


def c08(c, tier):
    each(c, indices)


def jacobian(e, sh, free, which, sparse):
    A, d, b = build(e, sh)
    x = value(e, 'x', d, b)
    N = count(e, d)
    kw = {} if sparse is None else {'sparse': sparse}
    J = e.meth(A, which, x, **kw)
    issp = isinstance(J, Opaque) and J.tag == 'sparse'
    e.check('sparse or dense as asked', issp == (sparse is not False), repr(J))
    J = dense_of(e, J)
    fr = which == 'freeing_jacobian'
    nm = 'FJ' if fr else 'UFJ'
    if not e.is_arr('Jacobian', J, [mul(N, FL(fr)), mul(N, FL(not fr))]):
        return
    s, t, i, j = [tm.fresh(z, 'Int') for z in 'stij']
    with e.cx.scope([le(ZERO, s), lt(s, N), le(ZERO, t), lt(t, N), le(ZERO, i), lt(i, FL(fr)),
                     le(ZERO, j), lt(j, FL(not fr))]):
        got = J.at((add(mul(s, FL(fr)), i), add(mul(t, FL(not fr)), j)))
        with e.cx.scope([eq(s, t)]):
            xs = item('x', e.np.unlinear(e.I, dd(e, d), s), b)
            e.same('block of an element', got, tm.app(nm, (P, xs, i, j), 'Real'))
        with e.cx.scope([ne(s, t)]):
            e.same('no dependence between elements', got, ZERO)


def c09(c, tier):
    each(c, jacobian, frees=(None,),
         extra=[(w, s) for w in ('freeing_jacobian', 'unfreeing_jacobian') for s in (None, True, False)])


def json_rt(e, sh, free, via):
    A, d, b = build(e, sh, fd=free)
    js = e.meth(A, 'to_json')
    E = e.call(e.attr(A.cls, 'from_json'), js) if via == 'class' else \
        e.call(e.get('pattern_containers', 'get_pattern_from_json'), js)
    if not isinstance(E, Obj):
        e.fail('a pattern is returned', repr(E))
        return
    e.check('same type', E.cls is A.cls)
    e.equal('restored: free_default', e.attr(E, 'free_default'), e.attr(A, 'free_default'))
    for m in ('shape', 'array_shape', 'base_pattern'):
        e.equal('restored: ' + m, e.meth(E, m), e.meth(A, m))
    for fr in (True, False):
        e.equal('restored: flat length', e.meth(E, 'flat_length', free=fr), e.meth(A, 'flat_length', free=fr))
    e.true('restored == original', e.I.compare('==', E, A))


def equality(e, sh, free):
    f1 = [None, True, False][pick(e, 'fd1', 3)]
    f2 = [None, True, False][pick(e, 'fd2', 3)]
    A, d, b = build(e, sh, fd=f1)
    d2 = dims(e, sh, 'a2')
    P2 = tm.var('base2', 'U:Pat')
    b2 = e.block('F2')
    e.assume(implies(eq(P, P2), eq(b.term, b2.term)))
    C = e.call(e.cls('pattern_containers', 'PatternArray'), e.shape_of(d2), pat(P2, b2), free_default=f2)
    r = e.I.compare('==', A, C)
    r = tm.boolc(r) if isinstance(r, bool) else e.term(r)
    same = [eq(P, P2), tm.boolc(f1 is f2)]
    for a, q in zip(d, d2):
        same.append(eq(a.term, q.term) if isinstance(a, Block) else eq(a.t, q.t))
    e.check('== exactly when the settings agree', tm.iff(r, and_(*same)))


def c11(c, tier):
    each(c, json_rt, frees=(None, True, False), extra=(('class',), ('loader',)))
    each(c, equality, '==', frees=(None,))


def pure(e, sh, free):
    A, d, b = build(e, sh)
    x = value(e, 'x', d, b)
    s = selection(e, d, b)
    w = e.meth(A, 'flatten', x, free=free)
    v = e.np.new(e.I, w.shape, w.snap(), 'f')
    e.remember(x, s, v)
    st = state(e, A)
    flat = e.meth(A, 'flatten', x, free=free)
    e.fresh_storage('flatten returns new storage', flat, x)
    y = e.meth(A, 'fold', v, free=free)
    if free:
        e.fresh_storage('free fold returns new storage', y, v)
    e.meth(A, 'validate_folded', x)
    e.meth(A, 'flat_indices', s, free=free)
    e.meth(A, 'flat_names', free)
    e.meth(A, 'freeing_jacobian', x)
    e.meth(A, 'unfreeing_jacobian', x, sparse=False)
    e.meth(A, 'to_json')
    e.meth(A, 'empty', True)
    e.unchanged()
    same_state(e, A, st, 'after every operation')
    e.equal('flatten again gives the same', e.meth(A, 'flatten', x, free=free), flat)


def c22(c, tier):
    each(c, pure)

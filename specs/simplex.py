"""SimplexArrayPattern: every simplex size >= 2, every array shape."""
from .common import *
from .numeric import select_exactly, raised, report, state, same_state, dense_of, dd, pick
from pv.diff import diff, entry

SHP = ('block', 'vec', 'none', 'mat')
TOL = Fraction(1e-12)


def make(e, shape, dv=True, fd=None):
    d = [] if shape == 'none' else dims(e, shape, 's')
    k = e.int('k', lo=2)
    C = e.cls('simplex_patterns', 'SimplexArrayPattern')
    p = e.call(C, k, e.shape_of(d) if d else (), default_validate=dv, free_default=fd)
    return p, d, k


def full(d, k):
    return list(d) + [k]


def nelem(e, d):
    return size_of(e, d) if d else ONE


def simplex(e, name, d, k, strict, sum_exact=True):
    """a value with positive entries and simplexes summing to one"""
    D = dd(e, full(d, k))
    x = e.array(name, D)
    f = lt if strict else le

    def body(idx):
        q = tm.scratch()
        pos = tm.all_(ZERO, k.t, q, f(ZERO, tm.app(name, idx + (q,), 'Real')))
        q2 = tm.scratch()
        tot = sum_(ZERO, k.t, q2, tm.app(name, idx + (q2,), 'Real'))
        return and_(pos, eq(tot, ONE)) if sum_exact else pos
    e.assume(e.forall_idx(D[:-1], body))
    return x


def lin(e, D, idx):
    t = ZERO
    for q, i in zip(D, idx):
        t = add(mul(t, dsize(e.dim(q))), i)
    return t


def each(c, fn, name='', shapes=SHP, frees=(False, True), extra=((),)):
    for free in frees:
        for sh in shapes:
            for x in extra:
                c.add('simplex %s free=%s %s%s' % (sh, free, name, x if x != () else ''), fn, sh, free, *x)


def rt(e, sh, free, vv):
    p, d, k = make(e, sh, dv=e.bool('dv'))
    x = simplex(e, 'x', d, k, free)
    kw = {} if vv is None else {'validate_value': vv}
    v = e.meth(p, 'flatten', x, free=free, **kw)
    y = e.meth(p, 'fold', v, free=free, **kw)
    e.elements('fold(flatten(x)) == x', y, lambda i: x.at(i), dims=dd(e, full(d, k)))


def c01(c, tier):
    each(c, rt, extra=((None,), (True,), (False,)))


def flen(e, d, k, free):
    return mul(nelem(e, d), sub(k.t, ONE) if free else k.t)


def back(e, sh, free):
    p, d, k = make(e, sh, dv=e.bool('dv'))
    n = flen(e, d, k, free)
    v = e.array('v', [n])
    y, exc = e.attempt(e.meth, p, 'fold', v, free=free)
    if exc is not None:
        e.check('folding fails only in non-free mode', not free)
        return
    w = e.meth(p, 'flatten', y, free=free)
    e.elements('flatten(fold(v)) == v', w, lambda i: v.at(i), dims=[n])


def c02(c, tier):
    each(c, back)


def in_set(e, name, y, d, k):
    if not e.is_arr(name + ' has the folded shape', y, full(d, k)):
        return
    D = y.shape[:-1]
    idx = tuple(tm.fresh('i', 'Int') for _ in D)
    j = tm.fresh('j', 'Int')
    with e.cx.scope([f for q, i in zip(D, idx) for f in (le(ZERO, i), lt(i, dsize(q)))]):
        with e.cx.scope([le(ZERO, j), lt(j, k.t)]):
            e.check(name + ': non-negative', le(ZERO, y.at(idx + (j,))))
        q = tm.scratch()
        with e.cx.scope([le(ZERO, q), lt(q, k.t)]):
            t = y.at(idx + (q,))
        e.same(name + ': sums to one', sum_(ZERO, k.t, q, t), ONE)


def fold_valid(e, sh, free):
    p, d, k = make(e, sh)
    v = e.array('v', [flen(e, d, k, True)])
    in_set(e, 'fold', e.meth(p, 'fold', v, free=True), d, k)
    in_set(e, 'random', e.meth(p, 'random'), d, k)
    in_set(e, 'empty', e.meth(p, 'empty', True), d, k)
    e.meth(p, 'empty', False)


def c03(c, tier):
    each(c, fold_valid, frees=(True,))


def lengths(e, sh, free):
    p, d, k = make(e, sh, dv=e.bool('dv'))
    n = flen(e, d, k, free)
    e.same_int('flat_length', e.meth(p, 'flat_length', free=free), n)
    e.equal('shape()', e.meth(p, 'shape'), e.shape_of(full(d, k)))
    x = simplex(e, 'x', d, k, free)
    e.is_arr('flatten', e.meth(p, 'flatten', x, free=free), [n])
    w = e.array('w', [n])
    y, exc = e.attempt(e.meth, p, 'fold', w, free=free, validate_value=False)
    if exc is not None:
        e.fail('fold accepts a vector of the flat length', repr(exc))
    else:
        e.is_arr('fold', y, dd(e, full(d, k)))


def wrong_length(e, sh, free, how):
    p, d, k = make(e, sh, dv=e.bool('dv'))
    n = flen(e, d, k, free)
    m = e.int('len')
    if how == 'length':
        e.assume(ne(m.t, n))
        w = e.array('w', [m])
    else:
        w = e.array('w', [m, e.int('cols')])
    e.raises('fold rejects it with ValueError', ValueError, e.meth, p, 'fold', w, free=free, validate_value=False)


def bad_size(e, sh, free):
    k = e.int('k', lo=-3, hi=1)
    e.raises('simplex_size <= 1 is rejected', ValueError, e.call, e.cls('simplex_patterns', 'SimplexArrayPattern'), k,
             (2,))


def c04(c, tier):
    each(c, lengths)
    each(c, wrong_length, extra=(('length',), ('2d',)))
    each(c, bad_size, 'size', shapes=('none',), frees=(True,))


def ok_term(e, x, dv, vv, k):
    chk = dv.t if vv is None else tm.boolc(vv)
    D = x.shape[:-1]

    def body(idx):
        q, q2 = tm.scratch(), tm.scratch()
        s = sum_(ZERO, k.t, q2, x.at(idx + (q2,)))
        return and_(tm.all_(ZERO, k.t, q, le(ZERO, x.at(idx + (q,)))),
                    le(s, num(1 + TOL, 'Real')), le(num(1 - TOL, 'Real'), s))
    return implies(chk, e.forall_idx(D, body))


def validates(e, sh, free, vv, op):
    dv = e.bool('dv')
    p, d, k = make(e, sh, dv=dv)
    D = dd(e, full(d, k))
    kw = {} if vv is None else {'validate_value': vv}
    if op == 'fold':
        n = flen(e, d, k, False)
        w = e.array('w', [n])
        x = e.np.reshape(e.I, w, tuple(D)) if False else None
        y, exc = e.attempt(e.meth, p, 'fold', w, free=False, **kw)
        # the value in question: entry (idx, j) is w[row-major position]
        xv = e.np.new(e.I, D, lambda idx: w.at((lin(e, D, idx),)), 'f')
        raised(e, exc, ok_term(e, xv, dv, vv, k))
        return
    x = e.array('x', D)
    ok = ok_term(e, x, dv, vv, k)
    if op == 'validate':
        report(e, e.meth(p, 'validate_folded', x, **kw), ok)
    else:
        if free:
            strict = e.forall_idx(x.shape, lambda i: lt(ZERO, x.at(i)))
            e.assume(or_(strict, not_(ok)))
        v, exc = e.attempt(e.meth, p, 'flatten', x, free=free, **kw)
        raised(e, exc, ok)


def bad_shape(e, sh, free, how):
    p, d, k = make(e, sh, dv=e.bool('dv'))
    D = full(d, k)
    if how == 'simplex size':
        k2 = e.int('k2')
        e.assume(ne(k2.t, k.t))
        D[-1] = k2
    elif how == 'array shape':
        if sh == 'block':
            b = e.block('B2')
            e.assume(ne(b.term, d[0].term))
            D[0] = b
        elif sh == 'none':
            D = [e.int('extra')] + D
        else:
            m = e.int('m2')
            e.assume(ne(m.t, d[0].t))
            D[0] = m
    else:
        D = D[:-1] if sh != 'none' else [e.dim(k), num(1)]
        if sh == 'mat':
            D = D
    x = e.array('x', D, where=lambda i, t: lt(ZERO, t))
    report(e, e.meth(p, 'validate_folded', x), FALSE)
    report(e, e.meth(p, 'validate_folded', x, validate_value=False), FALSE)
    e.raises('flatten raises ValueError', ValueError, e.meth, p, 'flatten', x, free=free)


def c05(c, tier):
    for op in ('validate', 'flatten', 'fold'):
        each(c, validates, op, frees=(False, True) if op == 'flatten' else (False,),
             extra=((None, op), (True, op), (False, op)))
    each(c, bad_shape, 'shape', shapes=('block', 'vec', 'none'), extra=(('simplex size',), ('array shape',)))


def modes(e, sh, free, fd):
    p, d, k = make(e, sh, fd=fd)
    x = simplex(e, 'x', d, k, True)
    b = e.array('sel', full(d, k), kind='b')
    for q in b.shape:
        e.assume(lt(ZERO, dsize(q)))
    e.assume(b.at(tuple(ZERO for _ in b.shape)))
    mode = free if free is not None else fd
    kw = {} if free is None else {'free': free}
    ops = [('flatten', x), ('flat_length',), ('flat_indices', b)]
    if mode is not None:
        v = e.meth(p, 'flatten', x, free=mode)
        ops.append(('fold', v))
    else:
        ops.append(('fold', e.array('v', [flen(e, d, k, True)])))
    for op in ops:
        for kws in ([kw] if free is not None else [{}, {'free': None}]):
            if mode is None:
                e.raises('%s without a mode raises ValueError' % op[0], ValueError, e.meth, p, *op, **kws)
            else:
                r = e.meth(p, *op, **kws)
                e.equal('%s uses the resolved mode' % op[0], r, e.meth(p, *op, free=mode))


def c06(c, tier):
    each(c, modes, frees=(None, True, False), extra=((None,), (True,), (False,)), shapes=('block', 'vec', 'none'))


def layout(e, sh, free):
    p, d, k = make(e, sh)
    D = dd(e, full(d, k))
    x = simplex(e, 'x', d, k, free)
    v = e.meth(p, 'flatten', x, free=free)
    if not e.is_arr('flatten', v, [flen(e, d, k, free)]):
        return
    idx = tuple(tm.fresh('i', 'Int') for _ in D)
    last = sub(k.t, ONE) if free else k.t
    with e.cx.scope([f for q, i in zip(list(D[:-1]) + [last], idx) for f in (le(ZERO, i), lt(i, dsize(q)))]):
        if free:
            want = sub(log(x.at(idx[:-1] + (add(idx[-1], ONE),))), log(x.at(idx[:-1] + (ZERO,))))
        else:
            want = x.at(idx)
        e.same('entry at its row-major position', v.at((lin(e, list(D[:-1]) + [last], idx),)), want)
    names = e.meth(p, 'flat_names', free)
    e.same('as many names as flat entries', e.I.length(names), flen(e, d, k, free))


def c07(c, tier):
    each(c, layout)


def indices(e, sh, free):
    p, d, k = make(e, sh)
    D = dd(e, full(d, k))
    b = e.array('sel', D, kind='b')
    r = e.meth(p, 'flat_indices', b, free=free)
    if not free:
        select_exactly(e, r, b, flen(e, d, k, False), lambda idx: lin(e, D, idx))
        return
    # free: exactly the free entries of the simplexes that have a selected entry
    n = flen(e, d, k, True)
    if not isinstance(r, Arr) or len(r.shape) != 1:
        e.fail('flat_indices returns a vector', repr(r))
        return
    e.check('integer indices', r.kind == 'i', r.kind)
    m = r.shape[0]
    km = sub(k.t, ONE)
    t_ = tm.fresh('t', 'Int')

    def sel(l):
        """is an entry of simplex l selected?"""
        q = tm.scratch()
        idx = e.np.unlinear(e.I, D[:-1], l)
        return tm.ex_(ZERO, k.t, q, b.at(tuple(idx) + (q,)))
    N = nelem(e, d)
    with e.cx.scope([le(ZERO, t_), lt(t_, m)]):
        t = r.at((t_,))
        e.check('index within the free vector', and_(le(ZERO, t), lt(t, n)), str(t)[:300])
        s = tm.fresh('s', 'Int')
        with e.cx.scope([le(ZERO, s), lt(s, N), le(mul(s, km), t), lt(t, mul(add(s, ONE), km))]):
            e.check('only simplexes with a selected entry', sel(s))
        with e.cx.scope([lt(add(t_, ONE), m)]):
            e.check('increasing', lt(t, r.at((add(t_, ONE),))))
    # completeness: free entry j of a selected simplex is listed, at km * (selected simplexes before) + j
    s, j = tm.fresh('s', 'Int'), tm.fresh('j', 'Int')
    with e.cx.scope([le(ZERO, s), lt(s, N), le(ZERO, j), lt(j, km)]):
        with e.cx.scope([sel(s)]):
            q = tm.scratch()
            with e.cx.scope([le(ZERO, q), lt(q, s)]):
                bq = sel(q)
            pos = add(mul(km, sum_(ZERO, s, q, ite(bq, ONE, ZERO))), j)
            if m is ZERO:
                e.check('every dependent free entry is listed', FALSE)
            else:
                e.check('every dependent free entry is listed (range)', and_(le(ZERO, pos), lt(pos, m)))
                e.check('every dependent free entry is listed', eq(r.at((pos,)), add(mul(s, km), j)))


def c08(c, tier):
    each(c, indices, shapes=('block', 'vec', 'none'))


def jacobian(e, sh, free, which, sparse):
    p, d, k = make(e, sh, dv=e.bool('dv'))
    D = dd(e, full(d, k))
    x = simplex(e, 'x', d, k, True)
    N = nelem(e, d)
    nf, nn = flen(e, d, k, True), flen(e, d, k, False)
    kw = {} if sparse is None else {'sparse': sparse}
    J = e.meth(p, which, x, **kw)
    issp = isinstance(J, Opaque) and J.tag == 'sparse'
    e.check('sparse or dense as asked', issp == (sparse is not False), repr(J))
    J = dense_of(e, J)
    fr = which == 'freeing_jacobian'
    rows, cols = (nf, nn) if fr else (nn, nf)
    if not e.is_arr('Jacobian', J, [rows, cols]):
        return
    if e.cx.prove(le(N, ZERO)):
        return
    # row (s, i), column (t, j)
    s, t, i, j = [tm.fresh(z, 'Int') for z in 'stij']
    a, b_ = (sub(k.t, ONE), k.t) if fr else (k.t, sub(k.t, ONE))
    with e.cx.scope([le(ZERO, s), lt(s, N), le(ZERO, t), lt(t, N), le(ZERO, i), lt(i, a), le(ZERO, j), lt(j, b_)]):
        row, col = add(mul(s, a), i), add(mul(t, b_), j)
        if fr:
            w = e.array('w', [nn])
            e.assume(e.forall_idx([nn], lambda q: lt(ZERO, w.at(q))))
            y = e.meth(p, 'flatten', e.meth(p, 'fold', w, free=False, validate_value=False), free=True,
                       validate_value=False)
            src = e.meth(p, 'flatten', x, free=False)
            nm = 'w'
        else:
            u = e.array('u', [nf])
            y = e.meth(p, 'flatten', e.meth(p, 'fold', u, free=True), free=False, validate_value=False)
            src = e.meth(p, 'flatten', x, free=True)
            nm = 'u'
        dt = diff(y.at((row,)), entry(nm, (col,)))
        dt = e.rewrite(dt, lambda q: src.at((q.args[0],)) if q.op == 'app' and q.val == nm else None)
        e.same('entry is the partial derivative', J.at((row, col)), dt)


def c09(c, tier):
    each(c, jacobian, frees=(None,), shapes=('none', 'vec', 'block'),
         extra=[(w, s) for w in ('freeing_jacobian', 'unfreeing_jacobian') for s in (None, True, False)])


def json_rt(e, sh, free, dv, via):
    fd = free
    p, d, k = make(e, sh, dv=dv, fd=fd)
    js = e.meth(p, 'to_json')
    q = e.call(e.attr(p.cls, 'from_json'), js) if via == 'class' else \
        e.call(e.get('pattern_containers', 'get_pattern_from_json'), js)
    if not isinstance(q, Obj):
        e.fail('a pattern is returned', repr(q))
        return
    e.check('same type', q.cls is p.cls)
    for m in ('shape', 'array_shape', 'simplex_size'):
        e.equal('restored: ' + m, e.meth(q, m), e.meth(p, m))
    for m in ('default_validate', 'free_default'):
        e.equal('restored: ' + m, e.attr(q, m), e.attr(p, m))
    for fr in (True, False):
        e.equal('restored: flat length', e.meth(q, 'flat_length', free=fr), e.meth(p, 'flat_length', free=fr))
    e.true('restored == original', e.I.compare('==', q, p))


def equality(e, sh, free):
    f1 = [None, True, False][pick(e, 'fd1', 3)]
    f2 = [None, True, False][pick(e, 'fd2', 3)]
    dv1, dv2 = e.bool('dv1'), e.bool('dv2')
    p, d, k = make(e, sh, dv=dv1, fd=f1)
    d2 = [] if sh == 'none' else dims(e, sh, 's2')
    k2 = e.int('k2', lo=2)
    q = e.call(e.cls('simplex_patterns', 'SimplexArrayPattern'), k2, e.shape_of(d2) if d2 else (),
               default_validate=dv2, free_default=f2)
    r = e.term(e.I.compare('==', p, q))
    same = [eq(k.t, k2.t), tm.boolc(f1 is f2), tm.iff(dv1.t, dv2.t)]
    for a, b in zip(d, d2):
        same.append(eq(a.term, b.term) if isinstance(a, Block) else eq(a.t, b.t))
    e.check('== exactly when the settings agree', tm.iff(r, and_(*same)))


def c11(c, tier):
    each(c, json_rt, frees=(None, True, False), extra=[(dv, via) for dv in (True, False)
                                                       for via in ('class', 'loader')])
    each(c, equality, '==', frees=(None,))


def pure(e, sh, free):
    p, d, k = make(e, sh, dv=e.bool('dv'))
    x = simplex(e, 'x', d, k, True)
    b = e.array('sel', full(d, k), kind='b')
    w = e.meth(p, 'flatten', x, free=free)
    v = e.np.new(e.I, w.shape, w.snap(), 'f')
    e.remember(x, b, v)
    st = state(e, p)
    flat = e.meth(p, 'flatten', x, free=free)
    e.fresh_storage('flatten returns new storage', flat, x)
    y = e.meth(p, 'fold', v, free=free)
    if free:
        e.fresh_storage('free fold returns new storage', y, v)
    e.meth(p, 'validate_folded', x)
    e.meth(p, 'flat_indices', b, free=free)
    e.meth(p, 'flat_names', free)
    e.meth(p, 'freeing_jacobian', x)
    e.meth(p, 'unfreeing_jacobian', x, sparse=False)
    e.meth(p, 'to_json')
    e.meth(p, 'empty', True)
    e.unchanged()
    same_state(e, p, st, 'after every operation')
    e.equal('flatten again gives the same', e.meth(p, 'flatten', x, free=free), flat)


def c22(c, tier):
    each(c, pure, shapes=('block', 'vec', 'none'))

"""NumericArrayPattern, NumericVectorPattern, NumericScalarPattern: every shape, every kind of bounds."""
from .common import *

ALLSH = ('block', 'vec', 'mat', 'scalar')


def dd(e, d):
    return [e.dim(k) for k in d]


def lin(e, d, idx):
    t = ZERO
    for k, i in zip(d, idx):
        t = add(mul(t, dsize(e.dim(k))), i)
    return t


def each(c, fn, name, shapes=ALLSH, frees=(False, True), extra=((),)):
    for bn, hl, hu in BOUNDS:
        for free in frees:
            for sh in shapes:
                for x in extra:
                    c.add('numeric %s bounds=%s free=%s %s%s' % (sh, bn, free, name, x if x != () else ''),
                          fn, sh, hl, hu, free, *x)


def T_free(lb, ub):
    """the free transform of one entry (written from the definition of the parameterization)"""
    def f(t):
        if isinstance(lb, S) and isinstance(ub, S):
            return sub(log(sub(t, lb.t)), log(sub(ub.t, t)))
        if isinstance(lb, S):
            return log(sub(t, lb.t))
        if isinstance(ub, S):
            return neg(log(sub(ub.t, t)))
        return t
    return f


# ------------------------------------------------------------------ C01
def rt(e, shape, hl, hu, free, vv):
    p, d, lb, ub = numeric(e, shape, hl, hu, default_validate=e.bool('dv'))
    x = e.array('x', d, where=inside(lb, ub, strict=free))
    kw = {} if vv is None else {'validate_value': vv}
    v = e.meth(p, 'flatten', x, free=free, **kw)
    y = e.meth(p, 'fold', v, free=free, **kw)
    e.elements('fold(flatten(x)) == x', y, lambda i: x.at(i), dims=dd(e, d))


def c01(c, tier):
    each(c, rt, '', extra=((None,), (True,), (False,)))


# ------------------------------------------------------------------ C02
def inv_free(e, shape, hl, hu, free):
    p, d, lb, ub = numeric(e, shape, hl, hu, default_validate=e.bool('dv'))
    n = size_of(e, d)
    v = e.array('v', [n])
    y, exc = e.attempt(e.meth, p, 'fold', v, free=free)
    if exc is not None:
        e.check('folding fails only in non-free mode', not free)
        return
    w = e.meth(p, 'flatten', y, free=free)
    e.elements('flatten(fold(v)) == v', w, lambda i: v.at(i), dims=[n])


def c02(c, tier):
    each(c, inv_free, '')


# ------------------------------------------------------------------ C03
def fold_valid(e, shape, hl, hu, free):
    p, d, lb, ub = numeric(e, shape, hl, hu)
    n = size_of(e, d)
    v = e.array('v', [n])
    for name, y in (('fold', e.meth(p, 'fold', v, free=True)), ('random', e.meth(p, 'random')),
                    ('empty', e.meth(p, 'empty', True))):
        in_set(e, name, y, d, lb, ub)
    e.meth(p, 'empty', False)


def in_set(e, name, y, d, lb, ub):
    if not e.is_arr(name + ' has the folded shape', y, dd(e, d)):
        return
    idx = tuple(tm.fresh('i', 'Int') for _ in y.shape)
    with e.cx.scope([f for q, i in zip(y.shape, idx) for f in (le(ZERO, i), lt(i, dsize(q)))]):
        t = y.at(idx)
        if isinstance(lb, S):
            e.check(name + ': lower bound', le(lb.t, t), str(t)[:200])
        if isinstance(ub, S):
            e.check(name + ': upper bound', le(t, ub.t), str(t)[:200])


def c03(c, tier):
    each(c, fold_valid, '', frees=(True,))


# ------------------------------------------------------------------ C04
def lengths(e, shape, hl, hu, free):
    p, d, lb, ub = numeric(e, shape, hl, hu, default_validate=e.bool('dv'))
    n = size_of(e, d)
    e.same_int('flat_length is the number of entries', e.meth(p, 'flat_length', free=free), n)
    e.equal('shape()', e.meth(p, 'shape'), e.shape_of(d) if len(d) else ())
    x = e.array('x', d, where=inside(lb, ub, strict=free))
    v = e.meth(p, 'flatten', x, free=free)
    e.is_arr('flatten', v, [n])
    w = e.array('w', [n])
    y, exc = e.attempt(e.meth, p, 'fold', w, free=free, validate_value=False)
    if exc is not None:
        e.fail('fold accepts a vector of the flat length', repr(exc))
    else:
        e.is_arr('fold', y, dd(e, d))


def wrong_length(e, shape, hl, hu, free, how):
    p, d, lb, ub = numeric(e, shape, hl, hu, default_validate=e.bool('dv'))
    n = size_of(e, d)
    m = e.int('len')
    if how == 'length':
        e.assume(ne(m.t, n))
        w = e.array('w', [m])
    elif how == '2d':
        k = e.int('cols')
        w = e.array('w', [m, k])
    else:
        w = e.array('w', [m, e.int('k1'), e.int('k2')])
    e.raises('fold rejects it with ValueError', ValueError, e.meth, p, 'fold', w, free=free, validate_value=False)


def c04(c, tier):
    each(c, lengths, '')
    each(c, wrong_length, '', extra=(('length',), ('2d',), ('3d',)))


# ------------------------------------------------------------------ C05
def validity(e, x, lb, ub, dv, vv):
    chk = dv.t if vv is None else tm.boolc(vv)
    return implies(chk, e.forall_idx(x.shape, lambda i: inside(lb, ub, False)(i, x.at(i))))


def validates(e, shape, hl, hu, free, vv, op):
    dv = e.bool('dv')
    p, d, lb, ub = numeric(e, shape, hl, hu, default_validate=dv)
    x = e.array('x', d)
    kw = {} if vv is None else {'validate_value': vv}
    ok = validity(e, x, lb, ub, dv, vv)
    if op == 'validate':
        r = e.meth(p, 'validate_folded', x, **kw)
        report(e, r, ok)
    elif op == 'flatten':
        if free:
            # only the check is in question: stay where the transform is defined, or the check must fail
            strict = e.forall_idx(x.shape, lambda i: inside(lb, ub, True)(i, x.at(i)))
            e.assume(or_(strict, not_(ok)))
        v, exc = e.attempt(e.meth, p, 'flatten', x, free=free, **kw)
        raised(e, exc, ok)
    else:
        n = size_of(e, d)
        w = e.array('w', [n])
        okw = implies(dv.t if vv is None else tm.boolc(vv),
                      e.forall_idx(dd(e, d), lambda i: inside(lb, ub, False)(i, w.at((lin(e, d, i),)))))
        y, exc = e.attempt(e.meth, p, 'fold', w, free=False, **kw)
        raised(e, exc, okw)


def report(e, r, ok):
    if not (isinstance(r, tuple) and len(r) == 2):
        e.fail('validate_folded returns a pair', repr(r))
        return
    t = r[0]
    if isinstance(t, Arr):
        t = e.np.item(e.I, t)
    t = tm.boolc(t) if isinstance(t, bool) else e.term(t)
    e.check('valid exactly when every entry obeys the constraint', tm.iff(t, ok))
    e.check('a message is given', isinstance(r[1], (str, SStr)), repr(r[1]))


def raised(e, exc, ok):
    if exc is None:
        e.check('no exception only for a valid value', ok)
    else:
        e.check('the exception is a ValueError', e.I.exc_matches(exc, ValueError), repr(exc))
        e.check('an exception only for an invalid value', not_(ok), repr(exc))


def bad_shape(e, shape, hl, hu, free, how):
    p, d, lb, ub = numeric(e, shape, hl, hu, default_validate=e.bool('dv'))
    if how == 'other shape of the same size':
        if shape == 'mat':
            d2 = [d[1], d[0]]
            e.assume(ne(d[0].t, d[1].t))
        elif shape == 'block':
            b = e.block('B2')
            e.assume(eq(b.size, d[0].size))
            e.assume(ne(b.term, d[0].term))
            d2 = [b]
        else:
            d2 = [1, e.dim(d[0])]
    else:
        m = e.int('m2')
        if shape == 'block':
            b = e.block('B2')
            e.assume(ne(b.term, d[0].term))
            d2 = [b]
        elif shape == 'mat':
            d2 = [d[0], m]
            e.assume(ne(m.t, d[1].t))
        else:
            d2 = [m]
            e.assume(ne(m.t, e.dim(d[0])))
    x = e.array('x', d2, where=inside(lb, ub, True))
    r = e.meth(p, 'validate_folded', x)
    report(e, r, FALSE)
    r = e.meth(p, 'validate_folded', x, validate_value=False)
    report(e, r, FALSE)
    e.raises('flatten raises ValueError', ValueError, e.meth, p, 'flatten', x, free=free)


def c05(c, tier):
    for op in ('validate', 'flatten', 'fold'):
        each(c, validates, op, frees=(False, True) if op == 'flatten' else (False,),
             extra=((None, op), (True, op), (False, op)))
    each(c, bad_shape, 'shape', extra=(('other shape',), ('other shape of the same size',)))


# ------------------------------------------------------------------ C06
def modes(e, shape, hl, hu, free, fd):
    """free: the argument (None: omitted); fd: the pattern's default"""
    p, d, lb, ub = numeric(e, shape, hl, hu, free_default=fd)
    n = size_of(e, d)
    x = e.array('x', d, where=inside(lb, ub, True))
    v = e.array('v', [n], where=inside(lb, ub, True))
    b = e.array('sel', d, kind='b')
    z = [ZERO if not isinstance(q, Block) else ZERO for q in b.shape]
    for q in b.shape:
        e.assume(lt(ZERO, dsize(q)))
    e.assume(b.at(tuple(z)))
    mode = free if free is not None else fd
    kw = {} if free is None else {'free': free}
    ops = [('flatten', x), ('fold', v), ('flat_length',), ('flat_indices', b)]
    for op in ops:
        for kws in ([kw] if free is not None else [{}, {'free': None}]):
            if mode is None:
                e.raises('%s without a mode raises ValueError' % op[0], ValueError, e.meth, p, *op, **kws)
            else:
                r = e.meth(p, *op, **kws)
                p2 = p
                want = e.meth(p2, *op, free=mode)
                e.equal('%s uses the resolved mode' % op[0], r, want)


def modes_distinct(e, shape, hl, hu, free):
    """explicit modes mean what they say"""
    p, d, lb, ub = numeric(e, shape, hl, hu, free_default=e.decide(tm._mk('var', 'fd', (), 'Bool')))
    n = size_of(e, d)
    x = e.array('x', d, where=inside(lb, ub, True))
    v = e.meth(p, 'flatten', x, free=free)
    tr = T_free(lb, ub) if free else (lambda t: t)
    if len(d) == 1:
        e.elements('flatten(free=%s)' % free, v, lambda i: tr(x.at(i)), dims=[n])


def c06(c, tier):
    each(c, modes, '', frees=(None, True, False), extra=((None,), (True,), (False,)), shapes=('block', 'vec', 'scalar'))
    each(c, modes_distinct, 'explicit', shapes=('block', 'vec', 'scalar'))


# ------------------------------------------------------------------ C07
def layout(e, shape, hl, hu, free):
    p, d, lb, ub = numeric(e, shape, hl, hu)
    x = e.array('x', d, where=inside(lb, ub, strict=free))
    v = e.meth(p, 'flatten', x, free=free)
    if not e.is_arr('flatten', v, [size_of(e, d)]):
        return
    tr = T_free(lb, ub) if free else (lambda t: t)
    idx = tuple(tm.fresh('i', 'Int') for _ in x.shape)
    with e.cx.scope([f for q, i in zip(x.shape, idx) for f in (le(ZERO, i), lt(i, dsize(q)))]):
        e.same('entry at its row-major position', v.at((lin(e, d, idx),)), tr(x.at(idx)))
        w = e.array('w', [size_of(e, d)])
        y = e.meth(p, 'fold', w, free=False, validate_value=False)
        e.same('folding puts it back', y.at(idx), w.at((lin(e, d, idx),)))
    names = e.meth(p, 'flat_names', free)
    if not isinstance(names, (PList, Arr)):
        e.fail('flat_names is a list', repr(names))
        return
    e.same('as many names as entries', e.I.mkint(e.I.length(names)), size_of(e, d))
    idx = tuple(ZERO if q is ONE else tm.fresh('i', 'Int') for q in x.shape)
    with e.cx.scope([f for q, i in zip(x.shape, idx) for f in (le(ZERO, i), lt(i, dsize(q)))]):
        got = e.I.getitem(names, e.I.mkint(lin(e, d, idx)))
        parts = ['[']
        for k, (q, i) in enumerate(zip(x.shape, idx)):
            if k:
                parts.append(',')
            parts.append(('bj', ',', q, i, (('i', None),)) if isinstance(q, Block) else ('i', i))
        if any(isinstance(q, Block) for q in x.shape):
            want = block_name(e, x.shape[0], idx[0])
        else:
            want = e.I.mkstr(parts + [']'])
        r = e.I.value_eq(got, want)
        e.check('the name is the bracketed index', r if not isinstance(r, S) else r.t, '%r %r' % (got, want))


def block_name(e, b, l):
    """'[' + ','.join(str(coordinate)) + ']'  evaluated by the same string machinery"""
    it = Iter([BSeg(b, l, lambda c: c)])
    strs = e.I.call(e.w.builtins['map'], [e.w.builtins['str'], it], {})
    body = e.I.call(e.I.getattr(',', 'join'), [strs], {})
    return e.I.binop('+', e.I.binop('+', '[', body), ']')


def c07(c, tier):
    each(c, layout, '')


# ------------------------------------------------------------------ C08
def indices(e, shape, hl, hu, free):
    p, d, lb, ub = numeric(e, shape, hl, hu)
    b = e.array('sel', d, kind='b')
    n = size_of(e, d)
    r = e.meth(p, 'flat_indices', b, free=free)
    select_exactly(e, r, b, n, lambda idx: lin(e, d, idx))


def select_exactly(e, r, b, n, position):
    """r lists exactly the flat positions of the selected entries, in increasing order"""
    if not isinstance(r, Arr) or len(r.shape) != 1:
        e.fail('flat_indices returns a vector', repr(r))
        return
    m = r.shape[0]
    k = tm.fresh('k', 'Int')
    e.check('integer indices', r.kind == 'i', 'dtype kind %s' % r.kind)
    with e.cx.scope([le(ZERO, k), lt(k, m)]):
        t = r.at((k,))
        e.check('index within the flat vector', and_(le(ZERO, t), lt(t, n)))
        with e.cx.scope([le(ZERO, t), lt(t, n)]):
            idx = e.np.unlinear(e.I, b.shape, t)
            e.check('only selected entries', b.at(idx))
        with e.cx.scope([lt(add(k, ONE), m)]):
            e.check('increasing', lt(t, r.at((add(k, ONE),))))
    idx = tuple(tm.fresh('i', 'Int') for _ in b.shape)
    with e.cx.scope([f for q, i in zip(b.shape, idx) for f in (le(ZERO, i), lt(i, dsize(q)))] + [b.at(idx)]):
        pos = position(idx)
        # the rank of the entry among the selected ones is where it is listed
        q = tm.scratch()
        with e.cx.scope([le(ZERO, q), lt(q, pos)]):
            bq = b.at(e.np.unlinear(e.I, b.shape, q))
        rank = sum_(ZERO, pos, q, ite(bq, ONE, ZERO))
        if m is ZERO:
            e.check('every selected entry is listed', FALSE)
        else:
            e.check('every selected entry is listed (range)', and_(le(ZERO, rank), lt(rank, m)))
            e.check('every selected entry is listed', eq(r.at((rank,)), pos))


def c08(c, tier):
    each(c, indices, '')


# ------------------------------------------------------------------ C09
def dense_of(e, j):
    """the matrix held by a Jacobian in either form, as an array"""
    if isinstance(j, Opaque) and j.tag == 'sparse':
        return j.arr
    return j


def jac_oracle(e, p, xname, x, d, free):
    """entry (i, j) of the derivative of the free vector with respect to the flat vector, or the reverse, from the
    code's own flatten / fold"""
    from pv.diff import diff, entry
    n = size_of(e, d)
    if free:
        w = e.array('w', [n])
        out = e.meth(p, 'flatten', e.meth(p, 'fold', w, free=False, validate_value=False), free=True,
                     validate_value=False)
    else:
        w = e.array('w', [n])
        out = e.meth(p, 'flatten', e.meth(p, 'fold', w, free=True), free=False, validate_value=False)
    return w, out


def jacobian(e, shape, hl, hu, free, which, sparse):
    from pv.diff import diff, entry
    p, d, lb, ub = numeric(e, shape, hl, hu, default_validate=e.bool('dv'))
    x = e.array('x', d, where=inside(lb, ub, strict=True))
    n = size_of(e, d)
    kw = {} if sparse is None else {'sparse': sparse}
    J = e.meth(p, which, x, **kw)
    issp = isinstance(J, Opaque) and J.tag == 'sparse'
    e.check('sparse or dense as asked', issp == (sparse is not False), repr(J))
    if not issp:
        e.check('dense form is a plain array', isinstance(J, Arr), repr(J))
    J = dense_of(e, J)
    if not e.is_arr('Jacobian', J, [n, n]):
        return
    i, j = tm.fresh('i', 'Int'), tm.fresh('j', 'Int')
    flat = e.meth(p, 'flatten', x, free=False)
    tr = T_free(lb, ub)
    xs = flat.snap()
    w = e.array('w', [n])
    e.assume(e.forall_idx([n], lambda k: inside(lb, ub, True)(k, w.at(k))))
    with e.cx.scope([le(ZERO, i), lt(i, n), le(ZERO, j), lt(j, n)]):
        if which == 'freeing_jacobian':
            # d flatten(fold(w, non-free), free)_i / d w_j   at   w = flatten(x, non-free)
            y = e.meth(p, 'flatten', e.meth(p, 'fold', w, free=False, validate_value=False), free=True,
                       validate_value=False)
            dt = diff(y.at((i,)), entry('w', (j,)))
            at = lambda k: flat.at((k,))
        else:
            u = e.array('u', [n])
            y = e.meth(p, 'flatten', e.meth(p, 'fold', u, free=True), free=False, validate_value=False)
            dt = diff(y.at((i,)), entry('u', (j,)))
            fr = e.meth(p, 'flatten', x, free=True)
            at = lambda k: fr.at((k,))
        nm = 'w' if which == 'freeing_jacobian' else 'u'
        dt = tm.replace_apps(dt, lambda t: at(t.args[0]) if t.op == 'app' and t.val == nm else None)
        e.same('entry is the partial derivative', J.at((i, j)), dt)


def both_jacobians(e, shape, hl, hu, free):
    p, d, lb, ub = numeric(e, shape, hl, hu)
    x = e.array('x', d, where=inside(lb, ub, strict=True))
    n = size_of(e, d)
    A = dense_of(e, e.meth(p, 'freeing_jacobian', x))
    B = dense_of(e, e.meth(p, 'unfreeing_jacobian', x))
    P = e.np.matmul(e.I, A, B) if hasattr(e.np, 'matmul') else e.call(e.w.getattr(e.I, e.w.external('numpy'), 'matmul'), A, B)
    e.elements('freeing times unfreeing is the identity', P, lambda q: ite(eq(q[0], q[1]), ONE, ZERO), dims=[n, n])


def c09(c, tier):
    each(c, jacobian, '', frees=(None,), extra=[(w, s) for w in ('freeing_jacobian', 'unfreeing_jacobian')
                                                for s in (None, True, False)])
    each(c, both_jacobians, 'product', frees=(None,))


# ------------------------------------------------------------------ C10
def logdet(e, shape, hl, hu, free):
    p, d, lb, ub = numeric(e, shape, hl, hu, default_validate=e.bool('dv'))
    x = e.array('x', d, where=inside(lb, ub, strict=True))
    n = size_of(e, d)
    tot = []
    for w in ('freeing', 'unfreeing'):
        J = dense_of(e, e.meth(p, w + '_jacobian', x, sparse=False))
        i, j = tm.fresh('i', 'Int'), tm.fresh('j', 'Int')
        with e.cx.scope([le(ZERO, i), lt(i, n), le(ZERO, j), lt(j, n), ne(i, j)]):
            e.same(w + ' Jacobian is diagonal', J.at((i, j)), ZERO)
        # log |det| of a diagonal matrix: the sum of log |diagonal|, in row-major order of the entries
        l = e.meth(p, 'log_abs_det_%s_jacobian' % w, x)
        ks = tuple(tm.scratch() for _ in x.shape)
        with e.cx.scope([f for q, k in zip(x.shape, ks) for f in (le(ZERO, k), lt(k, dsize(q)))]):
            q = lin(e, d, ks)
            t = J.at((q, q))
            e_abs = e.I.world.np.abs_term(e.I, t) if hasattr(e.np, 'abs_term') else abs_t(e, t)
            body = log_t(e, e_abs)
        for k, qd in reversed(list(zip(ks, x.shape))):
            body = sum_(ZERO, dsize(qd), k, body)
        e.same('log_abs_det_%s_jacobian is log |det|' % w, l, body)
        tot.append(e.term(l))
    e.same('the two are negatives of each other', add(*tot), ZERO)


def abs_t(e, t):
    if e.cx.prove(le(ZERO, t)):
        return t
    if e.cx.prove(le(t, ZERO)):
        return neg(t)
    return ite(le(ZERO, t), t, neg(t))


def log_t(e, t):
    if not e.cx.prove(lt(ZERO, t)):
        e.fail('the Jacobian is not singular', str(t))
    return log(t)


def c10(c, tier):
    each(c, logdet, '', frees=(None,))


# ------------------------------------------------------------------ C11
SETT = ('shape', 'bounds')


def settings_equal(e, name, a, b):
    e.check(name + ': same type', a.cls is b.cls, '%r %r' % (a, b))
    for m in ('shape', 'bounds'):
        e.equal('%s: %s' % (name, m), e.meth(a, m), e.meth(b, m))
    for m in ('default_validate', 'free_default'):
        e.equal('%s: %s' % (name, m), e.attr(a, m), e.attr(b, m))
    for fr in (True, False):
        e.equal('%s: flat length' % name, e.meth(a, 'flat_length', free=fr), e.meth(b, 'flat_length', free=fr))


def json_rt(e, shape, hl, hu, fd, dv, via):
    p, d, lb, ub = numeric(e, shape, hl, hu, default_validate=dv, free_default=fd)
    js = e.meth(p, 'to_json')
    if via == 'class':
        q = e.call(e.attr(p.cls, 'from_json'), js)
    else:
        q = e.call(e.get('pattern_containers', 'get_pattern_from_json'), js)
    if not isinstance(q, Obj):
        e.fail('a pattern is returned', repr(q))
        return
    settings_equal(e, 'restored', q, p)
    e.true('restored == original', e.I.compare('==', q, p))
    e.true('original == restored', e.I.compare('==', p, q))


def equality(e, shape, hl, hu, h2l, h2u, shape2):
    """p == q exactly when type and settings agree"""
    dv1, dv2 = e.bool('dv1'), e.bool('dv2')
    f1 = [None, True, False][pick(e, 'fd1', 3)]
    f2 = [None, True, False][pick(e, 'fd2', 3)]
    p, d, lb, ub = numeric(e, shape, hl, hu, default_validate=dv1, free_default=f1)
    d2 = dims(e, shape2, '2')
    lb2 = e.real('lb2') if h2l else -INF
    ub2 = e.real('ub2') if h2u else INF
    if h2l and h2u:
        e.assume(lt(lb2.t, ub2.t))
    M = 'numeric_array_patterns'
    kw = dict(lb=lb2, ub=ub2, default_validate=dv2, free_default=f2)
    if shape2 == 'vec':
        q = e.call(e.cls(M, 'NumericVectorPattern'), d2[0], **kw)
    elif shape2 == 'scalar':
        q = e.call(e.cls(M, 'NumericScalarPattern'), **kw)
    else:
        q = e.call(e.cls(M, 'NumericArrayPattern'), e.shape_of(d2), **kw)
    r = e.I.compare('==', p, q)
    r = e.term(r)
    same = [tm.boolc(shape == shape2), tm.boolc(f1 is f2), tm.iff(dv1.t, dv2.t)]
    if shape == shape2:
        for a, b in zip(d, d2):
            if isinstance(a, Block):
                same.append(eq(a.term, b.term))
            elif isinstance(a, S):
                same.append(eq(a.t, b.t))
    for a, b in ((lb, lb2), (ub, ub2)):
        if isinstance(a, S) != isinstance(b, S):
            same.append(FALSE)
        elif isinstance(a, S):
            same.append(eq(a.t, b.t))
    e.check('== exactly when type and settings agree', tm.iff(r, and_(*same)))


def pick(e, name, n):
    """a symbolic choice among n"""
    for i in range(n - 1):
        if e.decide(tm._mk('var', '%s=%d' % (name, i), (), 'Bool')):
            return i
    return n - 1


def c11(c, tier):
    for bn, hl, hu in BOUNDS:
        for sh in ('block', 'vec', 'mat', 'scalar'):
            for fd in (None, True, False):
                for via in ('class', 'loader'):
                    for dv in (True, False):
                        c.add('numeric %s bounds=%s JSON via %s free_default=%s default_validate=%s' %
                              (sh, bn, via, fd, dv), json_rt, sh, hl, hu, fd, dv, via)
            for b2, h2l, h2u in BOUNDS:
                c.add('numeric %s bounds=%s == bounds=%s' % (sh, bn, b2), equality, sh, hl, hu, h2l, h2u, sh)
    for a in ('block', 'vec', 'scalar'):
        for b in ('block', 'vec', 'scalar'):
            if a != b:
                c.add('numeric %s == %s' % (a, b), equality, a, False, False, False, False, b)


# ------------------------------------------------------------------ C22
def state(e, o):
    """what is observable of a pattern"""
    out = {'as_dict()': e.meth(o, 'as_dict'), 'free_default': e.attr(o, 'free_default')}
    for fr in (True, False):
        out['flat_length(free=%s)' % fr] = e.meth(o, 'flat_length', free=fr)
    for m in ('shape', 'array_shape', 'simplex_size', 'default_validate', 'keys', 'size', 'length'):
        if (m in o.attrs or o.cls.lookup(m)[0] is not None) and m not in ('keys',):
            v = e.attr(o, m)
            if isinstance(v, (Func, Bound, Bi)):
                v = e.I.call(v, [], {})
            out[m] = v
    return out


def same_state(e, o, st, what):
    now = state(e, o)
    for k in st:
        e.equal('%s: %s of the pattern is unchanged' % (what, k), now[k], st[k])


def pure(e, shape, hl, hu, free):
    p, d, lb, ub = numeric(e, shape, hl, hu, default_validate=e.bool('dv'))
    n = size_of(e, d)
    x = e.array('x', d, where=inside(lb, ub, strict=True))
    v = e.array('v', [n], where=inside(lb, ub, strict=True))
    b = e.array('sel', d, kind='b')
    e.remember(x, v, b)
    st = state(e, p)
    flat = e.meth(p, 'flatten', x, free=free)
    e.fresh_storage('flatten returns new storage', flat, x)
    y = e.meth(p, 'fold', v, free=free)
    if free:
        e.fresh_storage('free fold returns new storage', y, v)
    e.meth(p, 'validate_folded', x)
    e.meth(p, 'flat_indices', b, free=free)
    e.meth(p, 'flat_names', free)
    e.meth(p, 'freeing_jacobian', x)
    e.meth(p, 'unfreeing_jacobian', x, sparse=False)
    e.meth(p, 'log_abs_det_freeing_jacobian', x)
    e.meth(p, 'log_abs_det_unfreeing_jacobian', x)
    e.meth(p, 'to_json')
    e.meth(p, 'random')
    e.meth(p, 'empty', True)
    e.meth(p, 'empty_bool', True)
    e.unchanged()
    same_state(e, p, st, 'after every operation')
    # what was returned is not tied to the pattern's own arrays
    for k, a in p.attrs.items():
        if isinstance(a, Arr):
            for nm, r in (('flatten', flat), ('fold', y)):
                e.fresh_storage('%s does not return the pattern\'s own array' % nm, r, a)
    e.equal('flatten again gives the same', e.meth(p, 'flatten', x, free=free), flat)


def c22(c, tier):
    each(c, pure, '')

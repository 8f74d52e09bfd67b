"""PSDSymmetricMatrixPattern: every size and every diagonal bound >= 0.

The interior of the constraint set is given by its Cholesky factors: x = L L' + diag_lb I with L lower triangular and
with a positive diagonal (every positive-definite x - diag_lb I has exactly one such factor)."""
from .common import *
from .numeric import raised, report, state, same_state, dense_of, dd, pick, select_exactly
from .simplex import lin
from pv.npfun2 import tri


def build(e, dv=True, fd=None, lo=1):
    n = e.int('n', lo=lo)
    lb = e.real('lb')
    e.assume(le(ZERO, lb.t))
    p = e.call(e.cls('psdmatrix_patterns', 'PSDSymmetricMatrixPattern'), n, diag_lb=lb, default_validate=dv,
               free_default=fd)
    return p, n, lb


def flen(n, free):
    return tri(n.t) if free else mul(n.t, n.t)


def delta(i, j, t):
    return ite(eq(i, j), t, ZERO)


def factor(e, n, name='L'):
    """assumptions on the factor called name"""
    L = lambda i, j: tm.app(name, (i, j), 'Real')
    k, q = tm.scratch(), tm.scratch()
    e.assume(tm.all_(ZERO, n.t, k, tm.all_(ZERO, n.t, q, implies(lt(k, q), eq(L(k, q), ZERO)))))
    k = tm.scratch()
    e.assume(tm.all_(ZERO, n.t, k, lt(ZERO, L(k, k))))
    return L


def interior(e, n, lb, name='L'):
    L = factor(e, n, name)

    def content(idx):
        i, j = idx
        k = tm.scratch()
        return add(sum_(ZERO, n.t, k, mul(L(i, k), L(j, k))), delta(i, j, lb.t))
    x = e.np.new(e.I, [n.t, n.t], content, 'f')
    x.cell.name = 'x'
    return x


def symmetric(e, n, lb, name='x'):
    """a valid value: symmetric, diagonal at least the bound"""
    x = e.array(name, [n, n])
    e.assume(sym_ok(e, n, lb, lambda i, j: tm.app(name, (i, j), 'Real')))
    return x


def sym_ok(e, n, lb, at):
    i, j, k = tm.scratch(), tm.scratch(), tm.scratch()
    return and_(tm.all_(ZERO, n.t, i, tm.all_(ZERO, n.t, j, eq(at(i, j), at(j, i)))),
                tm.all_(ZERO, n.t, k, le(lb.t, at(k, k))))


def value(e, n, lb, free):
    return interior(e, n, lb) if free else symmetric(e, n, lb)


def each(c, fn, name='', frees=(False, True), extra=((),)):
    for free in frees:
        for x in extra:
            c.add('psd free=%s %s%s' % (free, name, x if x != () else ''), fn, free, *x)


def kwv(vv):
    return {} if vv is None else {'validate_value': vv}


def rt(e, free, vv):
    p, n, lb = build(e, dv=e.bool('dv'))
    x = value(e, n, lb, free)
    v = e.meth(p, 'flatten', x, free=free, **kwv(vv))
    y = e.meth(p, 'fold', v, free=free, **kwv(vv))
    e.elements('fold(flatten(x)) == x', y, lambda i: x.at(i), dims=[n.t, n.t])


def c01(c, tier):
    each(c, rt, extra=((None,), (True,), (False,)))


def back(e, free):
    p, n, lb = build(e, dv=e.bool('dv'))
    m = flen(n, free)
    v = e.array('v', [m])
    y, exc = e.attempt(e.meth, p, 'fold', v, free=free)
    if exc is not None:
        e.check('folding fails only in non-free mode', not free)
        return
    w = e.meth(p, 'flatten', y, free=free)
    if not free:
        e.elements('flatten(fold(v)) == v', w, lambda i: v.at(i), dims=[m])
        return
    # every entry of the free vector is the entry (i, j) of the lower triangle, for one i and one j
    if not e.is_arr('flatten(fold(v))', w, [m]):
        return
    i, j = tm.fresh('i', 'Int'), tm.fresh('j', 'Int')
    with e.cx.scope([le(ZERO, j), le(j, i), lt(i, n.t)]):
        k = add(tri_(i), j)
        e.same('flatten(fold(v)) == v', w.at((k,)), v.at((k,)))


def tri_(i):
    return mul(num(Fraction(1, 2)), i, add(i, ONE))


def c02(c, tier):
    each(c, back)


def in_set(e, name, y, n, lb):
    if not e.is_arr(name + ' has the folded shape', y, [n.t, n.t]):
        return
    i, j = tm.fresh('i', 'Int'), tm.fresh('j', 'Int')
    with e.cx.scope([le(ZERO, i), lt(i, n.t), le(ZERO, j), lt(j, n.t)]):
        e.same(name + ': symmetric', y.at((i, j)), y.at((j, i)))
        e.check(name + ': diagonal at least the bound', le(lb.t, y.at((i, i))))
    e.check(name + ': minus the bound, positive definite', e.w.gram(e.I, n.t, lambda i, j: sub(
        y.at((i, j)), delta(i, j, lb.t))) is not None)


def fold_valid(e, free):
    p, n, lb = build(e)
    v = e.array('v', [flen(n, True)])
    in_set(e, 'fold', e.meth(p, 'fold', v, free=True), n, lb)
    in_set(e, 'random', e.meth(p, 'random'), n, lb)
    in_set(e, 'empty', e.meth(p, 'empty', True), n, lb)
    e.is_arr('empty(valid=False) has the folded shape', e.meth(p, 'empty', False), [n.t, n.t])


def c03(c, tier):
    each(c, fold_valid, frees=(True,))


def lengths(e, free):
    p, n, lb = build(e, dv=e.bool('dv'))
    m = flen(n, free)
    e.same_int('flat_length', e.meth(p, 'flat_length', free=free), m)
    e.equal('shape()', e.meth(p, 'shape'), e.shape_of([n, n]))
    e.equal('size()', e.meth(p, 'size'), n)
    e.is_arr('flatten', e.meth(p, 'flatten', value(e, n, lb, free), free=free), [m])
    w = e.array('w', [m])
    y, exc = e.attempt(e.meth, p, 'fold', w, free=free, validate_value=False)
    if exc is not None:
        e.fail('fold accepts a vector of the flat length', repr(exc))
    else:
        e.is_arr('fold', y, [n.t, n.t])


def wrong_length(e, free, how):
    p, n, lb = build(e, dv=e.bool('dv'))
    m = flen(n, free)
    k = e.int('len')
    if how == 'length':
        e.assume(ne(k.t, m))
        w = e.array('w', [k])
    else:
        w = e.array('w', [k, e.int('cols')])
    e.raises('fold rejects it with ValueError', ValueError, e.meth, p, 'fold', w, free=free, validate_value=False)


def c04(c, tier):
    each(c, lengths)
    each(c, wrong_length, extra=(('length',), ('2d',)))


def validates(e, free, vv, op):
    dv = e.bool('dv')
    p, n, lb = build(e, dv=dv)
    chk = dv.t if vv is None else tm.boolc(vv)
    if op == 'fold':
        w = e.array('w', [flen(n, False)])
        y, exc = e.attempt(e.meth, p, 'fold', w, free=False, **kwv(vv))
        raised(e, exc, implies(chk, sym_ok(e, n, lb, lambda i, j: w.at((add(mul(i, n.t), j),)))))
        return
    x = e.array('x', [n, n])
    ok = implies(chk, sym_ok(e, n, lb, lambda i, j: x.at((i, j))))
    if op == 'validate':
        report(e, e.meth(p, 'validate_folded', x, **kwv(vv)), ok)
    else:
        if free:
            # a valid value in the interior of the set, or an invalid one
            e.assume(implies(ok, e.w.is_pd(e.I, n.t, lambda i, j: sub(x.at((i, j)), delta(i, j, lb.t)))))
        v, exc = e.attempt(e.meth, p, 'flatten', x, free=free, **kwv(vv))
        raised(e, exc, ok)


def bad_shape(e, free, how):
    p, n, lb = build(e, dv=e.bool('dv'))
    m = e.int('m2')
    e.assume(ne(m.t, n.t))
    D = {'rows': [m, n], 'columns': [n, m], 'vector': [mul(n.t, n.t)], '3d': [n, n, m]}[how]
    x = e.array('x', D)
    for vv in (None, True, False):
        report(e, e.meth(p, 'validate_folded', x, **kwv(vv)), FALSE)
    e.raises('flatten raises ValueError', ValueError, e.meth, p, 'flatten', x, free=free)


def bad_bound(e, free):
    n = e.int('n', lo=1)
    lb = e.real('lb')
    e.assume(lt(lb.t, ZERO))
    e.raises('a negative bound is rejected', ValueError, e.call,
             e.cls('psdmatrix_patterns', 'PSDSymmetricMatrixPattern'), n, diag_lb=lb)


def c05(c, tier):
    for op in ('validate', 'flatten', 'fold'):
        each(c, validates, op, frees=(False, True) if op == 'flatten' else (False,),
             extra=((None, op), (True, op), (False, op)))
    each(c, bad_shape, 'shape', extra=(('rows',), ('columns',), ('vector',), ('3d',)))
    each(c, bad_bound, 'diag_lb < 0', frees=(None,))


def modes(e, free, fd):
    p, n, lb = build(e, fd=fd)
    x = interior(e, n, lb)
    b = e.array('sel', [n, n], kind='b')
    e.assume(b.at((ZERO, ZERO)))
    mode = free if free is not None else fd
    kw = {} if free is None else {'free': free}
    ops = [('flatten', x), ('flat_length',), ('flat_indices', b)]
    if mode is not None:
        ops.append(('fold', e.meth(p, 'flatten', x, free=mode)))
    else:
        ops.append(('fold', e.array('v', [flen(n, True)])))
    for op in ops:
        for kws in ([kw] if free is not None else [{}, {'free': None}]):
            if mode is None:
                e.raises('%s without a mode raises ValueError' % op[0], ValueError, e.meth, p, *op, **kws)
            else:
                e.equal('%s uses the resolved mode' % op[0], e.meth(p, *op, **kws), e.meth(p, *op, free=mode))
    if mode is None:
        e.raises('flat_names without a mode raises ValueError', ValueError, e.meth, p, 'flat_names', None)
    else:
        e.equal('flat_names uses the resolved mode', e.meth(p, 'flat_names', free), e.meth(p, 'flat_names', mode))


def c06(c, tier):
    each(c, modes, frees=(None, True, False), extra=((None,), (True,), (False,)))


def layout(e, free, what):
    p, n, lb = build(e)
    i, j = tm.fresh('i', 'Int'), tm.fresh('j', 'Int')
    rng = [le(ZERO, i), lt(i, n.t), le(ZERO, j), lt(j, n.t)]
    if what == 'names':
        e.same('as many names as flat entries', e.I.length(e.meth(p, 'flat_names', free)), flen(n, free))
    elif what == 'flatten':
        x = symmetric(e, n, lb)
        v = e.meth(p, 'flatten', x, free=False)
        if e.is_arr('flatten', v, [flen(n, False)]):
            with e.cx.scope(rng):
                e.same('row-major', v.at((add(mul(i, n.t), j),)), x.at((i, j)))
    else:
        w = e.array('w', [flen(n, False)])
        y = e.meth(p, 'fold', w, free=False, validate_value=False)
        if e.is_arr('fold', y, [n.t, n.t]):
            with e.cx.scope(rng):
                e.same('row-major', y.at((i, j)), w.at((add(mul(i, n.t), j),)))


def c07(c, tier):
    each(c, layout, extra=(('names',),))
    each(c, layout, frees=(False,), extra=(('flatten',), ('fold',)))


def indices(e, free):
    p, n, lb = build(e)
    b = e.array('sel', [n, n], kind='b')
    r = e.meth(p, 'flat_indices', b, free=free)
    if not free:
        select_exactly(e, r, b, flen(n, False), lambda idx: add(mul(idx[0], n.t), idx[1]))
        return
    if not isinstance(r, Arr) or len(r.shape) != 1:
        e.fail('flat_indices returns a vector', repr(r))
        return
    e.check('integer indices', r.kind == 'i', r.kind)
    i, j = tm.scratch(), tm.scratch()
    some = tm.ex_(ZERO, n.t, i, tm.ex_(ZERO, n.t, j, b.at((i, j))))
    m = r.shape[0]
    with e.cx.scope([not_(some)]):
        e.same('nothing selected: empty', m, ZERO)
    with e.cx.scope([some]):
        # an entry of the matrix may depend on any entry of its row and column of the factor; all are listed
        if m is not ZERO:
            e.same('every free entry', m, flen(n, True))
            k = tm.fresh('k', 'Int')
            with e.cx.scope([le(ZERO, k), lt(k, m)]):
                e.same('every free entry, in order', r.at((k,)), k)
        else:
            e.check('every free entry', FALSE)


def wrong_selection(e, free):
    p, n, lb = build(e)
    m = e.int('m2')
    e.assume(ne(m.t, n.t))
    b = e.array('sel', [m, n], kind='b')
    e.assume(lt(ZERO, m.t))
    e.assume(b.at((ZERO, ZERO)))
    e.raises('a selection of another shape is rejected', ValueError, e.meth, p, 'flat_indices', b, free=free)


def c08(c, tier):
    each(c, indices)
    each(c, wrong_selection, 'shape')


def json_rt(e, free, dv, via):
    p, n, lb = build(e, dv=dv, fd=free)
    js = e.meth(p, 'to_json')
    q = e.call(e.attr(p.cls, 'from_json'), js) if via == 'class' else \
        e.call(e.get('pattern_containers', 'get_pattern_from_json'), js)
    if not isinstance(q, Obj):
        e.fail('a pattern is returned', repr(q))
        return
    e.check('same type', q.cls is p.cls)
    for m in ('shape', 'size', 'diag_lb'):
        e.equal('restored: ' + m, e.meth(q, m), e.meth(p, m))
    for m in ('default_validate', 'free_default'):
        e.equal('restored: ' + m, e.attr(q, m), e.attr(p, m))
    for fr in (True, False):
        e.equal('restored: flat length', e.meth(q, 'flat_length', free=fr), e.meth(p, 'flat_length', free=fr))
    e.true('restored == original', e.I.compare('==', q, p))


def equality(e, free):
    f1 = [None, True, False][pick(e, 'fd1', 3)]
    f2 = [None, True, False][pick(e, 'fd2', 3)]
    dv1, dv2 = e.bool('dv1'), e.bool('dv2')
    p, n, lb = build(e, dv=dv1, fd=f1)
    n2, lb2 = e.int('n2', lo=1), e.real('lb2')
    e.assume(le(ZERO, lb2.t))
    q = e.call(e.cls('psdmatrix_patterns', 'PSDSymmetricMatrixPattern'), n2, diag_lb=lb2, default_validate=dv2,
               free_default=f2)
    r = e.term(e.I.compare('==', p, q))
    e.check('== exactly when the settings agree', tm.iff(r, and_(eq(n.t, n2.t), eq(lb.t, lb2.t), tm.boolc(f1 is f2),
                                                                 tm.iff(dv1.t, dv2.t))))


def c11(c, tier):
    each(c, json_rt, frees=(None, True, False), extra=[(dv, via) for dv in (True, False)
                                                       for via in ('class', 'loader')])
    each(c, equality, '==', frees=(None,))


def pure(e, free):
    p, n, lb = build(e, dv=e.bool('dv'))
    x = interior(e, n, lb)
    b = e.array('sel', [n, n], kind='b')
    w = e.meth(p, 'flatten', x, free=free)
    v = e.np.new(e.I, w.shape, w.snap(), 'f')
    e.remember(x, b, v)
    st = state(e, p)
    flat = e.meth(p, 'flatten', x, free=free)
    e.fresh_storage('flatten returns new storage', flat, x)
    y = e.meth(p, 'fold', v, free=free)
    if free:
        e.fresh_storage('free fold returns new storage', y, v)
    e.meth(p, 'validate_folded', x)
    e.meth(p, 'flat_indices', b, free=free)
    e.meth(p, 'flat_names', free)
    e.meth(p, 'to_json')
    e.meth(p, 'empty', True)
    e.unchanged()
    same_state(e, p, st, 'after every operation')
    e.equal('flatten again gives the same', e.meth(p, 'flatten', x, free=free), flat)


def c22(c, tier):
    each(c, pure)


# ------------------------------------------------------------------ C09
def jacobian(e, free, which, sparse):
    from pv.diff import diff, entry
    from pv.deps import dual, undual
    p, n, lb = build(e)
    x = interior(e, n, lb)
    kw = {} if sparse is None else {'sparse': sparse}
    J = e.meth(p, which, x, **kw)
    issp = isinstance(J, Opaque) and J.tag == 'sparse'
    e.check('sparse or dense as asked', issp == (sparse is not False), repr(J))
    J = dense_of(e, J)
    fr = which == 'freeing_jacobian'
    if not e.is_arr('Jacobian', J, [flen(n, fr), flen(n, not fr)]):
        return
    src = e.meth(p, 'flatten', x, free=not fr)
    w, name = dual(e.I, src)
    y = e.meth(p, 'flatten', e.meth(p, 'fold', w, free=not fr), free=fr)
    i, j = tm.fresh('i', 'Int'), tm.fresh('j', 'Int')
    with e.cx.scope([le(ZERO, i), lt(i, flen(n, fr)), le(ZERO, j), lt(j, flen(n, not fr))]):
        e.same('entry is the partial derivative', J.at((i, j)), undual(e.I, diff(y.at((i,)), entry(name, (j,)))))


def rules(e, free):
    """the derivative rules registered for the map from the free vector to the lower triangle"""
    from pv.diff import diff
    e.mod('psdmatrix_patterns')
    n = e.int('n', lo=1)
    prims = {k for k in list(e.w.vjps) + list(e.w.jvps)
             if isinstance(k, Opaque) and k.tag == 'primitive' and
             getattr(k.f, 'module', '').endswith('psdmatrix_patterns')}
    for f in sorted(prims, key=lambda q: q.name):
        e.entry.add(f.name)
        v = e.array('v', [tri(n.t)])
        ans = e.call(f, v)
        if not e.is_arr('the lower triangle', ans, [n.t, n.t]):
            continue
        i, j = tm.fresh('i', 'Int'), tm.fresh('j', 'Int')
        rng = [le(ZERO, i), lt(i, n.t), le(ZERO, j), lt(j, n.t)]
        if 0 in e.w.jvps.get(f, {}):
            g = e.array('g', [tri(n.t)])
            d = e.call(e.w.jvps[f][0], g, ans, v)
            if e.is_arr('forward rule', d, [n.t, n.t]):
                with e.cx.scope(rng):
                    want = diff(ans.at((i, j)), lambda t: tm.app('g', t.args, 'Real')
                                if t.op == 'app' and t.val == 'v' else None)
                    e.same('forward rule: the directional derivative', d.at((i, j)), want)
        if 0 in e.w.vjps.get(f, {}):
            h = e.array('h', [n, n])
            d = e.call(e.call(e.w.vjps[f][0], ans, v), h)
            if e.is_arr('reverse rule', d, [tri(n.t)]):
                # ans(i, j) is entry k(i, j) of the vector or 0: the adjoint collects h(i, j) at k(i, j)
                with e.cx.scope(rng):
                    with e.cx.scope([le(j, i)]):
                        k = add(tri_(i), j)
                        e.same('the entry of the vector', ans.at((i, j)), v.at((k,)))
                        e.same('reverse rule: the adjoint', d.at((k,)), h.at((i, j)))
                    with e.cx.scope([lt(i, j)]):
                        e.same('the other entries do not depend on the vector', ans.at((i, j)), ZERO)
    if not prims:
        e.check('no rules are registered', True)


def c09(c, tier):
    each(c, jacobian, frees=(None,),
         extra=[(w, s) for w in ('freeing_jacobian', 'unfreeing_jacobian') for s in (None, True, False)])
    each(c, rules, 'derivative rules', frees=(None,))

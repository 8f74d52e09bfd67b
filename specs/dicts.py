"""PatternDict with any number of members, each any pattern (known by the contract of Pattern only)."""
from .common import *
from .numeric import raised, report, state, same_state, dense_of
from pv.sympat import pat


def keyname(i):
    return SStr((('t', tm.app('key', (i,), 'U:Key')),))


def member(i):
    return tm.app('pat', (i,), 'U:Pat')


def build(e, fd=None, m=None, first=None):
    """(dictionary with M members filled through its public interface, M)"""
    M = e.int('M') if m is None else m
    D = e.call(e.cls('pattern_containers', 'PatternDict'), free_default=fd)
    e.entry.add('PatternDict.__setitem__')
    e.I.sym_loop(M.t, lambda k: k, lambda k: e.I.setitem(D, keyname(k), pat(member(k))))
    return D, M


def FL(k, free):
    return tm.app('FL', (member(k), tm.boolc(free)), 'Int')


def off(k, free):
    q = tm.scratch()
    return sum_(ZERO, k, q, FL(q, free))


def xt(k):
    return tm.app('x', (k,), 'U:Val')


def valid(k, v, c):
    return tm.app('VALID', (member(k), v, c), 'Bool')


def value(e, M, check=TRUE, ok=True, t=xt):
    """a folded value; ok: every member value is valid"""
    x = PDict(e.cx, [DRep(M.t, keyname, lambda k: SymVal(t(k)))], True)
    if ok:
        q = tm.scratch()
        e.assume(tm.all_(ZERO, M.t, q, and_(valid(q, t(q), TRUE), valid(q, t(q), FALSE))))
    return x


def each(c, fn, name='', frees=(False, True), extra=((),)):
    for free in frees:
        for x in extra:
            c.add('dict free=%s %s%s' % (free, name, x if x != () else ''), fn, free, *x)


def kwv(vv):
    return {} if vv is None else {'validate_value': vv}


def rt(e, free, vv):
    D, M = build(e)
    x = value(e, M)
    v = e.meth(D, 'flatten', x, free=free, **kwv(vv))
    y = e.meth(D, 'fold', v, free=free, **kwv(vv))
    if not isinstance(y, PDict):
        e.fail('a dictionary is returned', repr(y))
        return
    e.equal('fold(flatten(x)) == x', y, x)


def c01(c, tier):
    each(c, rt, extra=((None,), (True,), (False,)))


def back(e, free):
    D, M = build(e)
    n = off(M.t, free)
    v = e.array('v', [n])
    y, exc = e.attempt(e.meth, D, 'fold', v, free=free)
    if exc is not None:
        e.check('folding fails only in non-free mode', not free)
        return
    w = e.meth(D, 'flatten', y, free=free)
    e.elements('flatten(fold(v)) == v', w, lambda i: v.at(i), dims=[n])


def c02(c, tier):
    each(c, back)


def all_valid(e, name, y, M):
    if not isinstance(y, PDict):
        e.fail(name + ' is a dictionary', repr(y))
        return
    with_keys(e, name, y, M, lambda k, v: e.check(name + ': every member is valid', valid(k, v.t, TRUE))
              if isinstance(v, SymVal) else e.fail(name + ': member value', repr(v)))


def with_keys(e, name, y, M, fn):
    """the keys are the M keys in order; fn(k, value)"""
    if not y.segs and e.cx.prove(eq(M.t, ZERO)):
        e.check(name + ': no keys', True)
        return
    if len(y.segs) != 1 or not isinstance(y.segs[0], DRep):
        e.fail(name + ': the keys are those of the pattern', repr(y))
        return
    s = y.segs[0]
    e.check(name + ': number of keys', eq(s.n, M.t))
    k = tm.fresh('j', 'Int')
    with e.cx.scope([le(ZERO, k), lt(k, M.t)]):
        e.check(name + ': keys', e.key_eq(s.key(k), keyname(k)))
        fn(k, s.val(k))


def fold_valid(e, free):
    D, M = build(e)
    v = e.array('v', [off(M.t, True)])
    all_valid(e, 'fold', e.meth(D, 'fold', v, free=True), M)
    all_valid(e, 'random', e.meth(D, 'random'), M)
    all_valid(e, 'empty', e.meth(D, 'empty', True), M)
    e.meth(D, 'empty', False)


def c03(c, tier):
    each(c, fold_valid, frees=(True,))


def lengths(e, free):
    D, M = build(e)
    n = off(M.t, free)
    e.same_int('flat_length', e.meth(D, 'flat_length', free=free), n)
    x = value(e, M)
    e.is_arr('flatten', e.meth(D, 'flatten', x, free=free), [n])
    w = e.array('w', [n])
    y, exc = e.attempt(e.meth, D, 'fold', w, free=free, validate_value=False)
    if exc is not None:
        e.fail('fold accepts a vector of the flat length', repr(exc))
    elif isinstance(y, PDict):
        with_keys(e, 'fold', y, M, lambda k, v: e.check('member values', isinstance(v, SymVal)))
    else:
        e.fail('fold gives a dictionary', repr(y))
    y = e.meth(D, 'empty', False)
    with_keys(e, 'empty', y, M, lambda k, v: e.check('member values', isinstance(v, SymVal)))


def wrong_length(e, free, how):
    D, M = build(e)
    n = off(M.t, free)
    m = e.int('len')
    if how == 'length':
        e.assume(ne(m.t, n))
        w = e.array('w', [m])
    else:
        w = e.array('w', [m, e.int('cols')])
    e.raises('fold rejects it with ValueError', ValueError, e.meth, D, 'fold', w, free=free, validate_value=False)


def c04(c, tier):
    each(c, lengths)
    each(c, wrong_length, extra=(('length',), ('2d',)))


def ok_term(M, t, vv):
    q = tm.scratch()
    c = tm.app('DV', (member(q),), 'Bool') if vv is None else tm.boolc(vv)
    return tm.all_(ZERO, M.t, q, valid(q, t(q), c))


def validates(e, free, vv, op):
    D, M = build(e)
    if op == 'fold':
        w = e.array('w', [off(M.t, False)])
        y, exc = e.attempt(e.meth, D, 'fold', w, free=False, **kwv(vv))

        def folded(q):
            j = tm.scratch()
            return tm.app('FOLD', (member(q), FALSE, tm.lam_(FL(q, False), j, w.at((add(off(q, False), j),)))), 'U:Val')
        raised(e, exc, ok_term(M, folded, vv))
        return
    x = value(e, M, ok=False)
    ok = ok_term(M, xt, vv)
    if op == 'validate':
        report(e, e.meth(D, 'validate_folded', x, **kwv(vv)), ok)
    else:
        v, exc = e.attempt(e.meth, D, 'flatten', x, free=free, **kwv(vv))
        raised(e, exc, ok)


def missing(e, free, vv):
    """a value without one of the keys"""
    D, M = build(e)
    x = value(e, M)
    i = e.int('i')
    e.assume(lt(i.t, M.t))
    e.I.delitem(x, keyname(i.t))
    report(e, e.meth(D, 'validate_folded', x, **kwv(vv)), FALSE)
    e.raises('flatten raises ValueError', ValueError, e.meth, D, 'flatten', x, free=free, **kwv(vv))
    e.raises('flat_indices raises ValueError', ValueError, e.meth, D, 'flat_indices', x, free=free)


def c05(c, tier):
    for op in ('validate', 'flatten', 'fold'):
        each(c, validates, op, frees=(False, True) if op == 'flatten' else (False,),
             extra=((None, op), (True, op), (False, op)))
    each(c, missing, 'key missing', extra=((None,), (True,), (False,)))


def modes(e, free, fd, which):
    D, M = build(e, fd=fd)
    x = value(e, M)
    b = value(e, M, ok=False, t=lambda k: tm.app('b', (k,), 'U:Val'))
    q = tm.scratch()
    e.assume(tm.all_(ZERO, M.t, q, valid(q, tm.app('b', (q,), 'U:Val'), FALSE)))
    mode = free if free is not None else fd
    kw = {} if free is None else {'free': free}
    ops = [('flatten', x), ('flat_length',), ('flat_indices', b)]
    if mode is not None:
        ops.append(('fold', e.meth(D, 'flatten', x, free=mode)))
    else:
        ops.append(('fold', e.array('v', [off(M.t, True)])))
    for op in ops:
        if op[0] != which:
            continue
        for kws in ([kw] if free is not None else [{}, {'free': None}]):
            if mode is None:
                e.raises('%s without a mode raises ValueError' % op[0], ValueError, e.meth, D, *op, **kws)
            else:
                r = e.meth(D, *op, **kws)
                e.equal('%s uses the resolved mode' % op[0], r, e.meth(D, *op, free=mode))
    if which != 'flat_names':
        return
    if mode is None:
        e.raises('flat_names without a mode raises ValueError', ValueError, e.meth, D, 'flat_names', None)
    else:
        r = e.meth(D, 'flat_names', free)
        e.equal('flat_names uses the resolved mode', r, e.meth(D, 'flat_names', mode))
    if mode is None:
        return
    # every member is used in the resolved mode
    k, j = tm.fresh('k', 'Int'), tm.fresh('j', 'Int')
    v = e.meth(D, 'flatten', x, **kw)
    e.same_int('flat_length: members in the resolved mode', e.meth(D, 'flat_length', **kw), off(M.t, mode))
    with e.cx.scope([le(ZERO, k), lt(k, M.t), le(ZERO, j), lt(j, FL(k, mode))]):
        e.same('flatten: members in the resolved mode', v.at((add(off(k, mode), j),)),
               tm.app('FLAT', (member(k), tm.boolc(mode), xt(k), j), 'Real'))


def c06(c, tier):
    each(c, modes, frees=(None, True, False), extra=[(fd, w) for fd in (None, True, False) for w in
                                                         ('flatten', 'flat_length', 'flat_indices', 'fold', 'flat_names')])


def layout(e, free, what):
    D, M = build(e)
    x = value(e, M)
    n = off(M.t, free)
    k, j = tm.fresh('k', 'Int'), tm.fresh('j', 'Int')
    rng = [le(ZERO, k), lt(k, M.t), le(ZERO, j), lt(j, FL(k, free))]
    if what == 'flatten':
        v = e.meth(D, 'flatten', x, free=free)
        if e.is_arr('flatten', v, [n]):
            with e.cx.scope(rng):
                e.same('members in insertion order', v.at((add(off(k, free), j),)),
                       tm.app('FLAT', (member(k), tm.boolc(free), xt(k), j), 'Real'))
    elif what == 'fold':
        w = e.array('w', [n])
        y, exc = e.attempt(e.meth, D, 'fold', w, free=free, validate_value=False)
        if exc is not None:
            e.fail('fold', repr(exc))
            return

        def mem(k, v):
            q = tm.scratch()
            want = tm.app('FOLD', (member(k), tm.boolc(free), tm.lam_(FL(k, free), q, w.at((add(off(k, free), q),)))),
                          'U:Val')
            e.equal('each member from its own part of the vector', v, SymVal(want))
        with_keys(e, 'fold', y, M, mem)
    else:
        kw = {} if what == 'names' else {'delim': '::'}
        d = '_' if what == 'names' else '::'
        names = e.meth(D, 'flat_names', free, **kw)
        e.same('as many names as flat entries', e.I.length(names), n)
        with e.cx.scope(rng):
            got = e.I.getitem(names, S(add(off(k, free), j)))
            nm = SStr((('t', tm.app('NAME', (member(k), tm.boolc(free), j), 'U:Key')),))
            e.equal('name of the entry', got, e.I.mkstr(list(keyname(k).parts) + [d] + list(nm.parts)))


def c07(c, tier):
    each(c, layout, extra=(('flatten',), ('fold',), ('names',), ('names, other delimiter',)))


def indices(e, free):
    D, M = build(e)
    bt = lambda k: tm.app('b', (k,), 'U:Val')
    b = value(e, M, ok=False, t=bt)
    q = tm.scratch()
    e.assume(tm.all_(ZERO, M.t, q, valid(q, bt(q), FALSE)))
    r = e.meth(D, 'flat_indices', b, free=free)
    nfi = lambda k: tm.app('NFI', (member(k), tm.boolc(free), bt(k)), 'Int')
    q = tm.scratch()
    if not e.is_arr('flat_indices', r, [sum_(ZERO, M.t, q, nfi(q))]):
        return
    e.check('integer indices', r.kind == 'i', r.kind)
    k, t = tm.fresh('k', 'Int'), tm.fresh('t', 'Int')
    with e.cx.scope([le(ZERO, k), lt(k, M.t), le(ZERO, t), lt(t, nfi(k))]):
        q = tm.scratch()
        e.same('the indices of member k, moved to its part of the vector', r.at((add(sum_(ZERO, k, q, nfi(q)), t),)),
               add(off(k, free), tm.app('FI', (member(k), tm.boolc(free), bt(k), t), 'Int')))


def c08(c, tier):
    each(c, indices)


def jacobian(e, free, which, sparse):
    D, M = build(e)
    x = value(e, M)
    kw = {} if sparse is None else {'sparse': sparse}
    J = e.meth(D, which, x, **kw)
    issp = isinstance(J, Opaque) and J.tag == 'sparse'
    e.check('sparse or dense as asked', issp == (sparse is not False), repr(J))
    J = dense_of(e, J)
    fr = which == 'freeing_jacobian'
    nm = 'FJ' if fr else 'UFJ'
    if not e.is_arr('Jacobian', J, [off(M.t, fr), off(M.t, not fr)]):
        return
    # rows of the output layout, columns of the input layout
    s, t, i, j = [tm.fresh(z, 'Int') for z in 'stij']
    with e.cx.scope([le(ZERO, s), lt(s, M.t), le(ZERO, t), lt(t, M.t), le(ZERO, i), lt(i, FL(s, fr)),
                     le(ZERO, j), lt(j, FL(t, not fr))]):
        got = J.at((add(off(s, fr), i), add(off(t, not fr), j)))
        with e.cx.scope([eq(s, t)]):
            e.same('block of a member', got, tm.app(nm, (member(s), xt(s), i, j), 'Real'))
        with e.cx.scope([ne(s, t)]):
            e.same('no dependence between members', got, ZERO)


def c09(c, tier):
    each(c, jacobian, frees=(None,),
         extra=[(w, s) for w in ('freeing_jacobian', 'unfreeing_jacobian') for s in (None, True, False)])


def logdet(e, free):
    D, M = build(e)
    x = value(e, M)
    for m, f in (('log_abs_det_freeing_jacobian', 'LADF'), ('log_abs_det_unfreeing_jacobian', 'LADU')):
        q = tm.scratch()
        e.same('%s is the sum over the blocks' % m, e.meth(D, m, x),
               sum_(ZERO, M.t, q, tm.app(f, (member(q), xt(q)), 'Real')))


def c10(c, tier):
    each(c, logdet, frees=(None,))


def json_rt(e, free, via):
    D, M = build(e, fd=free)
    js = e.meth(D, 'to_json')
    E = e.call(e.attr(D.cls, 'from_json'), js) if via == 'class' else \
        e.call(e.get('pattern_containers', 'get_pattern_from_json'), js)
    if not isinstance(E, Obj):
        e.fail('a pattern is returned', repr(E))
        return
    e.check('same type', E.cls is D.cls)
    e.equal('restored: free_default', e.attr(E, 'free_default'), e.attr(D, 'free_default'))
    for fr in (True, False):
        e.equal('restored: flat length', e.meth(E, 'flat_length', free=fr), e.meth(D, 'flat_length', free=fr))
    k = tm.fresh('k', 'Int')
    with e.cx.scope([le(ZERO, k), lt(k, M.t)]):
        e.equal('restored: members', e.I.getitem(E, keyname(k)), pat(member(k)))
    e.true('restored == original', e.I.compare('==', E, D))
    e.equal('restored: key order', e.meth(E, 'empty', False), e.meth(D, 'empty', False))


def c11(c, tier):
    each(c, json_rt, frees=(None, True, False), extra=(('class',), ('loader',)))


def pure(e, free):
    D, M = build(e)
    x = value(e, M)
    bt = lambda k: tm.app('b', (k,), 'U:Val')
    b = value(e, M, ok=False, t=bt)
    q = tm.scratch()
    e.assume(tm.all_(ZERO, M.t, q, valid(q, bt(q), FALSE)))
    w = e.meth(D, 'flatten', x, free=free)
    v = e.np.new(e.I, w.shape, w.snap(), 'f')
    e.remember(v)
    xs, bs = x.segs, b.segs
    st = state(e, D)
    flat = e.meth(D, 'flatten', x, free=free)
    y = e.meth(D, 'fold', v, free=free)
    e.check('fold returns a new dictionary', y is not x)
    e.meth(D, 'validate_folded', x)
    e.meth(D, 'flat_indices', b, free=free)
    e.meth(D, 'flat_names', free)
    e.meth(D, 'freeing_jacobian', x)
    e.meth(D, 'unfreeing_jacobian', x, sparse=False)
    e.meth(D, 'log_abs_det_freeing_jacobian', x)
    e.meth(D, 'log_abs_det_unfreeing_jacobian', x)
    e.meth(D, 'to_json')
    e.meth(D, 'empty', True)
    e.unchanged()
    e.check('the value dictionary is not modified', x.segs == xs and b.segs == bs)
    same_state(e, D, st, 'after every operation')
    e.equal('flatten again gives the same', e.meth(D, 'flatten', x, free=free), flat)


def c22(c, tier):
    each(c, pure)


# ------------------------------------------------------------------ C13
def size_of_dict(d):
    t = ZERO
    for s in d.segs:
        t = add(t, ONE if isinstance(s, DOne) else s.n)
    return t


def nth(e, d, k):
    """the k-th (key, value) of a dictionary, for a k whose segment is determined"""
    o = ZERO
    for s in d.segs:
        n = ONE if isinstance(s, DOne) else s.n
        if e.cx.prove(and_(le(o, k), lt(k, add(o, n)))):
            return (s.k, s.v) if isinstance(s, DOne) else (s.key(sub(k, o)), s.val(sub(k, o)))
        o = add(o, n)
    return None


def same_dict(e, name, a, b, cuts):
    """equal entries in the same order; cuts: indices at which the representation may change"""
    n = size_of_dict(b)
    if not e.check(name + ': number of entries', eq(size_of_dict(a), n)):
        return
    k = tm.fresh('k', 'Int')
    regions = []
    for c in cuts:
        regions += [[eq(k, c)]]
    lo = ZERO
    for c in list(cuts) + [n]:
        regions.append([le(lo, k), lt(k, c)])
        lo = add(c, ONE)
    for r in regions:
        with e.cx.scope([le(ZERO, k), lt(k, n)] + r):
            if e.cx.prove(FALSE):
                continue
            x, y = nth(e, a, k), nth(e, b, k)
            if x is None or y is None:
                e.fail(name + ': entries', '%r and %r' % (a, b))
                return
            e.check(name + ': key', e.key_eq(x[0], y[0]), '%r and %r' % (x[0], y[0]))
            if isinstance(x[1], PDict) and isinstance(y[1], PDict):
                e.fail(name, 'nested dictionaries')
            else:
                e.equal(name + ': value', x[1], y[1])


def same_pattern(e, name, a, b, cuts):
    """two dictionary patterns are in the same state"""
    e.check(name + ': same attributes', set(a.attrs) == set(b.attrs), '%s' % (set(a.attrs) ^ set(b.attrs)))
    for k, v in b.attrs.items():
        w = a.attrs.get(k)
        if isinstance(v, PDict) and isinstance(w, PDict):
            same_dict(e, '%s: %s' % (name, k), w, v, cuts)
        elif isinstance(v, (int, float, S, str, tuple, PList, Arr)) or v is None:
            e.equal('%s: %s' % (name, k), w, v)


def observe(e, name, D, n, key, p, cuts, last=None, gone=None, new=None):
    """the dictionary has exactly the members key(k) -> p(k), k < n, in this order"""
    ks = e.meth(D, 'keys')
    q = tm.scratch()
    e.same(name + ': number of keys', e.I.length(ks), n)
    for fr in (True, False):
        q = tm.scratch()
        forms = [sum_(ZERO, n, q, tm.app('FL', (p(q), tm.boolc(fr)), 'Int')) if last is None else
                 add(sum_(ZERO, sub(n, ONE), q, FL(q, fr)), tm.app('FL', (last, tm.boolc(fr)), 'Int'))]
        if gone is not None:
            # the same sum, cut at the deleted member
            forms.append(add(sum_(ZERO, gone, q, FL(q, fr)), sum_(add(gone, ONE), add(n, ONE), q, FL(q, fr))))
        if new is not None:
            i, r = new
            forms.append(add(sum_(ZERO, n, q, FL(q, fr)), sub(tm.app('FL', (r, tm.boolc(fr)), 'Int'), FL(i, fr))))
        got = e.term(e.meth(D, 'flat_length', free=fr))
        want = [w for w in forms[1:] if got is not forms[0] and e.cx.prove(eq(got, w))]
        e.same(name + ': flat length is the sum', got, (want + forms)[0])
    # the keys in order, by an operation that visits the members
    y = e.meth(D, 'empty', False)
    z = PDict(e.cx, [DRep(n, key, lambda k: SymVal(tm.app('EMPTY', (p(k), FALSE), 'U:Val')))], True)
    same_dict(e, name + ': members in order', y, z, cuts)
    k = tm.fresh('k', 'Int')
    for r in [[eq(k, c)] for c in cuts] + [[ne(k, c) for c in cuts]]:
        with e.cx.scope([le(ZERO, k), lt(k, n)] + r):
            if not e.cx.prove(FALSE):
                e.equal(name + ': member of a key', e.I.getitem(D, key(k)), pat(p(k)))


def fresh_dict(e, n, key, p):
    E = e.call(e.cls('pattern_containers', 'PatternDict'), free_default=None)
    e.I.sym_loop(n, lambda k: k, lambda k: e.I.setitem(E, key(k), pat(p(k))))
    return E


def history(e, free, op):
    D, M = build(e)
    q = tm.var('q', 'U:Pat')
    if op == 'fill':
        observe(e, 'after setting new members', D, M.t, keyname, member, [])
        return
    i = e.int('i')
    e.assume(lt(i.t, M.t))
    if op == 'set new':
        e.I.setitem(D, keyname(M.t), pat(q))
        n, key = add(M.t, ONE), keyname
        p = lambda k: ite(eq(k, M.t), q, member(k))
        cuts = [M.t]
    elif op == 'replace':
        e.I.setitem(D, keyname(i.t), pat(q))
        n, key = M.t, keyname
        p = lambda k: ite(eq(k, i.t), q, member(k))
        cuts = [i.t]
    elif op == 'delete':
        e.I.delitem(D, keyname(i.t))
        n = sub(M.t, ONE)
        sh = lambda k: ite(lt(k, i.t), k, add(k, ONE))
        key, p = (lambda k: keyname(sh(k))), (lambda k: member(sh(k)))
        cuts = [i.t]
    observe(e, 'after: ' + op, D, n, key, p, cuts, q if op == 'set new' else None,
            i.t if op == 'delete' else None, (i.t, q) if op == 'replace' else None)


def canonical(e, free, op):
    """the state after an operation is the state of a dictionary filled with the surviving members: what happens
    later does not depend on the history"""
    D, M = build(e)
    q = tm.var('q', 'U:Pat')
    i = e.int('i')
    e.assume(lt(i.t, M.t))
    if op == 'set new':
        e.I.setitem(D, keyname(M.t), pat(q))
        E = fresh_dict(e, add(M.t, ONE), keyname, lambda k: ite(eq(k, M.t), q, member(k)))
        cuts = [M.t]
    elif op == 'replace':
        e.I.setitem(D, keyname(i.t), pat(q))
        E = fresh_dict(e, M.t, keyname, lambda k: ite(eq(k, i.t), q, member(k)))
        cuts = [i.t]
    else:
        e.I.delitem(D, keyname(i.t))
        sh = lambda k: ite(lt(k, i.t), k, add(k, ONE))
        E = fresh_dict(e, sub(M.t, ONE), lambda k: keyname(sh(k)), lambda k: member(sh(k)))
        cuts = [i.t]
    same_pattern(e, 'state after ' + op, D, E, cuts)


def locked(e, free, how, op):
    D, M = build(e)
    i = e.int('i')
    e.assume(lt(i.t, M.t))
    C = e.cls('pattern_containers', 'PatternDict')
    if how == 'lock()':
        e.meth(D, 'lock')
    else:
        E = e.call(C)
        e.I.setitem(E, 'sub', D)
        if how == 'member of a member':
            F = e.call(C)
            e.I.setitem(F, 'subsub', E)
            le_ = e.meth(F, 'flat_length', free=True)
        if how == 'replaced member':
            e.I.setitem(E, 'sub', pat(tm.var('r', 'U:Pat')))
        if how == 'deleted member':
            e.I.setitem(E, 'other', pat(tm.var('r', 'U:Pat')))
            e.I.delitem(E, 'sub')
    st = state(e, D)
    q = pat(tm.var('q', 'U:Pat'))
    if op == 'set new':
        e.raises('setting a new member raises ValueError', ValueError, e.I.setitem, D, keyname(M.t), q)
    elif op == 'replace':
        e.raises('replacing a member raises ValueError', ValueError, e.I.setitem, D, keyname(i.t), q)
    else:
        e.raises('deleting a member raises ValueError', ValueError, e.I.delitem, D, keyname(i.t))
    same_state(e, D, st, 'after the rejected operation')
    observe(e, 'after the rejected operation', D, M.t, keyname, member, [])


def member_locked(e, free, replace):
    """a dictionary that becomes a member is locked, whatever it is"""
    D, M = build(e)
    q = tm.var('q', 'U:Pat')
    k = keyname(M.t)
    if replace:
        i = e.int('i')
        e.assume(lt(i.t, M.t))
        k = keyname(i.t)
    n0 = len(e.cx.locked)
    e.I.setitem(D, k, pat(q))
    if e.decide(tm.app('IS_PatternDict', (q,), 'Bool')):
        e.check('lock() is called on the member', any(t is q for t in e.cx.locked[n0:]))


def c13(c, tier):
    each(c, history, frees=(None,), extra=(('fill',), ('set new',), ('replace',), ('delete',)))
    each(c, canonical, 'canonical', frees=(None,), extra=(('set new',), ('replace',), ('delete',)))
    each(c, locked, 'locked', frees=(None,), extra=[(h, o) for h in
         ('lock()', 'member', 'member of a member', 'replaced member', 'deleted member')
         for o in ('set new', 'replace', 'delete')])
    each(c, member_locked, 'member', frees=(None,), extra=((False,), (True,)))

"""The optimization objective: any function, any history.

State(n, p, l, L): the object constructed with the function, evaluated n times with printing and logging switched off,
its intervals then set to p and l, its log holding the entries L.  Every operation takes State(n, p, l, L) to the
State the property names, for all n, p, l, L; the constructor gives State(0, p, l, [])."""
from .common import *
from pv.objfun import objfun, value


def entry_(k):
    return SymVal(tm.app('logged', (k,), 'U:Val'))


def klass(e):
    return e.cls('optimization_lib', 'OptimizationObjective')


def canonical(e, fun, n, p, l, m, extra=()):
    o = e.call(klass(e), fun, print_every=0, log_every=0)
    e.I.sym_loop(n, lambda k: k, lambda k: e.meth(o, 'f', SymVal(tm.app('xs', (k,), 'U:Val'))))
    e.meth(o, 'set_print_every', p)
    e.meth(o, 'set_log_every', l)
    e.I.setattr(o, 'optimization_log', PList(e.cx, [Rep(m, entry_)] + [One(x) for x in extra]))
    return o


def same_log(e, name, a, m, extra):
    """the log holds the m entries it held, then the extra ones"""
    if not isinstance(a, PList):
        e.fail(name + ': the log is a list', repr(a))
        return
    segs = e.I.norm_segs(a.segs)
    tail = segs[len(segs) - len(extra):] if extra else []
    head = segs[:len(segs) - len(extra)]
    if any(not isinstance(s, One) for s in tail):
        e.fail(name + ': entries', repr(segs))
        return
    if m is ZERO:
        e.check(name + ': no other entries', not head, repr(head))
    else:
        r = e.I.seq_eq(head, [Rep(m, entry_)])
        e.check(name + ': earlier entries kept', r if isinstance(r, T) else tm.boolc(bool(r)))
    for s, (n, x, y) in zip(tail, extra):
        v = s.v
        if not isinstance(v, tuple) or len(v) != 3:
            e.fail(name + ': an entry is (count, argument, value)', repr(v))
            continue
        e.same(name + ': count', v[0], n)
        e.equal(name + ': argument', v[1], x)
        e.same(name + ': value', v[2], y)


def same_state(e, name, a, b, m, extra):
    """two objectives are in the same state"""
    same_log(e, name + ', log', e.attr(a, 'optimization_log'), m, extra)
    e.check(name + ': same attributes', set(a.attrs) == set(b.attrs), '%s' % (set(a.attrs) ^ set(b.attrs)))
    for k, v in b.attrs.items():
        w = a.attrs.get(k)
        if k == 'optimization_log':
            continue
        if isinstance(v, (int, float, S, str, tuple, PList, Arr, PDict, SymVal)) or v is None:
            e.equal('%s: %s' % (name, k), w, v)
        elif isinstance(v, Opaque) and v.tag == 'diffop':
            e.check('%s: %s' % (name, k), isinstance(w, Opaque) and w.tag == 'diffop' and w.kind == v.kind)
    e.same(name + ': number of iterations', e.meth(a, 'num_iterations'), e.meth(b, 'num_iterations'))


def due(e, n, p):
    """the interval is positive and divides the count"""
    if not e.I.truth(e.I.compare('>', p, 0)):
        return False
    return e.I.truth(e.I.compare('==', e.I.binop('%', n, p), 0))


def setup(e):
    return objfun(), e.int('n'), e.int('p', lo=None), e.int('l', lo=None), e.int('m')


def made(e, how):
    fun, p, l = objfun(), e.int('p', lo=None), e.int('l', lo=None)
    if how == 'positional':
        o = e.call(klass(e), fun, p, l)
    elif how == 'keywords':
        o = e.call(klass(e), fun, log_every=l, print_every=p)
    else:
        o, p, l = e.call(klass(e), fun), S(num(1), 'i'), S(num(0), 'i')
    e.check('the function is not called', not fun.calls)
    same_state(e, 'constructed', o, canonical(e, fun, ZERO, p, l, ZERO), ZERO, [])
    e.check('nothing is printed', not e.w.events)
    e.same('no iterations', e.meth(o, 'num_iterations'), ZERO)


def evaluated(e, shape):
    fun, n, p, l, m = setup(e)
    o = canonical(e, fun, n.t, p, l, m.t)
    e.same('count', e.meth(o, 'num_iterations'), n)
    e.check('nothing was printed', not e.w.events)
    d = dims(e, shape)
    x = e.array('x', d)
    old = e.np.call(e.I, 'array', [x], {})
    n0 = len(fun.calls)
    r = e.meth(o, 'f', x)
    e.check('the function is called once', len(fun.calls) == n0 + 1)
    e.same('the value of the function', r, S(value(e.I, fun, x), 'f'))
    y = S(value(e.I, fun, old), 'f')
    e.elements('the argument is not modified', x, lambda idx: old.at(idx))
    printed = [v for v in e.w.events if v[0] == 'print']
    if due(e, n, p):
        e.check('a due evaluation is printed', len(printed) >= 1)
    else:
        e.check('an evaluation that is not due is not printed', not printed)
    extra = [(n, old, y)] if due(e, n, l) else []
    # the caller changes its array
    e.I.setitem(x, Ellipsis, e.array('z', d))
    n1 = e.I.binop('+', n, 1)
    same_state(e, 'afterwards', o, canonical(e, fun, n1.t, p, l, m.t), m.t, extra)


def container(e, how, tag):
    """(a container of arrays, its arrays)"""
    a, b = e.array('a' + tag, [e.int('na')]), e.array('b' + tag, [e.int('nb'), e.int('mb')])
    D = lambda *kv: PDict(e.cx, [DOne(k, v) for k, v in kv], True)
    if how == 'dictionary':
        return D(('a', a), ('b', b)), (a, b)
    if how == 'list':
        return PList(e.cx, [One(a), One(b)]), (a, b)
    if how == 'tuple':
        return (a, b), (a, b)
    return D(('a', a), ('inner', D(('b', b)))), (a, b)


def evaluated_container(e, how):
    """the argument is a container of arrays: neither it nor they may be shared with the log"""
    fun, n, p, l, m = setup(e)
    o = canonical(e, fun, n.t, p, l, m.t)
    x, arrs = container(e, how, '')
    old, _ = container(e, how, '')
    r = e.meth(o, 'f', x)
    e.same('the value of the function', r, S(value(e.I, fun, old), 'f'))
    e.equal('the argument is not modified', x, old)
    extra = [(n, old, r)] if due(e, n, l) else []
    for q, a in enumerate(arrs):
        e.I.setitem(a, Ellipsis, e.array('z%d' % q, a.shape))
    if how in ('dictionary', 'nested'):
        e.I.setitem(x, 'a', S(num(0), 'i'))
        e.I.setitem(x, 'new', S(num(0), 'i'))
    elif how == 'list':
        e.I.setitem(x, 0, S(num(0), 'i'))
    n1 = e.I.binop('+', n, 1)
    same_state(e, 'afterwards', o, canonical(e, fun, n1.t, p, l, m.t), m.t, extra)


OPS = ['reset_iteration_count', 'reset_log', 'reset', 'set_print_every', 'set_log_every', 'num_iterations', 'grad',
       'hessian', 'hessian_vector_product']


def operated(e, op):
    fun, n, p, l, m = setup(e)
    o = canonical(e, fun, n.t, p, l, m.t)
    q = e.int('q', lo=None)
    N, M, P, Q = n.t, m.t, p, l
    if op in ('grad', 'hessian', 'hessian_vector_product'):
        x = e.array('x', [e.int('d')])
        e.remember(x)
        r = e.meth(o, op, x, *([e.array('v', x.shape)] if op == 'hessian_vector_product' else []))
        from pv.objfun import tag_of
        t = tag_of(e.I, fun, x.shape, x.snap())
        D = list(x.shape) * (2 if op == 'hessian' else 1)
        if op == 'hessian_vector_product':
            v = e.np.lookup if False else None
        e.is_arr(op, r, D)

        def spec(idx):
            if op == 'grad':
                return tm.app('DOBJ', (t,) + tuple(idx), 'Real')
            if op == 'hessian':
                return tm.app('D2OBJ', (t,) + tuple(idx), 'Real')
            k = tm.scratch()
            return sum_(ZERO, dsize(x.shape[0]), k, mul(tm.app('D2OBJ', (t, idx[0], k), 'Real'),
                                                        tm.app('v', (k,), 'Real')))
        e.elements(op + ' of the original function', r, spec, D)
        e.unchanged()
    elif op.startswith('set_'):
        e.meth(o, op, q)
        if op == 'set_print_every':
            P = q
        else:
            Q = q
    else:
        r = e.meth(o, op)
        if op == 'num_iterations':
            e.same('the count', r, n)
        if op in ('reset', 'reset_iteration_count'):
            N = ZERO
        if op in ('reset', 'reset_log'):
            M = ZERO
    e.check('nothing is printed', not e.w.events)
    same_state(e, 'afterwards', o, canonical(e, fun, N, P, Q, M), M, [])


def c18(c, tier):
    for how in ('positional', 'keywords', 'defaults'):
        c.add('construction, %s' % how, made, how)
    for shape in ('vec', 'block', 'mat'):
        c.add('evaluation, %s argument' % shape, evaluated, shape)
    for how in ('dictionary', 'list', 'tuple', 'nested'):
        c.add('evaluation, %s of arrays as argument' % how, evaluated_container, how)
    for op in OPS:
        c.add(op, operated, op)

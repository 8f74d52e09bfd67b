"""The function wrappers: any function, any patterns, any arguments.

A pattern is known only by name here: conv(p, op, mode, v) is what its method op gives for v in that mode."""
from .common import *
from .numeric import raised
from pv.world import opaque
from pv.deps import OPAQUE

OPS = ('fold', 'flatten')


def lpat(p):
    return Opaque('lpat', p=p)


def conv(p, op, free, v):
    return tm.app('CONV', (p, tm.var('op_' + op, 'U:Op'), free, v), 'U:Val')


@opaque('lpat', 'getattr')
def lpat_attr(I, o, name):
    if name not in OPS:
        raise Unsupported('attribute %s of a pattern' % name)

    def f(I2, a, k):
        names = ('folded_val' if name == 'flatten' else 'flat_val', 'free', 'validate_value')
        kw = dict(zip(names, a))
        for q, v in k.items():
            if q not in names or q in kw:
                I2.raise_(TypeError, 'unexpected argument %s' % q)
            kw[q] = v
        v = kw.get(names[0])
        if isinstance(v, Opaque) and v.tag == 'fval':
            v = SymVal(v.t)
        if not isinstance(v, SymVal):
            raise Unsupported('%s of %r' % (name, v))
        free = kw.get('free')
        if free is None:
            m = tm.app('DEFAULTMODE', (o.p,), 'Bool')
        else:
            m = I2.term(I2.world.np.item(I2, free) if isinstance(free, Arr) and not free.shape else free)[0]
        if kw.get('validate_value') is not None:
            raise Unsupported('validate_value given by a wrapper')
        return SymVal(conv(o.p, name, m, v.t))
    return Bi('pattern.' + name, f)


@opaque('lpat', 'inst')
def lpat_inst(I, o, k, j, facts):
    return lpat(subst(o.p, {k: j}))


@opaque('lpat', 'ite')
def lpat_ite(I, c, a, b):
    if isinstance(a, Opaque) and isinstance(b, Opaque) and a.tag == b.tag == 'lpat':
        return lpat(ite(c, a.p, b.p))
    return NotImplemented


@opaque('lpat', 'copy')
def lpat_copy(I, o):
    return o


@opaque('fval', 'isinstance')
def fval_isinstance(I, o, c):
    """a value that is not a tuple, of any other type"""
    if c is tuple:
        return False
    return I.cx.decide(tm.app('ISINSTANCE', (o.t, tm.var('type_%s' % getattr(c, '__name__', c), 'U:Type')), 'Bool'))


@opaque('fval', 'type')
def fval_type(I, o):
    return Opaque('fvaltype', t=o.t)


@opaque('anyfun', 'call')
def anyfun_call(I, o, args, kw):
    return o.f(I, args, kw)


@opaque('anyfun', 'getattr')
def anyfun_attr(I, o, name):
    """a callable need not have a name"""
    if name in ('__name__', '__qualname__', '__doc__') and I.cx.decide(tm.var('has' + name, 'Bool')):
        return SStr([('o', name)])
    I.raise_(AttributeError, name)


class Fn:
    """the original function: records what it is given, returns what it is told to"""

    def __init__(self, e, ret):
        self.e, self.ret, self.calls = e, ret, []

        def f(I, a, k):
            from pv.interp import Star
            segs = []
            for x in a:
                segs.extend(I.norm_segs(x.segs) if isinstance(x, Star) else [One(x)])
            self.calls.append((I.mktup(segs), dict(k)))
            return ret
        self.f = Opaque('anyfun', f=f)


def pt(i):
    return tm.app('pattern', (i if isinstance(i, T) else num(i),), 'U:Pat')


def at_(i):
    return SymVal(tm.app('arg', (i,), 'U:Val'))


def rt_(i):
    return SymVal(tm.app('ret', (i,), 'U:Val'))


def args_of(e, n, fn=at_):
    return STup([Rep(n.t, fn)])


def make_frees(e, m, how):
    """(argument given to the wrapper, flag of pattern i)"""
    if how == 'one':
        f = e.bool('free')
        return f, [f.t] * m
    own = [tm.app('DEFAULTMODE', (pt(i),), 'Bool') for i in range(m)]
    if how == 'none':
        # None leaves the mode to each pattern
        return None, own
    if how == 'some':
        fs = [e.bool('free%d' % i) for i in range(m)]
        return PList(e.cx, [One(f if i % 2 else None) for i, f in enumerate(fs)]), \
            [f.t if i % 2 else o for i, (f, o) in enumerate(zip(fs, own))]
    fs = [e.bool('free%d' % i) for i in range(m)]
    return PList(e.cx, [One(f) for f in fs]), [f.t for f in fs]


def make_nums(e, m, n, how):
    if how == 'default':
        e.assume(le(num(m), n.t))
        return None, [num(i) for i in range(m)]
    ns = [e.int('num%d' % i) for i in range(m)]
    for i, a in enumerate(ns):
        e.assume(lt(a.t, n.t))
        for b in ns[:i]:
            e.assume(ne(a.t, b.t))
    if how == 'int':
        return ns[0], [ns[0].t]
    if how == 'tuple':
        return tuple(ns), [a.t for a in ns]
    l = PList(e.cx, [One(a) for a in ns])
    if how == 'array':
        return e.np.asarr(e.I, l), [a.t for a in ns]
    return l, [a.t for a in ns]


def make_pats(e, m, how):
    if how == 'one':
        return lpat(pt(0))
    return PList(e.cx, [One(lpat(pt(i))) for i in range(m)])


def star(e, f, segs, kw):
    from pv.interp import Star
    return e.I.call(f, [Star(list(segs))], kw)


def expected(nums, frees, op, base):
    """the term at position i"""
    def g(i):
        t = base(i).t
        r = t
        for j, (a, f) in enumerate(zip(nums, frees)):
            r = ite(eq(i, a), conv(pt(j), op, f, t), r)
        return r
    return g


def same_sequence(e, name, got, n, want):
    """obligation: a sequence of values of length n with the given terms"""
    I = e.I
    if not isinstance(got, (tuple, STup)):
        e.fail(name + ': a tuple', repr(got))
        return
    e.check(name + ': length', eq(I.length(got), n))
    i = tm.fresh('pos', 'Int')
    with e.cx.scope([le(ZERO, i), lt(i, n)]):
        v = I.getitem(got, S(i, 'i'))
        if not isinstance(v, SymVal):
            e.fail(name + ': values', repr(v))
            return
        e.check(name + ': every position', eq(v.t, want(i)))


CLASSES = {
    'input': {'fold': ('FlattenFunctionInput', False), 'flatten': ('FoldFunctionInput', True)},
    'output': {'fold': ('FoldFunctionOutput', True), 'flatten': ('FlattenFunctionOutput', False)},
}


def wrapper(e, side, op, generic, fun, pats, free, nums):
    name, flat = CLASSES[side][op]
    kw = {} if nums is None else {'argnums' if side == 'input' else 'retnums': nums}
    if generic:
        C = e.get('function_patterns', 'TransformFunctionInput' if side == 'input' else 'TransformFunctionOutput')
        return e.call(C, fun, pats, free, flat, **kw)
    return e.call(e.get('function_patterns', name), fun, pats, free, **kw)


def kwargs(e):
    return {'kw': SymVal(tm.var('kwval', 'U:Val')), 'free': SymVal(tm.var('kwfree', 'U:Val'))}


def inputs(e, op, generic, m, phow, fhow, nhow):
    n = e.int('N')
    pats = make_pats(e, m, phow)
    free, frees = make_frees(e, m, fhow)
    given, nums = make_nums(e, m, n, nhow)
    ret = SymVal(tm.var('result', 'U:Val'))
    fn = Fn(e, ret)
    w = wrapper(e, 'input', op, generic, fn.f, pats, free, given)
    for again in range(2):
        kw = kwargs(e) if again == 0 else {}
        r = star(e, w, [Rep(n.t, at_)], dict(kw))
        e.equal('what the original returns', r, ret)
        if len(fn.calls) != again + 1:
            e.fail('the original is called once', str(len(fn.calls)))
            return
        got, gkw = fn.calls[-1]
        same_sequence(e, 'arguments', got, n.t, expected(nums, frees, op, at_))
        e.check('keyword arguments: names', sorted(gkw) == sorted(kw))
        for q in kw:
            if q in gkw:
                e.equal('keyword argument %s' % q, gkw[q], kw[q])


def many(e, m, n, nhow, fhow, strict=True):
    """m patterns: (patterns, free, positions as given, position of pattern i, flag of pattern i)"""
    pats = PList(e.cx, [Rep(m.t, lambda k: lpat(pt(k)))])
    if fhow == 'one':
        free = e.bool('free')
        flag = lambda i: free.t
    else:
        flag = lambda i: tm.app('free', (i,), 'Bool')
        free = PList(e.cx, [Rep(m.t, lambda k: S(flag(k), 'b'))])
    if nhow == 'default':
        e.assume(le(m.t, n.t))
        return pats, free, None, lambda i: i, flag
    pos = lambda i: tm.app('num', (i,), 'Int')
    k = tm.scratch()
    e.assume(tm.all_(ZERO, m.t, k, and_(le(ZERO, pos(k)), lt(pos(k), n.t) if strict else TRUE)))
    k, j = tm.scratch(), tm.scratch()
    e.assume(tm.all_(ZERO, m.t, k, tm.all_(ZERO, k, j, ne(pos(j), pos(k)))))
    return pats, free, PList(e.cx, [Rep(m.t, lambda k: S(pos(k), 'i'))]), pos, flag


def same_many(e, name, got, n, m, pos, flag, op, base):
    """obligation: value base(i) at every position, converted at the positions pos(j), j < m"""
    I = e.I
    if not isinstance(got, (tuple, STup)):
        e.fail(name + ': a tuple', repr(got))
        return
    e.check(name + ': length', eq(I.length(got), n))
    # any pattern j < m, named by its rank among the positions
    order = e.np.call(I, 'argsort', [e.np.new(I, (m,), lambda idx: pos(idx[0]), 'i')], {})
    r = tm.fresh('rank', 'Int')
    with e.cx.scope([le(ZERO, r), lt(r, m)]):
        j = order.at((r,))
        v = I.getitem(got, S(pos(j), 'i'))
        e.check(name + ': chosen positions', eq(v.t, conv(pt(j), op, flag(j), base(pos(j)).t)))
    i = tm.fresh('pos', 'Int')
    q = tm.scratch()
    with e.cx.scope([le(ZERO, i), lt(i, n), tm.all_(ZERO, m, q, ne(pos(q), i))]):
        v = I.getitem(got, S(i, 'i'))
        e.check(name + ': other positions', eq(v.t, base(i).t))


def inputs_any(e, op, generic, fhow, nhow):
    n, m = e.int('N'), e.int('M', lo=1)
    pats, free, given, pos, flag = many(e, m, n, nhow, fhow)
    ret = SymVal(tm.var('result', 'U:Val'))
    fn = Fn(e, ret)
    w = wrapper(e, 'input', op, generic, fn.f, pats, free, given)
    kw = kwargs(e)
    r = star(e, w, [Rep(n.t, at_)], dict(kw))
    e.equal('what the original returns', r, ret)
    got, gkw = fn.calls[-1]
    same_many(e, 'arguments', got, n.t, m.t, pos, flag, op, at_)
    e.check('keyword arguments: names', sorted(gkw) == sorted(kw))
    for q in kw:
        if q in gkw:
            e.equal('keyword argument %s' % q, gkw[q], kw[q])


def c14(c, tier):
    for op in OPS:
        for generic in (False, True):
            for fhow in ('one', 'each'):
                for nhow in ('default', 'list'):
                    c.add('%s of any number of inputs, %s; free %s, argnums %s' %
                          ('Transform' if generic else 'wrapper', op, fhow, nhow), inputs_any, op, generic, fhow, nhow)
    for op in OPS:
        for generic in (False, True):
            w = 'Transform' if generic else 'wrapper'
            for m in (1, 2, 3):
                for fhow in ('one', 'each'):
                    for nhow in ('default', 'list') if m > 1 else ('default', 'int', 'list', 'tuple', 'array'):
                        for phow in ('list',) if m > 1 else ('list', 'one'):
                            c.add('%s of %d inputs, %s; patterns %s, free %s, argnums %s' % (w, m, op, phow, fhow, nhow),
                                  inputs, op, generic, m, phow, fhow, nhow)
    for op in OPS:
        for generic in (False, True):
            for m, fhow, phow in ((1, 'none', 'one'), (2, 'none', 'list'), (3, 'some', 'list')):
                c.add('%s of %d inputs, %s; free %s' % ('Transform' if generic else 'wrapper', m, op, fhow),
                      inputs, op, generic, m, phow, fhow, 'list')
    bad_cases(c, 'input')


def outputs(e, op, generic, m, phow, fhow, nhow, rhow):
    """rhow: 'tuple' (R values), 'single' (one value that is not a tuple)"""
    pats = make_pats(e, m, phow)
    free, frees = make_frees(e, m, fhow)
    if rhow in ('tuple', 'named tuple'):
        R = e.int('R')
        ret = STup([Rep(R.t, rt_)], sub=rhow == 'named tuple')
    else:
        ret = Opaque('fval', t=tm.var('result', 'U:Val'))
    fn = Fn(e, ret)
    if nhow == 'default':
        given, nums = None, [num(i) for i in range(m)]
    else:
        ns = [e.int('num%d' % i) for i in range(m)]
        for i, a in enumerate(ns):
            for b in ns[:i]:
                e.assume(ne(a.t, b.t))
        nums = [a.t for a in ns]
        given = ns[0] if nhow == 'int' else PList(e.cx, [One(a) for a in ns])
    w = wrapper(e, 'output', op, generic, fn.f, pats, free, given)
    n = e.int('N')
    kw = kwargs(e)
    r, exc = e.attempt(star, e, w, [Rep(n.t, at_)], dict(kw))
    if rhow != 'single':
        ok = and_(*[lt(a, R.t) for a in nums])
    else:
        ok = eq(nums[0], ZERO) if m == 1 else FALSE
    raised(e, exc, ok)
    if len(fn.calls) != 1:
        e.fail('the original is called once', str(len(fn.calls)))
        return
    got, gkw = fn.calls[-1]
    same_sequence(e, 'arguments', got, n.t, lambda i: at_(i).t)
    e.check('keyword arguments: names', sorted(gkw) == sorted(kw))
    for q in kw:
        if q in gkw:
            e.equal('keyword argument %s' % q, gkw[q], kw[q])
    if exc is not None:
        return
    if rhow != 'single':
        same_sequence(e, 'returned values', r, R.t, expected(nums, frees, op, rt_))
    else:
        e.equal('the returned value', r, SymVal(conv(pt(0), op, frees[0], ret.t)))


def refused(e, side, op, generic, m, what):
    fn = Fn(e, SymVal(tm.var('result', 'U:Val')))
    pats = make_pats(e, m, 'list')
    ns = [e.int('num%d' % i) for i in range(m + 1)]
    fs = [e.bool('free%d' % i) for i in range(m + 2)]
    free = fs[0]
    bad = TRUE
    if what == 'more positions':
        given = ns
    elif what == 'fewer positions':
        given = ns[:m - 1]
    elif what == 'one position':
        given = ns[0]
    elif what == 'repeated positions':
        given = ns[:m]
        bad = or_(*[eq(a.t, b.t) for i, a in enumerate(given) for b in given[:i]])
    elif what == 'more flags':
        given, free = ns[:m], fs[:m + 1]
    elif what == 'fewer flags':
        given, free = ns[:m], fs[:m - 1]
    lst = lambda v: PList(e.cx, [One(q) for q in v]) if isinstance(v, list) else v
    if what.endswith('flags'):
        for i, a in enumerate(ns[:m]):
            for b in ns[:i]:
                e.assume(ne(a.t, b.t))
    _, exc = e.attempt(wrapper, e, side, op, generic, fn.f, pats, lst(free), lst(given))
    raised(e, exc, not_(bad))
    e.check('the original is not called', not fn.calls)


def combined(e, op, m):
    """FoldFunctionInputAndOutput / FlattenFunctionInputAndOutput"""
    n, R = e.int('N'), e.int('R')
    free, frees = make_frees(e, m, 'each')
    given, nums = make_nums(e, m, n, 'list')
    of = e.bool('ofree')
    on = e.int('onum')
    e.assume(lt(on.t, R.t))
    ret = STup([Rep(R.t, rt_)])
    fn = Fn(e, ret)
    C = e.get('function_patterns', 'FoldFunctionInputAndOutput' if op == 'fold' else 'FlattenFunctionInputAndOutput')
    q = tm.var('outpattern', 'U:Pat')
    w = e.call(C, fn.f, make_pats(e, m, 'list'), free, given, lpat(q), of, on)
    kw = kwargs(e)
    r = star(e, w, [Rep(n.t, at_)], dict(kw))
    got, gkw = fn.calls[-1]
    inv = {'fold': 'flatten', 'flatten': 'fold'}[op]
    same_sequence(e, 'arguments', got, n.t, expected(nums, frees, inv, at_))
    e.check('keyword arguments: names', sorted(gkw) == sorted(kw))
    for k in kw:
        if k in gkw:
            e.equal('keyword argument %s' % k, gkw[k], kw[k])
    same_sequence(e, 'returned values', r, R.t,
                  lambda i: ite(eq(i, on.t), conv(q, op, of.t, rt_(i).t), rt_(i).t))


BAD = ('more positions', 'fewer positions', 'one position', 'repeated positions', 'more flags', 'fewer flags')


def bad_cases(c, side):
    for op in OPS:
        for generic in (False, True):
            w = 'Transform' if generic else 'wrapper'
            for m in (1, 2, 3):
                for what in BAD:
                    if m == 1 and (what.startswith('fewer') or what.startswith('one') or what.startswith('repeated')):
                        continue
                    if m == 2 and what == 'fewer flags':
                        continue          # one flag for every pattern
                    c.add('%s of %d %ss, %s: %s' % (w, m, side, op, what), refused, side, op, generic, m, what)


def c15(c, tier):
    for op in OPS:
        for generic in (False, True):
            for fhow in ('one', 'each'):
                for nhow in ('default', 'list'):
                    c.add('%s of any number of outputs, %s; free %s, retnums %s' %
                          ('Transform' if generic else 'wrapper', op, fhow, nhow), outputs_any, op, generic, fhow, nhow)
            w = 'Transform' if generic else 'wrapper'
            for m in (1, 2, 3):
                for fhow in ('one', 'each'):
                    for nhow in ('default', 'list') if m > 1 else ('default', 'int', 'list'):
                        for phow in ('list',) if m > 1 else ('list', 'one'):
                            for rhow in ('tuple', 'single'):
                                c.add('%s of %d outputs, %s; patterns %s, free %s, retnums %s, %s' %
                                      (w, m, op, phow, fhow, nhow, rhow),
                                      outputs, op, generic, m, phow, fhow, nhow, rhow)
        for generic in (False, True):
            for m, fhow, phow, rhow in ((1, 'one', 'one', 'named tuple'), (2, 'each', 'list', 'named tuple'),
                                        (1, 'none', 'one', 'single'), (1, 'none', 'one', 'tuple'),
                                        (2, 'none', 'list', 'tuple'), (3, 'some', 'list', 'tuple')):
                c.add('%s of %d outputs, %s; free %s, %s' %
                      ('Transform' if generic else 'wrapper', m, op, fhow, rhow),
                      outputs, op, generic, m, phow, fhow, 'list', rhow)
        for m in (1, 2):
            c.add('combined wrapper, %s, %d inputs' % (op, m), combined, op, m)
    bad_cases(c, 'output')


def outputs_any(e, op, generic, fhow, nhow):
    n, m, R = e.int('N'), e.int('M', lo=1), e.int('R')
    if nhow == 'default':
        pats, free, given, pos, flag = many(e, m, e.int('some'), nhow, fhow)
    else:
        pats, free, given, pos, flag = many(e, m, R, nhow, fhow, strict=False)
    fn = Fn(e, STup([Rep(R.t, rt_)]))
    w = wrapper(e, 'output', op, generic, fn.f, pats, free, given)
    kw = kwargs(e)
    r, exc = e.attempt(star, e, w, [Rep(n.t, at_)], dict(kw))
    # every position, by its rank
    order = e.np.call(e.I, 'argsort', [e.np.new(e.I, (m.t,), lambda idx: pos(idx[0]), 'i')], {})
    q = tm.scratch()
    ok1 = tm.all_(ZERO, m.t, q, lt(pos(order.at((q,))), R.t))
    q = tm.scratch()
    ok2 = tm.all_(ZERO, m.t, q, lt(pos(q), R.t))
    # the same condition, stated over the patterns and over their ranks
    raised(e, exc, or_(ok1, ok2) if exc is None else and_(ok1, ok2))
    if len(fn.calls) != 1:
        e.fail('the original is called once', str(len(fn.calls)))
        return
    got, gkw = fn.calls[-1]
    same_sequence(e, 'arguments', got, n.t, lambda i: at_(i).t)
    e.check('keyword arguments: names', sorted(gkw) == sorted(kw))
    for q in kw:
        if q in gkw:
            e.equal('keyword argument %s' % q, gkw[q], kw[q])
    if exc is None:
        same_many(e, 'returned values', r, R.t, m.t, pos, flag, op, rt_)

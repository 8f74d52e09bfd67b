"""save_folded and load_folded: any pattern (by the contract of Pattern), and the patterns of the package."""
from .common import *
from . import numeric as N, simplex as X, dicts as D, arrays as A, psd as P
from .numeric import raised
from pv.sympat import pat

Q = tm.var('base', 'U:Pat')


def save(e):
    return e.get('pattern_containers', 'save_folded')


def load(e):
    return e.get('pattern_containers', 'load_folded')


def extras(e):
    b = e.block('X')
    out = {'extra': e.array('extra', [b]), 'counts': e.array('counts', [e.int('c')], kind='i'),
           'mask': e.array('mask', [e.int('c'), e.int('d')], kind='b'), 'free': e.real('scalar'), 'index': e.int('index'),
           'flag': e.bool('flag')}
    return out


def abstract(e, block):
    b = e.block('F') if block else None
    p = pat(Q, b)
    if block:
        x = e.array('x', [b])
        t = A.item('x', (), b)
    else:
        x = SymVal(tm.var('x', 'U:Val'))
        t = x.t
    return p, x, lambda c: tm.app('VALID', (Q, t, c), 'Bool')


def restored(e, p, x, ex, file='params.npz', same=None):
    r = e.call(load(e), file)
    if not (isinstance(r, tuple) and len(r) == 3):
        e.fail('load_folded returns value, pattern and data', repr(r))
        return
    y, q, data = r
    e.equal('the loaded value equals the saved one', y, x)
    if same is not None:
        same(e, q, p)
    else:
        e.equal('the loaded pattern equals the saved one', q, p)
    for n, v in ex.items():
        got, exc = e.attempt(e.I.getitem, data, n)
        if exc is not None:
            e.fail('extra %s can be read from the returned data' % n, repr(exc))
        else:
            e.equal('extra %s is unchanged' % n, got, v)
    return y


def roundtrip(e, block, name, n_extra):
    p, x, valid = abstract(e, block)
    e.assume(and_(valid(TRUE), valid(FALSE)))
    ex = extras(e) if n_extra else {}
    e.remember(*[v for v in ex.values() if isinstance(v, Arr)])
    if block:
        e.remember(x)
    e.call(save(e), name, x, p, **ex)
    e.unchanged()
    restored(e, p, x, ex, name if name.endswith('.npz') else name + '.npz')


def overwrite(e, block):
    """a second save replaces the first one"""
    p, x, valid = abstract(e, block)
    e.assume(and_(valid(TRUE), valid(FALSE)))
    old = pat(tm.var('other', 'U:Pat'))
    z = SymVal(tm.var('z', 'U:Val'))
    e.assume(and_(*[tm.app('VALID', (old.p, z.t, c), 'Bool') for c in (TRUE, FALSE)]))
    e.call(save(e), 'params', z, old, stale=e.real('stale'))
    e.call(save(e), 'params', x, p)
    restored(e, p, x, {})
    r = e.call(load(e), 'params.npz')
    e.false('extras of the first save are gone', e.I.compare('in', 'stale', r[2]))


def refused(e, block):
    p, x, valid = abstract(e, block)
    dv = tm.app('DV', (Q,), 'Bool')
    ok = ite(dv, valid(TRUE), valid(FALSE))
    _, exc = e.attempt(e.call, save(e), 'params.npz', x, p)
    raised(e, exc, ok)
    from pv.files import files
    if exc is not None:
        e.check('nothing is written', not files(e.I))


def settings_same(e, q, p):
    if not isinstance(q, Obj):
        e.fail('a pattern is returned', repr(q))
        return
    e.check('same type', q.cls is p.cls)
    e.true('loaded pattern == saved pattern', e.I.compare('==', q, p))
    for fr in (True, False):
        e.equal('restored: flat length', e.meth(q, 'flat_length', free=fr), e.meth(p, 'flat_length', free=fr))


def concrete(e, make):
    p, x = make(e)
    k = x.kind if isinstance(x, Arr) else None
    ex = {'extra': e.array('extra', [e.int('c')])}
    e.call(save(e), 'params', x, p, **ex)
    y = restored(e, p, x, ex, same=settings_same)
    if k == 'i':
        # not every integer is a number of double precision
        e.check('the loaded value holds integers', isinstance(y, Arr) and y.kind == 'i', repr(y))


def mk_numeric(sh, hl, hu, dv, fd, kind='f'):
    def f(e):
        p, d, lb, ub = numeric(e, sh, hl, hu, dv, fd)
        return p, e.array('x', N.dd(e, d), kind, where=inside(lb, ub, False) if kind == 'f' else None)
    return f


def mk_simplex(sh, dv, fd):
    def f(e):
        p, d, k = X.make(e, sh, dv, fd)
        return p, X.simplex(e, 'x', d, k, False)
    return f


def mk_psd(dv, fd):
    def f(e):
        p, n, lb = P.build(e, dv, fd)
        return p, P.symmetric(e, n, lb)
    return f


def mk_dict(fd):
    def f(e):
        p, M = D.build(e, fd)
        return p, D.value(e, M)
    return f


def mk_array(sh, fd):
    def f(e):
        p, d, b = A.build(e, sh, fd)
        return p, A.value(e, 'x', d, b)
    return f


def c12(c, tier):
    for b in (False, True):
        w = 'array-valued pattern' if b else 'pattern'
        for name in ('params.npz', 'params', 'params.v2'):
            for n in (0, 1):
                c.add('any %s saved to %s, extras=%d' % (w, name, n), roundtrip, b, name, n)
        c.add('any %s, saved over another' % w, overwrite, b)
        c.add('any %s, any value' % w, refused, b)
    for fd in (None, True, False):
        for dv in (True, False):
            for bn, hl, hu in BOUNDS:
                for sh in ('block', 'vec', 'scalar'):
                    c.add('numeric %s bounds=%s free_default=%s default_validate=%s' % (sh, bn, fd, dv), concrete,
                          mk_numeric(sh, hl, hu, dv, fd))
            for sh in ('block', 'vec', 'scalar'):
                c.add('integers in numeric %s free_default=%s default_validate=%s' % (sh, fd, dv), concrete,
                      mk_numeric(sh, False, False, dv, fd, 'i'))
            for sh in ('block', 'none'):
                c.add('simplex %s free_default=%s default_validate=%s' % (sh, fd, dv), concrete, mk_simplex(sh, dv, fd))
            c.add('psd free_default=%s default_validate=%s' % (fd, dv), concrete, mk_psd(dv, fd))
        c.add('dict free_default=%s' % fd, concrete, mk_dict(fd))
        c.add('array free_default=%s' % fd, concrete, mk_array('block', fd))

"""Abstract member patterns: what a container may rely on about any pattern it holds (the contract of Pattern).

A member is Opaque('pat', p=<term>, block=<Block or None>); with a block its folded values are arrays of that shape,
otherwise abstract values (SymVal).  Every operation behaves as the contract of the abstract class says:
  FL(p, mode)          its flat length
  FOLD / FLAT          inverse to one another (C01, C02); fold raises ValueError on a wrong length and, non-free, on an
                       invalid value; flatten raises ValueError on an invalid value
  VALID(p, v, check)   what validate_folded says; folding a free vector and empty(valid=True) give valid values (C03)
  FJ, UFJ, LADF, LADU  Jacobians (sparse) and log determinants;  FI, NFI flat indices;  NAME flat names
  JSON(p)              restored to p by get_pattern_from_json (C11)
"""
from . import terms as tm
from .terms import app, num, ZERO, ONE, TRUE, FALSE, eq, le, lt, and_, or_, not_, ite, subst, add, sub
from .values import *
from .world import opaque, NDARRAY
from .deps import sparse


def pat(p, block=None):
    return Opaque('pat', p=p, block=block)


# ---------------------------------------------------------------- terms
def smart_flat(args, sort):
    p, m, v, i = args
    if v.op == 'app' and v.val == 'FOLD' and v.args[0] is p and v.args[1] is m:
        return tm.open_binder(v.args[2], i) if v.args[2].op == 'lam' else None
    if v.op == 'lam':
        b = v.args[-1]
        if b.op == 'app' and b.val == 'FOLDA' and b.args[0] is p and b.args[1] is m and b.args[3] is tm.bvar(v) and \
                b.args[2].op == 'lam':
            return tm.open_binder(b.args[2], i)
    return None


def lam_body(l, name, p, m):
    """V if l is the vector  name(p, m, V, .)"""
    if l.op != 'lam':
        return None
    b = l.args[-1]
    if b.op == 'app' and b.val == name and b.args[0] is p and b.args[1] is m and b.args[3] is tm.bvar(l) and \
            tm.bvar(l) not in tm.fv(b.args[2]):
        return b.args[2]
    return None


def smart_valid(args, sort):
    p, v, c = args
    if c is not TRUE and c is not FALSE:
        return ite(c, app('VALID', (p, v, TRUE), 'Bool'), app('VALID', (p, v, FALSE), 'Bool'))
    if v.op == 'app' and v.val == 'FOLD':
        if v.args[1] is TRUE or c is FALSE:
            return TRUE
    if v.op == 'app' and v.val == 'EMPTY' and (c is FALSE or v.args[1] is TRUE):
        return TRUE
    if v.op == 'lam':
        b = v.args[-1]
        if b.op == 'app' and b.val == 'FOLDA' and b.args[0] is p and b.args[3] is tm.bvar(v) and \
                (b.args[1] is TRUE or c is FALSE):
            return TRUE
        if b.op == 'app' and b.val == 'EMPTYA' and b.args[0] is p and (b.args[1] is TRUE or c is FALSE):
            return TRUE
        if c is FALSE:
            return TRUE           # the shape of an array argument is compared separately
    return None


tm.SMART.update(FLAT=smart_flat, VALID=smart_valid)


def vec_term(I, n, at):
    k = tm.scratch()
    with I.cx.scope([le(ZERO, k), lt(k, n)]):
        b = at(k)
    return tm.lam_(n, k, b)


def val_term(I, o, v, what='value'):
    """the term of a folded value (an array of any dimensions is read in row-major order)"""
    if isinstance(v, SymVal):
        return v.t
    if o.block is not None and isinstance(v, Arr):
        np = I.world.np
        if len(v.shape) == 1 and isinstance(v.shape[0], Block) and v.shape[0] == o.block:
            return vec_term(I, o.block.size, lambda k: v.at((k,)))
        return None
    raise Unsupported('%s %r given to a member pattern' % (what, v))


def mode_of(I, o, free):
    if free is None:
        if I.cx.decide(app('HASFD', (o.p,), 'Bool')):
            return app('FDV', (o.p,), 'Bool')
        I.raise_(ValueError, 'If ``free_default`` is ``None``, ``free`` must be specified.')
    if isinstance(free, bool):
        return tm.boolc(free)
    if isinstance(free, S) and free.t.sort == 'Bool':
        return free.t
    if isinstance(free, Arr) and not free.shape:
        return mode_of(I, o, I.world.np.item(I, free))
    I.raise_(ValueError, 'free must be True, False or None')


def check_of(I, o, vv):
    if vv is None:
        return app('DV', (o.p,), 'Bool')
    if isinstance(vv, bool):
        return tm.boolc(vv)
    if isinstance(vv, S) and vv.t.sort == 'Bool':
        return vv.t
    return I.truth(vv) if not isinstance(I.truth(vv), bool) else tm.boolc(I.truth(vv))


def fl(o, m):
    return app('FL', (o.p, m), 'Int')


def valid(I, o, v, c):
    t = val_term(I, o, v)
    if t is None:
        return FALSE
    return app('VALID', (o.p, t, c), 'Bool')


# ---------------------------------------------------------------- the operations
METHODS = {}


def method(f):
    METHODS[f.__name__.rstrip('_')] = f
    return f


@method
def flat_length(I, o, free=None):
    return I.mkint(fl(o, mode_of(I, o, free)))


@method
def fold(I, o, flat_val, free=None, validate_value=None):
    m = mode_of(I, o, free)
    np = I.world.np
    v = np.call(I, 'atleast_1d', [flat_val], {})
    if len(v.shape) != 1:
        I.raise_(ValueError, 'The argument to fold must be a 1d vector.')
    n = fl(o, m)
    ln = dsize(v.shape[0])
    if not I.cx.prove(eq(ln, n)) and not I.cx.decide(eq(ln, n)):
        I.raise_(ValueError, 'Wrong length for a member')
    l = vec_term(I, n, lambda k: v.at((k,)))
    w = lam_body(l, 'FLAT', o.p, m)
    if w is not None and (o.block is None or w.op == 'lam') and I.cx.prove(app('VALID', (o.p, w, TRUE), 'Bool')):
        # C01 of the member: folding the flat form of a valid value
        if o.block is None:
            return SymVal(w)
        return np.new(I, (o.block,), lambda idx: tm.open_binder(w, idx[0]), 'f')
    if o.block is None:
        r = SymVal(app('FOLD', (o.p, m, l), 'U:Val'))
    else:
        r = np.new(I, (o.block,), lambda idx: app('FOLDA', (o.p, m, l, idx[0]), 'Real'), 'f')
    if m is not TRUE:
        ok = valid(I, o, r, check_of(I, o, validate_value))
        if not I.cx.decide(or_(m, ok)):
            I.raise_(ValueError, 'Invalid value for a member')
    return r


@method
def flatten(I, o, folded_val, free=None, validate_value=None):
    m = mode_of(I, o, free)
    ok = valid(I, o, folded_val, check_of(I, o, validate_value))
    if not I.cx.decide(ok):
        I.raise_(ValueError, 'Invalid value for a member')
    t = val_term(I, o, folded_val)
    n = fl(o, m)
    return I.world.np.new(I, (n,), lambda idx: app('FLAT', (o.p, m, t, idx[0]), 'Real'), 'f')


@method
def validate_folded(I, o, folded_val, validate_value=None):
    ok = valid(I, o, folded_val, check_of(I, o, validate_value))
    return (I.mkbool(ok), SStr([('o', 'message')]))


@method
def empty(I, o, valid):
    m = check_of(I, o, valid)
    if o.block is None:
        return SymVal(app('EMPTY', (o.p, m), 'U:Val'))
    return I.world.np.new(I, (o.block,), lambda idx: app('EMPTYA', (o.p, m, idx[0]), 'Real'), 'f')


def jac(I, o, name, v, sparse_, transpose):
    t = val_term(I, o, v)
    if t is None:
        raise Unsupported('Jacobian at a value of another shape')
    if not I.cx.prove(app('VALID', (o.p, t, TRUE), 'Bool')):
        raise Unsupported('Jacobian at a value not known to be valid')
    nf, nn = fl(o, TRUE), fl(o, FALSE)
    shape = (nf, nn) if name == 'FJ' else (nn, nf)
    a = I.world.np.new(I, shape, lambda idx: app(name, (o.p, t) + tuple(idx), 'Real'), 'f')
    return sparse(I, a) if I.truth(sparse_) is TRUE or sparse_ is True else a


@method
def freeing_jacobian(I, o, folded_val, sparse=True):
    return jac(I, o, 'FJ', folded_val, sparse, False)


@method
def unfreeing_jacobian(I, o, folded_val, sparse=True):
    return jac(I, o, 'UFJ', folded_val, sparse, True)


@method
def log_abs_det_freeing_jacobian(I, o, folded_val):
    return S(app('LADF', (o.p, val_term(I, o, folded_val)), 'Real'), 'f')


@method
def log_abs_det_unfreeing_jacobian(I, o, folded_val):
    return S(app('LADU', (o.p, val_term(I, o, folded_val)), 'Real'), 'f')


@method
def flat_indices(I, o, folded_bool, free=None):
    m = mode_of(I, o, free)
    t = val_term(I, o, folded_bool, 'selection')
    if t is None:
        I.raise_(ValueError, 'Wrong shape for a member')
    n = app('NFI', (o.p, m, t), 'Int')
    if t.op == 'lam':
        # no entry selected: no index
        k = tm.scratch()
        n = ite(tm.ex_(ZERO, t.args[0], k, tm.open_binder(t, k)), n, ZERO)
    return I.world.np.new(I, (n,), lambda idx: app('FI', (o.p, m, t, idx[0]), 'Int'), 'i')


@method
def flat_names(I, o, free, delim='_'):
    m = mode_of(I, o, free)
    return PList(I.cx, (Rep(fl(o, m), lambda i: SStr((('t', app('NAME', (o.p, m, i), 'U:Key')),))),))


@method
def to_json(I, o):
    return Opaque('pjson', p=o.p, block=o.block)


@method
def lock(I, o):
    I.cx.locked.append(o.p)
    return None


@method
def json_typename(I, o):
    return Opaque('ptype', p=o.p, block=o.block)


@opaque('pat', 'getattr')
def pat_attr(I, o, name):
    f = METHODS.get(name)
    if f is None:
        if name == 'free_default':
            raise Unsupported("a member's own free_default")
        raise Unsupported('attribute %s of a member pattern' % name)
    return Bi('member.' + name, lambda I2, a, k: f(I2, o, *a, **k))


def retarget(I, o, t):
    return Opaque(o.tag, p=t, block=o.block)


@opaque('pat', 'inst')
@opaque('pjson', 'inst')
@opaque('ptype', 'inst')
@opaque('symtype', 'inst')
@opaque('pclass', 'inst')
@opaque('pjsondict', 'inst')
def p_inst(I, o, k, j, kfacts):
    b = Block(subst(o.block.term, {k: j})) if o.block is not None else None
    return Opaque(o.tag, p=subst(o.p, {k: j}), block=b)


@opaque('pat', 'ite')
@opaque('pjson', 'ite')
def p_ite(I, c, a, b):
    if isinstance(a, Opaque) and isinstance(b, Opaque) and a.tag == b.tag and a.block == b.block:
        return Opaque(a.tag, p=ite(c, a.p, b.p), block=a.block)
    return NotImplemented


@opaque('pat', 'eq')
@opaque('pjson', 'eq')
@opaque('ptype', 'eq')
def p_eq(I, a, b):
    if isinstance(a, Opaque) and isinstance(b, Opaque) and a.tag == b.tag:
        return eq(a.p, b.p)
    return FALSE


@opaque('pat', 'type')
def p_type(I, o):
    return Opaque('symtype', p=o.p, block=o.block)


@opaque('symtype', 'eq')
def st_eq(I, a, b):
    for x, y in ((a, b), (b, a)):
        if isinstance(x, Opaque) and x.tag == 'symtype':
            if isinstance(y, Cls):
                if x.block is not None and y.name == 'PatternDict':
                    return FALSE
                return app('IS_' + y.name, (x.p,), 'Bool')
            if isinstance(y, Opaque) and y.tag == 'symtype':
                raise Unsupported('comparison of the types of members')
            return FALSE
    return FALSE


@opaque('pat', 'isinstance')
def p_isinstance(I, o, c):
    if isinstance(c, Cls):
        if c.name == 'Pattern':
            return True
        if o.block is not None and c.name == 'PatternDict':
            return False
        return I.cx.decide(app('IS_' + c.name, (o.p,), 'Bool'))
    return False


@opaque('pat', 'copy')
def p_copy(I, o):
    return o


@opaque('pjson', 'json')
def pj_json(I, o):
    return o


@opaque('pjson', 'json_loads')
def pj_loads(I, o):
    return Opaque('pjsondict', p=o.p, block=o.block)


@opaque('pjsondict', 'getitem')
def pjd_item(I, o, i):
    if i == 'pattern':
        return Opaque('ptype', p=o.p, block=o.block)
    raise Unsupported('entry %r of the JSON of a member' % (i,))


@opaque('pclass', 'getattr')
def pc_attr(I, o, name):
    if name != 'from_json':
        raise Unsupported('attribute %s of the class of a member' % name)

    def f(I2, a, k):
        j = a[0] if a else k.get('json_string')
        if isinstance(j, Opaque) and j.tag == 'pjson' and j.p is o.p:
            return pat(j.p, j.block)
        raise Unsupported('from_json of another string')
    return Bi('member class.from_json', f)

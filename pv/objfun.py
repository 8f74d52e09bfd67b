"""An unknown scalar function of an array, and the contract of autograd's derivative operators on it.

The value at an array is OBJ(tag), the tag standing for (function, contents of the array): calls with provably equal
contents give the same tag.  The derivatives are DOBJ(tag, i) and D2OBJ(tag, i, j)."""
from . import terms as tm
from .terms import *
from .values import *
from .world import opaque
from .deps import dual


def sym2(args, sort):
    """second derivatives are symmetric"""
    args = tuple(args)
    n = (len(args) - 1) // 2
    a, b = args[1:1 + n], args[1 + n:]
    if tuple(x.id for x in a) > tuple(x.id for x in b):
        return tm._mk('app', 'D2OBJ', (args[0],) + b + a, sort)
    return None


tm.SMART['D2OBJ'] = sym2


def objfun(name='fun'):
    return Opaque('objfun', name=name, calls=[])


def same_contents(I, sh1, c1, sh2, c2):
    if len(sh1) != len(sh2) or not all(I.world.np.same_dim(I, a, b) for a, b in zip(sh1, sh2)):
        return False
    idx = tuple(tm.fresh('i', 'Int') for _ in sh1)
    with I.cx.scope(I.world.np.ranges(tuple(sh1), idx)):
        g = eq(c1(idx), c2(idx))
        return I.cx.tensor and I.cx.tensor_zero(g) or I.cx.prove(g)


def tag_of(I, f, shape, snap):
    reg = I.cx.objs
    ks = tuple(tm.scratch() for _ in shape)
    names = {d[0] for d in I.cx.dual}

    def duals(at):
        t = at(ks)
        return t, any(y.op == 'app' and y.val in names for y in tm.subterms(t, into_sums=True))
    t, du = duals(snap)
    for i, (g, sh, sn) in enumerate(reg):
        if g is f and len(sh) == len(shape):
            u, dv = duals(sn)
            # what is being differentiated is not identified with the point it stands for
            if du == dv and (u is t if du else same_contents(I, sh, sn, shape, snap)):
                return num(i)
    reg.append((f, tuple(shape), snap))
    return num(len(reg) - 1)


def parts(I, f, x):
    """the tags of the arrays in a container, with its structure"""
    if isinstance(x, Arr):
        yield tag_of(I, f, x.shape, x.snap())
        return
    if isinstance(x, PDict):
        if any(not isinstance(s, DOne) or not isinstance(s.k, str) for s in x.segs):
            raise Unsupported('unknown function of this dictionary')
        yield tm.var('dict of %s' % ', '.join(s.k for s in x.segs), 'Int')
        for s in x.segs:
            yield from parts(I, f, s.v)
        return
    if isinstance(x, (tuple, PList)):
        segs = I.norm_segs(I.segs_of(x))
        if any(not isinstance(s, One) for s in segs):
            raise Unsupported('unknown function of this sequence')
        yield tm.var('%s of %d' % ('tuple' if isinstance(x, tuple) else 'list', len(segs)), 'Int')
        for s in segs:
            yield from parts(I, f, s.v)
        return
    raise Unsupported('unknown function of %r' % (x,))


def value(I, f, x):
    """the value of the function at x, for specifications"""
    if isinstance(x, SymVal):
        return app('OBJV', (x.t,), 'Real')
    if isinstance(x, (tuple, PList, PDict)):
        return app('OBJC', tuple(parts(I, f, x)), 'Real')
    return app('OBJ', (tag_of(I, f, x.shape, x.snap()),), 'Real')


@opaque('objfun', 'call')
def objfun_call(I, o, args, kw):
    if len(args) != 1 or kw:
        I.raise_(TypeError, 'the function takes one argument')
    x = args[0]
    o.calls.append(x)
    if isinstance(x, (int, float, S)) or isinstance(x, PList) and all(
            isinstance(s, One) and isinstance(s.v, (int, float, S)) or isinstance(s, Rep) for s in x.segs):
        x = I.world.np.asarray(I, x)
    if not isinstance(x, (Arr, SymVal, PDict, PList, tuple)):
        raise Unsupported('unknown function of %r' % (x,))
    return S(value(I, o, x), 'f', True)


def occurs(t, name):
    found = []
    tm.replace_apps(t, lambda q: found.append(q) if q.op == 'app' and q.val == name else None)
    return bool(found)


def derivative(I, kind, f, args, kw):
    """autograd.grad / hessian / hessian_vector_product of f at args[0]"""
    from .diff import diff, NoDerivative
    np = I.world.np
    want = 2 if kind == 'hessian_vector_product' else 1
    if len(args) != want or kw:
        raise Unsupported('autograd.%s with these arguments' % kind)
    x = args[0]
    if not isinstance(x, Arr):
        raise Unsupported('derivative with respect to %r' % (x,))
    a, name = dual(I, x)
    y = I.call(f, [a], {})
    if isinstance(y, Arr):
        y = np.item(I, y) if not y.shape else y
    if not isinstance(y, (int, float, S)):
        raise Unsupported('derivative of a result %r' % (y,))
    t = I.term(y)[0]
    nd = len(x.shape)
    xs = x.snap()
    reg = I.cx.objs

    def is_dual(tag):
        _, sh, sn = reg[int(tag.val)]
        if len(sh) != nd:
            return False
        ks = tuple(tm.scratch() for _ in sh)
        return sn(ks) is app(name, ks, 'Real')

    def d(i):
        def dapp(q):
            if q.op != 'app':
                return None
            if q.val == 'OBJ':
                if is_dual(q.args[0]):
                    return app('DOBJ', (q.args[0],) + tuple(i), 'Real')
                if occurs(q, name):
                    raise NoDerivative('unknown function of a transformed argument')
                s = reg[int(q.args[0].val)]
                ks = tuple(tm.scratch() for _ in s[1])
                if occurs(s[2](ks), name):
                    raise NoDerivative('unknown function of a transformed argument')
                return ZERO
            if q.val == 'DOBJ':
                if is_dual(q.args[0]):
                    return app('D2OBJ', q.args + tuple(i), 'Real')
                return ZERO
            if q.val == name:
                return ite(and_(*[eq(p, r) for p, r in zip(q.args, i)]), ONE, ZERO)
            return None
        return dapp

    def back(t):
        def f(q):
            if q.op != 'app':
                return None
            if q.val == name:
                return xs(q.args)
            if q.val in ('OBJ', 'DOBJ', 'D2OBJ') and is_dual(q.args[0]):
                g = reg[int(q.args[0].val)][0]
                return app(q.val, (tag_of(I, g, x.shape, xs),) + q.args[1:], 'Real')
            return None
        return tm.replace_apps(t, f)

    def run(t, i):
        try:
            return diff(t, d(i))
        except NoDerivative as e:
            raise Unsupported('no derivative: %s' % e)
    if kind in ('grad', 'elementwise_grad'):
        return np.new(I, tuple(x.shape), lambda idx: back(run(t, idx)), 'f')
    if kind == 'hessian':
        return np.new(I, tuple(x.shape) * 2, lambda idx: back(run(run(t, idx[:nd]), idx[nd:])), 'f')
    v = args[1]
    vs = v.snap()

    def content(idx):
        ks = [tm.scratch() for _ in x.shape]
        s = mul(back(run(run(t, idx), tuple(ks))), vs(tuple(ks)))
        for k, dd in reversed(list(zip(ks, x.shape))):
            s = sum_(ZERO, dsize(dd), k, s)
        return s
    return np.new(I, tuple(x.shape), content, 'f')

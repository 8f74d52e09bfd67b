"""Contracts of the other dependencies: itertools, json, copy, math, scipy.sparse, autograd."""
import contextlib
from fractions import Fraction
from . import terms as tm
from .terms import (T, TRUE, FALSE, ZERO, ONE, num, add, sub, mul, neg, le, lt, eq, ne, not_, and_, or_, ite,
                    subst, fv, ex_, all_, sum_, lam_, app, fresh)
from .values import *
from .npm import INF, SORT
from . import world as W
from .world import EXT, EXT_ATTR, OPAQUE, ALIAS, opaque, NDARRAY, ODICT, NPBOOL, ABC, SPARSE, FUNCTION

import math as _math


def ext(full):
    def deco(f):
        mod, name = full.rsplit('.', 1)
        EXT.setdefault(mod, {})
        EXT_ATTR[full] = Bi(full, lambda I, a, k: f(I, *a, **k))
        return f
    return deco


# ---------------------------------------------------------------- constants and types
for n, v in (('inf', INF), ('pi', _math.pi), ('newaxis', None), ('ndarray', NDARRAY), ('nan', float('nan')),
             ('e', _math.e), ('bool_', NPBOOL), ('float_', float), ('int_', int), ('int64', int),
             ('bool', bool), ('Inf', INF), ('infty', INF)):
    EXT_ATTR['numpy.' + n] = v
EXT.setdefault('numpy', {})
EXT.setdefault('numpy.linalg', {})
EXT.setdefault('numpy.random', {})


class LinAlgError(ValueError):
    pass


EXT_ATTR['numpy.linalg.LinAlgError'] = LinAlgError
EXT_ATTR['collections.OrderedDict'] = ODICT
EXT_ATTR['collections.defaultdict'] = Opaque('type', name='defaultdict')
EXT_ATTR['abc.ABC'] = ABC
for n in ('Number', 'Real', 'Integral', 'Complex', 'Rational'):
    EXT_ATTR['numbers.' + n] = Opaque('numabc', name=n)
for n in ('pi', 'e', 'inf'):
    EXT_ATTR['math.' + n] = getattr(_math, n)


def _abstract(I, f):
    f.abstract = True
    return f


EXT_ATTR['abc.abstractmethod'] = Bi('abstractmethod', lambda I, a, k: _abstract(I, a[0]))
ext('warnings.warn')(lambda I, *a, **k: None)
ext('warnings.filterwarnings')(lambda I, *a, **k: None)
ext('warnings.simplefilter')(lambda I, *a, **k: None)


# ---------------------------------------------------------------- math
def _m(name, on_float, on_term):
    @ext('math.' + name)
    def f(I, x):
        if isinstance(x, (int, float)):
            try:
                return on_float(x)
            except (ValueError, OverflowError) as e:
                I.raise_(type(e), str(e))
        t = I.numterm(x)
        return I.wrap(on_term(I, t), 'f')


_m('sqrt', _math.sqrt, lambda I, t: I.s_sqrt(t))
_m('log', _math.log, lambda I, t: I.s_log(t))
_m('exp', _math.exp, lambda I, t: tm.exp(t))


def _ifloor(I, x):
    if isinstance(x, (int, float)):
        return _math.floor(x)
    t = I.numterm(x)
    return I.wrap(t if t.sort == 'Int' else app('floor', (t,), 'Int'), 'i')


ext('math.floor')(_ifloor)


@ext('math.prod')
def _mprod(I, x):
    return I.world.np.call(I, 'prod', [I.mktup(I.iter_segs(x))], {})


@ext('math.isinf')
def _isinf(I, x):
    return isinstance(x, float) and x in (INF, -INF)


@ext('math.isnan')
def _isnan(I, x):
    return isinstance(x, float) and x != x


for _n, _c in (('isinf', lambda x: x in (INF, -INF)), ('isposinf', lambda x: x == INF),
               ('isneginf', lambda x: x == -INF)):
    def _mk(c):
        def f(I, x):
            if isinstance(x, float):
                return c(x)
            if isinstance(x, (int, S)):
                return False
            a = I.world.np.asarr(I, x)
            return I.world.np.scalarize(I, I.world.np.elementwise(I, [a], lambda t: FALSE, 'b'))
        return f
    ext('numpy.' + _n)(_mk(_c))


# ---------------------------------------------------------------- itertools
@ext('itertools.product')
def product(I, *ranges, repeat=1):
    segs = []
    for r in ranges:
        if isinstance(r, W_Star):
            segs.extend(I.norm_segs(r.segs))
        else:
            segs.append(One(r))
    if repeat != 1:
        if not isinstance(repeat, int):
            raise Unsupported('product(repeat=...)')
        segs = segs * repeat
    dims = []
    for s in segs:
        if isinstance(s, One):
            v = s.v
            if isinstance(v, PRange) and v.step == 1:
                dims.append((I.length(v), (lambda lo: lambda k: I.mkint(add(lo, k)))(v.lo), None))
                continue
            l = I.norm_segs(I.iter_segs(v))
            if all(isinstance(x, One) for x in l):
                els = [x.v for x in l]
                dims.append((num(len(els)), (lambda els: lambda k: I.world.np.pick(I, els, k))(els), els))
            elif len(l) == 1 and isinstance(l[0], Rep) and l[0].cond is None:
                dims.append((l[0].n, l[0].fn, None))
            else:
                raise Unsupported('product of a symbolic sequence')
        elif isinstance(s, BSeg) and s.lin is None and s.fn is not None:
            d = fresh('d', 'Int')
            with I.cx.scope([le(ZERO, d)]):
                r = s.fn(S(d, 'i'))
                if not (isinstance(r, PRange) and r.step == 1 and r.lo is ZERO and r.hi is d):
                    raise Unsupported('product over something else than ranges')
            dims.append((s.block, None, None))
        else:
            raise Unsupported('product of a symbolic sequence')
    if not dims:
        return Iter([One(())])
    if all(not isinstance(n, Block) and n.op == 'const' for n, _, _ in dims):
        import itertools
        total = 1
        for n, _, _ in dims:
            total *= int(n.val)
        if total <= 8:
            return Iter([One(tuple(f(num(k)) for (n, f, _), k in zip(dims, ks)))
                         for ks in itertools.product(*[range(int(n.val)) for n, _, _ in dims])])
    shape = tuple(n for n, _, _ in dims)
    total = mul(ONE, *[dsize(n) for n in shape])

    def fn(k):
        with I.cx.scope([le(ZERO, k), lt(k, total)]):
            idx = I.world.np.unlinear(I, shape, k)
        out = []
        for (n, f, _), i in zip(dims, idx):
            out.append(BSeg(n, i) if isinstance(n, Block) else One(f(i)))
        if all(isinstance(x, One) for x in out):
            return tuple(x.v for x in out)
        return STup(out)
    return Iter([Rep(total, fn)])


@ext('itertools.accumulate')
def accumulate(I, it, func=None, initial=None):
    """running sums of numbers"""
    if func is not None:
        raise Unsupported('accumulate with another function')
    out, at, kind = [], ZERO, 'i'
    if initial is not None:
        at, kind = I.term(initial)
        out.append(One(initial))
    for s in I.norm_segs(I.iter_segs(it)):
        if isinstance(s, One):
            t, k = I.term(s.v)
            kind = 'f' if 'f' in (kind, k) else 'i'
            at = add(at, t)
            out.append(One(I.wrap(at, kind)))
        elif isinstance(s, Rep) and s.cond is None:
            k = tm.scratch()
            with I.cx.scope([le(ZERO, k), lt(k, s.n)]):
                t, kd = I.term(s.fn(k))
            kind = 'f' if 'f' in (kind, kd) else 'i'
            out.append(Rep(s.n, (lambda at, k, t, kind: lambda j: I.wrap(add(at, sum_(ZERO, add(j, ONE), k, t)), kind))(
                at, k, t, kind)))
            at = add(at, sum_(ZERO, s.n, k, t))
        else:
            raise Unsupported('running sums of a symbolic sequence')
    return Iter(out)


@ext('itertools.chain')
def chain(I, *vs):
    out = []
    for v in vs:
        out.extend(I.iter_segs(v))
    return Iter(out)


@ext('numpy.ndindex')
def ndindex(I, *shape):
    if len(shape) == 1 and isinstance(shape[0], (tuple, STup, PList)):
        shape = shape[0]
    elif any(isinstance(x, W_Star) for x in shape):
        shape = STup(sum([list(x.segs) if isinstance(x, W_Star) else [One(x)] for x in shape], []))
    dims = I.world.np.dims_of(I, shape)
    segs = [BSeg(d, None, lambda v: PRange(ZERO, I.term_i(v))) if isinstance(d, Block) else One(PRange(ZERO, d))
            for d in dims]
    return product(I, W_Star(segs))


@ext('numpy.ndenumerate')
def ndenumerate(I, a):
    raise Unsupported('ndenumerate')


from .interp import Star as W_Star          # noqa: E402


# ---------------------------------------------------------------- copy
def shallow(I, x):
    if isinstance(x, Arr):
        return I.world.np.call(I, 'copy', [x], {})
    if isinstance(x, PList):
        return PList(I.cx, x.segs)
    if isinstance(x, PDict):
        return PDict(I.cx, x.segs, x.ordered)
    if isinstance(x, Obj):
        f, c = x.cls.lookup('__copy__')
        if f is not None:
            return I.call(Bound(f, x), [], {})
        o = Obj(I.cx, x.cls)
        o.attrs = dict(x.attrs)
        return o
    if isinstance(x, Opaque):
        h = OPAQUE.get((x.tag, 'copy'))
        return h(I, x) if h is not None else x
    return x


ext('copy.copy')(shallow)


@ext('copy.deepcopy')
def deep(I, x):
    if isinstance(x, PList):
        return PList(I.cx, [deepseg(I, s) for s in x.segs])
    if isinstance(x, tuple):
        return tuple(deep(I, y) for y in x)
    if isinstance(x, PDict):
        d = PDict(I.cx, (), x.ordered)
        d.segs = tuple(DOne(s.k, deep(I, s.v)) if isinstance(s, DOne) else
                       DRep(s.n, s.key, lambda k, s=s: deep(I, s.val(k))) for s in x.segs)
        return d
    if isinstance(x, Obj):
        o = Obj(I.cx, x.cls)
        o.attrs = {k: deep(I, v) for k, v in x.attrs.items()}
        return o
    return shallow(I, x)


def deepseg(I, s):
    if isinstance(s, One):
        return One(deep(I, s.v))
    if isinstance(s, Rep):
        return Rep(s.n, lambda k: deep(I, s.fn(k)), s.cond)
    return s


# ---------------------------------------------------------------- json
def to_json(I, x):
    """the value that loads gives back"""
    if isinstance(x, (bool, int, float, str, SStr, S)) or x is None:
        if isinstance(x, S) and x.np:
            pass
        return x
    if isinstance(x, (tuple, STup, PList)):
        out = []
        for s in I.segs_of(x):
            if isinstance(s, One):
                out.append(One(to_json(I, s.v)))
            elif isinstance(s, Rep):
                out.append(Rep(s.n, lambda k, s=s: to_json(I, s.fn(k)), s.cond))
            elif isinstance(s, BSeg):
                out.append(s)
            else:
                raise Unsupported('json')
        return ('list', tuple(out))
    if isinstance(x, PDict):
        out = []
        for s in x.segs:
            if isinstance(s, DOne):
                if not isinstance(s.k, (str, SStr)):
                    raise Unsupported('json key')
                out.append(DOne(s.k, to_json(I, s.v)))
            else:
                out.append(DRep(s.n, s.key, lambda k, s=s: to_json(I, s.val(k))))
        return ('dict', tuple(out))
    if isinstance(x, Opaque):
        h = OPAQUE.get((x.tag, 'json'))
        if h is not None:
            return h(I, x)
    if isinstance(x, (Obj, Arr, Func, Bi, Cls, SymVal, Opaque)):
        I.raise_(TypeError, 'Object is not JSON serializable')
    raise Unsupported('json of %r' % (x,))


def from_json(I, j):
    if isinstance(j, tuple) and j and j[0] == 'list':
        return PList(I.cx, [One(from_json(I, s.v)) if isinstance(s, One) else
                            Rep(s.n, lambda k, s=s: from_json(I, s.fn(k)), s.cond) if isinstance(s, Rep) else s
                            for s in j[1]])
    if isinstance(j, tuple) and j and j[0] == 'dict':
        d = PDict(I.cx)
        d.segs = tuple(DOne(s.k, from_json(I, s.v)) if isinstance(s, DOne) else
                       DRep(s.n, s.key, lambda k, s=s: from_json(I, s.val(k))) for s in j[1])
        return d
    return j


@ext('json.dumps')
def dumps(I, x, **kw):
    if kw:
        kw.pop('sort_keys', None)
        kw.pop('indent', None)
        if kw:
            raise Unsupported('json.dumps keywords')
    return Opaque('json', value=to_json(I, x))


@ext('json.loads')
def loads(I, s):
    if isinstance(s, Opaque) and s.tag == 'json':
        return from_json(I, s.value)
    if isinstance(s, Opaque) and (s.tag, 'json_loads') in OPAQUE:
        return OPAQUE[(s.tag, 'json_loads')](I, s)
    if isinstance(s, str):
        import json
        try:
            return lift(I, json.loads(s))
        except ValueError as e:
            I.raise_(ValueError, str(e))
    I.raise_(TypeError, 'the JSON object must be str')


def lift(I, x):
    if isinstance(x, dict):
        return PDict(I.cx, [DOne(k, lift(I, v)) for k, v in x.items()])
    if isinstance(x, list):
        return PList(I.cx, [One(lift(I, v)) for v in x])
    return x


def json_eq(I, a, b):
    if isinstance(a, tuple) and a and a[0] in ('list', 'dict') or isinstance(b, tuple) and b and b[0] in ('list', 'dict'):
        if not (isinstance(a, tuple) and isinstance(b, tuple)) or a[0] != b[0]:
            return FALSE
        if a[0] == 'list':
            return I.seq_eq([One(('j', s.v)) if False else s for s in a[1]], b[1])
        da, db = from_json(I, a), from_json(I, b)
        # the text of a dict depends on the order of its keys
        if len(da.segs) == len(db.segs) and all(isinstance(s, DOne) for s in da.segs + db.segs):
            return and_(*[and_(I.str_eq(x.k, y.k), json_eq(I, x.v, y.v)) for x, y in zip(a[1], b[1])])
        return I.value_eq(da, db)
    if isinstance(a, tuple) or isinstance(b, tuple):
        return FALSE
    return I.value_eq(a, b)


@opaque('json', 'eq')
def _jeq(I, a, b):
    if isinstance(a, Opaque) and isinstance(b, Opaque) and a.tag == b.tag == 'json':
        return json_eq(I, a.value, b.value)
    return FALSE


@opaque('json', 'type')
def _jtype(I, a):
    return str


@opaque('json', 'json')
def _jjson(I, x):
    return x


# ---------------------------------------------------------------- scipy.sparse
def sparse(I, arr, fmt='coo'):
    return Opaque('sparse', arr=arr, fmt=fmt)


def dense2(I, x):
    """the 2-d array of a (sparse or dense) matrix"""
    if isinstance(x, Opaque) and x.tag in ('sparse', 'npmatrix'):
        return x.arr
    a = I.world.np.asarr(I, x)
    if a.ndim == 1:
        return I.world.np.call(I, 'atleast_2d', [a], {})
    if a.ndim != 2:
        I.raise_(TypeError, 'expected dimension <= 2 array or matrix')
    return a


def coo(I, arg, shape=None, dtype=None, **kw):
    np = I.world.np
    if isinstance(arg, Opaque) and arg.tag in ('sparse', 'npmatrix'):
        return sparse(I, arg.arr)
    if isinstance(arg, Arr) or isinstance(arg, PList):
        return sparse(I, np.call(I, 'array', [dense2(I, arg)], {}))
    if not isinstance(arg, tuple) or len(arg) != 2:
        raise Unsupported('sparse constructor')
    if not isinstance(arg[1], (tuple, PList, Arr)):
        dims = np.dims_of(I, arg)
        return sparse(I, np.call(I, 'zeros', [arg], {}))
    data, ij = arg
    ij = I.unpack(ij, 2)
    data = np.asarr(I, data)
    i, j = np.asarr(I, ij[0]), np.asarr(I, ij[1])
    if data.ndim != 1 or i.ndim != 1 or j.ndim != 1:
        raise Unsupported('coo of arrays that are not vectors')
    for v in (i, j):
        if not np.same_dim(I, v.shape[0], data.shape[0]):
            I.raise_(ValueError, 'row, column, and data array must all be the same length')
    if shape is None:
        raise Unsupported('coo without a shape')
    dims = np.dims_of(I, shape)
    n = data.shape[0]
    for v, d in ((i, dims[0]), (j, dims[1])):
        k = tm.scratch()
        with I.cx.scope([le(ZERO, k), lt(k, n)]):
            t = v.at((k,))
        bad = ex_(ZERO, n, k, not_(and_(le(ZERO, t), lt(t, d))))
        if I.cx.decide(bad):
            I.raise_(ValueError, 'index exceeds matrix dimension size')
    fd, fi, fj = data.snap(), i.snap(), j.snap()

    def content(idx):
        k = tm.scratch()
        with I.cx.scope([le(ZERO, k), lt(k, n)] + np.ranges(dims, idx)):
            c = and_(eq(fi((k,)), idx[0]), eq(fj((k,)), idx[1]))
            x = fd((k,))
            x = ite(x, ONE, ZERO) if x.sort == 'Bool' else x
            return sum_(ZERO, n, k, ite(c, x, num(0, x.sort)))
    r = sparse(I, np.new(I, dims, content, 'f' if data.kind != 'i' else 'i'))
    r.entries = (n, fd, fi, fj)
    return r


for _n in ('coo_matrix', 'csr_matrix', 'csc_matrix', 'coo_array', 'csr_array', 'csc_array', 'lil_matrix'):
    ext('scipy.sparse.' + _n)(coo)
    EXT_ATTR['scipy.sparse.' + _n].attrs['fmt'] = _n[:3]


@ext('scipy.sparse.diags')
def diags(I, d, offsets=0, **kw):
    if offsets not in (0, ) or kw:
        raise Unsupported('sparse.diags')
    a = I.world.np.asarr(I, d)
    return sparse(I, I.world.np.call(I, 'diag', [a], {}), 'dia')


@ext('scipy.sparse.eye')
def speye(I, n, **kw):
    return sparse(I, I.world.np.call(I, 'eye', [n], {}))


EXT_ATTR['scipy.sparse.identity'] = EXT_ATTR['scipy.sparse.eye']


@ext('scipy.sparse.issparse')
def issparse(I, x):
    return isinstance(x, Opaque) and (x.tag == 'sparse' or x.tag == 'mat' and x.sparse)


EXT_ATTR['scipy.sparse.isspmatrix'] = EXT_ATTR['scipy.sparse.issparse']


@ext('scipy.sparse.isspmatrix_csc')
def issparse_csc(I, x):
    return isinstance(x, Opaque) and (x.tag == 'sparse' or x.tag == 'mat' and x.sparse) and x.fmt == 'csc'


@ext('scipy.sparse.block_diag')
def block_diag(I, mats, format=None, dtype=None):
    segs = I.norm_segs(I.iter_segs(mats))
    return block_diag_segs(I, segs)


@ext('scipy.linalg.block_diag')
def dense_block_diag(I, *mats):
    segs = []
    for m in mats:
        segs.extend(I.norm_segs(m.segs) if isinstance(m, W_Star) else [One(m)])
    return block_diag_segs(I, segs).arr


def block_diag_segs(I, segs):
    np = I.world.np
    if not segs:
        I.raise_(ValueError, 'blocks must be 2-D')

    def dims(x):
        a = dense2(I, x)
        return a.shape

    parts = []
    tot = [ZERO, ZERO]
    kind = 'i'
    for s in segs:
        if isinstance(s, One):
            a = dense2(I, s.v)
            parts.append(('one', a.shape, a.snap()))
            tot = [add(tot[0], a.shape[0]), add(tot[1], a.shape[1])]
            kind = np.common([kind, a.kind])
        elif isinstance(s, Rep) and s.cond is None:
            def shp(k, s=s):
                with I.cx.scope([le(ZERO, k), lt(k, s.n)]):
                    return dims(s.fn(k))

            def at(k, r, c, s=s):
                with I.cx.scope([le(ZERO, k), lt(k, s.n)]):
                    a = dense2(I, s.fn(k))
                    with I.cx.scope([le(ZERO, r), lt(r, a.shape[0]), le(ZERO, c), lt(c, a.shape[1])]):
                        return a.at((r, c))
            k = tm.scratch()
            with I.cx.scope([le(ZERO, k), lt(k, s.n)]):
                sh = shp(k)
                kind = np.common([kind, dense2(I, s.fn(k)).kind])
            parts.append(('rep', s.n, shp, at))
            tot = [add(tot[0], sum_(ZERO, s.n, k, sh[0])), add(tot[1], sum_(ZERO, s.n, k, sh[1]))]
        else:
            raise Unsupported('block_diag of a symbolic sequence')
    tot = tuple(tot)
    if all(isinstance(s, Rep) for s in segs):
        if I.cx.decide(eq(add(*[s.n for s in segs]) if len(segs) > 1 else segs[0].n, ZERO)):
            I.raise_(ValueError, 'need at least one array to concatenate')

    def content(idx):
        r, c = idx
        ro = co = ZERO
        res = num(0, 'Real')
        cases = []
        for p in parts:
            if p[0] == 'one':
                nr, nc = p[1]
                rin = and_(le(ro, r), lt(r, add(ro, nr)))
                cin = and_(le(co, c), lt(c, add(co, nc)))
                cond = and_(rin, cin)
                if cond is not FALSE and not I.cx.prove(not_(cond)):
                    with I.cx.scope([cond]):
                        cases.append((cond, p[2]((sub(r, ro), sub(c, co)))))
                ro, co = add(ro, nr), add(co, nc)
            else:
                n, shp, at = p[1:]
                k = tm.scratch()
                sr, sc = shp(k)
                pr = ('rep', n, lambda j: shp(j)[0], None)
                lr, lc = sum_(ZERO, n, k, sr), sum_(ZERO, n, k, sc)
                inr = and_(le(ro, r), lt(r, add(ro, lr)))
                inc = and_(le(co, c), lt(c, add(co, lc)))
                jr = part_index(I, n, lambda j: shp(j)[0], sub(r, ro))
                jc = part_index(I, n, lambda j: shp(j)[1], sub(c, co))
                with I.cx.scope([inr, inc, le(ZERO, jr), lt(jr, n), le(ZERO, jc), lt(jc, n)]):
                    same = eq(jr, jc)
                    if I.cx.prove(not_(same)):
                        v = num(0, 'Real')
                    else:
                        with I.cx.scope([same]):
                            j = jr
                            v = at(j, sub(sub(r, ro), prefix(n, lambda q: shp(q)[0], j)),
                                   sub(sub(c, co), prefix(n, lambda q: shp(q)[1], jc)))
                        if not I.cx.prove(same):
                            v = ite(same, v, num(0, 'Real'))
                cases.append((and_(inr, inc), v))
                ro, co = add(ro, lr), add(co, lc)
        for cond, v in reversed(cases):
            res = ite(cond, v, res)
        return res
    r = sparse(I, np.new(I, tot, content, kind))
    r.blocks = segs
    r.arr.blocks = segs
    return r


def prefix(n, ln, j):
    k = tm.scratch()
    return sum_(ZERO, j, k, ln(k))


def part_index(I, n, ln, x):
    """index of the part that holds position x"""
    k = tm.scratch()
    with I.cx.scope([le(ZERO, k), lt(k, n)]):
        L = ln(k)
    if k not in fv(L):
        if I.cx.prove(lt(ZERO, L)):
            return I.divmod_terms(x, L)[0]
        return app('idiv', (x, L), 'Int')
    for m, c in tm.poly_of(x).items():
        if c == 1 and len(m) == 1 and m[0][1] == 1 and m[0][0].op == 'sum':
            s = m[0][0]
            j = s.args[1]
            if s.args[0] is ZERO and prefix(n, ln, j) is s:
                y = sub(x, s)
                if I.cx.prove(and_(le(ZERO, j), lt(j, n), le(ZERO, y))) and I.cx.prove(lt(y, subst(L, {k: j}))):
                    return j
    if I.cx.prove(and_(lt(ZERO, n), le(ZERO, x), lt(x, subst(L, {k: ZERO})))):
        return ZERO
    return app('PART', (lam_(n, k, L), x), 'Int')


@opaque('sparse', 'getattr')
def sparse_attr(I, o, name):
    np = I.world.np
    a = o.arr
    if name in ('toarray',):
        return Bi(name, lambda I2, x, k: np.call(I2, 'array', [a], {}))
    if name == 'todense':
        return Bi(name, lambda I2, x, k: Opaque('npmatrix', arr=np.call(I2, 'array', [a], {})))
    if name == 'A':
        return np.call(I, 'array', [a], {})
    if name in ('tocsr', 'tocsc', 'tocoo', 'copy', 'asformat', 'tolil', 'todia'):
        fmt = {'tocsr': 'csr', 'tocsc': 'csc', 'tocoo': 'coo'}.get(name, o.fmt)

        def conv(I2, x, k):
            r = sparse(I2, a, fmt)
            if hasattr(o, 'blocks'):
                r.blocks = o.blocks
            return r
        return Bi(name, conv)
    if name == 'shape':
        return np.shape_value(I, a)
    if name == 'ndim':
        return 2
    if name == 'T':
        return sparse(I, np.transpose(I, a), o.fmt)
    if name == 'transpose':
        return Bi(name, lambda I2, x, k: sparse(I2, np.transpose(I2, a), o.fmt))
    if name == 'dot':
        return Bi(name, lambda I2, x, k: sparse_binop(I2, '@', o, x[0]))
    if name == 'diagonal':
        return Bi(name, lambda I2, x, k: np.call(I2, 'diagonal', [a], {}))
    if name in ('flatten', 'reshape', 'ravel'):
        I.raise_(AttributeError, name)
    return NotImplemented


@opaque('npmatrix', 'getattr')
def npmatrix_attr(I, o, name):
    np = I.world.np
    if name == 'shape':
        return np.shape_value(I, o.arr)
    if name == 'A':
        return o.arr
    return NotImplemented


@opaque('npmatrix', 'array')
def npmatrix_array(I, o):
    return I.world.np.call(I, 'array', [o.arr], {})


@opaque('npmatrix', 'type')
def npmatrix_type(I, o):
    return Opaque('type', name='matrix')


@opaque('sparse', 'inst')
def sparse_inst(I, o, k, j, kfacts):
    return Opaque(o.tag, arr=I.inst(o.arr, k, j, kfacts), fmt=o.fmt)


@opaque('sparse', 'type')
def sparse_type(I, o):
    return SPARSE


@opaque('sparse', 'binop')
def sparse_binop(I, op, a, b):
    np = I.world.np
    sa, sb = (isinstance(x, Opaque) and x.tag == 'sparse' for x in (a, b))
    if op in ('@',) or op == '*' and not isinstance(a, (int, float, S)) and not isinstance(b, (int, float, S)):
        if I.world.tracing and not (sa and sb):
            I.raise_(TypeError, 'a sparse product with a value that is being differentiated')
        r = np.matmul(I, a.arr if sa else a, b.arr if sb else b)
        return sparse(I, r) if sa and sb else r
    if op in ('+', '-') and sa and sb:
        return sparse(I, np.binop(I, op, a.arr, b.arr))
    if op in ('*', '/') and sa and not sb:
        return sparse(I, np.binop(I, op, a.arr, b))
    if op == '*' and sb:
        return sparse(I, np.binop(I, op, a, b.arr))
    return NotImplemented


@opaque('sparse', 'unop')
def sparse_unop(I, op, a):
    if op == '-':
        return sparse(I, I.world.np.unop(I, '-', a.arr))
    return NotImplemented


# ---------------------------------------------------------------- autograd
@ext('autograd.core.primitive')
def primitive(I, f):
    return Opaque('primitive', f=f, name=getattr(f, 'name', '?'))


@opaque('primitive', 'call')
def prim_call(I, o, args, kw):
    if not I.world.tracing:
        return I.call(o.f, args, kw)
    # a value that is being differentiated is unwrapped for the body and wrapped again after it
    with tracing(I.world, False):
        return I.call(o.f, args, kw)


@contextlib.contextmanager
def tracing(world, on=True):
    """derivative rules run on values that are being differentiated again: only differentiable operations may be used"""
    old, world.tracing = world.tracing, on
    try:
        yield
    finally:
        world.tracing = old


@opaque('primitive', 'getattr')
def prim_attr(I, o, name):
    return I.world.getattr(I, o.f, name)


def rule_key(f):
    if isinstance(f, Opaque) and f.tag == 'primitive':
        return f
    if isinstance(f, Bi):
        return f.name
    return f


@ext('autograd.core.defvjp')
def defvjp(I, f, *makers, argnums=None):
    nums = I.unpack(argnums, len(makers)) if argnums is not None else list(range(len(makers)))
    d = I.world.vjps.setdefault(rule_key(f), {})
    for i, m in zip(nums, makers):
        d[int(i)] = m


@ext('autograd.core.defjvp')
def defjvp(I, f, *makers, argnums=None):
    nums = I.unpack(argnums, len(makers)) if argnums is not None else list(range(len(makers)))
    d = I.world.jvps.setdefault(rule_key(f), {})
    for i, m in zip(nums, makers):
        d[int(i)] = m


for _n in ('primitive', 'defvjp', 'defjvp'):
    EXT_ATTR['autograd.extend.' + _n] = EXT_ATTR['autograd.core.' + _n]
EXT.setdefault('autograd.extend', {})
for _m_ in ('autograd', 'autograd.core', 'autograd.scipy', 'autograd.scipy.special', 'autograd.scipy.linalg',
            'autograd.test_util', 'scipy', 'scipy.sparse', 'scipy.linalg', 'scipy.special', 'scipy.sparse.linalg',
            'autograd.numpy.numpy_vjps', 'autograd.numpy.numpy_jvps', 'numpy', 'json', 'copy', 'math', 'itertools',
            'warnings', 'abc', 'numbers', 'collections', 'os', 'sys', 'functools', 'sksparse', 'sksparse.cholmod',
            'scipy.stats', 'autograd.scipy.stats', 'autograd.numpy.linalg', 'autograd.builtins', 'time', 'typing'):
    EXT.setdefault(_m_, {})
for _m_ in list(ALIAS):
    EXT.pop(_m_, None)


@ext('autograd.scipy.special.logsumexp')
def logsumexp(I, x, axis=None, b=1.0, keepdims=False):
    np = I.world.np
    e = np.call(I, 'exp', [x], {})
    s = np.call(I, 'sum', [e], {'axis': axis, 'keepdims': keepdims})
    return np.call(I, 'log', [s], {})


EXT_ATTR['autograd.scipy.misc.logsumexp'] = EXT_ATTR['autograd.scipy.special.logsumexp']
EXT.setdefault('autograd.scipy.misc', {})
EXT_ATTR['scipy.special.logsumexp'] = EXT_ATTR['autograd.scipy.special.logsumexp']
EXT_ATTR['scipy.misc.logsumexp'] = EXT_ATTR['autograd.scipy.special.logsumexp']


def _diffop(kind):
    def f(I, g, argnum=0):
        return Opaque('diffop', kind=kind, f=g, argnum=argnum)
    ext('autograd.' + kind)(f)


for _k in ('jacobian', 'grad', 'hessian', 'hessian_vector_product', 'make_jvp', 'elementwise_grad'):
    _diffop(_k)


def dual(I, x):
    """an array of fresh entries equal to those of x, to differentiate with respect to: (array, name)"""
    cx = I.cx
    name = 'AD%d' % len(cx.dual)
    a = I.world.np.new(I, x.shape, lambda idx: app(name, tuple(idx), 'Real'), 'f')
    snap = x.snap()
    ks = tuple(tm.scratch() for _ in x.shape)
    f = eq(app(name, ks, 'Real'), snap(ks))
    for d, k in reversed(list(zip(x.shape, ks))):
        f = tm.all_(ZERO, dsize(d), k, f)
    cx.assume(f)
    cx.dual.append((name, snap))
    return a, name


def undual(I, t):
    """the entries being differentiated are replaced by the values they stand for"""
    for name, snap in reversed(I.cx.dual):
        t = tm.replace_apps(t, lambda q: snap(q.args) if q.op == 'app' and q.val == name else None)
    return t


@opaque('diffop', 'call')
def diffop_call(I, o, args, kw):
    from .diff import diff, entry, NoDerivative
    if o.kind in ('grad', 'hessian', 'hessian_vector_product', 'elementwise_grad') and o.argnum == 0:
        from .objfun import derivative
        return derivative(I, o.kind, o.f, list(args), kw)
    if o.kind != 'jacobian':
        raise Unsupported('autograd.%s' % o.kind)
    np = I.world.np
    args = list(args)
    x = args[o.argnum]
    if not isinstance(x, Arr):
        raise Unsupported('derivative with respect to %r' % (x,))
    a, name = dual(I, x)
    args[o.argnum] = a
    y = np.asarr(I, I.call(o.f, args, kw))
    ys = y.snap()
    m = len(y.shape)

    def content(idx):
        with I.cx.scope(np.ranges(tuple(y.shape) + tuple(x.shape), idx)):
            try:
                return undual(I, diff(ys(idx[:m]), entry(name, tuple(idx[m:]))))
            except NoDerivative as q:
                raise Unsupported('no derivative: %s' % q)
    return np.new(I, tuple(y.shape) + tuple(x.shape), content, 'f')


@ext('functools.partial')
def partial(I, f, *args, **kw):
    return Bi('functools.partial', lambda I2, a, k: I2.call(f, list(args) + list(a), {**kw, **k}))
